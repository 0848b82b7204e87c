#include "hx.hpp"
#include "utils/utils.hpp"
using namespace hx;
namespace d = cpptrace::detail;

template<typename T> static void swap_case(rng& r, const char* g) {
    typedef typename std::make_unsigned<T>::type U;
    std::uint64_t x = r.edgy();
    T v = (T)x;
    at(g, num((U)v));
    nontrivial();
    T s = d::byteswap(v);
    U want = 0;
    for(std::size_t i = 0; i < sizeof(T); i++) want = (U)((want << (sizeof(T) > 1 ? 8 : 0)) | (((U)v >> (8 * i)) & 0xff));
    eq((std::uint64_t)(U)s, (std::uint64_t)want, g, num((U)v), "byteswap");
    eq((std::uint64_t)(U)d::byteswap(s), (std::uint64_t)(U)v, g, num((U)v), "byteswap twice");
}
template<typename T> static void pow_case(rng& r, const char* g) {
    T v = (T)r.edgy();
    at(g, num((std::uint64_t)v));
    bool want = v > 0 && __builtin_popcountll((std::uint64_t)v) == 1;
    eq(d::is_positive_power_of_two(v), want, g, num((std::uint64_t)v), "is_positive_power_of_two");
}
static int runs;
static void count_run(int*) { runs++; }

static void body() {
    rng r(S().seed);
    budget b(0.5, 200000);
    while(b.more()) {
        swap_case<std::uint8_t>(r, "byteswap-u8"); swap_case<std::int8_t>(r, "byteswap-i8");
        swap_case<std::uint16_t>(r, "byteswap-u16"); swap_case<std::int16_t>(r, "byteswap-i16");
        swap_case<std::uint32_t>(r, "byteswap-u32"); swap_case<std::int32_t>(r, "byteswap-i32");
        swap_case<std::uint64_t>(r, "byteswap-u64"); swap_case<std::int64_t>(r, "byteswap-i64");
        pow_case<std::uint16_t>(r, "pow2-u16"); pow_case<std::uint32_t>(r, "pow2-u32"); pow_case<std::uint64_t>(r, "pow2-u64");
        pow_case<short>(r, "pow2-i16"); pow_case<int>(r, "pow2-i32"); pow_case<long>(r, "pow2-i64");
        unsigned v = (unsigned)r.edgy();
        if(r.chance(1, 3)) { v = 1; for(std::uint64_t k = r.below(10); k; k--) v *= 10; v += (unsigned)r.below(3) - 1; }
        at("n_digits", num(v));
        eq((std::size_t)d::n_digits(v), std::to_string(v).size(), "n_digits", num(v), "n_digits");
    }
    budget b2(0.5, 100000);
    while(b2.more()) {
        std::vector<std::uint64_t> a(r.below(12));
        for(auto& x : a) x = r.chance(1, 2) ? r.below(12) : r.edgy();
        std::sort(a.begin(), a.end());
        std::uint64_t p = r.chance(1, 2) ? r.below(13) : r.edgy();
        std::string in = "probe " + num(p) + " in";
        for(auto x : a) in += " " + num(x);
        at("first_less_than_or_equal", in);
        nontrivial();
        std::size_t want = a.size();
        for(std::size_t i = 0; i < a.size(); i++) if(a[i] <= p) want = i;
        auto it = d::first_less_than_or_equal(a.begin(), a.end(), p);
        eq((std::size_t)(it - a.begin()), want, "first_less_than_or_equal", in, "index");
        auto it2 = d::first_less_than_or_equal(a.begin(), a.end(), p, [](std::uint64_t x, const std::uint64_t& y) { return x < y; });
        eq((std::size_t)(it2 - a.begin()), want, "first_less_than_or_equal", in, "index with comparator");
    }
    for(int k = 0; k < 200; k++) {
        at("cleanup", num(k));
        int x = 0;
        runs = 0;
        { auto w = d::raii_wrap(&x, count_run); if(k & 1) { auto v = std::move(w); if(k & 2) { auto u = std::move(v); } } }
        eq(runs, 1, "cleanup", num(k), "raii_wrapper runs its deleter once");
        runs = 0;
        { auto g = d::scope_exit([] { runs++; }); if(k & 1) { auto h = std::move(g); } }
        eq(runs, 1, "cleanup", num(k), "scope_exit runs its action once");
        runs = 0;
        try { auto g = d::scope_exit([] { runs++; }); auto w = d::raii_wrap(&x, count_run); throw 1; } catch(int) {}
        eq(runs, 2, "cleanup", num(k), "cleanup while unwinding");
        std::string s = "old" + std::to_string(k);
        std::string o = d::exchange(s, "new");
        eq(o, "old" + std::to_string(k), "exchange", num(k), "exchange returns the old value");
        eq(s, std::string("new"), "exchange", num(k), "exchange stores the new value");
    }
}
HX_MAIN(body)
