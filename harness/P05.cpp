#include "hx.hpp"
#include <cpptrace/basic.hpp>
using namespace hx;
using cpptrace::nullable;

template<typename T> static void nl(rng& r, const char* g) {
    const T null = (std::numeric_limits<T>::max)();
    auto pick = [&]() -> T { return r.chance(1, 5) ? null : r.chance(1, 5) ? (T)(null - 1) : r.chance(1, 5) ? (std::numeric_limits<T>::min)() : (T)r.edgy(); };
    // reference model: flag + value, driven through a random sequence of operations
    nullable<T> n[3]; bool has[3] = {false, false, false}; T val[3] = {null, null, null};
    std::string log;
    for(int k = 0; k < 12; k++) {
        unsigned i = (unsigned)r.below(3), j = (unsigned)r.below(3);
        T v = pick();
        unsigned op = (unsigned)r.below(8);
        log += " op" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + num((std::uint64_t)v) + ")";
        at(g, log);
        switch(op) {
            case 0: n[i] = v; has[i] = v != null; val[i] = v; break;
            case 1: n[i].reset(); has[i] = false; val[i] = null; break;
            case 2: n[i] = n[j]; has[i] = has[j]; val[i] = val[j]; break;
            case 3: n[i].swap(n[j]); std::swap(has[i], has[j]); std::swap(val[i], val[j]); break;
            case 4: n[i] = nullable<T>::null(); has[i] = false; val[i] = null; break;
            case 5: n[i] = nullable<T>(v); has[i] = v != null; val[i] = v; break;
            case 6: n[i] = nullable<T>(); has[i] = false; val[i] = null; break;
            default: n[i].value() = v; has[i] = v != null; val[i] = v; break;
        }
        T alt = pick();
        for(int a = 0; a < 3; a++) {
            ok(n[a].has_value() == has[a], g, log, "has_value");
            ok(const_cast<const nullable<T>&>(n[a]).value() == val[a], g, log, "value");
            ok(n[a].value_or(alt) == (has[a] ? val[a] : alt), g, log, "value_or");
            for(int b = 0; b < 3; b++) {
                bool e = has[a] == has[b] && (!has[a] || val[a] == val[b]);
                ok((n[a] == n[b]) == e, g, log, "==");
                ok((n[a] != n[b]) == !e, g, log, "!=");
            }
        }
        nontrivial();
    }
}
static cpptrace::stacktrace_frame fr(rng& r) {
    static const char* f[] = {"", "a", "b", "a\0", "aa"};
    cpptrace::stacktrace_frame x;
    x.raw_address = (cpptrace::frame_ptr)r.below(2); x.object_address = (cpptrace::frame_ptr)r.below(2);
    x.line = r.chance(1, 2) ? nullable<std::uint32_t>() : nullable<std::uint32_t>((std::uint32_t)r.below(2));
    x.column = r.chance(1, 2) ? nullable<std::uint32_t>() : nullable<std::uint32_t>((std::uint32_t)r.below(2));
    unsigned i = (unsigned)r.below(5), j = (unsigned)r.below(5);
    x.filename = i == 3 ? std::string("a\0", 2) : f[i]; x.symbol = j == 3 ? std::string("a\0b", 3) : f[j];
    x.is_inline = r.chance(1, 2);
    return x;
}
static std::string show(const cpptrace::stacktrace_frame& f) {
    return num(f.raw_address) + "," + num(f.object_address) + "," + num(f.line.raw_value) + "," + num(f.column.raw_value) + "," + quote(f.filename) + "," + quote(f.symbol) + "," + (f.is_inline ? "i" : "n");
}
static void body() {
    rng r(S().seed);
    budget b(0.6, 20000);
    while(b.more()) {
        nl<std::uint8_t>(r, "nullable-u8"); nl<std::int8_t>(r, "nullable-i8"); nl<std::uint16_t>(r, "nullable-u16"); nl<std::int16_t>(r, "nullable-i16");
        nl<std::uint32_t>(r, "nullable-u32"); nl<std::int32_t>(r, "nullable-i32"); nl<std::uint64_t>(r, "nullable-u64"); nl<std::int64_t>(r, "nullable-i64");
    }
    budget b2(0.4, 400000);
    while(b2.more()) {
        auto x = fr(r), y = r.chance(1, 2) ? x : fr(r);
        unsigned k = (unsigned)r.below(9);
        if(k == 0) y.raw_address++; if(k == 1) y.object_address++; if(k == 2) y.line = 7; if(k == 3) y.column = 7; if(k == 4) y.filename += 'x'; if(k == 5) y.symbol += 'x';
        if(k == 6) y.is_inline = !y.is_inline;
        std::string key = show(x) + " vs " + show(y);
        at("frame-eq", key);
        bool e = x.raw_address == y.raw_address && x.object_address == y.object_address && x.line.raw_value == y.line.raw_value
            && x.column.raw_value == y.column.raw_value && x.filename == y.filename && x.symbol == y.symbol;
        if(e) nontrivial();
        eq(x == y, e, "frame-eq", key, "==");
        eq(x != y, !e, "frame-eq", key, "!=");
    }
}
HX_MAIN(body)
