// Instantiates the header-only helpers of utils/utils.hpp so that their code reaches the verifier.
// Only instantiations and calls: every function body under contract is the one in /repo.
#include "utils/utils.hpp"
#include "utils/string_view.hpp"
#include <cstdint>
#include <string>
#include <vector>

namespace probe {
    using namespace cpptrace::detail;
    std::uint8_t bswap_u8(std::uint8_t v) { return byteswap(v); }
    std::int8_t bswap_i8(std::int8_t v) { return byteswap(v); }
    std::uint16_t bswap_u16(std::uint16_t v) { return byteswap(v); }
    std::int16_t bswap_i16(std::int16_t v) { return byteswap(v); }
    std::uint32_t bswap_u32(std::uint32_t v) { return byteswap(v); }
    std::int32_t bswap_i32(std::int32_t v) { return byteswap(v); }
    std::uint64_t bswap_u64(std::uint64_t v) { return byteswap(v); }
    std::int64_t bswap_i64(std::int64_t v) { return byteswap(v); }
    bool pow2_i16(std::int16_t v) { return is_positive_power_of_two(v); }
    bool pow2_i32(std::int32_t v) { return is_positive_power_of_two(v); }
    bool pow2_i64(std::int64_t v) { return is_positive_power_of_two(v); }
    bool pow2_u32(std::uint32_t v) { return is_positive_power_of_two(v); }
    bool pow2_u64(std::uint64_t v) { return is_positive_power_of_two(v); }
    bool pow2_u16(std::uint16_t v) { return is_positive_power_of_two(v); }
    unsigned digits(unsigned v) { return n_digits(v); }
    const std::uint64_t* floor_search(const std::uint64_t* b, const std::uint64_t* e, std::uint64_t v) {
        return first_less_than_or_equal(b, e, v);
    }
    struct item { std::uint64_t key; std::uint64_t other; };
    const item* floor_search_by(const item* b, const item* e, std::uint64_t v) {
        return first_less_than_or_equal(b, e, v, [](std::uint64_t x, const item& i) { return x < i.key; });
    }
    int exchange_int(int& o, int v) { return exchange(o, v); }
    std::uint64_t exchange_u64(std::uint64_t& o, std::uint64_t v) { return exchange(o, v); }
    void* exchange_ptr(void*& o, std::nullptr_t v) { return exchange(o, v); }
    // cleanup helpers: the action is an external function, counted by the contract
    void action(int*);
    void raii_one(int* p) { auto w = raii_wrap(p, action); }
    void raii_moved(int* p) { auto w = raii_wrap(p, action); auto v = std::move(w); auto u = std::move(v); }
    int* raii_get(int* p) { auto w = raii_wrap(p, action); int* r = w.get(); return r; }
    struct thrower {};
    void may_throw();
    void raii_throwing(int* p) { auto w = raii_wrap(p, action); may_throw(); }
    void scope_one(int* p) { auto g = scope_exit([p] { action(p); }); }
    void scope_moved(int* p) { auto g = scope_exit([p] { action(p); }); auto h = std::move(g); }
    void scope_throwing(int* p) { auto g = scope_exit([p] { action(p); }); may_throw(); }
    bool little() { return is_little_endian(); }
}
