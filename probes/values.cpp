// Instantiates the inline value types of the public header; every body under contract is the one in /repo.
#include <cpptrace/basic.hpp>
#include <cstdint>
#include <new>
namespace probe {
    using cpptrace::nullable;
    using cpptrace::stacktrace_frame;
#define NULLABLE(T, S) \
    void nl_default_##S(nullable<T>* o) { new (o) nullable<T>(); } \
    void nl_value_##S(nullable<T>* o, T v) { new (o) nullable<T>(v); } \
    void nl_null_##S(nullable<T>* o) { new (o) nullable<T>(nullable<T>::null()); } \
    void nl_assign_##S(nullable<T>* o, T v) { *o = v; } \
    void nl_copy_##S(nullable<T>* o, const nullable<T>* p) { *o = *p; } \
    bool nl_has_##S(const nullable<T>* o) { return o->has_value(); } \
    T nl_get_##S(const nullable<T>* o) { return o->value(); } \
    void nl_write_##S(nullable<T>* o, T v) { o->value() = v; } \
    T nl_or_##S(const nullable<T>* o, T v) { return o->value_or(v); } \
    void nl_swap_##S(nullable<T>* o, nullable<T>* p) { o->swap(*p); } \
    void nl_reset_##S(nullable<T>* o) { o->reset(); } \
    bool nl_eq_##S(const nullable<T>* o, const nullable<T>* p) { return *o == *p; } \
    bool nl_ne_##S(const nullable<T>* o, const nullable<T>* p) { return *o != *p; }
    NULLABLE(std::uint8_t, u8)
    NULLABLE(std::int8_t, i8)
    NULLABLE(std::uint16_t, u16)
    NULLABLE(std::int16_t, i16)
    NULLABLE(std::uint32_t, u32)
    NULLABLE(std::int32_t, i32)
    NULLABLE(std::uint64_t, u64)
    NULLABLE(std::int64_t, i64)
    bool fr_eq(const stacktrace_frame* a, const stacktrace_frame* b) { return *a == *b; }
    bool fr_ne(const stacktrace_frame* a, const stacktrace_frame* b) { return *a != *b; }
}
