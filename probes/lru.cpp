// Instantiates lru_cache; every body under contract is the one in /repo.
#include "utils/lru_cache.hpp"
namespace probe {
    using namespace cpptrace::detail;
    using C = lru_cache<unsigned long, unsigned long>;
    void make(C* c, const optional<std::size_t>* m) { new (c) C(*m); }
    void make_default(C* c) { new (c) C(); }
    void set_max(C* c, const optional<std::size_t>* m) { c->set_max_size(*m); }
    void touch(C* c, const unsigned long* k) { c->maybe_touch(*k); }
    unsigned long* get(C* c, const unsigned long* k) { auto r = c->maybe_get(*k); return r.has_value() ? &r.unwrap() : nullptr; }
    const unsigned long* cget(const C* c, const unsigned long* k) { auto r = c->maybe_get(*k); return r.has_value() ? &r.unwrap() : nullptr; }
    void set(C* c, const unsigned long* k, unsigned long v) { c->set(*k, v); }
    unsigned long* insert(C* c, const unsigned long* k, unsigned long v) { auto r = c->insert(*k, v); return r.has_value() ? &r.unwrap() : nullptr; }
    std::size_t size(const C* c) { return c->size(); }
    void om_none(optional<std::size_t>* o) { new (o) optional<std::size_t>(); }
    void om_some(optional<std::size_t>* o, std::size_t n) { new (o) optional<std::size_t>(n); }
}
