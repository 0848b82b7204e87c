// Instantiates optional and Result over a type that reports its lifetime; every body under contract is the one in /repo.
#include "utils/optional.hpp"
#include "utils/result.hpp"
#include <new>
#include <utility>
namespace probe {
    using namespace cpptrace::detail;
    void born(const void* at);   // modelled: the place must not hold a live object
    void died(const void* at);   // modelled: the place must hold a live object
    void used(const void* at);   // modelled: the place must hold a live object
    template<int N> struct obj {
        unsigned long v;
        explicit obj(unsigned long x) : v(x) { born(this); }
        obj(const obj& o) { used(&o); born(this); v = o.v; }
        obj(obj&& o) { used(&o); born(this); v = o.v; o.v = 0; }
        obj& operator=(const obj& o) { used(this); used(&o); v = o.v; return *this; }
        obj& operator=(obj&& o) { used(this); used(&o); if(this != &o) { v = o.v; o.v = 0; } return *this; }
        ~obj() { died(this); }
        const char* what() const { return "error"; }
    };
    using A = obj<0>;
    using B = obj<1>;
    using O = optional<A>;
    using R = Result<A, B>;
    void a_make(A* p, unsigned long v) { new (p) A(v); }
    void b_make(B* p, unsigned long v) { new (p) B(v); }

    void o_empty(O* p) { new (p) O(); }
    void o_null(O* p) { new (p) O(nullopt); }
    void o_from(O* p, const A* v) { new (p) O(*v); }
    void o_from_move(O* p, A* v) { new (p) O(std::move(*v)); }
    void o_copy(O* p, const O* q) { new (p) O(*q); }
    void o_move(O* p, O* q) { new (p) O(std::move(*q)); }
    void o_copy_assign(O* p, const O* q) { *p = *q; }
    void o_move_assign(O* p, O* q) { *p = std::move(*q); }
    void o_assign(O* p, const A* v) { *p = *v; }
    void o_assign_null(O* p) { *p = nullopt; }
    void o_swap(O* p, O* q) { p->swap(*q); }
    void o_reset(O* p) { p->reset(); }
    void o_destroy(O* p) { p->~O(); }
    bool o_has(const O* p) { return p->has_value(); }
    bool o_bool(const O* p) { return bool(*p); }
    const A* o_get(O* p) { return &p->unwrap(); }
    const A* o_cget(const O* p) { return &p->unwrap(); }
    void o_take(A* r, O* p) { new (r) A(std::move(*p).unwrap()); }
    void o_or(A* r, const O* p, const A* d) { new (r) A(p->value_or(*d)); }
    void o_or_move(A* r, O* p, A* d) { new (r) A(std::move(*p).value_or(std::move(*d))); }

    using OR = optional<A&>;
    void or_empty(OR* p) { new (p) OR(); }
    void or_from(OR* p, A* v) { new (p) OR(*v); }
    void or_copy(OR* p, const OR* q) { new (p) OR(*q); }
    void or_copy_assign(OR* p, const OR* q) { *p = *q; }
    void or_move_assign(OR* p, OR* q) { *p = std::move(*q); }
    void or_reset(OR* p) { p->reset(); }
    void or_swap(OR* p, OR* q) { p->swap(*q); }
    bool or_has(const OR* p) { return p->has_value(); }
    A* or_get(OR* p) { return &p->unwrap(); }
    void or_destroy(OR* p) { p->~OR(); }

    void r_value(R* p, const A* v) { new (p) R(*v); }
    void r_value_move(R* p, A* v) { new (p) R(std::move(*v)); }
    void r_error(R* p, const B* v) { new (p) R(*v); }
    void r_error_move(R* p, B* v) { new (p) R(std::move(*v)); }
    void r_move(R* p, R* q) { new (p) R(std::move(*q)); }
    void r_copy_assign(R* p, const R* q) { *p = *q; }
    void r_move_assign(R* p, R* q) { *p = std::move(*q); }
    void r_destroy(R* p) { p->~R(); }
    bool r_has(const R* p) { return p->has_value(); }
    bool r_err(const R* p) { return p->is_error(); }
    bool r_bool(const R* p) { return bool(*p); }
    const A* r_get(R* p) { return &p->unwrap_value(); }
    const A* r_cget(const R* p) { return &p->unwrap_value(); }
    const B* r_geterr(R* p) { return &p->unwrap_error(); }
    const B* r_cgeterr(const R* p) { return &p->unwrap_error(); }
    void r_take(A* r, R* p) { new (r) A(std::move(*p).unwrap_value()); }
    void r_takeerr(B* r, R* p) { new (r) B(std::move(*p).unwrap_error()); }
    void r_ovalue(O* r, const R* p) { new (r) O(p->value()); }
    void r_ovalue_move(O* r, R* p) { new (r) O(std::move(*p).value()); }
    void r_oerror(optional<B>* r, const R* p) { new (r) optional<B>(p->error()); }
    void r_oerror_move(optional<B>* r, R* p) { new (r) optional<B>(std::move(*p).error()); }
    bool ob_has(const optional<B>* p) { return p->has_value(); }
    const B* ob_get(optional<B>* p) { return &p->unwrap(); }
    void ob_destroy(optional<B>* p) { p->~optional<B>(); }
    void r_or(A* r, const R* p, const A* d) { new (r) A(p->value_or(*d)); }
    void r_or_move(A* r, R* p, A* d) { new (r) A(std::move(*p).value_or(std::move(*d))); }
    void r_drop(const R* p) { p->drop_error(); }
}
