#include "hx.hpp"
#include "utils/optional.hpp"
#include "utils/result.hpp"
using namespace hx;
namespace d = cpptrace::detail;

// every live object is registered by address: double construction, double destruction and use of a dead object are seen at once
static std::set<const void*> live;
static std::string problem;
static void must(bool c, const char* m) { if(!c && problem.empty()) problem = m; }
template<int N> struct obj {
    std::string v;
    explicit obj(std::string x) : v(std::move(x)) { must(live.insert(this).second, "constructed twice"); }
    obj(const obj& o) : v(o.v) { must(live.count(&o), "copied from a dead object"); must(live.insert(this).second, "constructed twice"); }
    obj(obj&& o) : v(std::move(o.v)) { o.v = "moved"; must(live.count(&o), "moved from a dead object"); must(live.insert(this).second, "constructed twice"); }
    obj& operator=(const obj& o) { must(live.count(this) && live.count(&o), "assigned through a dead object"); v = o.v; return *this; }
    obj& operator=(obj&& o) { must(live.count(this) && live.count(&o), "assigned through a dead object"); if(this != &o) { v = std::move(o.v); o.v = "moved"; } return *this; }
    ~obj() { must(live.erase(this), "destroyed without being alive"); }
    const char* what() const { return v.c_str(); }
};
typedef obj<0> A; typedef obj<1> B;
typedef d::optional<A> O; typedef d::Result<A, B> R;

static int counter;
static std::string tok() { return "a value long enough to live on the heap " + std::to_string(counter++); }

static void check_o(O& o, bool has, const std::string& v, const std::string& log) {
    ok(o.has_value() == has && (bool)o == has, "optional", log, "has_value");
    bool threw = false; std::string got;
    try { got = o.unwrap().v; } catch(const std::exception&) { threw = true; }
    ok(threw == !has, "optional", log, "reading an absent value is reported");
    if(has && !threw) eq(got, v, "optional", log, "content");
    threw = false;
    try { got = const_cast<const O&>(o).unwrap().v; } catch(const std::exception&) { threw = true; }
    ok(threw == !has, "optional", log, "reading an absent value is reported (const)");
    if(has && !threw) eq(got, v, "optional", log, "content (const)");
}
static void check_r(R& o, bool val, const std::string& v, const std::string& log) {
    ok(o.has_value() == val && (bool)o == val && o.is_error() == !val, "result", log, "alternative");
    bool t1 = false, t2 = false; std::string g1, g2;
    try { g1 = o.unwrap_value().v; } catch(const std::exception&) { t1 = true; }
    try { g2 = const_cast<const R&>(o).unwrap_error().v; } catch(const std::exception&) { t2 = true; }
    ok(t1 == !val && t2 == val, "result", log, "reading the wrong alternative is reported");
    eq(val ? g1 : g2, v, "result", log, "content");
    auto ov = const_cast<const R&>(o).value(); auto oe = const_cast<const R&>(o).error();
    ok(ov.has_value() == val && oe.has_value() == !val, "result", log, "value() and error()");
    eq(val ? ov.unwrap().v : oe.unwrap().v, v, "result", log, "value() or error() content");
}

static void body() {
    rng r(S().seed);
    cpptrace::absorb_trace_exceptions(true);
    budget b(0.9, 60000);
    while(b.more()) {
        std::string log;
        problem.clear();
        {
            O o[3]; bool has[3] = {}; std::string val[3];
            int n = 1 + (int)r.below(10);
            for(int k = 0; k < n; k++) {
                unsigned op = (unsigned)r.below(11), i = (unsigned)r.below(3), j = (unsigned)r.below(3);
                log += " " + std::to_string(op) + ":" + std::to_string(i) + std::to_string(j);
                at("optional", log);
                std::string t = tok();
                switch(op) {
                    case 0: o[i] = A(t); has[i] = true; val[i] = t; break;
                    case 1: { A a(t); o[i] = a; has[i] = true; val[i] = t; eq(a.v, t, "optional", log, "source"); break; }
                    case 2: o[i] = o[j]; has[i] = has[j]; val[i] = val[j]; break;
                    case 3: o[i] = std::move(o[j]); if(i != j) { has[i] = has[j]; val[i] = val[j]; if(has[j]) val[j] = o[j].has_value() ? o[j].unwrap().v : "?"; has[j] = o[j].has_value(); } break;
                    case 4: o[i].swap(o[j]); std::swap(has[i], has[j]); std::swap(val[i], val[j]); break;
                    case 5: o[i].reset(); has[i] = false; break;
                    case 6: o[i] = d::nullopt; has[i] = false; break;
                    case 7: { O c(o[i]); check_o(c, has[i], val[i], log + " copy"); break; }
                    case 8: { O c(std::move(o[i])); check_o(c, has[i], val[i], log + " move"); if(o[i].has_value()) val[i] = o[i].unwrap().v; has[i] = o[i].has_value(); break; }
                    case 9: { A dflt(t); A g = const_cast<const O&>(o[i]).value_or(dflt); eq(g.v, has[i] ? val[i] : t, "optional", log, "value_or"); break; }
                    default: if(has[i]) o[i] = o[i].unwrap(); break;
                }
                for(int q = 0; q < 3; q++) check_o(o[q], has[q], val[q], log);
                ok(problem.empty(), "optional", log, problem);
            }
            nontrivial();
        }
        ok(live.empty(), "optional", log, "objects left alive");
        live.clear();
        ok(problem.empty(), "optional", log, problem);
        log.clear();
        problem.clear();
        {
            std::string t0 = tok(), t1 = tok();
            R x{A(t0)}, y{B(t1)}; R* p[2] = {&x, &y}; bool v[2] = {true, false}; std::string val[2] = {t0, t1};
            int n = 1 + (int)r.below(10);
            for(int k = 0; k < n; k++) {
                unsigned op = (unsigned)r.below(8), i = (unsigned)r.below(2), j = (unsigned)r.below(2);
                log += " " + std::to_string(op) + ":" + std::to_string(i) + std::to_string(j);
                at("result", log);
                std::string t = tok();
                switch(op) {
                    case 0: *p[i] = R(A(t)); v[i] = true; val[i] = t; break;
                    case 1: *p[i] = R(B(t)); v[i] = false; val[i] = t; break;
                    case 2: *p[i] = *p[j]; v[i] = v[j]; val[i] = val[j]; break;
                    case 3: *p[i] = std::move(*p[j]); if(i != j) { v[i] = v[j]; val[i] = val[j]; val[j] = v[j] ? p[j]->unwrap_value().v : p[j]->unwrap_error().v; } break;
                    case 4: { R c(std::move(*p[i])); check_r(c, v[i], val[i], log + " move"); val[i] = v[i] ? p[i]->unwrap_value().v : p[i]->unwrap_error().v; break; }
                    case 5: { A dflt(t); A g = const_cast<const R&>(*p[i]).value_or(dflt); eq(g.v, v[i] ? val[i] : t, "result", log, "value_or"); break; }
                    case 6: { A a(t); *p[i] = R(a); v[i] = true; val[i] = t; break; }
                    default: {
                        auto q = p[i]->transform([](A& a) { return (int)a.v.size(); });
                        ok(q.has_value() == v[i], "result", log, "transform keeps the alternative");
                        if(v[i]) eq(q.unwrap_value(), (int)val[i].size(), "result", log, "transform applies the function");
                        else eq(q.unwrap_error().v, val[i], "result", log, "transform keeps the error");
                    }
                }
                for(int q = 0; q < 2; q++) check_r(*p[q], v[q], val[q], log);
                ok(problem.empty(), "result", log, problem);
            }
            nontrivial();
        }
        ok(live.empty(), "result", log, "objects left alive");
        live.clear();
        ok(problem.empty(), "result", log, problem);
    }
    at("optional-ref", "references");
    {
        int a = 1, b = 2;
        d::optional<int&> p, q(a), s(b);
        ok(!p.has_value(), "optional-ref", "empty", "empty");
        p = q; ok(p.has_value() && &p.unwrap() == &a, "optional-ref", "p=q", "rebinds");
        p.swap(s); ok(&p.unwrap() == &b && &s.unwrap() == &a, "optional-ref", "swap", "swap");
        p.reset(); ok(!p.has_value() && b == 2, "optional-ref", "reset", "reset");
    }
}
HX_MAIN(body)
