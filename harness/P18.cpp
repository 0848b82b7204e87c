#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/exceptions.hpp>
#include <system_error>
#include "exceptions.cpp"
using namespace hx;
using cpptrace::raw_trace; using cpptrace::stacktrace; using cpptrace::stacktrace_frame; using cpptrace::frame_ptr;
typedef cpptrace::nullable<std::uint32_t> nu;
// the library below: frames made from the addresses, or a failure
static int resolutions = 0; static int fail_mode = 0;
static stacktrace_frame frame_of(frame_ptr a) { return stacktrace_frame{a, a ^ 5, nu{(std::uint32_t)(a % 1000)}, nu::null(), "/f" + std::to_string(a % 7) + ".cpp", "fn" + std::to_string(a % 13), false}; }
namespace cpptrace { inline namespace v1 { namespace detail {
    std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& f) {
        resolutions++;
        if(fail_mode == 1) throw std::runtime_error("resolution fails");
        std::vector<stacktrace_frame> r; for(auto a : f) r.push_back(frame_of(a)); return r;
    }
    std::vector<stacktrace_frame> resolve_frames(const std::vector<object_frame>&) { return {}; }
} } }
struct probe : cpptrace::detail::lazy_trace_holder { using lazy_trace_holder::lazy_trace_holder; };
// what an exception should be, whatever was done to it
struct model {
    int kind; std::string msg; std::vector<frame_ptr> addrs; bool resolved = false, lost = false, moved = false; std::string nested; int code = 0;
};
static std::string render(const model& m) {
    stacktrace t; if(!m.lost) for(auto a : m.addrs) t.frames.push_back(frame_of(a));
    return t.to_string();
}
static std::string msg_of(const model& m) {
    switch(m.kind) {
        case 0: return "cpptrace::lazy_exception";
        case 1: return m.msg;
        case 2: return m.msg.empty() && m.nested.empty() ? "" : m.nested;
        default: return m.msg + ": " + std::error_code(m.code, std::generic_category()).message();
    }
}
struct custom { int x; };
template<typename E> struct item { std::unique_ptr<E> e; model m; };
template<typename E, typename F> static void run(const std::string& g, rng& r, F make) {
    std::vector<item<E>> v(3);
    std::string key;
    fail_mode = 0;
    cpptrace::absorb_trace_exceptions(r.chance(1, 2));
    for(std::size_t i = 0; i < v.size(); i++) {
        v[i].m.addrs.resize(r.below(4)); for(auto& a : v[i].m.addrs) a = (frame_ptr)r.edgy();
        make(v[i]);
        key += "[" + std::to_string(i) + ": " + std::to_string(v[i].m.addrs.size()) + " frames '" + v[i].m.msg + "'] ";
    }
    std::size_t n = 1 + r.below(10);
    for(std::size_t s = 0; s < n; s++) {
        std::size_t i = r.below(3), j = r.chance(1, 4) ? i : r.below(3);
        E& a = *v[i].e; E& b = *v[j].e;
        model &ma = v[i].m, &mb = v[j].m;
        std::uint64_t op = r.below(8);
        if(op >= 4 && ma.moved) op = 3;
        if(op < 4 && mb.moved && i != j) continue;
        fail_mode = r.chance(1, 8);
        auto look = [&]() { if(!ma.resolved) { ma.resolved = true; if(fail_mode && !ma.addrs.empty()) ma.lost = true; } };
        std::string T = std::to_string(i), F2 = std::to_string(j);
        switch(op) {
            case 0: { key += T + "=copy of " + F2 + "; "; at(g, key); if(ma.moved) continue; a = static_cast<const E&>(b); ma = model(mb); break; }
            case 1: { key += T + "=move of " + F2 + "; "; at(g, key); if(ma.moved && i == j) continue; bool self = i == j; a = std::move(b); if(!self) { ma = mb; mb.moved = true; } else ma.moved = true; break; }
            case 2: { key += T + ": new copy of " + F2 + "; "; at(g, key); if(i == j) { if(ma.moved) continue; std::unique_ptr<E> t(new E(b)); v[i].e = std::move(t); } else { v[i].e.reset(new E(b)); ma = model(mb); } break; }
            case 3: { key += T + ": new move of " + F2 + "; "; at(g, key); if(i == j) { if(ma.moved) { model f; f.addrs = {7}; v[i].m = f; make(v[i]); } continue; } v[i].e.reset(new E(std::move(b))); ma = mb; mb.moved = true; break; }
            case 4: case 5: {
                key += T + ".what()" + (fail_mode ? " (failing); " : "; "); at(g, key);
                int before = resolutions; bool was = ma.resolved;
                look();
                const char* first = a.what();
                std::string got = first;
                eq(got, msg_of(ma) + ":\n" + render(ma), g, key, "what()");
                ok(resolutions - before <= (was || ma.addrs.empty() ? 0 : 1), g, key, "resolved at most once");
                eq(std::string(a.what()), got, g, key, "what() again");
                a.trace();
                eq(std::string(first), got, g, key, "the text stays valid");
                break;
            }
            case 6: { key += T + ".message(); "; at(g, key); int before = resolutions; eq(std::string(a.message()), msg_of(ma), g, key, "message()"); ok(resolutions == before, g, key, "no resolution"); break; }
            default: {
                key += T + ".trace()" + (fail_mode ? " (failing); " : "; "); at(g, key);
                int before = resolutions; bool was = ma.resolved;
                look();
                const stacktrace& t = a.trace();
                std::vector<frame_ptr> want; if(!ma.lost) want = ma.addrs;
                bool same = t.frames.size() == want.size(); for(std::size_t k = 0; same && k < want.size(); k++) same = t.frames[k] == frame_of(want[k]);
                ok(same, g, key, "trace()");
                ok(resolutions - before <= (was || ma.addrs.empty() ? 0 : 1), g, key, "resolved at most once");
                ok(&a.trace() == &t, g, key, "the same trace object");
                break;
            }
        }
    }
    if(n > 3) nontrivial();
}
static std::string text(rng& r) { std::string s; std::size_t n = r.below(r.chance(1, 10) ? 200 : 12); while(s.size() < n) s += (char)(1 + r.below(255)); return s; }
static void holders(rng& r) {
    typedef cpptrace::detail::lazy_trace_holder H;
    const std::string g = "holder"; std::string key;
    struct hm { bool res; std::vector<frame_ptr> a; bool moved; };
    std::vector<std::unique_ptr<H>> v(3); std::vector<hm> m(3);
    fail_mode = 0;
    for(int i = 0; i < 3; i++) {
        m[i].a.resize(r.below(4)); for(auto& x : m[i].a) x = (frame_ptr)r.edgy(); m[i].res = r.chance(1, 2); m[i].moved = false;
        if(m[i].res) { stacktrace t; for(auto x : m[i].a) t.frames.push_back(frame_of(x)); v[i].reset(new H(std::move(t))); } else { raw_trace t; t.frames = m[i].a; v[i].reset(new H(std::move(t))); }
        key += std::string("[") + (m[i].res ? "resolved " : "raw ") + std::to_string(m[i].a.size()) + "] ";
    }
    for(std::size_t s = 0, n = 1 + r.below(9); s < n; s++) {
        std::size_t i = r.below(3), j = r.chance(1, 3) ? i : r.below(3);
        std::uint64_t op = r.below(5);
        if(m[j].moved && i != j) continue;
        if(m[i].moved && op != 0 && op != 1) continue;
        if(m[i].moved && i == j) continue;
        switch(op) {
            case 0: key += std::to_string(i) + "=copy " + std::to_string(j) + "; "; at(g, key); *v[i] = static_cast<const H&>(*v[j]); if(i != j) m[i] = m[j]; break;
            case 1: key += std::to_string(i) + "=move " + std::to_string(j) + "; "; at(g, key); *v[i] = std::move(*v[j]); if(i != j) { m[i] = m[j]; m[j].moved = true; } else m[i].moved = false; break;
            case 2: key += std::to_string(i) + " resolve; "; at(g, key); v[i]->get_resolved_trace(); m[i].res = true; break;
            case 3: { key += std::to_string(i) + " copy construct; "; at(g, key); H c(*v[i]); ok(c.is_resolved() == m[i].res, g, key, "a copy is in the same state"); if(r.chance(1, 2)) c = *v[j]; break; }
            default: break;
        }
        for(std::size_t k = 0; k < 3; k++) {
            if(m[k].moved) continue;
            const H& h = *v[k];
            if(!ok(h.is_resolved() == m[k].res, g, key, "state")) continue;
            bool same = true;
            if(m[k].res) { const auto& f = h.get_resolved_trace().frames; same = f.size() == m[k].a.size(); for(std::size_t q = 0; same && q < f.size(); q++) same = f[q] == frame_of(m[k].a[q]); }
            else same = h.get_raw_trace().frames == m[k].a;
            ok(same, g, key, "its trace");
            bool threw = false;
            try { if(m[k].res) h.get_raw_trace(); else h.get_resolved_trace(); } catch(const std::logic_error&) { threw = true; }
            ok(threw, g, key, "the other trace is refused");
        }
    }
}
struct vsystem { static void go(rng& r) {
    run<cpptrace::system_error>("system", r, [&r](item<cpptrace::system_error>& x) { x.m.kind = 3; x.m.code = r.chance(1, 10) ? (int)r.edgy() : (int)r.below(140); x.m.msg = text(r); raw_trace t; t.frames = x.m.addrs; std::string s = x.m.msg; x.e.reset(new cpptrace::system_error(x.m.code, std::move(s), std::move(t)));
        ok(x.e->code() == std::error_code(x.m.code, std::generic_category()), "system", std::to_string(x.m.code), "its code"); });
} };
static void nested(rng& r) {
    run<cpptrace::nested_exception>("nested", r, [&r](item<cpptrace::nested_exception>& x) {
        x.m.kind = 2; std::exception_ptr p;
        switch(r.below(5)) {
            case 0: { std::string t = text(r); p = std::make_exception_ptr(std::runtime_error(t)); x.m.nested = std::string("Nested exception: ") + t.c_str(); break; }
            case 1: p = std::make_exception_ptr(std::bad_alloc()); x.m.nested = std::string("Nested exception: ") + std::bad_alloc().what(); break;
            case 2: p = std::make_exception_ptr(5); x.m.nested = "Nested exception holding instance of int"; break;
            case 3: p = std::make_exception_ptr(custom{3}); x.m.nested = "Nested exception holding instance of custom"; break;
            default: { std::string t = text(r); p = std::make_exception_ptr(std::logic_error("")); x.m.nested = "Nested exception: "; break; }
        }
        raw_trace t; t.frames = x.m.addrs; x.e.reset(new cpptrace::nested_exception(p, std::move(t)));
        ok(x.e->nested_ptr() == p, "nested", x.m.nested, "the wrapped exception");
    });
    // wrapping
    at("wrap", "rethrow_and_wrap_if_needed");
    std::string t = text(r);
    try { try { throw std::runtime_error(t); } catch(...) { cpptrace::rethrow_and_wrap_if_needed(); } }
    catch(const cpptrace::nested_exception& e) { eq(std::string(e.message()), std::string("Nested exception: ") + t.c_str(), "wrap", t, "wrapped message"); }
    catch(...) { fail("wrap", t, "not wrapped"); }
    try { try { throw cpptrace::logic_error(std::string(t)); } catch(...) { cpptrace::rethrow_and_wrap_if_needed(); } }
    catch(const cpptrace::logic_error& e) { eq(std::string(e.message()), std::string(t.c_str()), "wrap", t, "message"); }
    catch(...) { fail("wrap", t, "wrapped although traced"); }
}
template<typename E> static void message(const char* g, rng& r) {
    run<E>(g, r, [&r](item<E>& x) { x.m.kind = 1; x.m.msg = text(r); raw_trace t; t.frames = x.m.addrs; std::string s = x.m.msg; x.e.reset(new E(std::move(s), std::move(t))); });
}
static void body() {
    rng r(S().seed);
    cpptrace::set_log_callback([](cpptrace::log_level, const char*) {});
    budget b(1.0, 1000000);
    while(b.more()) {
        holders(r);
        run<cpptrace::lazy_exception>("lazy", r, [&r](item<cpptrace::lazy_exception>& x) { x.m.kind = 0; raw_trace t; t.frames = x.m.addrs; x.e.reset(new cpptrace::lazy_exception(std::move(t))); });
        message<cpptrace::exception_with_message>("message", r);
        switch(b.i % 8) {
            case 0: message<cpptrace::logic_error>("logic_error", r); break; case 1: message<cpptrace::domain_error>("domain_error", r); break; case 2: message<cpptrace::invalid_argument>("invalid_argument", r); break;
            case 3: message<cpptrace::length_error>("length_error", r); break; case 4: message<cpptrace::out_of_range>("out_of_range", r); break; case 5: message<cpptrace::range_error>("range_error", r); break;
            case 6: message<cpptrace::overflow_error>("overflow_error", r); break; default: message<cpptrace::underflow_error>("underflow_error", r); break;
        }
        nested(r); vsystem::go(r);
    }
}
HX_MAIN(body)
