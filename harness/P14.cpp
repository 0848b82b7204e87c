// Capturing: scripted stacks around the real back end, then the real unwinder through every entry point.
// Built once per back end (CPPTRACE_UNWIND_WITH_UNWIND / LIBUNWIND / EXECINFO).
#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <ctrace/ctrace.h>
#include <climits>
#include <cassert>
#include <signal.h>
#include <ucontext.h>
#include "unwind/unwind.hpp"
#include "utils/common.hpp"
#include "utils/error.hpp"
#include "utils/utils.hpp"
#ifdef CPPTRACE_UNWIND_WITH_UNWIND
 #include <unwind.h>
#elif defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
 #include <libunwind.h>
#else
 #include <execinfo.h>
#endif
struct sf { std::uintptr_t ip; bool intr; };
namespace env {
    static bool on = false; static std::vector<sf> stack; static std::size_t i = 0; static std::uint64_t steps = 0;
    static int endcode = 0;
#ifdef CPPTRACE_UNWIND_WITH_UNWIND
    __attribute__((always_inline)) static inline _Unwind_Reason_Code backtrace_(_Unwind_Trace_Fn fn, void* arg) {
        if(!on) return ::_Unwind_Backtrace(fn, arg);
        for(i = 0; i < stack.size(); i++) { steps++; if(fn((_Unwind_Context*)&stack[i], arg) != _URC_NO_REASON) return _URC_FATAL_PHASE1_ERROR; }
        return _URC_END_OF_STACK;
    }
    static _Unwind_Word ip(_Unwind_Context* c) { return on ? ((sf*)c)->ip : ::_Unwind_GetIP(c); }
    static _Unwind_Word ipinfo(_Unwind_Context* c, int* b) { if(!on) return ::_Unwind_GetIPInfo(c, b); *b = ((sf*)c)->intr; return ((sf*)c)->ip; }
#elif defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
    __attribute__((always_inline)) static inline int init(unw_cursor_t* c, unw_context_t* x) { i = 0; return on ? 0 : unw_init_local(c, x); }
    static int reg(unw_cursor_t* c, int r, unw_word_t* v) {
        if(!on) return unw_get_reg(c, r, v);
        *v = r == UNW_REG_IP ? stack[i].ip : 0x7fff0000 + 16 * i; return 0;
    }
    static int sig(unw_cursor_t* c) { return on ? stack[i].intr : unw_is_signal_frame(c); }
    static int step(unw_cursor_t* c) { if(!on) return unw_step(c); steps++; if(i + 1 >= stack.size()) return endcode; i++; return 1; }
#else
    __attribute__((always_inline)) static inline int bt(void** a, int n) {
        if(!on) return ::backtrace(a, n);
        if(n < 0) { std::fprintf(stderr, "negative buffer\n"); std::abort(); }
        int k = 0;
        for(; k < n && (std::size_t)k < stack.size(); k++) a[k] = (void*)stack[k].ip;
        return k;
    }
#endif
}
#ifdef CPPTRACE_UNWIND_WITH_UNWIND
 #define _Unwind_Backtrace env::backtrace_
 #define _Unwind_GetIP env::ip
 #define _Unwind_GetIPInfo env::ipinfo
 #include "unwind/unwind_with_unwind.cpp"
 #undef _Unwind_Backtrace
 #undef _Unwind_GetIP
 #undef _Unwind_GetIPInfo
 #define NULLS 1
 #define LIMIT SIZE_MAX
#elif defined(CPPTRACE_UNWIND_WITH_LIBUNWIND)
 #undef unw_init_local
 #undef unw_get_reg
 #undef unw_is_signal_frame
 #undef unw_step
 #define unw_init_local env::init
 #define unw_get_reg env::reg
 #define unw_is_signal_frame env::sig
 #define unw_step env::step
 #include "unwind/unwind_with_libunwind.cpp"
 #undef unw_init_local
 #undef unw_get_reg
 #undef unw_is_signal_frame
 #undef unw_step
 #define NULLS 0
 #define LIMIT SIZE_MAX
#else
 #define backtrace env::bt
 #include "unwind/unwind_with_execinfo.cpp"
 #undef backtrace
 #define NULLS 0
 #define LIMIT cpptrace::detail::hard_max_frames
 #define NOINTR
#endif
using namespace hx;
using tr = std::vector<cpptrace::frame_ptr>;
static std::string show(const tr& v) { std::ostringstream o; o << v.size() << ":"; for(std::size_t i = 0; i < v.size() && i < 12; i++) o << std::hex << " " << v[i]; return o.str(); }
// the frames behind the s + 1 innermost, up to d of them
static tr oracle(const std::vector<sf>& st, std::size_t s, std::size_t d) {
    tr r; bool wrap = s == SIZE_MAX;
    for(std::size_t k = 0; k < st.size(); k++) {
        std::uintptr_t p = st[k].ip;
        if(NULLS && p == 0) break;
#ifdef NOINTR
        std::uintptr_t q = p - 1;
#else
        std::uintptr_t q = st[k].intr ? p : p - 1;
#endif
        if(wrap || k <= s) continue;
        if(NULLS && q == 0) break;
        if(r.size() >= d) break;
        r.push_back(q);
    }
    return r;
}
static void scripted(rng& r) {
    budget b(0.4, 300000);
    while(b.more()) {
        std::vector<sf> st; std::size_t m = r.chance(1, 30) ? 380 + r.below(60) : 1 + r.below(14);
        for(std::size_t k = 0; k < m; k++) {
            std::uintptr_t p = r.chance(1, 40) ? r.below(3) : (r.next() >> 16) + 2;
            if(!NULLS && p < 2) p = 2;
            st.push_back({p, r.chance(1, 6)});
        }
        std::size_t s = r.chance(1, 12) ? r.edgy() : r.chance(1, 10) ? m - 2 + r.below(4) : r.below(m + 2), d = r.chance(1, 8) ? r.edgy() : r.chance(1, 4) ? SIZE_MAX : r.below(m + 3);
        if(s >= SIZE_MAX - 20) s = SIZE_MAX - 20;
#ifdef CPPTRACE_UNWIND_WITH_EXECINFO
        if(s > (1 << 20) && s < INT_MAX) s = (1 << 20) + (s & 255);   // needs a buffer of s pointers
#endif
        std::string in = "skip " + std::to_string(s) + " max " + std::to_string(d) + " stack";
        for(std::size_t k = 0; k < std::min<std::size_t>(m, 20); k++) in += " " + std::to_string(st[k].ip) + (st[k].intr ? "i" : "");
        at("scripted", in);
        env::stack = st; env::on = true; env::steps = 0; env::endcode = r.chance(1, 2) ? 0 : -(int)r.in(1, 10);
        tr got;
        try { got = cpptrace::detail::capture_frames(s, d); } catch(const std::exception& e) { env::on = false; fail("scripted", in, std::string("an exception escapes: ") + e.what()); continue; }
        env::on = false;
        tr want = oracle(st, s, std::min<std::size_t>(d, LIMIT));
        if(want.size()) nontrivial();
        ok(got == want, "scripted", in, "trace is " + show(got) + ", the frames behind the skipped ones are " + show(want));
#ifdef CPPTRACE_UNWIND_WITH_LIBUNWIND
        std::size_t n = r.chance(1, 5) ? r.below(2) : r.below(m + 3);
        tr buf(n + 1, 0xABABABABABABABABull);
        at("scripted-safe", in + " size " + std::to_string(n));
        env::on = true; std::size_t k = cpptrace::detail::safe_capture_frames(buf.data(), n, s, d); env::on = false;
        tr w2 = oracle(st, s, std::min(d, n));
        bool same = k == w2.size() && k <= n; for(std::size_t i = 0; same && i < k; i++) same = buf[i] == w2[i];
        ok(same && buf[n] == 0xABABABABABABABABull, "scripted-safe", in + " size " + std::to_string(n), "stored " + std::to_string(k) + " of " + show(buf) + ", expected " + show(w2));
#endif
    }
}
// ------------------------------------------------------------------ the real unwinder
static std::vector<std::uintptr_t> rets;       // return addresses of the running calls, innermost last
struct query { int kind; std::size_t s, d; bool hasd; };
static std::vector<query> queries; static std::vector<tr> answers;
template<typename T> static tr addrs(const T& t) { tr r; for(auto& f : t.frames) r.push_back(f.raw_address); return r; }
template<> tr addrs<cpptrace::raw_trace>(const cpptrace::raw_trace& t) { return t.frames; }
enum { RAW, RAWC, OBJ, OBJC, TRACE, TRACEC, SAFE, CRAW, COBJ, CTRACE, KINDS };
static const char* names[] = {"generate_raw_trace", "raw_trace::current", "generate_object_trace", "object_trace::current", "generate_trace", "stacktrace::current",
    "safe_generate_raw_trace", "ctrace_generate_raw_trace", "ctrace_generate_object_trace", "ctrace_generate_trace"};
template<typename T, typename F> static tr cget(T t, F f) { tr r; for(std::size_t i = 0; i < t.count; i++) r.push_back(t.frames[i].raw_address); f(&t); return r; }
__attribute__((noinline)) static void bottom() {
    rets.push_back((std::uintptr_t)__builtin_return_address(0));
    for(auto& q : queries) {
        tr a; auto s = q.s, d = q.d;
        switch(q.kind) {
            case RAW: a = addrs(q.hasd ? cpptrace::generate_raw_trace(s, d) : cpptrace::generate_raw_trace(s)); break;
            case RAWC: a = addrs(q.hasd ? cpptrace::raw_trace::current(s, d) : cpptrace::raw_trace::current(s)); break;
            case OBJ: a = addrs(q.hasd ? cpptrace::generate_object_trace(s, d) : cpptrace::generate_object_trace(s)); break;
            case OBJC: a = addrs(q.hasd ? cpptrace::object_trace::current(s, d) : cpptrace::object_trace::current(s)); break;
            case TRACE: a = addrs(q.hasd ? cpptrace::generate_trace(s, d) : cpptrace::generate_trace(s)); break;
            case TRACEC: a = addrs(q.hasd ? cpptrace::stacktrace::current(s, d) : cpptrace::stacktrace::current(s)); break;
            case SAFE: { tr b(64); std::size_t k = q.hasd ? cpptrace::safe_generate_raw_trace(b.data(), 64, s, d) : cpptrace::safe_generate_raw_trace(b.data(), 64, s); b.resize(k); a = b; break; }
            case CRAW: { auto t = ctrace_generate_raw_trace(s, d); a.assign(t.frames, t.frames + t.count); ctrace_free_raw_trace(&t); break; }
            case COBJ: a = cget(ctrace_generate_object_trace(s, d), ctrace_free_object_trace); break;
            case CTRACE: a = cget(ctrace_generate_trace(s, d), ctrace_free_stacktrace); break;
        }
        answers.push_back(a);
    }
    rets.push_back(0);
}
__attribute__((noinline)) static void rec(int n) {
    rets.push_back((std::uintptr_t)__builtin_return_address(0));
    if(n) rec(n - 1); else bottom();
    asm volatile("" ::: "memory");
}
__attribute__((noinline)) static void top(int n) { rets.clear(); answers.clear(); rec(n); asm volatile("" ::: "memory"); }
static void real(rng& r) {
    budget b(0.35, 4000);
    while(b.more()) {
        int depth = r.chance(1, 10) ? (int)r.below(300) : (int)r.below(20);
        queries.clear();
        // one full trace per kind first, then the same with skips and depths (same call sites: hasd decides the site)
        int kind = (int)r.below(KINDS); bool c = kind >= CRAW;
        if(kind == SAFE && !cpptrace::can_signal_safe_unwind()) kind = RAW;
        if((kind == TRACE || kind == TRACEC || kind == CTRACE) && depth > 4) depth = depth % 5;   // resolving runs a process
        queries.push_back({kind, 0, SIZE_MAX, true});
        if(!c) queries.push_back({kind, 0, SIZE_MAX, false});
        int more = (kind == TRACE || kind == TRACEC || kind == CTRACE) ? 3 : 12;
        for(int k = 0; k < more; k++) {
            bool h = c || r.chance(2, 3);
            std::size_t sk = r.chance(1, 8) ? std::min<std::size_t>(r.edgy(), SIZE_MAX - 20) : r.below(depth + 8);
#ifdef CPPTRACE_UNWIND_WITH_EXECINFO
            if(sk > (1 << 20) && sk < INT_MAX) sk = (1 << 20) + (sk & 255);
#endif
            queries.push_back({kind, sk, r.chance(1, 8) ? r.edgy() : r.below(depth + 8), h});
        }
        std::string in = std::string(names[kind]) + " below " + std::to_string(depth) + " calls";
        at("real", in);
        try { top(depth); } catch(const std::exception& e) { fail("real", in, std::string("an exception escapes: ") + e.what()); continue; }
        if(answers.size() != queries.size()) { fail("real", in, "not every trace returned"); continue; }
        nontrivial();
        rets.pop_back();
        std::size_t cap = kind == SAFE ? 64 : LIMIT;
        for(int base = 0; base < (c ? 1 : 2); base++) {
            const tr& full = answers[base];
            if(!ok(full.size() >= std::min(cap, rets.size() + 1), "real", in, "the full trace is shorter than the calls: " + show(full))) break;
            bool good = full[0] >= (std::uintptr_t)&bottom && full[0] < (std::uintptr_t)&bottom + 16384;
            ok(good, "real", in, "the innermost frame is not the caller: " + show(full));
            for(std::size_t k = 0; good && k < rets.size() && k + 1 < full.size(); k++) good = full[k + 1] == rets[rets.size() - 1 - k] - 1;
            ok(good, "real", in, "the frames are not the return addresses of the running calls, less one: " + show(full));
            for(std::size_t k = 0; k < queries.size(); k++) {
                auto& q = queries[k];
                if(q.hasd != (base == 0)) continue;
                // a trace that starts after 64 frames in a 64-frame buffer cannot be compared with the full one
                std::size_t d = q.hasd ? std::min(q.d, cap) : cap;
                tr want; for(std::size_t i = q.s; i < full.size() && want.size() < d; i++) want.push_back(full[i]);
                bool clipped = full.size() == cap;
                const tr& got = answers[k];
                bool same = clipped ? (got.size() >= want.size() && got.size() <= d && std::equal(want.begin(), want.end(), got.begin())) : got == want;
                ok(same, "real", in + " skip " + std::to_string(q.s) + (q.hasd ? " max " + std::to_string(q.d) : ""), "trace is " + show(got) + ", expected " + show(want));
            }
        }
    }
}
// an interrupted frame's address is the instruction itself
static tr hit; static std::uintptr_t where, sz; static cpptrace::frame_ptr sbuf[64]; static std::size_t sn;
static void handler(int, siginfo_t*, void* u) {
    auto* c = (ucontext_t*)u; where = (std::uintptr_t)c->uc_mcontext.gregs[REG_RIP];
    hit = cpptrace::generate_raw_trace(0).frames;
    if(cpptrace::can_signal_safe_unwind()) sn = cpptrace::safe_generate_raw_trace(sbuf, 64, 0);
    c->uc_mcontext.gregs[REG_RIP] += 2;
}
__attribute__((noinline)) static void faulting() { asm volatile("ud2" ::: "memory"); }
static void interrupted() {
#ifndef NOINTR
    struct sigaction sa{}; sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO; struct sigaction old;
    sigaction(SIGILL, &sa, &old);
    at("interrupted", "a trace captured in the handler of a fault");
    faulting();
    sigaction(SIGILL, &old, nullptr);
    ok(std::find(hit.begin(), hit.end(), where) != hit.end(), "interrupted", "fault", "the interrupted instruction " + num(where) + " is not in the trace " + show(hit));
    ok(std::find(hit.begin(), hit.end(), where - 1) == hit.end(), "interrupted", "fault", "the interrupted instruction's address was adjusted: " + show(hit));
    if(cpptrace::can_signal_safe_unwind()) {
        tr s(sbuf, sbuf + sn);
        ok(std::find(s.begin(), s.end(), where) != s.end(), "interrupted", "fault, safe", "the interrupted instruction " + num(where) + " is not in the trace " + show(s));
        ok(s.size() == hit.size(), "interrupted", "fault, safe", "safe and ordinary traces differ: " + show(s) + " and " + show(hit));
    }
#endif
}
static void wrap() {
    // a skip near SIZE_MAX: the library adds its own frames to it
    queries.clear(); queries.push_back({RAW, SIZE_MAX, SIZE_MAX, true});
    at("wrap", "generate_raw_trace(SIZE_MAX)");
    top(3);
    ok(answers[0].empty(), "wrap", "generate_raw_trace(SIZE_MAX)", "skipping every frame left " + show(answers[0]));
}
static void body() {
    rng r(S().seed);
    if(on("interrupted")) interrupted();
    if(on("wrap")) wrap();
    if(on("scripted") || on("scripted-safe")) scripted(r);
    if(on("real")) real(r);
}
HX_MAIN(body)
