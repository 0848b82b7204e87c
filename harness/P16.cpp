#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <algorithm>
#include <memory>
#include "symbols/symbols_with_addr2line.cpp"
using namespace hx;
using cpptrace::stacktrace_frame; using cpptrace::object_frame; using cpptrace::nullable;
typedef nullable<std::uint32_t> nu;
static std::string show(const stacktrace_frame& f) {
    return "{" + f.symbol + "|" + f.filename + "|" + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + "|" + (f.column.has_value() ? "col" : "-") + "|" + num(f.raw_address) + "|" + num(f.object_address) + "|" + (f.is_inline ? "i" : "") + "}";
}
struct want { bool rejected = false; bool either = false; bool anyline = false; stacktrace_frame f; };
// the format, from its description: <symbol> at <path>:<line>, ?? for an unknown path, ? for an unknown line
static want expect(const std::string& l, const stacktrace_frame& before) {
    want w; w.f = before;
    std::string sym; std::size_t fs;
    std::size_t at = std::string::npos;
    for(std::size_t i = 0; i + 4 <= l.size(); i++) if(l[i] == ' ' && l[i+1] == 'a' && l[i+2] == 't' && l[i+3] == ' ') { at = i; break; }
    if(at != std::string::npos) { sym.assign(l.begin(), l.begin() + at); fs = at + 4; }
    else if(l.size() >= 3 && l[0] == '?' && l[1] == '?' && l[2] == ' ') { sym = "??"; fs = 3; }
    else { w.rejected = true; return w; }
    std::size_t colon = std::string::npos;
    for(std::size_t i = l.size(); i-- > 0;) if(l[i] == ':') { colon = i; break; }
    if(colon == std::string::npos || colon < fs) { w.rejected = true; return w; }
    std::string file(l.begin() + fs, l.begin() + colon), n(l.begin() + colon + 1, l.end());
    if(n != "?") {
        std::size_t d = 0; while(d < n.size() && n[d] >= '0' && n[d] <= '9') d++;
        if(d == 0) {
            if(!n.empty() && (n[0] == '-' || n[0] == '+' || std::isspace((unsigned char)n[0]))) { w.either = w.anyline = true; }
            else { w.rejected = true; return w; }
        } else {
            unsigned long long v = 0; bool big = false;
            for(std::size_t i = 0; i < d; i++) { v = v * 10 + (n[i] - '0'); if(v > 0xFFFFFFFFull) { big = true; break; } }
            if(big) { w.rejected = true; return w; }
            if(v > 0x7FFFFFFF) w.either = true;
            if(d != n.size() && n.compare(d, 15, " (discriminator ") != 0 && n[d] != ' ') w.either = true;
            w.f.line = (std::uint32_t)v;
        }
    }
    if(!file.empty() && file != "??") w.f.filename = file;
    if(!sym.empty()) w.f.symbol = sym;
    return w;
}
static std::string word(rng& r, const char* cs, std::size_t n) { std::string s; std::size_t k = r.below(n); std::size_t m = std::strlen(cs); for(std::size_t i = 0; i < k; i++) s += cs[r.below(m)]; return s; }
static std::string line(rng& r) {
    static const char* syms[] = {"main", "??", "", "ns::f(int, char const*)", "operator()(int) const", "f<at>::g", "std::at", "a at", "(anonymous namespace)::x", "at", " ", "f[abi:cxx11](int)", "operator :?"};
    static const char* paths[] = {"/src/a.cpp", "??", "", "/x at y/z.c", "a:b.cpp", "C:/x/y.cpp", "/p q/r.cpp", "/a:1:b", ":", "?", "?? ??", "/very/" };
    static const char* nums[] = {"1", "0", "?", "??", "", "12 (discriminator 3)", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999", "-5", "+7", " 9", "12abc", "abc", "0x10", "007", "?1", "3:4"};
    std::string s;
    switch(r.below(6)) {
        case 0: case 1: case 2: s = std::string(syms[r.below(13)]) + " at " + paths[r.below(12)] + ":" + nums[r.below(20)]; break;
        case 3: s = std::string(syms[r.below(13)]) + (r.chance(1, 2) ? " " : " at") + paths[r.below(12)] + (r.chance(2, 3) ? ":" : "") + nums[r.below(20)]; break;
        case 4: s = word(r, "?: at19/x\n\t", 14); break;
        default: s = word(r, "abcdefgh:<>()~ ,*&", 20) + " at " + word(r, "/abc.:? ", 16) + ":" + std::to_string(r.below(100000)); break;
    }
    if(r.chance(1, 4) && !s.empty()) { std::size_t p = r.below(s.size()); switch(r.below(3)) { case 0: s.erase(p, 1); break; case 1: s.insert(p, 1, "?: at"[r.below(5)]); break; default: s[p] = "?: at0x"[r.below(7)]; } }
    return s;
}
static void one(const std::string& l, rng& r) {
    const std::size_t n = 1 + r.below(4), k = r.below(n);
    std::vector<object_frame> of(n); std::vector<stacktrace_frame> tr(n);
    cpptrace::detail::collated_vec v;
    for(std::size_t i = 0; i < n; i++) {
        of[i].raw_address = 100 + i; of[i].object_address = i; of[i].object_path = "obj";
        tr[i] = stacktrace_frame{100 + i, i, r.chance(1, 2) ? nu::null() : nu{77}, nu::null(), "obj", r.chance(1, 2) ? "" : "old", false};
    }
    for(std::size_t i = 0; i < n; i++) v.emplace_back(of[i], tr[i]);
    std::vector<stacktrace_frame> before = tr;
    std::string key = "'" + l + "'";
    at("line", key);
    bool thrown = false;
    try { cpptrace::detail::addr2line::update_trace(l, k, v); } catch(const std::exception&) { thrown = true; }
    want w = expect(l, before[k]);
    for(std::size_t i = 0; i < n; i++) if(i != k) eq(show(tr[i]), show(before[i]), "line", key, "another frame");
    bool same = show(tr[k]) == show(before[k]);
    if(thrown) { ok(same, "line", key, "a rejected line yields no fields"); }
    if(w.rejected) { ok(same, "line", key, "a malformed line yields no fields: " + show(tr[k])); return; }
    if(w.either && (thrown || same)) return;
    if(w.anyline) w.f.line = tr[k].line;
    ok(!thrown, "line", key, "a well-formed line is accepted");
    if(!thrown) { eq(show(tr[k]), show(w.f), "line", key, "fields"); nontrivial(); }
}
static void body() {
    rng r(S().seed);
    for(const char* l : {"main at /a/b.cpp:12", "?? ??:0", "?? ??:?", "?? at ??:?", "f at ??:0", "f at ??:?", "f() at /x.cpp:?", "_start :?", "?? ", "?? :", "", " at ", " at :", "??", "?", ":", "x at y", "?? ?:1", "?? :?", " at :1", "at /x:1"}) one(l, r);
    budget b(1.0, 3000000);
    while(b.more()) one(line(r), r);
}
HX_MAIN(body)
