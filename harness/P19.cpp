#include "hx.hpp"
#include <cxxabi.h>
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include "utils/utils.hpp"
#include "demangle/demangle.hpp"
// the demangler is the environment: it records what it is asked and gives a scripted answer (or the real one)
namespace fake {
    static bool scripted = false, answer_null = false;
    static int status = 0, asked = 0, live = 0;
    static std::string last, answer;
}
namespace __cxxabiv1 {
    static char* scripted_demangle(const char* m, char* buf, std::size_t* n, int* status) {
        fake::asked++; fake::last = m;
        if(!fake::scripted) return __cxa_demangle(m, buf, n, status);
        if(status) *status = fake::answer_null ? (fake::status ? fake::status : -2) : 0;
        return fake::answer_null ? nullptr : strdup(fake::answer.c_str());
    }
}
#define __cxa_demangle scripted_demangle
#include "demangle/demangle_with_cxxabi.cpp"
#undef __cxa_demangle
using namespace hx;
using cpptrace::detail::demangle;

static bool has_prefix(const std::string& s) { return s.compare(0, 2, "_Z") == 0 || s.compare(0, 3, "__Z") == 0; }
static std::string spec(const std::string& name, bool check) {
    if(check && !has_prefix(name)) return name;
    std::size_t sp = name.find(' ');
    std::string head = name.substr(0, sp), rest = sp == std::string::npos ? "" : name.substr(sp);
    if(name.compare(0, 3, "__Z") == 0) head.erase(0, 1);
    if(fake::scripted) return fake::answer_null ? name : fake::answer + rest;
    int st; char* d = abi::__cxa_demangle(head.c_str(), nullptr, nullptr, &st);
    std::string r = d ? d + rest : name;
    std::free(d);
    return r;
}
template<typename A, typename B> struct tmpl { struct inner {}; };
static const std::vector<std::string> real_names{
    "_Z1fv", "_ZN3foo3barEi", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_ZNKSt8functionIFvvEEclEv", "_ZN12_GLOBAL__N_11gEv", "_ZTV3foo", "_ZTISt9exception",
    "_ZZ4mainENKUlvE_clEv", "_ZN8cpptrace2v18demangleERKSs", "_ZSt4cout", "_Znwm", "_ZdlPv", "_ZN1AC1Ev", "_ZN1AD0Ev", "_ZNK1AcvbEv", "_ZN1AplERKS_", "_Z3fooILi3EEvv",
    "_Z1fIJidEEvDpT_", "main", "printf", "i", "PKc", "St6vectorIiSaIiEE", "v", "x", "_ZN3fooE", "_Z", "__Z", "__Z1fv", "__ZN3foo3barEi", "___Z1fv", "_ZN3foo3barEi.cold", "_Z1fv.part.0", "_Z1fv@plt", ""};
static void body() {
    rng r(S().seed);
    static const std::vector<std::string> tails{"", "", "", " [clone .cold]", " ", "  x", " + 5", " _Z1gv", " [inlined]"};
    budget b(0.5, 120000);
    while(b.more()) {
        fake::scripted = false;
        std::string n = r.pick(real_names);
        if(r.chance(1, 6)) n = "_" + n;
        if(r.chance(1, 4) && !n.empty()) for(unsigned k = 0; k <= r.below(3); k++) n[r.below(n.size())] = "_ZNKSt0123456789EvijIL"[r.below(22)];
        if(r.chance(1, 8)) n = n.substr(0, r.below(n.size() + 1));
        n += r.pick(tails);
        if(r.chance(1, 20)) n = " " + n;
        for(int chk = 0; chk < 2; chk++) {
            std::string key = quote(n) + (chk ? " (prefix required)" : "");
            at("real", key);
            eq(demangle(n, chk), spec(n, chk), "real", key, "demangled name");
        }
        at("public", quote(n));
        eq(cpptrace::demangle(n), spec(n, false), "public", quote(n), "cpptrace::demangle");
        nontrivial();
    }
    budget b2(0.35, 120000);
    while(b2.more()) {
        fake::scripted = true;
        fake::answer_null = r.chance(1, 3); fake::status = -1 - (int)r.below(3);
        fake::answer = r.chance(1, 10) ? "" : std::string(1 + r.below(60), (char)('a' + r.below(26)));
        std::string n; std::size_t k = r.below(12); for(std::size_t i = 0; i < k; i++) n += "_Z a1"[r.below(5)];
        if(r.chance(1, 2)) n = "_Z" + n; else if(r.chance(1, 3)) n = "__Z" + n;
        for(int chk = 0; chk < 2; chk++) {
            std::string key = quote(n) + (chk ? " (prefix required)" : "") + (fake::answer_null ? " -> refused" : " -> " + quote(fake::answer));
            fake::asked = 0; fake::last.clear();
            at("any-demangler", key);
            eq(demangle(n, chk), spec(n, chk), "any-demangler", key, "demangled name");
            if(fake::asked) {
                std::string head = n.substr(0, n.find(' ')); if(n.compare(0, 3, "__Z") == 0) head.erase(0, 1);
                eq(fake::last, head, "any-demangler", key, "the name asked about");
            }
            ok(fake::asked <= 1, "any-demangler", key, "asked at most once");
        }
        nontrivial();
    }
    fake::scripted = false;
    {
        // resolving a trace: symbols without a mangling prefix are left alone
        at("resolve", "this function");
        auto t = cpptrace::generate_raw_trace().resolve();
        for(auto& f : t.frames) ok(f.symbol.compare(0, 2, "_Z") != 0 || demangle(f.symbol, true) == f.symbol, "resolve", f.symbol, "demangled when resolved");
    }
}
HX_MAIN(body)
