#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
using namespace hx;
// a symbol as a demangler prints it, and the qualified name that is to be left
struct sym { std::string text, name; bool plain = true; };
struct gen {
    rng& r; int depth = 0; bool ms;      // ms: undname's spelling
    gen(rng& r) : r(r), ms(r.chance(1, 4)) {}
    bool one(unsigned n) { return r.chance(1, n); }
    template<typename T> std::string of(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
    std::string ident() { return of({"foo", "bar", "ns", "S", "x1", "_impl", "$_0", "operators", "newer", "constant", "delete_", "lambda", "type", "unnamed", "std", "v1", "Ab_9", "noexcept_", "decltypes", "co_await_", "nullptr_t", "autos"}); }
    std::string comma() { return ms || one(6) ? "," : ", "; }
    struct deeper { int& d; deeper(int& d) : d(d) { ++d; } ~deeper() { --d; } };
    std::string ptr() { switch(r.below(ms ? 6 : 9)) { case 0: return ms ? " *" : "*"; case 1: return ms ? " &" : "&"; case 2: return ms ? " &&" : "&&"; case 3: return ms ? " const &" : " const&"; case 4: return ms ? " const volatile &&" : " const volatile&&"; case 5: return ""; case 6: return "**"; case 7: return "* const*"; default: return " const"; } }
    std::string basic() { return of({"int", "char", "unsigned long", "void*", "float", "bool", "unsigned __int64", "auto", "signed char", "long long", "decltype(nullptr)"}); }
    std::string lambda_type() { return ms ? "`int main(void)'::`2'::<lambda_1>" : one(2) ? "main::'lambda'(" + types(2, true) + ")" : "main::{lambda(" + types(2, true) + ")#" + of({"1", "2", "17"}) + "}"; }
    std::string type() {
        deeper d(depth);
        std::string t;
        if(depth > 4) return basic();
        switch(r.below(8)) {
            case 0: t = ident() + "::" + ident(); break;
            case 1: case 2: t = ident() + targs(); break;
            case 3: t = ident() + targs() + "::" + ident(); break;
            case 4: if(one(3)) return type() + " (*)(" + types(2, true) + ")"; if(one(3)) return type() + " (" + types(2, true) + ")"; if(one(3)) return basic() + " (&) [3]"; if(one(2)) return basic() + " " + ident() + "::*"; return basic() + " [16]"; break;
            case 5: if(one(3)) return lambda_type(); t = basic(); break;
            default: t = basic();
        }
        return t + ptr();
    }
    std::string types(unsigned most, bool maybe_void) {
        unsigned n = (unsigned)r.below(most + 1);
        if(n == 0) return maybe_void && ms ? "void" : "";
        std::string s;
        for(unsigned i = 0; i < n; i++) { if(i) s += comma(); s += type(); }
        return s;
    }
    std::string nttp() {
        switch(r.below(ms ? 7 : 13)) {
            case 0: return std::to_string(r.below(300)); case 1: return "-" + std::to_string(r.below(9)); case 2: return of({"true", "false", "(char)97", "(short)3", "12ul", "7u"});
            case 3: return "&" + ident() + "::" + ident(); case 4: return "0.500000"; case 5: return "fixed_string<13>{char{102,111,98,96,39,34,0}}";
            case 6: return "&" + std::string(ms ? "bool " : "") + ident() + "::operator" + of({">", ">>", ">>=", "<=", "<<=", "<", "<=>", "->", "->*", "()", "[]", "+", ">="}) + "(" + ident() + (ms ? " const &" : " const&") + ")";
            case 7: return "0x1p-1"; case 8: return "0x1.8p+3f"; case 9: return "fixed_string<12ul>{\"" + of({"foobar`'\\\"bar", "a", "", "\\\\", "x)>", "<<", "it's", "\\\"", "{[("}) + "\"}";
            case 10: return "(" + of({"S > S", "1<2", "(bool)1", "3>>1", "a->b"}) + ")"; case 11: return "&void " + ident() + "<20" + comma() + "true>()"; default: return "'" + of({"a", "\\n", "\\'", "\\\\", "\"", "<", "("}) + "'";
        }
    }
    std::string targs() {
        deeper d(depth);
        if(one(12)) return "<>";
        std::string s = "<";
        unsigned n = 1 + (unsigned)r.below(3);
        for(unsigned i = 0; i < n; i++) { if(i) s += comma(); s += one(4) ? nttp() : type(); }
        if(s.back() == '>' && (ms || one(2))) s += ' ';
        return s + ">";
    }
    std::string params() { return "(" + types(3, true) + ")"; }
    std::string quals() { std::string s; if(one(3)) s += ms ? "const" : " const"; if(one(8)) s += " volatile"; if(one(8)) s += of({" &", " &&"}); return s; }
    std::string tags() { std::string s; if(!ms && one(8)) { s += "[abi:cxx11]"; if(one(3)) s += "[abi:v2]"; } return s; }
    std::string ret() {
        switch(r.below(9)) {
            case 0: return "decltype(" + of({"declval<int>() + declval<int>()", "int{} + int{}", "declval<int>() < declval<int>()", "(1) > (2)", "f(x)[0]"}) + ") "; case 1: return "decltype (((declval<int>)())+((declval<int>)())) ";
            case 2: return of({"static ", "static void ", "int const && ", "unsigned __int64 ", "virtual "}).substr(0, 99); case 3: return "std::vector" + targs() + "::iterator ";
            case 4: return "std::enable_if" + targs() + "::type ";
            default: return type_plain() + " ";
        }
    }
    std::string type_plain() { std::string t = one(2) ? basic() : ident() + (one(2) ? targs() : ""); return t + ptr(); }
    // a scope's component that is a name
    sym plain_comp() { std::string i = ident(); sym s; s.name = i; s.text = i + tags(); if(one(3)) s.text += targs(); return s; }
    sym lambda(bool) {
        sym s; s.plain = false;
        if(ms) { s.text = s.name = of({"<lambda_1>", "<lambda_2>", "<lambda_77>"}); return s; }
        std::string t = one(4) ? "<typename $T0>" : "";
        switch(r.below(4)) {
            case 0: { std::string n = of({"lambda", "lambda0", "lambda12"}); s.text = "'" + n + "'" + t + params(); s.name = "<" + n + ">"; break; }
            case 1: { std::string n = of({"unnamed", "unnamed0"}); s.text = "'" + n + "'"; s.name = "<" + n + ">"; break; }
            case 2: { std::string n = of({"1", "2", "13"}); s.text = "{unnamed type#" + n + "}"; s.name = "<unnamed type#" + n + ">"; break; }
            default: { std::string n = of({"1", "2", "13"}); s.text = "{lambda" + t + params() + "#" + n + "}"; s.name = "<lambda#" + n + ">"; }
        }
        return s;
    }
    sym last() {
        sym s;
        switch(r.below(12)) {
            case 0: { std::string i = ident(); s.text = s.name = "~" + i; if(one(3)) s.text += targs(); return s; }
            case 1: case 2: { std::string o = of({"*", "+", "-", ">", "<<", ">>", "()", "[]", "->", "->*", "==", "!=", "<=", ">=", "<=>", "=", "+=", "<<=", ">>=", "++", "--", "!", "~", ",", "&", "&&", "||", "|", "^", "%", "/", "<"}); s.text = s.name = "operator" + o; if(one(4)) { if(o == "<" || o == "<<" || o == "->" || one(2)) s.text += " "; s.text += targs(); } return s; }
            case 3: s.text = s.name = of({"operator new", "operator new[]", "operator delete", "operator delete[]", "operator co_await"}); return s;
            case 4: { std::string i = of({"_w", "_kg", "s"}); s.name = "operator\"\"" + i; s.text = of({"operator\"\" ", "operator \"\" ", "operator\"\""}) + i; s.plain = false; return s; }
            case 5: if(ms) break; else { s.plain = false; switch(r.below(6)) {
                case 0: s.text = s.name = of({"operator int", "operator void*", "operator T&", "operator T&&", "operator auto", "operator decltype(auto)", "operator decltype(nullptr)", "operator ns::Z", "operator unsigned long", "operator char**"}); break;
                case 1: s.text = "operator X" + targs(); s.name = "operator X"; break;
                case 2: s.text = "operator ns::Y" + targs() + targs(); s.name = "operator ns::Y"; break;
                case 3: s.text = "operator int Y" + targs() + "::*"; s.name = "operator int Y::*"; break;
                case 4: s.text = "operator std::vector" + targs() + " X::*"; s.name = "operator std::vector X::*"; break;
                default: s.text = "operator main::{lambda()#1}<main::{lambda()#1}>"; s.name = "operator main::<lambda#1>"; } return s; }
            default: ;
        }
        return plain_comp();
    }
    // a function's qualified name, without its parameters
    sym qualified(bool& needs_ret) {
        deeper d(depth);
        sym s; needs_ret = false;
        auto join = [&](const sym& x) { s.text += x.text; s.name += x.name; s.plain = s.plain && x.plain; };
        auto sep = [&] { s.text += "::"; s.name += "::"; };
        if(one(8)) { bool q = ms || one(3); s.text = q ? "`anonymous namespace'" : "(anonymous namespace)"; s.name = "(anonymous namespace)"; sep(); }
        else if(ms && depth < 4 && one(4)) {
            gen g(r); g.ms = true; g.depth = depth + 1;
            sym in = g.function();
            s.text = "`" + in.text + (in.text.back() == '\'' ? " " : one(2) ? " " : "") + "'::`2'"; s.name = "`" + in.name + "'::`2'"; s.plain = false; sep();
            if(one(2)) { join(lambda(true)); sep(); s.text += "operator()"; s.name += "operator()"; return s; }
        }
        for(unsigned n = (unsigned)r.below(4); n--;) { join(plain_comp()); if(!ms && one(10)) { s.text += params() + quals(); s.plain = s.plain; } sep(); }
        if(!ms && one(6)) {
            join(plain_comp()); s.text += params() + quals(); sep(); join(lambda(false)); sep();
            switch(r.below(3)) { case 0: join(plain_comp()); return s; default: s.text += "operator()"; s.name += "operator()"; if(one(3)) s.text += targs(); return s; }
        }
        sym l = last(); join(l);
        return s;
    }
    sym function() {
        bool nr; sym q = qualified(nr);
        bool conv = q.text.find("operator") != std::string::npos;
        sym s; s.name = q.name; s.plain = q.plain;
        std::string p = params();
        if(!conv && one(10)) {
            // returns a function pointer
            std::string inner = q.text + p;
            unsigned n = 1 + (unsigned)r.below(2);
            for(unsigned i = 0; i < n; i++) inner = std::string("(") + (ms ? "__cdecl" : "") + of({"*", "**", "&"}) + (one(3) ? " " : "") + inner + ")" + "(" + types(2, true) + ")";
            s.text = type_plain() + " " + inner;
            return s;
        }
        if(!conv ? one(2) : one(2) && q.text.find("operator ") == std::string::npos) s.text = ret();
        s.text += q.text + p + quals();
        if(depth == 0 && !ms) { if(one(12)) s.text += of({" [clone .isra.0]", " [clone .cold]", " (.isra.0)", " [clone .part.0] [clone .cold]"}); if(one(20)) s.text += " noexcept"; }
        return s;
    }
};
static void check(const char* g, const std::string& text, const std::string& want) {
    at(g, quote(text));
    try { eq(esc(cpptrace::prune_symbol(text), 1 << 20), esc(want, 1 << 20), g, quote(text), "the qualified name"); nontrivial(); }
    catch(...) { fail(g, quote(text), "an exception"); }
}
static void body() {
    rng r(S().seed);
    budget b(0.8, 400000);
    while(b.more()) { gen g(r); sym s = g.function(); check("grammar", s.text, s.name); if(s.plain) check("plain", s.name, s.name); }
    // every operator, alone and in every position
    static const std::vector<std::string> ops{"*", "+", "-", "<", ">", "<<", ">>", "()", "[]", "->", "->*", "==", "!=", "<=", ">=", "<=>", "=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "++", "--", "!", "~", ",", "&", "&&", "||", "|", "^", "%", "/", " new", " new[]", " delete", " delete[]", " co_await", "\"\"_w", " int", " ns::T*", " T&&", " decltype(auto)"};
    for(auto& o : ops) for(const char* pre : {"", "S::", "ns::S::", "(anonymous namespace)::"}) {
        std::string n = std::string(pre) + "operator" + o;
        check("operators", n + "(int) const", n); check("operators", n + "()", n); check("operators", n, n);
        check("operators", n + "(S<int>)::{lambda()#1}::operator()() const", n + "::<lambda#1>::operator()");
        if(o[0] != ' ') check("operators", "void " + n + " <int>(S<int> const&)", n);
        if(o[0] != ' ' && o[0] != '"' && o != "<<" && o != "->*" ) check("operators", "void f<&" + n + "(S const&), bar>()::test", "f::test");
    }
    // a function that returns a pointer to member function (a listed finding)
    at("return-type", "memptr"); eq(cpptrace::prune_symbol("int (S::*f())(int)"), std::string("f"), "return-type", "memptr", "int (S::*f())(int)");
    static const std::vector<std::string> lits{"foo", "ns::foo", "S::S", "S::~S", "a::b::c::d", "(anonymous namespace)::x", "x::(anonymous namespace)::y"};
    for(auto& l : lits) { check("plain", l, l); check("plain", l + "()", l); check("plain", "int " + l + "(int)", l); check("plain", l + "<int>", l); }
}
HX_MAIN(body)
