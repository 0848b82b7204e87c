#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
using namespace hx;
// the text in a buffer of exactly its size: reads behind its end are caught
static std::string tight(const std::string& s) { std::string t; t.reserve(s.size()); t = s; t.shrink_to_fit(); return t; }
static void ask(const char* g, const std::string& text) {
    std::string s = tight(text);
    at(g, quote(text));
    try {
        std::string r = cpptrace::prune_symbol(s);
        ok(s == text, g, quote(text), "the text given stays");
        if(!text.empty()) ok(!r.empty(), g, quote(text), "an answer that is not empty");
        else ok(r.empty(), g, quote(text), "nothing for nothing");
    } catch(const std::exception& e) { fail(g, quote(text), std::string("an exception: ") + e.what()); }
    catch(...) { fail(g, quote(text), "an exception"); }
}
// text that is no symbol comes back as it is
static void same(const char* g, const std::string& text) {
    std::string s = tight(text);
    at(g, quote(text));
    try { eq(esc(cpptrace::prune_symbol(s), 1 << 20), esc(text, 1 << 20), g, quote(text), "unparsable text unchanged"); nontrivial(); }
    catch(...) { fail(g, quote(text), "an exception"); }
}
static const std::vector<std::string> words{"foo", "bar", "ns", "a", "_x", "$y", "operator", "new", "delete", "co_await", "decltype", "auto", "nullptr", "const", "volatile", "noexcept", "lambda", "unnamed", "type", "__cdecl",
    "__thiscall", "lambda_1", "int", "void", "std", "(anonymous namespace)", "`anonymous namespace'", "\"\"", "'lambda'", "'unnamed0'", "'", "\"", "`", "``", "''", "\\", "\\'", "\\\"", "\\\\", "\"a\\n\"", "'\\''", "'x'", "1", "1'000", "0x1p-3", "3.5f", "#1", "#",
    "(", ")", "[", "]", "{", "}", "<", ">", "<<", ">>", ">>=", "<=>", "->", "->*", "...", ".*", "::", ":", "~", "&", "&&", "*", "=", "==", ",", ";", "%", "%>", "<:", "!", "?", " ", "\t", "\n", "\xc3\xa9", "\xff", "\x80", "@", "\x01"};
static void body() {
    rng r(S().seed);
    static const std::vector<std::string> seeds{"foo::bar(int, char)", "std::vector<int, std::allocator<int> >::push_back(int const&)", "ns::S::operator()(int) const", "void foo<&S::operator>(S const&)>()::test",
        "main::{lambda(int)#1}::operator()<int>(int) const", "`int main(void)'::`2'::<lambda_1>::operator()(void)const ", "void (*foo(int))(char)", "A::operator new[](unsigned long)", "A::~A()", "operator\"\" _x(char const*)", "A::operator std::string()",
        "(anonymous namespace)::f(int*&&)", "main::'lambda'()::operator()() const", "int (__cdecl*ns::g(void))(int)", "A::operator decltype(nullptr)()", "foo[abi:cxx11]<(int)3, 'x', \"s\">(int [3])", "main::{unnamed type#1}::f() [clone .isra.0]"};
    budget b(0.5, 400000);
    while(b.more()) {
        std::string s;
        if(r.chance(1, 3)) { s = r.pick(seeds); for(unsigned k = 0; k <= r.below(4) && !s.empty(); k++) switch(r.below(4)) {
            case 0: s.erase(r.below(s.size()), 1 + r.below(3)); break; case 1: s.insert(r.below(s.size() + 1), r.pick(words)); break; case 2: s = s.substr(0, r.below(s.size() + 1)); break; default: s = s.substr(r.below(s.size())); } }
        else { unsigned n = (unsigned)r.below(r.chance(1, 8) ? 60 : 9); for(unsigned k = 0; k < n; k++) { s += r.pick(words); if(r.chance(1, 4)) s += ' '; } }
        if(r.chance(1, 3)) s = std::string(16 + r.below(4), 'q') + s;    // long enough for the heap
        ask("tokens", s);
        nontrivial();
    }
    budget b2(0.25, 400000);
    while(b2.more()) {
        std::string s;
        unsigned n = (unsigned)r.below(40);
        bool small = r.chance(1, 2);
        for(unsigned k = 0; k < n; k++) s += small ? "\"'\\`a1<>(){}[]:*& \n~#"[r.below(22)] : (char)r.below(256);
        ask("bytes", s);
        nontrivial();
    }
    budget b3(0.1, 100000);
    while(b3.more()) {
        // quotes and strings: every position of escapes and of the end
        std::string s(r.below(30), 'z');
        char q = r.chance(1, 2) ? '"' : '\'';
        s += q;
        for(unsigned k = 0; k < r.below(20); k++) s += "\\\\\\\"'nx0"[r.below(8)];
        if(r.chance(1, 3)) s += q;
        if(r.chance(1, 3)) s += "::foo(int)";
        ask("quotes", s);
        nontrivial();
    }
    // what cannot be parsed: literals, unbalanced closers and lone punctuation where a name is expected
    for(const char* t : {"\"abc", "'abc", "\"a\\", "'\\", "`abc", "``a'", "`", "'", "\"", "1", "123abc", "foo::~", "~", ")", "]", "}", ">", "foo)", "foo::)", ",", "@", "foo @", "{foo}", "{lambda()}", "{lambda()#1", "{lambda()#x}", "{unnamed}", "{unnamed type}",
            "<foo>", "<lambda_1", "foo 'x'", "foo 3", "operator decltype", "operator decltype(int)", "operator decltype(auto", "operator\"\"", "operator\"\" 1", "operator(", "operator[", "operator(]", "operator new[", "operator new[3]", "(*", "(*)", "(*foo", "(&&", "(__cdecl*)", "(__cdecl*x",
            "a \"b", "foo::`bar", "foo<\"", "foo('", "foo<`a>", "operator[)", "foo \xff"})
        same("unparsable", t), same("unparsable", std::string("  ") + t), t[0] != '{' && t[0] != '<' ? same("unparsable", std::string("aaaaaaaaaaaaaaaaaaaaaaaaaaa::bbb ") + t + "  ") : void();
    // deep nesting, within what the stack allows
    for(unsigned n : {10u, 100u, 300u}) {
        auto rep = [&](const char* x) { std::string t; for(unsigned k = 0; k < n; k++) t += x; return t; };
        for(const std::string& t : {"f" + rep("<") + rep(">"), "f" + rep("<(") + rep(")>"), "f" + rep("<"), rep("(*") + "f" + rep(")"), rep("(*"), rep("`") + "f" + rep("'"), rep("operator "), rep("operator "), rep("f::"), rep("f "), rep("("), rep("~"), rep("{lambda"), "f(" + rep("operator<"), rep("<(") , rep(">>"), "f<" + rep(">>"), rep("const "), "f" + rep(" const"), rep("*"), "f" + rep("*&")})
            ask("deep", t);
        nontrivial();
    }
}
HX_MAIN(body)
