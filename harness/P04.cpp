#include "hx.hpp"
#include "utils/microfmt.hpp"
#include <iostream>
using namespace hx;
namespace mf = cpptrace::microfmt;
typedef mf::detail::format_value FV;

static std::string digits(std::uint64_t v, unsigned base, bool upper) {
    const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    std::string s;
    do { s.insert(s.begin(), d[v % base]); v /= base; } while(v);
    return s;
}
struct arg {
    enum kind { i64, u64, chr, str, view, cstr } k;
    std::int64_t i = 0; std::uint64_t u = 0; char c = 0; std::string s;
    FV fv() const {
        switch(k) {
            case i64: return FV((long)i);
            case u64: return FV((unsigned long)u);
            case chr: return FV(c);
            case str: return FV(s);
            case view: return FV(cpptrace::detail::string_view(s.data(), s.size()));
            default: return FV(s.c_str());
        }
    }
    int as_int() const { return k == i64 ? (int)i : k == u64 ? (int)u : 0; }
    std::string plain(char base) const {
        unsigned b = base == 'h' || base == 'H' ? 16 : base == 'o' ? 8 : base == 'b' ? 2 : 10;
        switch(k) {
            case i64: return (i < 0 ? "-" : "") + digits(i < 0 ? 0 - (std::uint64_t)i : (std::uint64_t)i, b, base == 'H');
            case u64: return digits(u, b, base == 'H');
            case chr: return std::string(1, c);
            default: return s;
        }
    }
    std::string show() const { return k == i64 ? "i" + std::to_string(i) : k == u64 ? "u" + std::to_string(u) : k == chr ? quote(std::string(1, c)) : quote(s); }
};
static arg rarg(rng& r) {
    arg a; a.k = (arg::kind)r.below(6);
    a.i = r.chance(1, 12) ? INT64_MIN : r.chance(1, 3) ? (std::int64_t)r.below(20) - 10 : (std::int64_t)r.edgy();
    a.u = r.edgy(); if(r.chance(1, 4)) a.u = (1ull << r.below(64)) - r.below(2);
    a.c = (char)('a' + r.below(26));
    std::size_t n = r.below(6); for(std::size_t i = 0; i < n; i++) a.s += "xyz{}"[r.below(5)];
    return a;
}
static std::string run(const std::string& f, const std::vector<arg>& a) {
    // the text ends exactly at the end of a heap block, so that a read behind it is caught
    std::unique_ptr<char[]> p(new char[f.size()]);
    std::copy(f.begin(), f.end(), p.get());
    std::string out;
    auto go = [&](std::initializer_list<FV> l) { mf::detail::format(std::back_inserter(out), (const char*)p.get(), (const char*)p.get() + f.size(), l); };
    switch(a.size()) {
        case 0: go({}); break;
        case 1: go({a[0].fv()}); break;
        case 2: go({a[0].fv(), a[1].fv()}); break;
        case 3: go({a[0].fv(), a[1].fv(), a[2].fv()}); break;
        default: go({a[0].fv(), a[1].fv(), a[2].fv(), a[3].fv()}); break;
    }
    return out;
}
static void body() {
    rng r(S().seed);
    budget b(0.75, 400000);
    while(b.more()) {
        std::vector<arg> a; std::size_t na = r.below(5);
        for(std::size_t i = 0; i < na; i++) a.push_back(rarg(r));
        std::string f, want; std::size_t ai = 0;
        int parts = (int)r.below(7);
        bool open = false;   // the last part must be the end of the text
        for(int p = 0; p < parts && !open; p++) {
            switch(r.below(6)) {
                case 0: { std::string t; std::size_t n = 1 + r.below(4); for(std::size_t i = 0; i < n; i++) t += r.chance(1, 8) ? (char)(128 + r.below(128)) : "ab:<> 19dh"[r.below(10)]; f += t; want += t; break; }
                case 1: f += "{{"; want += "{"; break;
                case 2: f += "}}"; want += "}"; break;
                case 3: {
                    // malformed: copied as it is
                    static const std::vector<std::string> bad{"{x}", "{ }", "{5x}", "{<x}", "{:abc}", "{>7:abc}", "{-1}", "{<<}", "{d}", "}a", "{:dd d}"};
                    static const std::vector<std::string> tail{"{", "{<", "{5", "{<5", "{:", "{>:", "{:d", "{:0h", "}", "{3:x"};
                    if(r.chance(1, 2)) { const std::string& t = r.pick(bad); f += t; want += t; }
                    else { const std::string& t = r.pick(tail); f += t; want += t; open = true; }
                    break;
                }
                default: {
                    std::string ph = "{"; bool right = false; std::size_t width = 0; char fill = ' ', base = 'd';
                    unsigned wk = (unsigned)r.below(4);   // "{{}..." would be a doubled brace: a variable width needs an alignment
                    if(wk == 2 || r.chance(1, 2)) { right = r.chance(1, 2); ph += right ? '>' : '<'; }
                    if(wk == 1) { width = r.chance(1, 6) ? r.below(90) : r.below(14); ph += std::to_string(width); }
                    if(wk == 2) {
                        ph += "{}";
                        if(ai < a.size()) {
                            arg& w = a[ai]; if(r.chance(3, 4) || w.as_int() > 200) { w.k = r.chance(1, 2) ? arg::i64 : arg::u64; w.i = (std::int64_t)r.below(20) - 4; w.u = r.below(16); }
                            int n = w.as_int(); width = n < 0 ? 0 : (std::size_t)n; ai++;
                        }
                    }
                    switch(r.below(5)) {
                        case 0: { base = "dhHob"[r.below(5)]; ph += std::string(":") + base; break; }
                        case 1: { fill = "*0 x<>:{"[r.below(8)]; base = "dhHob"[r.below(5)]; ph += std::string(":") + fill + base; break; }
                        case 2: { fill = "*0 x<>:{"[r.below(8)]; ph += std::string(":") + fill; break; }
                        case 3: ph += ":"; break;
                        default: break;
                    }
                    ph += "}";
                    f += ph;
                    if(ai < a.size()) {
                        std::string t = a[ai++].plain(base);
                        if(t.size() < width) t = right ? std::string(width - t.size(), fill) + t : t + std::string(width - t.size(), fill);
                        want += t;
                    }
                    nontrivial();
                }
            }
            // a part that ends in a brace must not run into a following one
            if(!f.empty() && (f.back() == '{' || f.back() == '}')) { f += ' '; want += ' '; }
        }
        std::string key = quote(f); for(auto& x : a) key += " " + x.show();
        at("format", key);
        eq(run(f, a), want, "format", key, "text");
    }
    budget b2(0.15, 400000);
    while(b2.more()) {
        // arbitrary text: must stay inside the text and return
        std::string f; std::size_t n = r.below(12);
        for(std::size_t i = 0; i < n; i++) f += r.chance(1, 10) ? (char)r.below(256) : "{}<>:19dhx"[r.below(10)];
        std::vector<arg> a; std::size_t na = r.below(4);
        for(std::size_t i = 0; i < na; i++) { arg x = rarg(r); if(x.as_int() > 1000) { x.i = -3; x.u = 5; } a.push_back(x); }
        // keep widths printable
        std::size_t run_ = 0; bool big = false; for(char c : f) { run_ = c >= '0' && c <= '9' ? run_ + 1 : 0; if(run_ > 4) big = true; }
        if(big) continue;
        std::string key = quote(f); for(auto& x : a) key += " " + x.show();
        at("arbitrary", key);
        std::string o = run(f, a);
        if(f.find_first_of("{}") == std::string::npos) { eq(o, f, "arbitrary", key, "text without braces is copied"); nontrivial(); }
    }
    // widths that no int can hold are not undefined behaviour and read nothing out of range (the text is cut off before the brace: nothing is written but the text)
    for(const char* t : {"{99999999999", "{<4294967296", "{>2147483648:", "{18446744073709551616"}) {
        at("huge-width", t);
        eq(run(t, {}), std::string(t), "huge-width", t, "text");
    }
    {
        at("print", "print to a stream");
        std::ostringstream os;
        mf::print(static_cast<std::ostream&>(os), "{>5}|{<4:*}|{:h}|{}\n", 42, -7, 255u, "s");
        eq(os.str(), std::string("   42|-7**|ff|s\n"), "print", "stream", "print to a stream");
        std::string fs = mf::format("{>5}|{<4:*}|{:h}|{}\n", 42, -7, 255u, "s");
        eq(fs, os.str(), "print", "format", "format agrees with print");
        char buf[64]; FILE* t = tmpfile();
        if(t) { mf::print(t, "{>3}!", 7); std::rewind(t); std::size_t n = std::fread(buf, 1, 60, t); eq(std::string(buf, n), std::string("  7!"), "print", "FILE", "print to a FILE"); std::fclose(t); }
    }
}
HX_MAIN(body)
