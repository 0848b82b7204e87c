#include "hx.hpp"
#include "utils/utils.hpp"
#include "utils/string_view.hpp"
using namespace hx;
namespace d = cpptrace::detail;

static std::string text(rng& r, std::size_t maxn, const char* alphabet) {
    std::string s;
    std::size_t n = r.below(maxn + 1);
    for(std::size_t i = 0; i < n; i++) s += r.chance(1, 12) ? (char)r.below(256) : alphabet[r.below(std::strlen(alphabet))];
    return s;
}
static bool in(const std::string& set, char c) { for(char x : set) if(x == c) return true; return false; }
static const std::string WS = " \t\n\r\f\v";

// a view whose characters end exactly at the end of a heap block, so that a read outside is caught
struct held {
    std::unique_ptr<char[]> p;
    std::size_t n;
    held(const std::string& s) : p(new char[s.size() + (s.empty() ? 1 : 0)]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    d::string_view v() const { return d::string_view(p.get(), n); }
};

static void body() {
    rng r(S().seed);
    budget b(1.0, 300000);
    while(b.more()) {
        std::string a = text(r, r.chance(1, 4) ? 40 : 6, "ab/\\ ");
        std::string c = text(r, 4, "ab/\\ ");
        if(r.chance(1, 3) && !a.empty()) { std::size_t p = r.below(a.size() + 1); c = a.substr(p, r.below(5)); }
        if(r.chance(1, 8)) c = a;
        std::string key = quote(a) + " " + quote(c);
        held ha(a), hc(c);
        d::string_view va = ha.v(), vc = hc.v();
        if(a.empty() && r.chance(1, 2)) va = d::string_view();
        if(c.empty() && r.chance(1, 2)) vc = d::string_view();
        nontrivial();
        at("view-eq", key);
        eq(va == vc, a == c, "view-eq", key, "==");
        eq(va != vc, a != c, "view-eq", key, "!=");
        at("view-affix", key);
        eq(va.starts_with(vc), a.compare(0, c.size(), c) == 0 && a.size() >= c.size(), "view-affix", key, "starts_with");
        eq(va.ends_with(vc), a.size() >= c.size() && a.compare(a.size() - c.size(), c.size(), c) == 0, "view-affix", key, "ends_with");
        at("find_last_of", key);
        std::size_t want = std::string::npos;
        for(std::size_t i = 0; i < a.size(); i++) if(in(c, a[i])) want = i;
        eq(va.find_last_of(vc), want, "find_last_of", key, "find_last_of");
        {
            std::size_t p = r.below(a.size() + 1), n = r.chance(1, 3) ? (std::size_t)r.edgy() : r.below(a.size() + 3);
            std::string k2 = quote(a) + " at " + num(p) + " count " + num(n);
            at("view-substr", k2);
            auto s = va.substr(p, n);
            std::string e = a.substr(p, n);
            ok(s.size() == e.size() && (e.empty() || std::equal(e.begin(), e.end(), s.data())), "view-substr", k2, "substr");
            auto w = va; w.advance(p);
            ok(w.size() == a.size() - p && (a.size() == p || w.data() == va.data() + p), "view-substr", k2, "advance");
            at("cview-substr", k2);
            d::cstring_view cv(a.c_str(), a.size());
            auto cs = cv.substr(p);
            ok(cs.size() == a.size() - p && cs.data() == a.c_str() + p, "cview-substr", k2, "cstring_view::substr");
            ok(std::string(cv) == a, "cview-substr", k2, "conversion to string");
        }
        {
            std::size_t i = r.chance(1, 4) ? (std::size_t)r.edgy() : r.below(a.size() + 2);
            std::string k2 = quote(a) + " index " + num(i);
            at("view-at", k2);
            bool threw = false; char ch = 0;
            try { ch = va.at(i); } catch(const std::runtime_error&) { threw = true; }
            ok(threw == (i >= a.size()), "view-at", k2, "at throws exactly out of range");
            if(!threw) {
                ok(ch == a[i], "view-at", k2, "at");
                ok(va[i] == a[i], "view-at", k2, "operator[]");
            }
            if(!a.empty()) { ok(va.front() == a.front() && va.back() == a.back(), "view-at", k2, "front and back"); }
        }
        {
            std::string t = c; t += va;
            ok(t == c + a, "view-append", key, "append");
            at("view-append", key);
            if(!a.empty()) ok(std::string(va) == a, "view-append", key, "conversion to string");
        }
        {
            at("starts_with", key);
            ok(d::starts_with(a, c) == (a.size() >= c.size() && a.compare(0, c.size(), c) == 0), "starts_with", key, "starts_with(string, string)");
        }
        {
            at("basename", quote(a));
            for(int win = 0; win < 2; win++) {
                std::size_t cut = 0;
                for(std::size_t i = 0; i < a.size(); i++) if(a[i] == '/' || (win && a[i] == '\\')) cut = i + 1;
                eq(d::basename(a, win != 0), a.substr(cut), "basename", quote(a), win ? "basename (windows)" : "basename");
            }
        }
        {
            std::string w = text(r, 4, " \t\n\r\f\v") + text(r, 5, "a \n") + text(r, 4, " \t\n\r\f\v");
            at("trim", quote(w));
            std::size_t l = 0, e = w.size();
            while(l < e && in(WS, w[l])) l++;
            while(e > l && in(WS, w[e - 1])) e--;
            eq(d::trim(w), w.substr(l, e - l), "trim", quote(w), "trim");
        }
        {
            std::vector<std::string> want(1);
            for(char ch : a) if(in(c, ch)) want.emplace_back(); else want.back() += ch;
            at("split", key);
            auto got = d::split(a, c);
            ok(got == want, "split", key, "split gives the pieces between delimiters");
            at("join", key);
            std::string j;
            for(std::size_t i = 0; i < want.size(); i++) j += (i ? c : std::string()) + want[i];
            eq(d::join(want, c), j, "join", key, "join");
        }
    }
}
HX_MAIN(body)
