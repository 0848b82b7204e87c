#include "hx.hpp"
#include <fstream>
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/utils.hpp>
#include <cpptrace/formatting.hpp>
using namespace hx;
using cpptrace::nullable;
#define Y "\033[33m"
#define R "\033[0m"
// the lines of a file: separated by \n, a \r before the \n belongs to the terminator; the text after the last \n is the last line
static std::vector<std::string> lines_of(const std::string& c) {
    std::vector<std::string> v;
    std::string cur;
    for(std::size_t i = 0; i < c.size(); i++) {
        if(c[i] == '\n') { if(!cur.empty() && cur.back() == '\r') cur.pop_back(); v.push_back(cur); cur.clear(); }
        else cur += c[i];
    }
    v.push_back(cur);
    return v;
}
static std::string rjust(std::string s, std::size_t w) { return s.size() < w ? std::string(w - s.size(), ' ') + s : s; }
// the documented snippet: the target line with up to `context` lines on either side, outer blank context lines left out
static std::string spec(const std::vector<std::string>& ls, std::size_t target, const nullable<std::uint32_t>& col, std::size_t context, bool color) {
    if(target < 1 || target > ls.size()) return "";
    std::size_t lo = target, hi = target;
    for(std::size_t k = 1; k <= context && target - k >= 1; k++) if(!ls[target - k - 1].empty()) lo = target - k;
    for(std::size_t k = 1; k <= context && target + k <= ls.size(); k++) if(!ls[target + k - 1].empty()) hi = target + k;
    std::string out;
    for(std::size_t l = lo; l <= hi; l++) {
        if(l != lo) out += '\n';
        std::string n = std::to_string(l);
        if(l == target) {
            std::string margin = rjust(" > " + n, 8) + ": ";
            out += (color ? Y : "") + margin + (color ? R : "") + ls[l - 1];
            if(col.has_value()) out += "\n" + std::string(margin.size() + col.value() - 1, ' ') + (color ? Y : "") + "^" + (color ? R : "");
        } else out += rjust(n, 8) + ": " + ls[l - 1];
    }
    return out;
}
static std::string dir;
static int serial = 0;
static std::string store(const std::string& content) {
    std::string p = dir + "/f" + std::to_string(serial++);
    std::ofstream f(p, std::ios::binary);
    f << content;
    return p;
}
static std::string q(std::size_t target, const nullable<std::uint32_t>& col, std::size_t context, bool color) {
    return " line " + num(target) + " column " + (col.has_value() ? std::to_string(col.value()) : "none") + " context " + num(context) + (color ? " color" : "");
}
static void ask(const char* g, const std::string& path, const std::string& what, const std::vector<std::string>& ls, std::size_t target, nullable<std::uint32_t> col, std::size_t context, bool color) {
    std::string key = what + q(target, col, context, color);
    at(g, key);
    std::string s = cpptrace::get_snippet(path, target, col, context, color);
    eq(esc(s, 1 << 20), esc(spec(ls, target, col, context, color), 1 << 20), g, key, "the snippet");
    at(g, key + " (no column)");
    s = cpptrace::get_snippet(path, target, context, color);
    eq(esc(s, 1 << 20), esc(spec(ls, target, nullable<std::uint32_t>::null(), context, color), 1 << 20), g, key + " (no column)", "the snippet");
    if(target >= 1 && target <= ls.size()) nontrivial();
}
static std::size_t ctx(rng& r, std::size_t n) {
    switch(r.below(6)) { case 0: return 0; case 1: return r.below(4); case 2: return r.below(n + 3); case 3: return n; default: return 1 + r.below(3);
        case 5: return ~(std::size_t)0 - r.below(3); }
}
static void body() {
    rng r(S().seed);
    char tmpl[] = "/tmp/p09.XXXXXX";
    if(!mkdtemp(tmpl)) { fail("setup", "mkdtemp", "failed"); return; }
    dir = tmpl;
    static const std::vector<std::string> pieces{"", "", "", "\r", "\r\r", " ", "\t", "x", "int main() {", "  return 0; // {} {0}", "}", std::string("nul\0nul", 7), "\xc3\xa9", "\r \r", "> 1: ^"};
    budget b(0.7, 4000);
    while(b.more()) {
        std::string c;
        std::size_t n = r.chance(1, 6) ? r.below(3) : r.below(14);
        if(r.chance(1, 12)) n = 95 + r.below(30);
        bool crlf = r.chance(1, 4);
        for(std::size_t i = 0; i < n; i++) { c += r.chance(1, 8) ? std::string(r.below(40), 'y') : r.pick(pieces); c += crlf ? "\r\n" : r.chance(1, 20) ? "\r\n" : "\n"; }
        if(r.chance(1, 2)) c += r.pick(pieces);
        std::string p = store(c);
        auto ls = lines_of(c);
        for(unsigned k = 0; k < 24; k++) {
            std::size_t t = r.chance(1, 12) ? ls.size() + 1 + r.below(5) : r.chance(1, 20) ? (r.chance(1, 2) ? r.edgy() : ~(std::size_t)0 - r.below(3)) : 1 + r.below(ls.size());
            nullable<std::uint32_t> col = r.chance(1, 4) ? nullable<std::uint32_t>::null() : nullable<std::uint32_t>((std::uint32_t)(1 + r.below(r.chance(1, 10) ? 5000 : 60)));
            ask("small", p, quote(c), ls, t, col, ctx(r, ls.size()), r.chance(1, 2));
        }
        unlink(p.c_str());
    }
    {
        // long files: line numbers of up to seven digits
        std::size_t n = 1000001 + r.below(1000);
        std::string c; for(std::size_t i = 1; i <= n; i++) { if(i % 7 == 3) c += "z"; if(i % 1000 == 0) c += "abc"; c += "\n"; }
        std::string p = store(c);
        auto ls = lines_of(c);
        std::vector<std::size_t> around{1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, n, n + 1};
        budget b2(0.2, 2000);
        while(b2.more()) {
            std::size_t t = r.chance(1, 5) ? 1 + r.below(ls.size()) : r.pick(around) + r.below(5) - 2;
            if(t > ls.size() + 2) t = 1;
            ask("long", p, "a file of " + std::to_string(ls.size()) + " lines, z on every seventh,", ls, t, nullable<std::uint32_t>((std::uint32_t)(1 + r.below(20))), r.below(12), r.chance(1, 2));
        }
        unlink(p.c_str());
    }
    {
        // unreadable files have no snippet; one of exactly the size limit has one
        std::vector<std::string> none;
        ask("no-file", dir + "/missing", "a missing file", none, 1, nullable<std::uint32_t>(1u), 2, false);
        ask("no-file", dir, "a directory", none, 1, nullable<std::uint32_t>(1u), 2, false);
        std::string big(10 * 1024 * 1024, 'a');
        big[0] = '\n'; big[big.size() / 2] = '\n';
        std::string p = store(big); auto ls = lines_of(big);
        ask("limit", p, "a file of 10 MiB", ls, 1, nullable<std::uint32_t>(1u), 0, true);
        unlink(p.c_str());
        p = store(big + "b");
        ask("limit", p, "a file of 10 MiB and a byte", none, 1, nullable<std::uint32_t>(1u), 0, false);
        unlink(p.c_str());
    }
    {
        // one path keeps its own lines, whatever other files are read in between
        std::vector<std::string> paths, cs;
        for(unsigned k = 0; k < 40; k++) { cs.push_back("file " + std::to_string(k) + "\nsecond\n"); paths.push_back(store(cs.back())); }
        for(unsigned k = 0; k < 200; k++) { auto i = r.below(40); ask("many-files", paths[i], quote(cs[i]), lines_of(cs[i]), 1 + r.below(2), nullable<std::uint32_t>(2u), r.below(3), false); }
        for(auto& p : paths) unlink(p.c_str());
    }
    {
        // the formatter's snippets are the same text
        std::string c = "one\n\nthree\r\nfour\nfive\n"; std::string p = store(c); auto ls = lines_of(c);
        for(unsigned k = 0; k < 60; k++) {
            cpptrace::stacktrace_frame f; f.raw_address = 1; f.object_address = 1; f.filename = p; f.symbol = "s"; f.line = (std::uint32_t)(1 + r.below(ls.size() + 2)); f.column = r.chance(1, 2) ? nullable<std::uint32_t>::null() : nullable<std::uint32_t>((std::uint32_t)(1 + r.below(4)));
            int context = (int)r.below(5);
            auto fmt = cpptrace::formatter{}.snippets(true).snippet_context(context).colors(cpptrace::formatter::color_mode::none).addresses(cpptrace::formatter::address_mode::none);
            auto plain = cpptrace::formatter{}.snippets(false).colors(cpptrace::formatter::color_mode::none).addresses(cpptrace::formatter::address_mode::none);
            cpptrace::stacktrace t{{f}};
            std::string key = quote(c) + q(f.line.value(), f.column, (std::size_t)context, false) + " through the formatter";
            at("formatter", key);
            std::string s = spec(ls, f.line.value(), f.column, (std::size_t)context, false);
            std::string a = fmt.format(t), e = plain.format(t);
            if(!s.empty()) { ok(a.find(s) != std::string::npos, "formatter", key, "the snippet is shown; got [" + a + "]"); nontrivial(); }
            else ok(a.find("^") == std::string::npos && a.find(" > ") == std::string::npos, "formatter", key, "no snippet");
        }
        unlink(p.c_str());
    }
    rmdir(dir.c_str());
}
HX_MAIN(body)
