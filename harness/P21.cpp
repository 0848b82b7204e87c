#include "hx.hpp"
#include <fstream>
#include <limits>
#include <ios>
#include <sys/wait.h>
#include "utils/optional.hpp"
#include "utils/utils.hpp"
// the process memory map is the environment: the code under contract reads the text given here
namespace std {
    struct scripted_ifstream : istringstream {
        static std::vector<std::string>& texts() { static std::vector<std::string> t; return t; }
        static int& opened() { static int n = 0; return n; }
        static std::string next() { auto& t = texts(); int i = opened()++; return t.empty() ? "" : t[std::min<std::size_t>(i, t.size() - 1)]; }
        explicit scripted_ifstream(const char*) : istringstream(next()) {}
    };
}
#define ifstream scripted_ifstream
#include "platform/memory_mapping.cpp"
#undef ifstream
using namespace hx;
struct range { std::uintptr_t lo, hi; int p; };
static std::string line(rng& r, const range& m) {
    char b[256];
    const char* tail[] = {"p 00000000 00:00 0 ", "p 00001000 fd:01 1234567                    /usr/lib/x86_64-linux-gnu/libc.so.6", "s 00000000 00:05 99 /dev/shm/a b c", "p 00000000 00:00 0                          [heap]", "p 00000000 00:00 0\t[vvar]", "p 00000000 00:00 0   rwxp 0-1"};
    std::snprintf(b, sizeof b, r.chance(1, 2) ? "%lx-%lx %c%c%c%s\n" : "%08lx-%08lx %c%c%c%s\n", m.lo, m.hi, m.p & 1 ? 'r' : '-', m.p & 2 ? 'w' : '-', m.p & 4 ? 'x' : '-', tail[r.below(6)]);
    return b;
}
static int bits(int prot) { return (prot & PROT_READ ? 1 : 0) | (prot & PROT_WRITE ? 2 : 0) | (prot & PROT_EXEC ? 4 : 0); }
// the table is loaded once per process: every map is queried in a process of its own
static std::vector<int> query(const std::vector<std::string>& texts, const std::vector<std::uintptr_t>& pages) {
    int fd[2]; std::vector<int> out;
    if(pipe(fd)) return out;
    pid_t pid = fork();
    if(pid == 0) {
        std::scripted_ifstream::texts() = texts;
        for(auto p : pages) {
            int v;
            try { v = bits(cpptrace::detail::get_page_protections(reinterpret_cast<void*>(p))); }
            catch(const std::exception&) { v = -1; }
            catch(...) { v = -2; }
            if(write(fd[1], &v, sizeof v) != sizeof v) _exit(1);
        }
        _exit(0);
    }
    close(fd[1]);
    int v; while(read(fd[0], &v, sizeof v) == sizeof v) out.push_back(v);
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    if(!WIFEXITED(st) || WEXITSTATUS(st)) out.push_back(-100);
    return out;
}
static std::string show(int v) { return v == -1 ? "error" : v < 0 ? "crash" : std::to_string(v); }
static void body() {
    rng r(S().seed);
    budget b(0.8, 100000);
    while(b.more()) {
        std::vector<range> m; std::size_t n = r.below(9);
        std::uintptr_t at_ = r.chance(1, 4) ? 0 : r.below(1 << 20) << 12;
        for(std::size_t i = 0; i < n; i++) {
            if(r.chance(1, 2)) at_ += (1 + r.below(r.chance(1, 4) ? 1000000000 : 5)) << 12;
            std::uintptr_t sz = r.chance(1, 12) ? 0 : (1 + r.below(r.chance(1, 3) ? 100000 : 4)) << 12;
            m.push_back({at_, at_ + sz, (int)r.below(8)}); at_ += sz;
        }
        if(r.chance(1, 10) && at_ < 0xffffffffff600000) m.push_back({0xffffffffff600000, 0xffffffffff601000, 5});
        std::string text; for(auto& x : m) text += line(r, x);
        std::vector<std::string> texts{text};
        // a map whose entries overlap is torn: it is read again
        bool torn = false;
        if(m.size() >= 2 && r.chance(1, 5)) {
            std::size_t k = 1 + r.below(m.size() - 1);
            if(m[k - 1].hi - m[k - 1].lo >= 0x1000) {
                std::vector<range> t = m; t[k].lo = t[k - 1].hi - 0x1000; if(t[k].hi < t[k].lo) t[k].hi = t[k].lo;
                std::string bad; for(auto& x : t) bad += line(r, x);
                int which = (int)r.below(3);
                if(which == 0) texts = {bad, text}; else { texts = {bad}; torn = true; }
            }
        }
        bool malformed = false;
        if(!torn && !m.empty() && r.chance(1, 6)) {
            static const std::vector<std::string> junk{"zzz\n", "12345 rwxp\n", "g000-h000 r-xp 0 0:0 0\n", "2000-1000 r-xp 0 0:0 0\n", "1000-zzzz rw-p 0 0:0 0\n"};
            std::string j = r.pick(junk);
            texts = {r.chance(1, 2) ? j + text : j + line(r, {~0xfffull - 0x100000, ~0xfffull - 0xff000, 1}) };
            malformed = true;
        }
        std::vector<std::uintptr_t> pages;
        for(int k = 0; k < 12; k++) {
            if(m.empty() || r.chance(1, 6)) pages.push_back(r.edgy() & ~0xfffull);
            else {
                const range& x = m[r.below(m.size())];
                std::uintptr_t c[6] = {x.lo, x.hi, x.lo - 0x1000, x.hi - 0x1000, x.hi + 0x1000, x.lo + ((x.hi - x.lo) / 2 & ~0xfffull)};
                pages.push_back(c[r.below(6)]);
            }
        }
        std::string key = texts[0].substr(0, 600);
        at("map", key);
        std::vector<int> got = query(texts, pages);
        for(std::size_t k = 0; k < pages.size(); k++) {
            int want = -1;
            if(!torn && !malformed) for(auto& x : m) if(x.lo <= pages[k] && pages[k] < x.hi) want = x.p;
            char pg[40]; std::snprintf(pg, sizeof pg, " page %lx", (unsigned long)pages[k]);
            std::string ks = (torn ? "torn " : malformed ? "malformed " : "") + key + pg;
            if(k >= got.size()) { fail("map", ks, "no answer"); break; }
            eq(show(got[k]), show(want), "map", ks, "protections (r=1 w=2 x=4)");
            if(want >= 0) nontrivial();
        }
    }
    // the real map: what is changed is what is reported afterwards
    int ps = cpptrace::detail::get_page_size();
    at("real", "page size"); eq((long)ps, sysconf(_SC_PAGESIZE), "real", "page size", "page size");
    std::ifstream f("/proc/self/maps"); std::stringstream ss; ss << f.rdbuf();
    void* mine = cpptrace::detail::allocate_page(ps);
    static_cast<char*>(mine)[0] = 1; static_cast<char*>(mine)[ps - 1] = 2;
    std::stringstream s2; { std::ifstream g("/proc/self/maps"); s2 << g.rdbuf(); }
    auto got = query({s2.str()}, {reinterpret_cast<std::uintptr_t>(mine), reinterpret_cast<std::uintptr_t>(&body) & ~0xfffull});
    at("real", "own map");
    if(ok(got.size() == 2, "real", "own map", "two answers")) {
        eq(got[0], 3, "real", "own map", "a page allocated read-write");
        eq(got[1], 5, "real", "own map", "the code of this program");
    }
    munmap(mine, ps);
}
HX_MAIN(body)
