// Support for the executable contracts: deterministic case generation, failure reports, current-case record.
#ifndef HX_HPP
#define HX_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace hx {
    struct rng {
        std::uint64_t s;
        explicit rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
        std::uint64_t next() {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
        bool chance(int num, int den) { return below(den) < (std::uint64_t)num; }
        std::uint64_t in(std::uint64_t a, std::uint64_t b) { return a + below(b - a + 1); }
        template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
        // integers with a bias to boundaries
        std::uint64_t edgy() {
            switch(below(8)) {
                case 0: return below(4);
                case 1: return ~0ull - below(4);
                case 2: return (1ull << below(64)) + below(3) - 1;
                case 3: return next();
                case 4: return next() >> below(64);
                case 5: return 0x7fffffffffffffffull + below(3) - 1;
                case 6: return 0xffffffffull + below(3) - 1;
                default: return below(300);
            }
        }
    };

    struct state {
        std::string prop;
        std::uint64_t seed = 1;
        double secs = 5;
        std::uint64_t evals = 0, nontrivial = 0, fails = 0;
        char* cur = nullptr;           // mapped record of the case being run
        static constexpr std::size_t cur_size = 1 << 16;
        std::FILE* out = nullptr;      // report stream (not the harness' own stdout, which the code under test may use)
        std::map<std::string, std::uint64_t> groups;
        std::map<std::string, int> failed;
        std::vector<std::string> samples;
        std::string only;
        double t0 = 0;
    };
    inline state& S() { static state s; return s; }

    inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    inline std::string hex(const std::string& s) {
        static const char* d = "0123456789abcdef";
        std::string r;
        for(unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
        return r;
    }
    inline std::string esc(const std::string& s, std::size_t lim = 3000) {
        std::string r;
        for(std::size_t i = 0; i < s.size() && i < lim; i++) {
            unsigned char c = s[i];
            if(c == '\n') r += "\\n"; else if(c == '\t') r += "\\t"; else if(c == '\\') r += "\\\\";
            else if(c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += (char)c;
        }
        if(s.size() > lim) r += "...(" + std::to_string(s.size()) + " bytes)";
        return r;
    }
    inline std::string quote(const std::string& s) { return "\"" + esc(s) + "\""; }
    inline std::string num(std::uint64_t v) { return std::to_string(v) + "(0x" + [&]{ char b[32]; std::snprintf(b, sizeof b, "%llx", (unsigned long long)v); return std::string(b); }() + ")"; }

    // announce the case about to run: a crash or hang reports this text
    inline void at(const std::string& group, const std::string& desc) {
        state& s = S();
        s.evals++;
        s.groups[group]++;
        if(s.cur) {
            std::string t = group + "\t" + esc(desc, 20000);
            std::size_t n = std::min(t.size(), state::cur_size - 1);
            std::memcpy(s.cur, t.data(), n);
            s.cur[n] = 0;
        }
        if(s.samples.size() < 6 && (s.groups[group] == 1 || s.groups[group] == 40)) s.samples.push_back(group + ": " + esc(desc, 200));
        itimerval tv{};
        tv.it_value.tv_sec = 30;
        setitimer(ITIMER_REAL, &tv, nullptr);
    }
    inline void nontrivial() { S().nontrivial++; }

    inline void fail(const std::string& group, const std::string& input, const std::string& msg) {
        state& s = S();
        s.fails++;
        if(s.failed[group]++ < 3) {
            std::fprintf(s.out, "FAIL\t%s\t%s\t%s\n", group.c_str(), esc(input, 12000).c_str(), esc(msg, 4000).c_str());
            std::fflush(s.out);
        }
    }
    template<typename A, typename B>
    inline bool eq(const A& a, const B& b, const std::string& group, const std::string& input, const std::string& what) {
        if(a == b) return true;
        std::ostringstream o;
        o << what << ": got [" << a << "] expected [" << b << "]";
        fail(group, input, o.str());
        return false;
    }
    inline bool ok(bool c, const std::string& group, const std::string& input, const std::string& what) {
        if(!c) fail(group, input, what);
        return c;
    }
    // run until the group's share of the time budget or the case count is used up
    struct budget {
        double end; std::uint64_t n, i = 0;
        budget(double share, std::uint64_t maxn) : end(now() + S().secs * share), n(maxn) {}
        bool more() { return i++ < n && ((i & 15) || now() < end); }
    };
    inline bool on(const std::string& group) { return S().only.empty() || S().only == group; }

    inline void on_alarm(int) {
        state& s = S();
        char buf[64];
        int n = std::snprintf(buf, sizeof buf, "HANG\n");
        if(write(fileno(s.out), buf, n) < 0) {}
        _exit(98);
    }

    // usage: harness PROP seed secs report current [group]
    inline int main_(int argc, char** argv, void (*body)()) {
        state& s = S();
        if(argc < 5) { std::fprintf(stderr, "usage: %s seed secs report current [group]\n", argv[0]); return 2; }
        s.seed = std::strtoull(argv[1], nullptr, 10);
        s.secs = std::atof(argv[2]);
        s.out = std::fopen(argv[3], "w");
        int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
        if(!s.out || fd < 0 || ftruncate(fd, state::cur_size)) return 2;
        s.cur = (char*)mmap(nullptr, state::cur_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if(s.cur == MAP_FAILED) return 2;
        if(argc > 5) s.only = argv[5];
        signal(SIGALRM, on_alarm);
        s.t0 = now();
        try {
            body();
        } catch(const std::exception& e) {
            std::fprintf(s.out, "FAIL\tescaped-exception\t%s\t%s\n", s.cur, esc(e.what()).c_str());
            s.fails++;
        } catch(...) {
            std::fprintf(s.out, "FAIL\tescaped-exception\t%s\tunknown exception\n", s.cur);
            s.fails++;
        }
        itimerval tv{};
        setitimer(ITIMER_REAL, &tv, nullptr);
        for(auto& g : s.groups) std::fprintf(s.out, "GROUP\t%s\t%llu\n", g.first.c_str(), (unsigned long long)g.second);
        for(auto& x : s.samples) std::fprintf(s.out, "SAMPLE\t%s\n", x.c_str());
        std::fprintf(s.out, "DONE\t%llu\t%llu\t%llu\n", (unsigned long long)s.evals, (unsigned long long)s.nontrivial, (unsigned long long)s.fails);
        std::fclose(s.out);
        return s.fails ? 3 : 0;
    }
}
#define HX_MAIN(body) int main(int argc, char** argv) { return hx::main_(argc, argv, body); }
#endif
