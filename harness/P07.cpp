#include "fmt_oracle.hpp"
#include <iostream>
#include <termios.h>
#include <fcntl.h>
#include <poll.h>
using namespace fo;
static int master = -1, slave = -1;
static void open_tty() {
    master = posix_openpt(O_RDWR | O_NOCTTY);
    if(master < 0 || grantpt(master) || unlockpt(master)) { master = -1; return; }
    const char* n = ptsname(master); if(!n) { master = -1; return; }
    slave = open(n, O_RDWR | O_NOCTTY);
    termios t; if(slave < 0 || tcgetattr(slave, &t)) { master = -1; return; }
    cfmakeraw(&t); tcsetattr(slave, TCSANOW, &t);
}
// what is written to the given standard stream while it is a terminal
template<typename F> static std::string on_tty(int fd, F f) {
    int save = dup(fd); dup2(slave, fd);
    f(); std::cout.flush(); std::cerr.flush(); std::fflush(stdout);
    dup2(save, fd); close(save);
    std::string s; char b[4096]; pollfd p{master, POLLIN, 0};
    while(poll(&p, 1, s.empty() ? 200 : 10) > 0) { ssize_t n = read(master, b, sizeof b); if(n <= 0) break; s.append(b, (std::size_t)n); }
    return s;
}
template<typename F> static std::string file(F f) { char* b = nullptr; std::size_t n = 0; std::FILE* o = open_memstream(&b, &n); f(o); std::fclose(o); std::string s(b, n); std::free(b); return s; }
template<typename F> static std::string stream(F f) { std::ostringstream o; f(o); return o.str(); }
static conf make(rng& r, formatter& f) { conf c; std::string log; for(int i = 0; i < 13; i++) if(r.chance(1, 2)) set(r, f, c, log, i); return c; }
static void traces(rng& r) {
    formatter f; conf c = make(r, f);
    std::vector<stacktrace_frame> v = frames(r);
    const stacktrace t{std::vector<stacktrace_frame>(v)};
    std::string key = c.show() + " " + show(v); const std::string g = "trace";
    at(g, key);
    bool def = c.color == 0;
    eq(f.format(t), trace_text(c, v, def), g, key, "format");
    for(int k = 0; k < 2; k++) {
        bool col = k;
        eq(f.format(t, col), trace_text(c, v, col), g, key, "format with a colour parameter");
        eq(stream([&](std::ostream& o) { f.print(o, t, col); }), trace_text(c, v, col) + "\n", g, key, "print to a stream with a colour parameter");
        eq(file([&](std::FILE* o) { f.print(o, t, col); }), trace_text(c, v, col) + "\n", g, key, "print to a file with a colour parameter");
    }
    eq(stream([&](std::ostream& o) { f.print(o, t); }), trace_text(c, v, def) + "\n", g, key, "print to a stream");
    eq(file([&](std::FILE* o) { f.print(o, t); }), trace_text(c, v, def) + "\n", g, key, "print to a file");
    if(v.size() > 1) nontrivial();
    // single frames
    stacktrace_frame x = frame(r); std::size_t ind = r.below(20);
    key = c.show() + " " + show({x}) + " indent " + std::to_string(ind);
    at("frame", key);
    eq(f.format(x), single(c, x, def, 0), "frame", key, "format");
    for(int k = 0; k < 2; k++) {
        bool col = k;
        eq(f.format(x, col), single(c, x, col, 0), "frame", key, "format with a colour parameter");
        eq(f.format(x, col, ind), single(c, x, col, ind), "frame", key, "format with an indent");
        eq(stream([&](std::ostream& o) { f.print(o, x, col); }), single(c, x, col, 0) + "\n", "frame", key, "print to a stream with a colour parameter");
        eq(stream([&](std::ostream& o) { f.print(o, x, col, ind); }), single(c, x, col, ind) + "\n", "frame", key, "print to a stream with an indent");
        eq(file([&](std::FILE* o) { f.print(o, x, col); }), single(c, x, col, 0) + "\n", "frame", key, "print to a file with a colour parameter");
        eq(file([&](std::FILE* o) { f.print(o, x, col, ind); }), single(c, x, col, ind) + "\n", "frame", key, "print to a file with an indent");
    }
    eq(stream([&](std::ostream& o) { f.print(o, x); }), single(c, x, def, 0) + "\n", "frame", key, "print to a stream");
    eq(file([&](std::FILE* o) { f.print(o, x); }), single(c, x, def, 0) + "\n", "frame", key, "print to a file");
}
// std::cout and std::cerr, being a terminal or not
static void standard(rng& r) {
    formatter f; conf c = make(r, f); c.header = "h"; f.header("h");
    std::vector<stacktrace_frame> v; for(std::size_t i = 0, n = r.below(4); i < n; i++) v.push_back(frame(r));
    const stacktrace t{std::vector<stacktrace_frame>(v)};
    int k = (int)r.below(3); bool err = r.chance(1, 2), whole = r.chance(3, 4);
    stacktrace_frame x = frame(r);
    std::string key = c.show() + " " + show(whole ? v : std::vector<stacktrace_frame>{x}) + (err ? " cerr" : " cout") + " override " + std::to_string(k);
    at("terminal", key);
    std::ostream& o = err ? std::cerr : std::cout;
    bool impl = !err && r.chance(1, 2);
    bool col = k == 2 ? c.color != 1 : k == 1;
    std::string got = on_tty(err ? 2 : 1, [&] {
        if(whole) { if(impl) { if(k == 2) f.print(t); else f.print(t, k == 1); } else { if(k == 2) f.print(o, t); else f.print(o, t, k == 1); } }
        else { if(impl) { if(k == 2) f.print(x); else f.print(x, k == 1); } else { if(k == 2) f.print(o, x); else f.print(o, x, k == 1); } }
    });
    eq(got, (whole ? trace_text(c, v, col) : single(c, x, col, 0)) + "\n", "terminal", key, "printed to a terminal");
}
static void body() {
    rng r(S().seed);
    open_tty();
    if(master >= 0) for(int i = 0; i < 60; i++) standard(r);
    budget b(0.9, 1000000);
    while(b.more()) traces(r);
    // the trace's own entry points
    for(int i = 0; i < 200; i++) {
        std::vector<stacktrace_frame> v = frames(r); const stacktrace t{std::vector<stacktrace_frame>(v)}; conf c; std::string key = show(v);
        at("stacktrace", key);
        for(int k = 0; k < 2; k++) { eq(t.to_string(k == 1), trace_text(c, v, k == 1), "stacktrace", key, "to_string"); eq(stream([&](std::ostream& o) { t.print(o, k == 1); }), trace_text(c, v, k == 1) + "\n", "stacktrace", key, "print"); }
        eq(stream([&](std::ostream& o) { o << t; }), trace_text(c, v, false) + "\n", "stacktrace", key, "stream operator");
        if(!v.empty()) { conf d; eq(v[0].to_string(), frame_text(d, v[0], false, 0), "stacktrace", key, "a frame's to_string"); eq(v[0].to_string(true), frame_text(d, v[0], true, 0), "stacktrace", key, "a frame's to_string with colour"); }
    }
}
HX_MAIN(body)
