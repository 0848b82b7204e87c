#include "hx.hpp"
#define CPPTRACE_GET_SYMBOLS_WITH_LIBDL
#define CPPTRACE_GET_SYMBOLS_WITH_NOTHING
#include <cpptrace/cpptrace.hpp>
#include <algorithm>
#include <memory>
#include <map>
#include <csetjmp>
#include <cerrno>
#include <functional>
#include <mutex>
#include <unordered_map>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "symbols/symbols.hpp"
#include "utils/common.hpp"
#include "utils/microfmt.hpp"
#include "utils/utils.hpp"
#include "binary/object.hpp"
#include "binary/module_base.hpp"
#include "options.hpp"
using namespace hx;
using cpptrace::stacktrace_frame; using cpptrace::object_frame; using cpptrace::frame_ptr;
// the symbol tool is the environment: fork "enters the child", exec records the object and comes back as the parent,
// and what the tool answers is scripted
enum mode { good, few, many, silent, broken, garbage_lines, unknown_lines, interrupted, dead, nmodes };
static const char* mode_name[] = {"answers", "one line too few", "one line too many", "no output", "output that is not lines of the format", "some lines malformed", "some lines unknown", "interrupted reads", "read error"};
struct answer { bool line; std::string text; };
namespace env {
    static std::jmp_buf jb; static std::string object, input, output; static std::size_t at = 0, chunk = 1000; static bool started = false, stuck = false, interrupt = false;
    static std::map<std::string, mode> modes; static std::map<std::string, std::uint32_t> salt; static bool tool = true;
    static int runs = 0;
    static std::string text(const std::string& obj, frame_ptr a);
    static int kind(const std::string& obj, frame_ptr a) { return (int)((a * 2654435761u + salt[obj]) >> 3) & 3; }
    static int pipe_(int* p) { p[0] = 1000; p[1] = 1001; return 0; }
    static int close_(int) { return 0; }
    static int dup2_(int, int) { return 0; }
    static int exec_(const char*, const char* a1, const char* a2 = nullptr, const char* a3 = nullptr, const char* = nullptr, const char* = nullptr, const char* = nullptr, const char* = nullptr) {
        (void)a1; object = a3 ? a3 : ""; (void)a2; input.clear(); output.clear(); at = 0; started = false; std::longjmp(jb, 1); }
    static ssize_t write_(int, const void* b, std::size_t n) { input.append((const char*)b, n); if(input.size() > 65536) stuck = true; return (ssize_t)n; }
    static int waitpid_(pid_t p, int* s, int) { if(s) *s = tool ? 0 : 0x7F00; return (int)p; }
    static void answer_all() {
        started = true; runs++;
        mode m = modes[object];
        std::vector<std::string> ls; std::string cur;
        for(char c : input) { if(c == '\n') { ls.push_back(cur); cur.clear(); } else cur += c; }
        if(m == silent || m == dead) return;
        if(m == broken) { output = "addr2line: something went wrong"; for(std::size_t i = 1; i < ls.size(); i++) output += "\nnonsense"; output += '\n'; return; }
        std::size_t n = ls.size() - (m == few && !ls.empty());
        for(std::size_t i = 0; i < n; i++) output += text(object, (frame_ptr)std::strtoull(ls[i].c_str(), nullptr, 16)) + "\n";
        if(m == many) output += "extra at /src/extra.c:1\n";
    }
    static ssize_t read_(int, void* b, std::size_t n) {
        if(!started) answer_all();
        if(modes[object] == dead) { errno = EIO; return -1; }
        if(modes[object] == interrupted && (interrupt = !interrupt)) { errno = EINTR; return -1; }
        std::size_t k = std::min(std::min(n, chunk), output.size() - at);
        std::memcpy(b, output.data() + at, k); at += k; return (ssize_t)k;
    }
    static std::string text(const std::string& obj, frame_ptr a) {
        std::string s = "fn_" + num(a) + " at /src" + obj + "/" + num(a) + ".c:" + std::to_string(a % 100003);
        int k = kind(obj, a);
        if(modes[obj] == garbage_lines && k == 0) return "garbage";
        if(modes[obj] == garbage_lines && k == 1) return "fn_" + num(a) + " at /x/y.c:zzz";
        if(modes[obj] == unknown_lines && k == 0) return "?? ??:0";
        if(modes[obj] == unknown_lines && k == 1) return "fn_" + num(a) + " at ??:?";
        return s;
    }
}
#define fork() (setjmp(env::jb) ? 4242 : 0)
#define pipe(...) env::pipe_(__VA_ARGS__)
#define close(...) env::close_(__VA_ARGS__)
#define dup2(...) env::dup2_(__VA_ARGS__)
#define execl(...) env::exec_(__VA_ARGS__)
#define write(...) env::write_(__VA_ARGS__)
#define read(...) env::read_(__VA_ARGS__)
#define waitpid(...) env::waitpid_(__VA_ARGS__)
#include "symbols/symbols_with_addr2line.cpp"
#undef fork
#undef pipe
#undef close
#undef dup2
#undef execl
#undef write
#undef read
#undef waitpid
#include "symbols/symbols_with_dl.cpp"
#include "symbols/symbols_with_nothing.cpp"
typedef cpptrace::nullable<std::uint32_t> nu;
static std::string show(const stacktrace_frame& f) {
    return "{" + num(f.raw_address) + "|" + num(f.object_address) + "|" + f.symbol + "|" + f.filename + "|" + (f.line.has_value() ? std::to_string(f.line.value()) : "-") + "|" + (f.column.has_value() ? "col" : "-") + (f.is_inline ? "|i" : "") + "}";
}
static stacktrace_frame expected(const object_frame& f) {
    stacktrace_frame e{f.raw_address, f.object_address, nu::null(), nu::null(), f.object_path, "", false};
    mode m = env::modes[f.object_path];
    if(f.object_path.empty() || m == few || m == many || m == silent || m == broken || m == dead) return e;
    int k = env::kind(f.object_path, f.object_address);
    if(m == garbage_lines && k < 2) return e;
    if(m == unknown_lines && k == 0) { e.symbol = "??"; e.line = 0; return e; }
    e.symbol = "fn_" + num(f.object_address);
    if(m == unknown_lines && k == 1) return e;
    e.filename = "/src" + f.object_path + "/" + num(f.object_address) + ".c"; e.line = (std::uint32_t)(f.object_address % 100003);
    return e;
}
static void one(rng& r, std::size_t n) {
    static const char* objs[] = {"", "/bin/a", "/lib/b.so", "/lib/c.so", "/bin/a2", "relative", "/with space/x"};
    env::modes.clear(); env::salt.clear();
    std::string key;
    std::size_t no = 1 + r.below(7);
    for(std::size_t i = 0; i < 7; i++) { env::modes[objs[i]] = r.chance(1, 2) ? good : (mode)r.below(nmodes); env::salt[objs[i]] = (std::uint32_t)r.edgy(); }
    env::chunk = r.chance(1, 3) ? 1 + r.below(9) : 4096;
    std::vector<object_frame> v(n);
    for(std::size_t i = 0; i < n; i++) {
        v[i].raw_address = r.chance(1, 4) && i ? v[r.below(i)].raw_address : r.edgy();
        v[i].object_address = r.chance(1, 4) && i ? v[r.below(i)].object_address : r.chance(1, 8) ? r.below(4) : (r.edgy() >> r.below(40));
        v[i].object_path = objs[r.below(no)];
        if(i < 12) key += num(v[i].raw_address) + "@" + v[i].object_path + ":" + num(v[i].object_address) + " ";
    }
    for(std::size_t i = 0; i < no; i++) key += std::string(objs[i]) + "=" + mode_name[env::modes[objs[i]]] + " ";
    key += std::to_string(n) + " frames";
    at("resolve", key);
    env::stuck = false; env::runs = 0;
    std::vector<stacktrace_frame> t;
    bool thrown = false;
    try { t = cpptrace::detail::resolve_frames(v); } catch(...) { thrown = true; }
    ok(!thrown, "resolve", key, "no exception escapes");
    ok(!env::stuck, "resolve", key, "the addresses written before the tool is listened to fit in a pipe");
    if(!eq(t.size(), n, "resolve", key, "one entry per address")) return;
    for(std::size_t i = 0; i < n; i++) if(!eq(show(t[i]), show(expected(v[i])), "resolve", key, "entry " + std::to_string(i))) break;
    auto t2 = cpptrace::detail::nothing::resolve_frames(v);
    if(eq(t2.size(), n, "nothing", key, "one entry per address"))
        for(std::size_t i = 0; i < n; i++) { eq(t2[i].raw_address, v[i].raw_address, "nothing", key, "raw address"); eq(t2[i].object_address, v[i].object_address, "nothing", key, "object address"); eq(t2[i].filename, v[i].object_path, "nothing", key, "object path"); }
    // through the interface
    cpptrace::object_trace ot; ot.frames = v;
    auto st = ot.resolve();
    if(eq(st.frames.size(), n, "interface", key, "one entry per address"))
        for(std::size_t i = 0; i < n; i++) if(!eq(show(st.frames[i]), show(expected(v[i])), "interface", key, "entry " + std::to_string(i))) break;
    if(env::runs) nontrivial();
}
// addresses of this process: the loader, asked in another way, is the oracle
static void process(rng& r) {
    std::vector<frame_ptr> a;
    std::string key;
    const void* fs[] = {(const void*)&std::strtoull, (const void*)&one, (const void*)&dlsym, (const void*)&std::terminate, (const void*)&process};
    std::size_t n = r.below(9);
    for(std::size_t i = 0; i < n; i++) { a.push_back(r.chance(2, 3) ? (frame_ptr)fs[r.below(5)] + r.below(16) : r.chance(1, 3) ? (frame_ptr)&key : r.edgy()); key += num(a.back()) + " "; }
    at("objects", key);
    cpptrace::raw_trace raw; raw.frames = a;
    auto o = raw.resolve_object_trace();
    static std::string exe; if(exe.empty()) { char b[4097] = {}; if(::readlink("/proc/self/exe", b, 4096) > 0) exe = b; }
    env::modes.clear(); env::salt.clear();
    std::vector<stacktrace_frame> want;
    if(!eq(o.frames.size(), n, "objects", key, "one entry per address")) return;
    for(std::size_t i = 0; i < n; i++) {
        Dl_info info; link_map* lm = nullptr;
        object_frame e; e.raw_address = a[i]; e.object_address = 0;
        if(dladdr1((void*)a[i], &info, (void**)&lm, RTLD_DL_LINKMAP) && lm) { e.object_path = lm->l_name && *lm->l_name ? lm->l_name : exe; e.object_address = a[i] - lm->l_addr; }
        eq(o.frames[i].raw_address, e.raw_address, "objects", key, "raw address");
        eq(o.frames[i].object_path, e.object_path, "objects", key, "object path");
        eq(o.frames[i].object_address, e.object_address, "objects", key, "object address");
        want.push_back(expected(e));
    }
    env::chunk = 4096;
    auto s = raw.resolve();
    if(eq(s.frames.size(), n, "objects", key, "one entry per address"))
        for(std::size_t i = 0; i < n; i++) eq(show(s.frames[i]), show(want[i]), "objects", key, "entry");
    auto d = cpptrace::detail::libdl::resolve_frames(a);
    auto z = cpptrace::detail::nothing::resolve_frames(a);
    if(eq(d.size(), n, "libdl", key, "one entry per address") && eq(z.size(), n, "nothing", key, "one entry per address"))
        for(std::size_t i = 0; i < n; i++) {
            eq(d[i].raw_address, a[i], "libdl", key, "raw address"); eq(z[i].raw_address, a[i], "nothing", key, "raw address");
            Dl_info info; bool f = dladdr((void*)a[i], &info) != 0;
            eq(d[i].symbol, f && info.dli_sname ? info.dli_sname : "", "libdl", key, "symbol"); eq(d[i].filename, f && info.dli_fname ? info.dli_fname : "", "libdl", key, "object");
        }
    nontrivial();
}
static void body() {
    rng r(S().seed);
    one(r, 0); one(r, 1); one(r, 5000); one(r, 20000);
    budget b(0.9, 400000);
    while(b.more()) { if(r.chance(1, 6)) process(r); else one(r, r.chance(1, 3) ? r.below(4) : r.below(30)); }
}
HX_MAIN(body)
