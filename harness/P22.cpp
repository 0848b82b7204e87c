#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include "utils/common.hpp"
#include "utils/utils.hpp"
#include "platform/program_name.hpp"
#include <unordered_map>
#include <iostream>
// the dynamic loader and readlink are the environment: scripted answers
namespace env {
    static bool found = false; static link_map lm{}; static int asked = 0; static void* addr = nullptr;
    static std::string exe; static bool exe_fails = false; static int reads = 0; static std::size_t given = 0;
    static int find(void* p, dl_find_object* r) { asked++; addr = p; if(!found) return -1; std::memset(r, 0xAB, sizeof *r); r->dlfo_link_map = &lm; return 0; }
    static ssize_t readlink_(const char*, char* buf, std::size_t n) {
        reads++; given = n;
        if(exe_fails) return -1;
        std::size_t k = std::min(n, exe.size()); std::memcpy(buf, exe.data(), k); return (ssize_t)k;
    }
}
#define _dl_find_object env::find
#define readlink env::readlink_
#include "binary/safe_dl.cpp"
#undef _dl_find_object
#undef readlink
using namespace hx;
using cpptrace::safe_object_frame;
static void body() {
    rng r(S().seed);
    at("able", "capability"); ok(cpptrace::can_get_safe_object_frame(), "able", "capability", "signal-safe frames are available");
    const std::size_t MAXP = CPPTRACE_PATH_MAX;
    budget b(0.9, 400000);
    while(b.more()) {
        std::uintptr_t a = r.edgy(), base = r.chance(1, 2) ? a - r.below(1 << 20) : r.edgy();
        env::found = !r.chance(1, 5); env::exe_fails = r.chance(1, 6); env::asked = env::reads = 0;
        std::size_t len = r.chance(1, 6) ? MAXP - 3 + r.below(8) : r.chance(1, 12) ? MAXP * 2 : r.below(60);
        std::string name; for(std::size_t i = 0; i < len; i++) name += (char)('!' + r.below(90));
        int kind = (int)r.below(4);   // 0: null name, 1: empty name, else name
        std::size_t el = r.chance(1, 8) ? MAXP - 2 + r.below(5) : r.below(80);
        env::exe.assign(el, 'e');
        // exactly sized, so that a read behind the terminator is caught
        std::unique_ptr<char[]> n(new char[name.size() + 1]); std::memcpy(n.get(), name.c_str(), name.size() + 1);
        char empty[1] = {0};
        env::lm.l_addr = base; env::lm.l_name = kind == 0 ? nullptr : kind == 1 ? empty : n.get();
        bool own = kind < 2 || name.empty();
        std::unique_ptr<safe_object_frame> f(new safe_object_frame);
        std::memset(f.get(), 0x5A, sizeof *f);
        std::string key = num(a) + (env::found ? own ? (env::exe_fails ? " own executable, unreadable" : " own executable path of " + std::to_string(el)) : " path of " + std::to_string(name.size()) + " " + name.substr(0, 40) : " no object") + " base " + num(base);
        at("frame", key);
        cpptrace::get_safe_object_frame(a, f.get());
        eq(f->raw_address, a, "frame", key, "raw address");
        ok(env::asked == 1 && env::addr == reinterpret_cast<void*>(a), "frame", key, "the loader is asked about the address");
        std::size_t z = 0; while(z < sizeof f->object_path && f->object_path[z]) z++;
        if(!ok(z < sizeof f->object_path, "frame", key, "the path is zero-terminated inside its buffer")) continue;
        std::string path(f->object_path);
        std::string want = !env::found ? "" : own ? (env::exe_fails ? "" : env::exe) : name;
        if(want.size() > MAXP) want.resize(MAXP);
        eq(path, want, "frame", key, "object path");
        eq(f->address_relative_to_object_start, env::found ? a - base : 0, "frame", key, "address relative to the object");
        cpptrace::object_frame o = f->resolve();
        eq(o.raw_address, a, "resolve", key, "raw address");
        eq(o.object_path, path, "resolve", key, "path");
        eq(o.object_address, path.empty() ? 0 : f->address_relative_to_object_start, "resolve", key, "object address");
        nontrivial();
    }
}
HX_MAIN(body)
