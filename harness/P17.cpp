#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <new>
#include <unordered_set>
#include "ctrace.cpp"
using namespace hx;
using cpptrace::stacktrace_frame; using cpptrace::object_frame; using cpptrace::nullable; using cpptrace::frame_ptr;
typedef nullable<std::uint32_t> nu;

// arrays owned through the C interface: every new[] and delete[] of the program
static std::set<void*>* live; static long bad_frees = 0; static bool tracking = false;
static void* getmem(std::size_t n) { void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = getmem(n); if(tracking) { tracking = false; live->insert(p); tracking = true; } return p; }
static void drop(void* p) noexcept { if(!p) return; if(tracking) { tracking = false; if(!live->erase(p)) bad_frees++; tracking = true; } std::free(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete[](void* p, std::size_t) noexcept { drop(p); }

// the library below the interface: frames made from the addresses they are asked for, or a failure
static std::vector<stacktrace_frame> answer; static std::vector<object_frame> objs; static std::vector<frame_ptr> stack_, asked;
static bool failing; static std::size_t got_skip, got_depth; static object_frame one_obj;
namespace cpptrace { inline namespace v1 { namespace detail {
    std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& f) { asked = f; if(failing) throw std::runtime_error("x"); return answer; }
    std::vector<stacktrace_frame> resolve_frames(const std::vector<object_frame>& f) { asked.clear(); for(auto& x : f) asked.push_back(x.raw_address); if(failing) throw std::runtime_error("x"); return answer; }
    std::vector<object_frame> get_frames_object_info(const std::vector<frame_ptr>& f) { asked = f; if(failing) throw std::runtime_error("x"); return objs; }
    object_frame get_frame_object_info(frame_ptr a) { asked = {a}; if(failing) throw 5; return one_obj; }
    object_frame resolve_safe_object_frame(const safe_object_frame&) { return one_obj; }
    std::vector<frame_ptr> capture_frames(std::size_t s, std::size_t d) { got_skip = s; got_depth = d; if(failing) throw std::runtime_error("x"); return stack_; }
    std::size_t safe_capture_frames(frame_ptr* b, std::size_t n, std::size_t s, std::size_t d) { got_skip = s; got_depth = d; std::size_t k = std::min(n, std::min(d, stack_.size())); std::copy(stack_.begin(), stack_.begin() + k, b); return k; }
    bool has_safe_unwind() { return true; }
} } }
static std::string text(rng& r) {
    static const char* t[] = {"", "main", "/a/b.cpp", "ns::f<int, char>(std::string const&)", "_Z3foov", "%s%n%d", "x y", "\xc3\xa9\xff", "_ZN1aD", "_", "operator\"\"_x", "a\nb"};
    if(r.chance(3, 4)) return t[r.below(12)];
    std::string s; std::size_t n = r.chance(1, 20) ? r.below(3000) : r.below(40);
    while(s.size() < n) s += (char)(1 + r.below(255));
    return s;
}
static std::uint32_t pos(rng& r) { return r.chance(1, 4) ? 0xFFFFFFFFu : (std::uint32_t)r.edgy(); }
static std::string nz(nu v) { return v.has_value() ? std::to_string(v.value()) : "none"; }
static std::string show(const stacktrace_frame& f) { return num(f.raw_address) + "|" + num(f.object_address) + "|" + nz(f.line) + "|" + nz(f.column) + "|" + f.filename + "|" + f.symbol + "|" + (f.is_inline ? "i" : ""); }
// the C frame's fields, as the header describes them
static std::string show(const ctrace_stacktrace_frame& f) {
    return num(f.raw_address) + "|" + num(f.object_address) + "|" + (f.line == ~0u ? "none" : std::to_string(f.line)) + "|" + (f.column == ~0u ? "none" : std::to_string(f.column)) + "|" + (f.filename ? f.filename : "") + "|" + (f.symbol ? f.symbol : "") + "|" + (f.is_inline == 0 ? "" : "i");
}
static std::vector<stacktrace_frame> frames(rng& r, std::size_t n) {
    std::vector<stacktrace_frame> v;
    for(std::size_t i = 0; i < n; i++) v.push_back(stacktrace_frame{(frame_ptr)r.edgy(), (frame_ptr)r.edgy(), nu{pos(r)}, nu{pos(r)}, text(r), text(r), r.chance(1, 3)});
    return v;
}
static std::size_t count(rng& r) { return r.chance(1, 60) ? 90 + r.below(1020) : r.below(13); }
static std::string printed(const ctrace_stacktrace* t, ctrace_bool color) {
    char* b = nullptr; std::size_t n = 0; std::FILE* f = open_memstream(&b, &n);
    ctrace_print_stacktrace(t, f, color);
    std::fclose(f); std::string s(b, n); std::free(b); return s;
}
static std::string hex16(std::uint64_t v) { std::string s(16, '0'); for(int i = 15; i >= 0; i--, v >>= 4) s[i] = "0123456789abcdef"[v & 15]; return s; }
static std::string expect_print(const ctrace_stacktrace_frame* f, std::size_t n, bool color) {
    std::string s = "Stack trace (most recent call first):\n";
    if(!f || n == 0) return s + "<empty trace>\n";
    std::string B = color ? "\33[34m" : "", R = color ? "\33[0m" : "", Y = color ? "\33[33m" : "", G = color ? "\33[32m" : "";
    std::size_t w = std::to_string(n - 1).size();
    for(std::size_t i = 0; i < n; i++) {
        std::string k = std::to_string(i); s += "#" + k + std::string(w - k.size() + 1, ' ');
        if(f[i].is_inline) s += "         (inlined)"; else s += B + "0x" + hex16(f[i].raw_address) + R;
        if(f[i].symbol && *f[i].symbol) s += " in " + Y + f[i].symbol + R;
        if(f[i].filename && *f[i].filename) {
            s += " at " + G + f[i].filename + R;
            if(f[i].line != ~0u) { s += ":" + B + std::to_string(f[i].line) + R; if(f[i].column != ~0u) s += ":" + B + std::to_string(f[i].column) + R; }
        }
        s += "\n";
    }
    return s;
}
static void balance(const std::string& g, const std::string& key) {
    tracking = false;
    ok(live->empty(), g, key, "freeing releases everything: " + std::to_string(live->size()) + " left");
    ok(bad_frees == 0, g, key, "only what was handed over is released, once");
    live->clear(); bad_frees = 0;
}
static void round(rng& r, std::size_t n) {
    answer = frames(r, n);
    objs.clear(); for(std::size_t i = 0; i < n; i++) objs.push_back(object_frame{(frame_ptr)r.edgy(), (frame_ptr)r.edgy(), text(r)});
    stack_.clear(); for(std::size_t i = 0; i < n; i++) stack_.push_back((frame_ptr)r.edgy());
    failing = r.chance(1, 8);
    std::size_t skip = r.chance(1, 2) ? r.below(5) : r.edgy() / 2, depth = r.edgy();
    bool color = r.chance(1, 2);
    std::string key = std::to_string(n) + (failing ? " frames, failing" : " frames");
    for(std::size_t i = 0; i < n && i < 4; i++) key += " {" + show(answer[i]) + "}";
    at("traces", key);
    auto want = answer; for(auto& f : want) f.symbol = cpptrace::detail::demangle(f.symbol, true);
    tracking = true;
    // raw
    ctrace_raw_trace raw = ctrace_generate_raw_trace(skip, depth);
    if(failing) ok(!raw.frames && raw.count == 0, "traces", key, "a failure gives the empty handle");
    else { eq(raw.count, n, "traces", key, "raw count"); ok(std::equal(stack_.begin(), stack_.end(), raw.frames), "traces", key, "raw addresses"); ok(got_depth == depth && got_skip == skip + 1, "traces", key, "skip and depth"); }
    ctrace_object_trace ot = ctrace_generate_object_trace(skip, depth);
    ctrace_stacktrace st = ctrace_generate_trace(skip, depth);
    if(failing) { ok(!ot.frames && ot.count == 0 && !st.frames && st.count == 0, "traces", key, "a failure gives the empty handle"); }
    auto chk_o = [&](const ctrace_object_trace& o, const char* what) {
        if(!eq(o.count, n, "traces", key, std::string(what) + " count")) return;
        for(std::size_t i = 0; i < n; i++) {
            ok(o.frames[i].raw_address == objs[i].raw_address && o.frames[i].obj_address == objs[i].object_address, "traces", key, std::string(what) + " addresses");
            eq(std::string(o.frames[i].obj_path), std::string(objs[i].object_path.c_str()), "traces", key, std::string(what) + " path");
            ok(o.frames[i].obj_path != objs[i].object_path.c_str(), "traces", key, "an independent copy");
        }
    };
    auto chk_s = [&](const ctrace_stacktrace& o, const char* what) {
        if(!eq(o.count, n, "traces", key, std::string(what) + " count")) return;
        for(std::size_t i = 0; i < n; i++) { eq(show(o.frames[i]), show(want[i]), "traces", key, what); ok(o.frames[i].is_inline == 0 || o.frames[i].is_inline == 1, "traces", key, "a boolean"); }
    };
    if(!failing) { chk_o(ot, "object trace"); chk_s(st, "trace"); }
    bool was = failing;
    failing = r.chance(1, 10);
    // resolution of handles (possibly the empty ones)
    auto handles = [&](bool empty, std::size_t cnt) { (void)cnt; return empty; };
    ctrace_stacktrace s2 = ctrace_resolve_raw_trace(&raw);
    if(failing || handles(was, 0)) ok(!s2.frames && s2.count == 0, "traces", key, "resolving nothing gives nothing"); else { ok(asked == stack_, "traces", key, "resolves its addresses"); chk_s(s2, "resolved raw trace"); }
    ctrace_object_trace o2 = ctrace_resolve_raw_trace_to_object_trace(&raw);
    if(failing || was) ok(!o2.frames && o2.count == 0, "traces", key, "resolving nothing gives nothing"); else { ok(asked == stack_, "traces", key, "resolves its addresses"); chk_o(o2, "raw trace to objects"); }
    ctrace_stacktrace s3 = ctrace_resolve_object_trace(&ot);
    if(failing || was) ok(!s3.frames && s3.count == 0, "traces", key, "resolving nothing gives nothing");
    else { bool same = asked.size() == n; for(std::size_t i = 0; same && i < n; i++) same = asked[i] == objs[i].raw_address; ok(same, "traces", key, "resolves its addresses"); chk_s(s3, "resolved object trace"); }
    // a single frame
    one_obj = object_frame{(frame_ptr)r.edgy(), (frame_ptr)r.edgy(), text(r)};
    ctrace_stacktrace_frame q{(frame_ptr)r.edgy(), 1, 2, 3, nullptr, nullptr, 0};
    ctrace_object_frame of = ctrace_get_object_info(&q);
    ok(asked.size() == 1 && asked[0] == q.raw_address, "traces", key, "the object of its address");
    if(failing) ok(of.raw_address == 0 && of.obj_address == 0 && !of.obj_path, "traces", key, "no object");
    else { ok(of.raw_address == one_obj.raw_address && of.obj_address == one_obj.object_address && one_obj.object_path == of.obj_path, "traces", key, "its object"); delete[] of.obj_path; }
    failing = false;
    // printing, on a working copy in which strings may be absent
    std::vector<ctrace_stacktrace_frame> pf(st.frames, st.frames + st.count);
    for(auto& f : pf) { if(r.chance(1, 6)) f.symbol = nullptr; if(r.chance(1, 6)) f.filename = nullptr; if(r.chance(1, 8)) f.is_inline = (ctrace_bool)(1 + r.below(127)); }
    ctrace_stacktrace pt{pf.empty() ? nullptr : pf.data(), pf.size()};
    { ctrace_bool col = color ? (ctrace_bool)(r.chance(1, 2) ? 1 : -1) : 0;
      tracking = false; std::string out = printed(&pt, col); eq(out, expect_print(pt.frames, pt.count, color), "traces", key, "printed"); tracking = true;
      // stringified: as the C++ trace with these frames
      std::vector<stacktrace_frame> cf;
      for(auto& f : pf) cf.push_back(stacktrace_frame{f.raw_address, f.object_address, f.line == ~0u ? nu::null() : nu{f.line}, f.column == ~0u ? nu::null() : nu{f.column}, f.filename ? f.filename : "", f.symbol ? f.symbol : "", f.is_inline != 0});
      ctrace_owning_string s = ctrace_stacktrace_to_string(&pt, col);
      eq(std::string(s.data), std::string(pt.frames ? cpptrace::stacktrace{cf}.to_string(color).c_str() : "<empty trace>"), "traces", key, "stringified");
      ctrace_free_owning_string(&s); ok(!s.data, "traces", key, "the handle is empty"); ctrace_free_owning_string(&s); }
    // freeing, repeatedly
    for(int k = 0; k < 2; k++) {
        ctrace_free_raw_trace(&raw); ok(!raw.frames && raw.count == 0, "traces", key, "raw handle emptied");
        ctrace_free_object_trace(&ot); ctrace_free_object_trace(&o2); ok(!ot.frames && ot.count == 0 && !o2.frames && o2.count == 0, "traces", key, "object handle emptied");
        ctrace_free_stacktrace(&st); ctrace_free_stacktrace(&s2); ctrace_free_stacktrace(&s3);
        ok(!st.frames && st.count == 0 && !s2.frames && s2.count == 0 && !s3.frames && s3.count == 0, "traces", key, "trace handle emptied");
    }
    balance("traces", key);
    if(n > 1) nontrivial();
}
static void nulls(rng& r) {
    at("null", "null and empty handles");
    const std::string key = "null and empty handles";
    tracking = true; failing = false;
    answer = frames(r, 2); objs.assign(2, one_obj);
    ctrace_free_owning_string(nullptr); ctrace_free_raw_trace(nullptr); ctrace_free_object_trace(nullptr); ctrace_free_stacktrace(nullptr);
    ctrace_raw_trace a{nullptr, 7}; ctrace_object_trace b{nullptr, 7}; ctrace_stacktrace c{nullptr, 7};
    for(int k = 0; k < 2; k++) {
        ctrace_stacktrace s = ctrace_resolve_raw_trace(k ? &a : nullptr), t = ctrace_resolve_object_trace(k ? &b : nullptr); ctrace_object_trace o = ctrace_resolve_raw_trace_to_object_trace(k ? &a : nullptr);
        ok(!s.frames && !s.count && !t.frames && !t.count && !o.frames && !o.count, "null", key, "resolving nothing gives nothing");
        ctrace_owning_string x = ctrace_stacktrace_to_string(k ? &c : nullptr, 0);
        eq(std::string(x.data), std::string("<empty trace>"), "null", key, "stringified"); ctrace_free_owning_string(&x);
        tracking = false; eq(printed(k ? &c : nullptr, 0), expect_print(nullptr, 0, false), "null", key, "printed"); tracking = true;
    }
    ctrace_free_raw_trace(&a); ctrace_free_object_trace(&b); ctrace_free_stacktrace(&c);
    ctrace_owning_string e = ctrace_demangle(nullptr); eq(std::string(e.data), std::string(), "null", key, "demangled"); ctrace_free_owning_string(&e);
    e = ctrace_generate_owning_string(nullptr); eq(std::string(e.data), std::string(), "null", key, "a null string"); ctrace_free_owning_string(&e);
    balance("null", key);
}
static void strings(rng& r) {
    std::string t = text(r); at("string", t); tracking = true;
    std::string src = t.c_str();
    ctrace_owning_string s = ctrace_generate_owning_string(src.c_str());
    ok(s.data && s.data != src.c_str(), "string", t, "an independent copy"); eq(std::string(s.data), src, "string", t, "the text");
    ctrace_owning_string d = ctrace_demangle(src.c_str()); eq(std::string(d.data), std::string(cpptrace::demangle(src).c_str()), "string", t, "demangled");
    for(auto& ch : src) ch = 'z';
    eq(std::string(s.data), std::string(t.c_str()), "string", t, "independent of its source");
    ctrace_free_owning_string(&s); ctrace_free_owning_string(&d); ctrace_free_owning_string(&s); ok(!s.data && !d.data, "string", t, "the handle is empty");
    balance("string", t);
}
static void body() {
    live = new std::set<void*>;
    rng r(S().seed);
    nulls(r);
    for(std::size_t n : {0, 1, 2, 9, 10, 11, 99, 100, 101, 1000, 1001}) for(int k = 0; k < 3; k++) round(r, n);
    budget b(0.9, 1000000);
    while(b.more()) { round(r, count(r)); strings(r); }
    nulls(r);
}
HX_MAIN(body)
