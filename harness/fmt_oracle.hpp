// what a formatter with the given settings should write, from the documentation of the settings
#pragma once
#include "hx.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/formatting.hpp>
#include <cpptrace/utils.hpp>
namespace fo {
    using namespace hx;
    using cpptrace::formatter; using cpptrace::stacktrace; using cpptrace::stacktrace_frame; using cpptrace::frame_ptr;
    typedef cpptrace::nullable<std::uint32_t> nu;
    struct counter { int n = 0; stacktrace_frame operator()(stacktrace_frame f) { f.symbol += "#" + std::to_string(n++); return f; } };
    struct conf {
        std::string header = "Stack trace (most recent call first):";
        int color = 2, addr = 0, paths = 0; bool snippets = false; int ctx = 2; bool columns = true; int symbols = 0;
        bool placeholders = true, brk = false, hide = true; int filter = 0, transform = 0, count = 0;
        std::string show() const {
            return "{header=" + quote(header) + " color=" + std::to_string(color) + " addr=" + std::to_string(addr) + " paths=" + std::to_string(paths) + " snip=" + std::to_string(snippets) + "/" + std::to_string(ctx) + " cols=" + std::to_string(columns)
                + " sym=" + std::to_string(symbols) + " ph=" + std::to_string(placeholders) + " brk=" + std::to_string(brk) + " hide=" + std::to_string(hide) + " filter=" + std::to_string(filter) + " transform=" + std::to_string(transform) + "}";
        }
    };
    inline bool pass(int k, const stacktrace_frame& f) {
        switch(k) { case 1: return !f.symbol.empty(); case 2: return f.raw_address % 2 == 0; case 3: return false; case 4: return f.symbol.find('X') == std::string::npos; default: return true; }
    }
    inline stacktrace_frame change(int k, stacktrace_frame f, int& n) {
        switch(k) {
            case 1: f.symbol += "X"; break;
            case 2: f.filename = "/t/" + f.symbol; f.line = nu{9}; break;
            case 3: f.symbol += "#" + std::to_string(n++); break;
            case 4: f.is_inline = !f.is_inline; f.raw_address++; f.object_address ^= 3; f.column = nu{4}; break;
        }
        return f;
    }
    // one setting; the same change to the model
    inline void set(rng& r, formatter& f, conf& c, std::string& log, int which = -1) {
        if(which < 0) which = (int)r.below(13);
        switch(which) {
            case 0: { static const char* h[] = {"", "Trace:", "Stack trace (most recent call first):", "a\nb", " "}; c.header = h[r.below(5)]; f.header(c.header); log += "header "; break; }
            case 1: c.color = (int)r.below(3); f.colors(c.color == 0 ? formatter::color_mode::always : c.color == 1 ? formatter::color_mode::none : formatter::color_mode::automatic); log += "colors" + std::to_string(c.color) + " "; break;
            case 2: c.addr = (int)r.below(3); f.addresses(c.addr == 0 ? formatter::address_mode::raw : c.addr == 1 ? formatter::address_mode::object : formatter::address_mode::none); log += "addresses" + std::to_string(c.addr) + " "; break;
            case 3: c.paths = (int)r.below(2); f.paths(c.paths == 0 ? formatter::path_mode::full : formatter::path_mode::basename); log += "paths" + std::to_string(c.paths) + " "; break;
            case 4: c.snippets = r.chance(1, 2); f.snippets(c.snippets); log += "snippets" + std::to_string(c.snippets) + " "; break;
            case 5: c.ctx = (int)r.below(4); f.snippet_context(c.ctx); log += "context" + std::to_string(c.ctx) + " "; break;
            case 6: c.columns = r.chance(1, 2); f.columns(c.columns); log += "columns" + std::to_string(c.columns) + " "; break;
            case 7: c.symbols = (int)r.below(3); f.symbols(c.symbols == 0 ? formatter::symbol_mode::full : c.symbols == 1 ? formatter::symbol_mode::pretty : formatter::symbol_mode::pruned); log += "symbols" + std::to_string(c.symbols) + " "; break;
            case 8: c.placeholders = r.chance(1, 2); f.filtered_frame_placeholders(c.placeholders); log += "placeholders" + std::to_string(c.placeholders) + " "; break;
            case 9: { c.filter = (int)r.below(5); int k = c.filter; if(k == 0) f.filter(std::function<bool(const stacktrace_frame&)>()); else f.filter([k](const stacktrace_frame& x) { return pass(k, x); }); log += "filter" + std::to_string(k) + " "; break; }
            case 10: { c.transform = (int)r.below(5); c.count = 0; int k = c.transform; if(k == 0) f.transform(std::function<stacktrace_frame(stacktrace_frame)>()); else if(k == 3) f.transform(counter()); else f.transform([k](stacktrace_frame x) { int z = 0; return change(k, x, z); }); log += "transform" + std::to_string(k) + " "; break; }
            case 11: c.brk = r.chance(1, 2); f.break_before_filename(c.brk); log += "break" + std::to_string(c.brk) + " "; break;
            default: c.hide = r.chance(1, 2); f.hide_exception_machinery(c.hide); log += "hide" + std::to_string(c.hide) + " "; break;
        }
    }
    inline std::string hex16(std::uint64_t v) { std::string s(16, '0'); for(int i = 15; i >= 0; i--, v >>= 4) s[i] = "0123456789abcdef"[v & 15]; return s; }
    inline std::string frame_text(const conf& c, const stacktrace_frame& f, bool col, std::size_t indent) {
        const std::string R = col ? "\33[0m" : "", G = col ? "\33[32m" : "", Y = col ? "\33[33m" : "", B = col ? "\33[34m" : "";
        std::string s; std::size_t w = indent;
        if(f.is_inline) { s += "(inlined)         "; w += 18; }
        else if(c.addr != 2) { s += B + "0x" + hex16(c.addr == 0 ? f.raw_address : f.object_address) + R; w += 18; }
        if(f.is_inline || c.addr != 2) { s += " "; w++; }
        if(!f.symbol.empty()) s += "in " + Y + (c.symbols == 0 ? f.symbol : c.symbols == 1 ? cpptrace::prettify_symbol(f.symbol) : cpptrace::prune_symbol(f.symbol)) + R;
        if(!f.symbol.empty() && !f.filename.empty()) s += c.brk ? "\n" + std::string(w, ' ') : " ";
        if(!f.filename.empty()) {
            s += "at " + G + (c.paths == 0 ? f.filename : cpptrace::basename(f.filename)) + R;
            if(f.line.has_value()) {
                s += ":" + B + std::to_string(f.line.value()) + R;
                if(f.column.has_value() && c.columns) s += ":" + B + std::to_string(f.column.value()) + R;
            }
        }
        return s;
    }
    inline std::string single(conf& c, const stacktrace_frame& f, bool col, std::size_t indent) { return frame_text(c, change(c.transform, f, c.count), col, indent); }
    inline std::string trace_text(conf& c, const std::vector<stacktrace_frame>& v, bool col) {
        std::string s = c.header.empty() ? "" : c.header + "\n";
        if(v.empty()) return s + "<empty trace>";
        std::size_t start = 0;
        if(c.hide) for(std::size_t i = 0; i < v.size(); i++) if(v[i].symbol == "__cxa_throw" || v[i].symbol == "CxxThrowException" || v[i].symbol == "_CxxThrowException") { start = i + 1; break; }
        const std::size_t width = std::to_string(v.size() - 1).size();
        bool first = true;
        for(std::size_t i = start; i < v.size(); i++) {
            stacktrace_frame f = change(c.transform, v[i], c.count);
            bool out = c.filter && !pass(c.filter, f);
            if(out && !c.placeholders) continue;
            if(!first) s += "\n";
            first = false;
            std::string n = std::to_string(i - start);
            s += "#" + n + std::string(width - n.size() + 1, ' ');
            if(out) s += "(filtered)";
            else {
                s += frame_text(c, f, col, width + 2);
                if(f.line.has_value() && !f.filename.empty() && c.snippets) { std::string sn = cpptrace::get_snippet(f.filename, f.line.value(), f.column.has_value() ? f.column.value() : nu::null(), c.ctx, col); if(!sn.empty()) s += "\n" + sn; }
            }
        }
        return s;
    }
    inline stacktrace_frame frame(rng& r) {
        static const char* syms[] = {"", "main", "foo()", "ns::S<int, float>::~S()", "std::vector<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > >::size() const", "__cxa_throw", "f<X>", "{}", "%s", "a , b", "CxxThrowException", "_CxxThrowException", "__cxa_throw_", "_CxxThrowException()"};
        static const char* files[] = {"", "/a/b.cpp", "b.cpp", "/", "C:\\x\\y.cpp", "/proc/self/maps", "{}", "/nonexistent/dir/f.cpp"};
        return stacktrace_frame{(frame_ptr)r.edgy(), (frame_ptr)r.edgy(), r.chance(1, 3) ? nu::null() : nu{(std::uint32_t)r.below(r.chance(1, 2) ? 30 : 0xfffffffe)}, r.chance(1, 3) ? nu::null() : nu{(std::uint32_t)r.below(200)}, files[r.below(8) % (r.chance(1, 8) ? 8 : 5)], syms[r.below(r.chance(1, 4) ? 14 : 5)], r.chance(1, 4)};
    }
    inline std::vector<stacktrace_frame> frames(rng& r) {
        static const std::size_t sizes[] = {0, 1, 9, 10, 11, 12, 99, 100, 101, 1000, 1001};
        std::size_t n = r.chance(1, 3) ? sizes[r.below(r.chance(1, 20) ? 11 : 6)] : r.below(14);
        std::vector<stacktrace_frame> v; for(std::size_t i = 0; i < n; i++) v.push_back(frame(r));
        return v;
    }
    inline std::string show(const std::vector<stacktrace_frame>& v) {
        std::string s = std::to_string(v.size()) + " frames";
        for(std::size_t i = 0; i < v.size() && i < 13; i++) s += " (" + hex16(v[i].raw_address) + "," + v[i].symbol + "," + v[i].filename + "," + (v[i].line.has_value() ? std::to_string(v[i].line.value()) : "-") + "," + (v[i].column.has_value() ? std::to_string(v[i].column.value()) : "-") + (v[i].is_inline ? ",i)" : ")");
        return s;
    }
}
