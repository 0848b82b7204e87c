#include "hx.hpp"
#include "elf_build.hpp"
#include <cpptrace/cpptrace.hpp>
#include "binary/elf.hpp"
#include "binary/module_base.hpp"
#include <cstdio>
#include <fcntl.h>
using namespace hx;
using cpptrace::detail::elf;
static eb::fmt f;
static std::string image(rng& r) {
    f.is64 = r.chance(1, 2); f.be = r.chance(1, 3);
    std::vector<eb::sec> ss;
    eb::sec str; str.name = ".strtab"; str.type = SHT_STRTAB; str.data = std::string("\0main\0helper\0x\0", 15);
    auto add = [&](std::uint32_t type, const char* name) {
        eb::sec s; s.name = name; s.type = type; s.entsize = f.symsize(); s.link = 1;
        int n = (int)r.below(5); for(int i = 0; i < n; i++) s.data += f.symbol({(std::uint32_t)r.below(14), 2, 1, r.below(1000), r.below(50)});
        ss.push_back(s);
    };
    ss.push_back(str);
    if(r.chance(3, 4)) add(SHT_SYMTAB, ".symtab");
    if(r.chance(1, 2)) add(SHT_DYNSYM, ".dynsym");
    eb::sec t; t.name = ".text"; t.type = SHT_PROGBITS; t.addr = 0x1000; t.size = r.below(4096); ss.push_back(t);
    std::vector<eb::seg> segs; int k = (int)r.below(4); for(int i = 0; i < k; i++) segs.push_back({(std::uint32_t)(r.chance(1, 2) ? PT_PHDR : PT_LOAD), r.below(100), r.edgy(), 0, 0});
    return eb::build(f, ss, segs);
}
static std::uint64_t evil(rng& r, std::uint64_t n) {
    switch(r.below(6)) { case 0: return r.edgy(); case 1: return n - 4 + r.below(9); case 2: return ~0ull - r.below(n + 70); case 3: return 0x7fffffffffffffffull - r.below(n + 70); case 4: return r.below(n + 20); default: return r.below(40); }
}
static std::string describe(const std::string& s, const std::vector<std::string>& edits) { std::string r = "image of " + std::to_string(s.size()) + " bytes"; for(auto& e : edits) r += ", " + e; return r; }
// one answer, as text
template<typename R> static std::string err(const R&) { return "error"; }
static std::string ask(elf& e, int q, std::uint64_t pc) {
    std::ostringstream o;
    switch(q) {
        case 0: { auto x = e.get_module_image_base(); if(!x) return err(x); o << x.unwrap_value(); break; }
        case 1: { auto x = e.get_pc_ranges(); if(!x) return err(x); for(auto& g : x.unwrap_value()) o << g.low << "-" << g.high << ";"; break; }
        case 2: case 3: { auto x = q == 2 ? e.get_symtab_entries() : e.get_dynamic_symtab_entries(); if(!x) return err(x); if(!x.unwrap_value()) { o << "none"; break; } for(auto& s : x.unwrap_value().unwrap()) o << s.st_name.size() << s.st_name << s.st_shndx << ":" << s.st_value << "+" << s.st_size << ";"; break; }
        default: { auto x = e.lookup_symbol(pc); o << (x ? "found " + x.unwrap() : "nothing"); }
    }
    return o.str();
}
static void put(std::string& s, std::size_t at, std::uint64_t v, int w) { for(int i = 0; i < w; i++) if(at + i < s.size()) s[at + i] = (char)(v >> 8 * (f.be ? w - 1 - i : i)); }
static void body() {
    rng r(S().seed);
    budget b(0.9, 3000000);
    std::string path = std::string(getenv("HX_WORK")) + "/image";
    std::uint64_t k = 0;
    while(b.more()) {
        std::string s = r.chance(1, 40) ? std::string() : image(r);
        std::vector<std::string> ed;
        int n = (int)r.below(5);
        std::size_t eh = f.is64 ? 64 : 52, sh = f.shsize(), nsh = s.size() > eh ? (s.size() - (std::size_t)0) / sh : 0; (void)nsh;
        for(int i = 0; i < n && !s.empty(); i++) {
            char d[96]; int kind = (int)r.below(7);
            if(kind == 0) { std::size_t p = r.below(s.size()); s[p] = (char)r.next(); std::snprintf(d, sizeof d, "byte %zu = %d", p, (unsigned char)s[p]); }
            else if(kind == 1) { s.resize(r.below(s.size() + 1)); std::snprintf(d, sizeof d, "cut to %zu", s.size()); }
            else if(kind == 2) { // a header field
                static const int off64[] = {32, 40, 54, 56, 58, 60, 62, 52}, off32[] = {28, 32, 42, 44, 46, 48, 50, 40};
                int j = (int)r.below(7); int w = j < 2 ? (f.is64 ? 8 : 4) : 2; std::size_t p = f.is64 ? off64[j] : off32[j]; std::uint64_t v = evil(r, s.size());
                put(s, p, v, w); std::snprintf(d, sizeof d, "header field at %zu = %llu", p, (unsigned long long)v);
            } else { // a field of a section header, counted from the end
                int cnt = 3 + (int)r.below(5); std::size_t idx = r.below(cnt);
                if(s.size() < (idx + 1) * sh) continue;
                std::size_t base = s.size() - (idx + 1) * sh;
                static const int o64[] = {0, 4, 16, 24, 32, 40, 56}, o32[] = {0, 4, 12, 16, 20, 24, 36};
                int j = (int)r.below(7); std::size_t p = base + (f.is64 ? o64[j] : o32[j]); int w = (j == 0 || j == 1 || j == 5 || !f.is64) ? 4 : 8;
                std::uint64_t v = j == 1 ? (r.chance(1, 2) ? SHT_SYMTAB : r.chance(1, 2) ? SHT_STRTAB : SHT_DYNSYM) : evil(r, s.size());
                put(s, p, v, w); std::snprintf(d, sizeof d, "section %zu from the end, field %d = %llu", idx, j, (unsigned long long)v);
            }
            ed.push_back(d);
        }
        if(r.chance(1, 60)) { s.clear(); std::size_t m = r.below(200); for(std::size_t i = 0; i < m; i++) s += (char)r.next(); if(m > 7 && r.chance(1, 2)) { s.replace(0, 4, "\x7f" "ELF"); s[6] = 1; } ed = {"random bytes"}; }
        bool fromfile = (++k % 16) == 0;
        std::string in = describe(s, ed) + (f.is64 ? ", 64" : ", 32") + (f.be ? " big" : " little") + (fromfile ? ", file" : "") + " " + (s.size() < 900 ? hex(s) : "");
        at("arbitrary", in);
        std::unique_ptr<char[]> mem(new char[s.size() ? s.size() : 1]); std::memcpy(mem.get(), s.data(), s.size());
        if(fromfile) { std::FILE* o = std::fopen(path.c_str(), "wb"); if(!o) return; std::fwrite(s.data(), 1, s.size(), o); std::fclose(o); }
        try {
            auto e = fromfile ? elf::open(path.c_str()) : elf::open(cpptrace::detail::make_span((const char*)mem.get(), s.size()));
            if(!e) continue;
            nontrivial();
            elf& x = e.unwrap_value();
            std::map<std::pair<int, std::uint64_t>, std::string> seen;
            for(int q = 0; q < 9; q++) {
                int kind = (int)r.below(5); std::uint64_t pc = kind == 4 ? (r.chance(1, 4) ? r.edgy() : r.below(1100)) : 0;
                std::string a = ask(x, kind, pc);
                auto it = seen.find({kind, pc});
                if(it != seen.end()) eq(a, it->second, "arbitrary", in, "query " + std::to_string(kind) + " asked again");
                seen[{kind, pc}] = a;
                if(kind < 4) eq(ask(x, kind, pc), a, "arbitrary", in, "query " + std::to_string(kind) + " asked again");
            }
        } catch(const std::exception& e) { fail("arbitrary", in, std::string("an exception escapes: ") + e.what()); }
    }
}
HX_MAIN(body)
