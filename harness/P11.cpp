#include "hx.hpp"
#include "elf_build.hpp"
#include <cpptrace/cpptrace.hpp>
#include "binary/elf.hpp"
using namespace hx;
using cpptrace::detail::elf;
struct symx { std::string name; std::uint64_t value, size; std::uint16_t shndx; };
static void tables(rng& r, const eb::fmt& f, bool big, std::vector<symx>& syms, std::string& strtab, std::string& data, bool nested) {
    int n = r.chance(1, 6) ? 0 : (int)r.below(big ? 60 : 12);
    std::uint64_t at_ = r.chance(1, 3) ? 0 : r.below(1 << 20); std::uint64_t lim = f.is64 ? ~0ull : 0xffffffffull;
    strtab = std::string(1, '\0');
    std::vector<std::size_t> order;
    for(int i = 0; i < n; i++) {
        symx s; s.name = r.chance(1, 10) ? "" : "_Z" + std::to_string(r.below(100)) + std::string(r.below(30), 'a' + (char)r.below(26));
        if(!nested && i && r.chance(1, 8)) { s.value = syms.back().value; s.size = r.below(2) ? syms.back().size : r.below(20); }   // an alias
        else { if(!nested) at_ += r.chance(1, 3) ? 0 : r.below(40); s.value = nested ? r.below(200) : at_; s.size = r.chance(1, 5) ? 0 : 1 + r.below(40); }
        if(!nested) at_ = std::max(at_, s.value + s.size);
        if(i == n - 1 && !nested && r.chance(1, 4)) { s.value = lim - r.below(6); s.size = lim - s.value + r.below(2) * 3; if(s.size > lim) s.size = lim - s.value; }
        s.shndx = (std::uint16_t)r.below(5); syms.push_back(s);
    }
    for(std::size_t i = syms.size(); i > 1; i--) std::swap(syms[i - 1], syms[r.below(i)]);
    for(auto& s : syms) {
        std::uint32_t nm = s.name.empty() ? 0 : (std::uint32_t)strtab.size(); if(!s.name.empty()) { strtab += s.name; strtab += '\0'; }
        data += f.symbol({nm, 2, s.shndx, s.value, s.size});
    }
}
static std::string key(const std::string& n, std::uint64_t v, std::uint64_t s, std::uint16_t x) { return n + "@" + std::to_string(v) + "+" + std::to_string(s) + "/" + std::to_string(x); }
static bool contains(const symx& s, std::uint64_t pc) { return s.size && pc >= s.value && pc - s.value < s.size; }
static void one(rng& r, const std::string& g, bool nested, const std::string& path) {
    eb::fmt f; f.is64 = r.chance(1, 2); f.be = r.chance(1, 2);
    std::uint64_t lim = f.is64 ? ~0ull : 0xffffffffull;
    std::vector<eb::sec> ss; std::vector<symx> syms[2]; bool has[2] = {r.chance(4, 5), r.chance(1, 2)}; bool link[2] = {!r.chance(1, 10), !r.chance(1, 10)};
    std::vector<std::pair<std::uint64_t, std::uint64_t>> text;
    std::vector<int> kinds; for(int t = 0; t < 2; t++) if(has[t]) kinds.push_back(t);
    int extra = (int)r.below(5); for(int i = 0; i < extra; i++) kinds.push_back(2 + (int)r.below(2));
    for(std::size_t i = kinds.size(); i > 1; i--) std::swap(kinds[i - 1], kinds[r.below(i)]);
    for(int k : kinds) {
        if(k == 3) { eb::sec s; s.name = ".text"; s.type = SHT_PROGBITS; s.addr = r.below(f.is64 ? 1ull << 47 : 1u << 31); s.size = 1 + r.below(5000); text.push_back({s.addr, s.addr + s.size}); ss.push_back(s); }
        else if(k == 2) { static const char* nm[] = {".rodata", ".text.hot", ".tex", "text", ".data", ""}; eb::sec s; s.name = nm[r.below(6)]; s.type = SHT_PROGBITS; s.addr = r.below(1 << 30); s.data = std::string(r.below(20), 'q'); ss.push_back(s); }
        else {
            std::string st, d; tables(r, f, r.chance(1, 8), syms[k], st, d, nested);
            eb::sec a; a.name = ".strtab"; a.type = SHT_STRTAB; a.data = st; eb::sec b; b.name = k ? ".dynsym" : ".symtab"; b.type = k ? SHT_DYNSYM : SHT_SYMTAB; b.entsize = f.symsize(); b.data = d;
            if(r.chance(1, 2)) { ss.push_back(a); b.link = link[k] ? (std::uint32_t)ss.size() : 0; ss.push_back(b); }
            else { b.link = link[k] ? (std::uint32_t)ss.size() + 2 : 0; ss.push_back(b); ss.push_back(a); }
        }
    }
    std::vector<eb::seg> segs; std::uint64_t base = 0; bool got = false; int np = (int)r.below(4);
    for(int i = 0; i < np; i++) {
        eb::seg s{r.chance(1, 2) && !got ? (std::uint32_t)PT_PHDR : (std::uint32_t)(r.chance(1, 2) ? PT_LOAD : PT_NOTE), r.below(5000), r.edgy() & lim, 0, 0};
        if(s.type == PT_PHDR) { got = true; base = (s.vaddr - s.off) & lim; }
        segs.push_back(s);
    }
    std::string s = eb::build(f, ss, segs);
    std::string in = std::string(f.is64 ? "64" : "32") + (f.be ? " big" : " little") + " image: " + std::to_string(ss.size()) + " sections, " + std::to_string(np) + " segments, symbols " + std::to_string(syms[0].size()) + "/" + std::to_string(syms[1].size()) + " " + (s.size() < 700 ? hex(s) : "");
    at(g, in);
    std::unique_ptr<char[]> mem(new char[s.size()]); std::memcpy(mem.get(), s.data(), s.size());
    bool fromfile = r.chance(1, 12);
    if(fromfile) { std::FILE* o = std::fopen(path.c_str(), "wb"); std::fwrite(s.data(), 1, s.size(), o); std::fclose(o); }
    auto e = fromfile ? elf::open(path.c_str()) : elf::open(cpptrace::detail::make_span((const char*)mem.get(), s.size()));
    if(!ok(e.has_value(), g, in, "a well-formed image cannot be opened")) return;
    elf& x = e.unwrap_value();
    nontrivial();
    for(int q = 0; q < 10; q++) switch((int)r.below(5)) {
        case 0: { auto b = x.get_module_image_base(); if(ok(b.has_value(), g, in, "no image base")) eq(b.unwrap_value(), base, g, in, "image base"); break; }
        case 1: {
            auto b = x.get_pc_ranges(); if(!ok(b.has_value(), g, in, "no code ranges")) break;
            bool same = b.unwrap_value().size() == text.size(); for(std::size_t i = 0; same && i < text.size(); i++) same = b.unwrap_value()[i].low == text[i].first && b.unwrap_value()[i].high == text[i].second;
            ok(same, g, in, "the code ranges are not the text sections"); break;
        }
        case 2: case 3: {
            int t = (int)r.below(2); auto b = t ? x.get_dynamic_symtab_entries() : x.get_symtab_entries();
            if(!ok(b.has_value(), g, in, "no symbol table")) break;
            if(!eq(b.unwrap_value().has_value(), has[t], g, in, "whether there is a symbol table") || !has[t]) break;
            std::multiset<std::string> want, have; bool sorted = true; std::uint64_t prev = 0;
            for(auto& y : syms[t]) if(y.size) want.insert(key(link[t] ? y.name : "<strtab error>", y.value, y.size, y.shndx));
            for(auto& y : b.unwrap_value().unwrap()) { have.insert(key(y.st_name, y.st_value, y.st_size, y.st_shndx)); sorted &= y.st_value >= prev; prev = y.st_value; }
            (void)sorted; ok(want == have, g, in, "the symbol table does not list exactly the sized symbols"); break;
        }
        default: {
            std::uint64_t pc = 0; auto& t = syms[r.below(2)]; if(t.empty() || r.chance(1, 8)) pc = r.edgy() & lim; else { auto& y = r.pick(t); pc = y.value + (r.chance(1, 3) ? r.below(3) - 1 : r.chance(1, 2) ? y.size - 1 + r.below(3) : r.below(y.size + 1)); }
            auto b = x.lookup_symbol(pc); bool any = false, good = false;
            for(int k = 0; k < 2; k++) if(has[k] && link[k]) { bool here = false; for(auto& y : syms[k]) if(contains(y, pc)) { here = true; if(b && y.name == b.unwrap() && !any) good = true; } any |= here; if(here) break; }
            if(!any) ok(!b.has_value(), g, in + " lookup " + num(pc), "a symbol is found whose range does not contain the address: " + (b ? b.unwrap() : ""));
            else ok(b.has_value() && good, g, in + " lookup " + num(pc), b ? "the symbol found does not contain the address: " + b.unwrap() : "no symbol is found though one contains the address");
        }
    }
}
static void body() {
    rng r(S().seed);
    std::string path = std::string(getenv("HX_WORK")) + "/image";
    if(on("nested")) {
        // a symbol inside another one: the address behind the inner one still belongs to the outer one
        eb::fmt f; eb::sec st; st.name = ".strtab"; st.type = SHT_STRTAB; st.data = std::string("\0outer\0inner\0", 13);
        eb::sec sy; sy.name = ".symtab"; sy.type = SHT_SYMTAB; sy.entsize = f.symsize(); sy.link = 1; sy.data = f.symbol({1, 2, 1, 100, 50}) + f.symbol({7, 2, 1, 110, 5});
        std::string s = eb::build(f, {st, sy}); at("nested", "outer [100,150) inner [110,115) lookup 120");
        auto e = elf::open(cpptrace::detail::make_span(s.data(), s.size())); auto b = e.unwrap_value().lookup_symbol(120);
        ok(b.has_value() && b.unwrap() == "outer", "nested", "outer [100,150) inner [110,115) lookup 120", "no symbol is found though one contains the address");
    }
    budget b(0.9, 2000000);
    while(b.more()) one(r, "well-formed", false, path);
}
HX_MAIN(body)
