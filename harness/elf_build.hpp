// In-memory ELF images, either class and byte order.
#ifndef ELF_BUILD_HPP
#define ELF_BUILD_HPP
#include <elf.h>
#include <string>
#include <vector>
#include <cstdint>
namespace eb {
    struct sec { std::string name; std::uint32_t type; std::uint64_t addr = 0; std::string data; std::uint64_t size = 0; std::uint64_t entsize = 0; std::uint32_t link = 0; bool nobits() const { return type == SHT_NOBITS; } };
    struct seg { std::uint32_t type; std::uint64_t off, vaddr, filesz, memsz; };
    struct sym { std::uint32_t name; unsigned char info; std::uint16_t shndx; std::uint64_t value, size; };
    struct fmt {
        bool be = false, is64 = true;
        void n(std::string& s, std::uint64_t v, int w) const { for(int i = 0; i < w; i++) s += (char)(v >> 8 * (be ? w - 1 - i : i)); }
        void h(std::string& s, std::uint64_t v) const { n(s, v, 2); }
        void w(std::string& s, std::uint64_t v) const { n(s, v, 4); }
        void x(std::string& s, std::uint64_t v) const { n(s, v, is64 ? 8 : 4); }
        int symsize() const { return is64 ? 24 : 16; }
        int shsize() const { return is64 ? 64 : 40; }
        int phsize() const { return is64 ? 56 : 32; }
        int ehsize() const { return is64 ? 64 : 52; }
        std::string symbol(const sym& s) const {
            std::string r; w(r, s.name);
            if(is64) { n(r, s.info, 1); n(r, 0, 1); h(r, s.shndx); n(r, s.value, 8); n(r, s.size, 8); }
            else { n(r, s.value, 4); n(r, s.size, 4); n(r, s.info, 1); n(r, 0, 1); h(r, s.shndx); }
            return r;
        }
    };
    // sections get a null section in front and .shstrtab behind (index sections.size() + 1); offs receives file offsets
    inline std::string build(const fmt& f, std::vector<sec> ss, const std::vector<seg>& segs = {}, std::vector<std::uint64_t>* sh_at = nullptr) {
        std::string names(1, '\0'); std::vector<std::uint32_t> nm;
        for(auto& s : ss) { nm.push_back((std::uint32_t)names.size()); names += s.name; names += '\0'; }
        nm.push_back((std::uint32_t)names.size()); names += ".shstrtab"; names += '\0';
        sec st; st.name = ".shstrtab"; st.type = SHT_STRTAB; st.data = names; ss.push_back(st);
        std::string body; std::vector<std::uint64_t> off;
        std::uint64_t start = f.ehsize() + segs.size() * f.phsize();
        for(auto& s : ss) { off.push_back(start + body.size()); body += s.data; while(body.size() & 7) body += '\0'; }
        std::uint64_t shoff = start + body.size();
        std::string r = "\x7f" "ELF"; r += (char)(f.is64 ? 2 : 1); r += (char)(f.be ? 2 : 1); r += (char)1; r.append(9, '\0');
        f.h(r, ET_DYN); f.h(r, f.is64 ? EM_X86_64 : EM_386); f.w(r, 1); f.x(r, 0); f.x(r, segs.empty() ? 0 : f.ehsize()); f.x(r, shoff); f.w(r, 0);
        f.h(r, f.ehsize()); f.h(r, f.phsize()); f.h(r, segs.size()); f.h(r, f.shsize()); f.h(r, ss.size() + 1); f.h(r, ss.size());
        for(auto& g : segs) {
            f.w(r, g.type); if(f.is64) f.w(r, 5);
            f.x(r, g.off); f.x(r, g.vaddr); f.x(r, g.vaddr); f.x(r, g.filesz); f.x(r, g.memsz);
            if(!f.is64) f.w(r, 5);
            f.x(r, 4096);
        }
        r += body;
        if(sh_at) sh_at->push_back(r.size());
        r.append(f.shsize(), '\0');
        for(std::size_t i = 0; i < ss.size(); i++) {
            auto& s = ss[i];
            if(sh_at) sh_at->push_back(r.size());
            f.w(r, nm[i]); f.w(r, s.type); f.x(r, 0); f.x(r, s.addr); f.x(r, off[i]); f.x(r, s.size ? s.size : s.data.size());
            f.w(r, s.link); f.w(r, 0); f.x(r, 8); f.x(r, s.entsize);
        }
        return r;
    }
}
#endif
