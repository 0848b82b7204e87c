#include "hx.hpp"
#include "elf_build.hpp"
#include <cpptrace/cpptrace.hpp>
#include <cpptrace/gdb_jit.hpp>
#include "jit/jit_objects.hpp"
#include "binary/elf.hpp"
using namespace hx;
namespace cpptrace { inline namespace v1 { namespace detail { extern "C" { jit_descriptor __jit_debug_descriptor = {1, 0, nullptr, nullptr}; } } } }
struct rg { std::uint64_t lo, hi; };
struct image { std::string bytes; std::vector<rg> ranges; bool good; };
static image make(rng& r, std::vector<rg> rs, int bad) {
    image im; im.ranges = rs; im.good = true;
    eb::fmt f; f.is64 = !r.chance(1, 6); f.be = r.chance(1, 8);
    for(auto& x : rs) if(!f.is64 && x.hi >> 32) f.is64 = true;
    std::vector<eb::sec> ss;
    auto filler = [&] { eb::sec s; s.name = r.chance(1, 2) ? ".data" : ".text.unlikely"; s.type = SHT_PROGBITS; s.addr = r.below(1 << 30); s.data = std::string(r.below(40), 'd'); ss.push_back(s); };
    for(auto& x : rs) { while(r.chance(1, 3)) filler(); eb::sec s; s.name = ".text"; s.type = SHT_PROGBITS; s.addr = x.lo; s.size = x.hi - x.lo; ss.push_back(s); }
    while(r.chance(1, 3)) filler();
    im.bytes = eb::build(f, ss);
    if(bad) {
        im.good = false; im.ranges.clear();
        switch(bad) {
            case 1: im.bytes.resize(r.below(4)); break;
            case 2: im.bytes[r.below(4)] ^= 0x55; break;
            case 3: im.bytes.resize(16 + r.below(20)); break;                      // no room for the header
            case 4: im.bytes.resize(im.bytes.size() - 1 - r.below(f.shsize() - 1)); break; // the last section header is cut off
            case 5: im.bytes[6] = 0; break;
        }
    }
    return im;
}
struct slot { std::unique_ptr<char[]> buf; std::size_t n = 0; std::vector<rg> ranges; bool registered = false; };
// expected: the object registered for the buffer whose ranges hold the address
static void check(std::map<int, slot>& s, std::uint64_t pc, const std::string& in) {
    const rg* want = nullptr; const slot* ws = nullptr;
    for(auto& e : s) if(e.second.registered) for(auto& g : e.second.ranges) if(g.lo <= pc && pc < g.hi) { want = &g; ws = &e.second; }
    try {
        auto got = cpptrace::detail::lookup_jit_object(pc);
        if(!ok(got.has_value() == (want != nullptr), "history", in + " lookup " + num(pc), got.has_value() ? "an object is found where none is registered" : "the registered object is not found")) return;
        if(!want) return;
        auto& o = got.unwrap();
        eq(o.base, want->lo, "history", in + " lookup " + num(pc), "start of the range found");
        auto ranges = o.object.get_pc_ranges();
        if(!ok(ranges.has_value(), "history", in, "the object found cannot be read")) return;
        bool same = ranges.unwrap_value().size() == ws->ranges.size();
        for(std::size_t i = 0; same && i < ws->ranges.size(); i++) same = ranges.unwrap_value()[i].low == ws->ranges[i].lo && ranges.unwrap_value()[i].high == ws->ranges[i].hi;
        ok(same, "history", in + " lookup " + num(pc), "the object found is another one");
    } catch(const std::exception& e) { fail("history", in + " lookup " + num(pc), std::string("an exception escapes: ") + e.what()); }
}
static void history(rng& r) {
    cpptrace::clear_all_jit_objects();
    std::map<int, slot> s; std::string in; int next = 0;
    std::vector<std::uint64_t> probes = {0, 1, ~0ull};
    // disjoint places to hand out
    std::vector<rg> places; std::uint64_t at_ = r.chance(1, 2) ? r.below(1 << 20) : 0;
    for(int i = 0; i < 24; i++) { std::uint64_t lo = at_ + (r.chance(1, 2) ? 0 : r.below(1 << 12)); std::uint64_t hi = lo + 1 + r.below(r.chance(1, 3) ? 3 : 1 << 14); places.push_back({lo, hi}); at_ = hi; }
    if(r.chance(1, 4)) places.push_back({~0ull - 50 - r.below(100), ~0ull - r.below(20)});
    std::vector<int> owner(places.size(), -1);
    int steps = 3 + (int)r.below(30);
    for(int k = 0; k < steps; k++) {
        int op = (int)r.below(20);
        if(op < 9) {
            std::vector<rg> rs; std::vector<std::size_t> mine; int cnt = (int)r.below(4);
            for(int j = 0; j < cnt; j++) { std::size_t p = r.below(places.size()); if(owner[p] < 0) { owner[p] = next; rs.push_back(places[p]); probes.push_back(places[p].lo); probes.push_back(places[p].hi); probes.push_back(places[p].hi - 1); probes.push_back(places[p].lo - 1); } }
            if(r.chance(1, 8)) { std::uint64_t e = r.pick(probes); if(e < ~0ull) rs.insert(rs.begin() + r.below(rs.size() + 1), {e, e}); }   // nothing is in an empty range
            int bad = r.chance(1, 6) ? 1 + (int)r.below(5) : 0;
            image im = make(r, rs, bad);
            slot& o = s[next]; o.n = im.bytes.size(); o.buf.reset(new char[o.n ? o.n : 1]); std::memcpy(o.buf.get(), im.bytes.data(), o.n);
            o.ranges = im.ranges; o.registered = im.good;
            in += " +" + std::to_string(next) + (bad ? "bad" + std::to_string(bad) : ""); for(auto& g : im.ranges) in += "[" + std::to_string(g.lo) + "," + std::to_string(g.hi) + ")";
            at("history", in);
            try { cpptrace::register_jit_object(o.buf.get(), o.n); } catch(const std::exception& e) { fail("history", in, std::string("an exception escapes registering: ") + e.what()); }
            next++;
        } else if(op < 14 && !s.empty()) {
            auto it = s.begin(); std::advance(it, r.below(s.size()));
            in += " -" + std::to_string(it->first); at("history", in);
            cpptrace::unregister_jit_object(it->second.buf.get());
            for(auto& w : owner) if(w == it->first) w = -1;
            s.erase(it);      // frees the buffer: nothing may refer to it any more
        } else if(op == 14) { in += " -?"; at("history", in); cpptrace::unregister_jit_object((const char*)&in); }
        else if(op == 15 && r.chance(1, 3)) { in += " clear"; at("history", in); cpptrace::clear_all_jit_objects(); s.clear(); for(auto& w : owner) w = -1; }
        else if(op == 16 && r.chance(1, 2)) {
            // replace the registry by what the debugger interface lists
            in += " gdb"; at("history", in);
            std::vector<cpptrace::detail::jit_code_entry> list; for(auto& e : s) if(r.chance(2, 3)) { cpptrace::detail::jit_code_entry x{}; x.symfile_addr = e.second.buf.get(); x.symfile_size = e.second.n; list.push_back(x); e.second.registered = true; } else e.second.registered = false;
            for(std::size_t i = 0; i + 1 < list.size(); i++) list[i].next_entry = &list[i + 1];
            cpptrace::detail::__jit_debug_descriptor.first_entry = list.empty() ? nullptr : &list[0];
            cpptrace::experimental::register_jit_objects_from_gdb_jit_interface();
            cpptrace::detail::__jit_debug_descriptor.first_entry = nullptr;
        }
        for(int j = 0; j < 6; j++) check(s, r.chance(1, 4) ? at_ * r.below(1000) / 1000 : r.pick(probes), in);
    }
    nontrivial();
    cpptrace::clear_all_jit_objects();
    s.clear();
}
static void body() {
    rng r(S().seed);
    cpptrace::absorb_trace_exceptions(true);
    budget b(0.95, 200000);
    while(b.more()) history(r);
}
HX_MAIN(body)
