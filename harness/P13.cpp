#include "hx.hpp"
#include "utils/lru_cache.hpp"
using namespace hx;
namespace d = cpptrace::detail;

template<typename K> struct mk;
template<> struct mk<std::string> { static std::string k(std::uint64_t x) { return "a key long enough to live on the heap " + std::to_string(x); } };
template<> struct mk<int> { static int k(std::uint64_t x) { return (int)x - 2; } };

template<typename K> static void run(rng& r, const char* g) {
    typedef d::lru_cache<K, std::string> C;
    typedef d::optional<std::size_t> OS;
    std::string log;
    std::size_t cap = r.chance(1, 4) ? 0 : 1 + r.below(5);
    log = "cap" + std::to_string(cap);
    C c = cap ? C(OS(cap)) : C();
    std::vector<std::pair<std::uint64_t, std::string>> m;   // most recent first
    auto trim = [&] { while(cap && m.size() > cap) m.pop_back(); };
    int steps = 1 + (int)r.below(30);
    for(int i = 0; i < steps; i++) {
        std::uint64_t k = r.below(8);
        unsigned op = (unsigned)r.below(8);
        std::string v = "value " + std::to_string(r.below(100));
        log += " " + std::to_string(op) + ":" + std::to_string(k);
        at(g, log);
        auto it = std::find_if(m.begin(), m.end(), [&](const std::pair<std::uint64_t, std::string>& p) { return p.first == k; });
        bool has = it != m.end();
        auto front = [&] { std::rotate(m.begin(), it, it + 1); };
        K key = mk<K>::k(k);
        switch(op) {
            case 0: case 1: {
                auto res = c.insert(key, v);
                ok(res.has_value() == !has, g, log, "insert reports whether it inserted");
                if(res.has_value()) eq(res.unwrap(), v, g, log, "insert gives the value stored");
                if(!has) { m.insert(m.begin(), {k, v}); trim(); }
                break;
            }
            case 2: c.set(key, v); if(has) { it->second = v; front(); } else { m.insert(m.begin(), {k, v}); trim(); } break;
            case 3: { auto res = c.maybe_get(key); ok(res.has_value() == has, g, log, "maybe_get presence"); if(has && res.has_value()) { eq(res.unwrap(), it->second, g, log, "maybe_get value"); } if(has) front(); break; }
            case 4: { const C& cc = c; auto res = cc.maybe_get(key); ok(res.has_value() == has, g, log, "maybe_get presence (const)"); if(has && res.has_value()) eq(res.unwrap(), it->second, g, log, "maybe_get value (const)"); if(has) front(); break; }
            case 5: c.maybe_touch(key); if(has) front(); break;
            case 6: { auto res = c.maybe_get(key); if(has) front(); if(has && res.has_value()) { res.unwrap() = v; m.front().second = v; } break; }
            default:
                if(r.chance(1, 3)) {
                    std::size_t nc = r.chance(1, 4) ? 0 : 1 + r.below(6);
                    log += "/cap" + std::to_string(nc);
                    at(g, log);
                    if(nc) c.set_max_size(OS(nc)); else c.set_max_size(d::nullopt);
                    cap = nc; trim();
                } else {
                    bool threw = false;
                    try { c.set_max_size(OS(std::size_t(0))); } catch(const std::exception&) { threw = true; }
                    ok(threw, g, log, "a zero capacity is rejected");
                }
        }
        eq(c.size(), m.size(), g, log, "size");
        nontrivial();
    }
    // final content: read everything, then squeeze to find the order
    std::vector<std::pair<std::uint64_t, std::string>> order = m;
    while(!order.empty()) {
        c.set_max_size(OS(order.size()));
        eq(c.size(), order.size(), g, log, "size while squeezing");
        // the least recent entry must be present; peeking must not disturb the order, so copy the recency back
        for(auto p = order.rbegin(); p != order.rend(); ++p) {
            auto res = c.maybe_get(mk<K>::k(p->first));
            if(!ok(res.has_value(), g, log, "entry " + std::to_string(p->first) + " is kept")) return;
            eq(res.unwrap(), p->second, g, log, "value of the entry kept");
        }
        order.pop_back();
        if(!order.empty()) c.set_max_size(OS(order.size()));
        if(r.chance(1, 2)) break;
    }
}
static void body() {
    rng r(S().seed);
    budget b(1.0, 100000);
    while(b.more()) { run<std::string>(r, "lru-string"); run<int>(r, "lru-int"); }
}
HX_MAIN(body)
