#include "fmt_oracle.hpp"
using namespace fo;
// sequences of construction, copy, move, assignment and settings on three formatters
static void run(rng& r) {
    std::unique_ptr<formatter> f[3]; conf c[3]; bool moved[3] = {false, false, false};
    std::string log;
    for(auto& x : f) x.reset(new formatter());
    std::vector<stacktrace_frame> v; std::size_t n = r.below(4); for(std::size_t i = 0; i < n; i++) v.push_back(frame(r));
    if(n && r.chance(1, 3)) v[r.below(n)].symbol = "__cxa_throw";
    const stacktrace t{std::vector<stacktrace_frame>(v)};
    for(int s = 0, ns = 1 + (int)r.below(14); s < ns; s++) {
        int i = (int)r.below(3), j = r.chance(1, 4) ? i : (int)r.below(3);
        std::string I = std::to_string(i), J = std::to_string(j);
        switch(r.below(9)) {
            case 0: if(moved[j]) continue; log += I + "=copy " + J + "; "; at("history", log); { formatter& q = (*f[i] = static_cast<const formatter&>(*f[j])); ok(&q == f[i].get(), "history", log, "assignment gives the destination"); } c[i] = conf(c[j]); moved[i] = false; break;
            case 1: if(moved[j]) continue; log += I + "=move " + J + "; "; at("history", log); *f[i] = std::move(*f[j]); if(i != j) { c[i] = c[j]; moved[i] = false; moved[j] = true; } break;
            case 2: if(moved[j]) continue; log += I + " new copy of " + J + "; "; at("history", log); { std::unique_ptr<formatter> q(new formatter(static_cast<const formatter&>(*f[j]))); f[i] = std::move(q); } c[i] = conf(c[j]); moved[i] = false; break;
            case 3: if(moved[j] || i == j) continue; log += I + " new move of " + J + "; "; at("history", log); f[i].reset(new formatter(std::move(*f[j]))); c[i] = c[j]; moved[i] = false; moved[j] = true; break;
            case 4: if(r.chance(2, 3)) continue; log += I + " new; "; f[i].reset(new formatter()); c[i] = conf(); moved[i] = false; break;
            default: if(moved[i]) continue; log += I + "."; at("history", log); set(r, *f[i], c[i], log); break;
        }
        for(int k = 0; k < 3; k++) {
            if(moved[k]) continue;
            std::string key = log + " [" + std::to_string(k) + "] " + c[k].show() + " " + show(v);
            at("history", key);
            eq(f[k]->format(t), trace_text(c[k], v, c[k].color == 0), "history", key, "its behaviour");
        }
    }
    nontrivial();
}
static void body() { rng r(S().seed); budget b(1.0, 1000000); while(b.more()) run(r); }
HX_MAIN(body)
