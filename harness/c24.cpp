// C24: several threads run calls that need no new cached data; built with ThreadSanitizer. The threads run
// before the serial reference, so that anything initiali on first use is initialised by them.
#include "query.h"
#include "catima/storage.h"
#include "catima/calculations.h"
#include "catima/srim.h"
#include <atomic>
#include <thread>
using namespace mon;
using namespace catima;
enum { FREE = 15 };
static std::vector<double> free_call(int kind, Projectile p, Material m, const Config& c, double T, double th) {
    std::vector<double> v; p.T = T; m.thickness(th);
    auto t = m.get_element(0); int z = std::lround(p.Z);
    switch (kind) {
    case 0: v = {dedx(p, m, c), domega2dx(p, m, c), da2dx(p, m, c)}; break;
    case 1: for (int i = 0; i < 20; i++) v.push_back(dedx(p(T * (i + 1) / 20), m, c)); break;
    case 2: for (int i = 0; i < 20; i++) v.push_back(sezi_dedx_e(p(0.5 * (i + 1)), m, c)); break;
    case 3: for (int i = 201; i < 260; i++) { Material g = get_material(i); v.push_back(g.M()); v.push_back(g.density()); v.push_back(g.I()); } break;
    case 4: for (int i = 1; i < 99; i++) { v.push_back(element_atomic_weight(i)); v.push_back(element_density(i)); Material g = get_material(i); v.push_back(g.M()); } break;
    case 5: for (int i = 0; i < 6; i++) { Config d = c; d.z_effective = i; v.push_back(z_effective(p, t, d)); } break;
    case 6: v.push_back(radiation_length(m)); v.push_back(angular_scattering_power(p, m)); break;
    case 7: for (int i = 0; i < 5; i++) { v.push_back(precalculated_lindhard(p(T * (1 + i)))); v.push_back(precalculated_lindhard_X(p(T * (1 + i)))); } break;
    case 8: v.push_back(bethek_barkas(p.Z, 3.0, t.Z)); v.push_back(bethek_density_effect(beta_from_T(T), t.Z)); v.push_back(bethek_dedx_e(p, t, c)); v.push_back(dedx_n(p, t)); break;
    case 9: { auto w = w_magnification(p, T, m, c); (void)w; v.push_back(gamma_from_T(T)); break; }
    case 10: {
#ifdef REACTIONS
        v.push_back(reaction_rate(1e3, m.number_density_cm2())); for (int i = 1; i < 5; i++) v.push_back(SigmaR_Kox(12, 6, T + 30 * i, t.A, t.Z));
#endif
        break; }
    case 11: v.push_back(bethek_lindhard(p)); break;
    case 12: { auto q = calculate_DataPoint(p, m, c); for (int i = 0; i < 600; i += 31) { v.push_back(q.range[i]); v.push_back(q.range_straggling[i]); v.push_back(q.angular_variance[i]); } break; }
    case 13: { Material w({{0, 1, 2}, {0, 8, 1}}, 1.0); Layers l; l.add(w); l.add(m); Layers s = l + l; s.add(l); v.push_back(s.thickness()); v.push_back(s.num()); v.push_back(w.M()); break; }
    default: { auto tf = calculate_tof(p, m, c); for (int i = 0; i < 600; i += 31) v.push_back(tf[i]); break; }
    }
    return v;
}
struct Item { Query q; int fk = -1; };
static std::vector<double> run_item(const Item& i) { return i.fk >= 0 ? free_call(i.fk, i.q.p, i.q.m, i.q.c, i.q.T, i.q.th) : eval(i.q); }
static void one(long k, Rng& r) {
    std::vector<Item> items; int nc = r.irange(1, 3);
    bool cold = k < H.first + H.nshards; // first case of this process: nothing was called before
    for (int i = 0; i < nc; i++) {
        Query q = gen_query(r); q.stack.clear();
        bool cached = r.chance(0.8) && !(cold && r.chance(0.5));
        if (cached) {
            // only the charge of a full calculation brings this combination into the store
            Projectile p = q.p; p.T = q.T; Material m = q.m; m.thickness(q.th); calculate(p, m, q.c);
            int n = r.irange(4, 12);
            for (int j = 0; j < n; j++) {
                Item it; it.q = q; do it.q.kind = r.irange(0, 15); while (it.q.kind == 11 && r.chance(0.5));
                it.q.T = r.chance(0.5) ? q.T : r.loguni(1, 2000); it.q.th = q.th * r.uni(0.1, 1.2); it.q.e2 = it.q.T * r.uni(0.1, 0.95);
                if (it.q.kind == 14) for (int a = 0; a < 2; a++) { Material l = q.m; l.thickness(q.th * r.uni(0.1, 0.6)); it.q.stack.push_back(l); }
                items.push_back(it); H.count("cached queries");
            }
        }
        int n = r.irange(2, 6);
        for (int j = 0; j < n; j++) {
            Item it; it.q = q; it.fk = r.irange(0, FREE - 1);
            if (it.fk == 9) continue; // consults the store
            if ((it.fk == 12 || it.fk == 14 || it.fk == 11) && r.chance(0.7)) continue;
            items.push_back(it); H.count("cache-free queries");
        }
    }
    if (items.empty()) { H.skipped++; return; }
    int nt = r.irange(2, 6), per = H.tier == "quick" ? r.irange(10, 30) : r.irange(20, 80);
    bool same_order = r.chance(0.4);
    std::vector<std::vector<int>> plan(nt); std::vector<std::vector<std::vector<double>>> got(nt);
    for (int t = 0; t < nt; t++) { for (int i = 0; i < per; i++) plan[t].push_back(same_order ? (i + 0) % items.size() : r.u64() % items.size()); got[t].resize(per); }
    std::atomic<int> ready{0}; std::atomic<bool> go{false};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
        ready++; while (!go) std::this_thread::yield();
        for (int i = 0; i < per; i++) got[t][i] = run_item(items[plan[t][i]]);
    });
    while (ready < nt) std::this_thread::yield();
    go = true;
    for (auto& t : th) t.join();
    if (cold) H.count("cold starts");
    for (size_t i = 0; i < items.size(); i++) {
        auto want = run_item(items[i]);
        for (int t = 0; t < nt; t++) for (int j = 0; j < per; j++) if (plan[t][j] == (int)i) {
            H.evaluations++;
            if (!identical(got[t][j], want)) { H.violation(items[i].fk >= 0 ? fmt("parallel result of free call %d", items[i].fk) : std::string("parallel result:") + kind_name(items[i].q.kind), show(got[t][j], want) + desc(items[i].q)); return; }
        }
        H.nontrivial(hash_mix(hash_of(items[i].q.p, items[i].q.m, items[i].q.c), items[i].fk * 100 + items[i].q.kind + nt * 10000));
    }
    H.count("threads started", nt);
    if (k % 40 == 0) H.sample(fmt("{\"threads\":%d,\"calls\":%d,\"first\":\"%s\"}", nt, nt * per, jesc(desc(items[0].q)).c_str()));
}
MON_MAIN(H.run(one))
