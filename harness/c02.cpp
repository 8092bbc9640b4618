// C02: the store of precalculated data against a model of it
#include "query.h"
#include <deque>
using namespace mon;
using namespace catima;
struct Combo { Projectile p; Material m; Config c; std::vector<double> range, strag, ang; bool known = false; };
// own identity of a combination; densities in the pool are equal to 1e-8 or differ by more than 1e-4
static bool same(const Projectile& a, const Material& b, const Config& c, const Projectile& x, const Material& y, const Config& z) {
    if (a.A != x.A || a.Z != x.Z || a.Q != x.Q || b.ncomponents() != y.ncomponents() || b.I() != y.I() || b.M() != y.M() || std::fabs(b.density() - y.density()) > 1e-6) return false;
    for (int i = 0; i < b.ncomponents(); i++) { auto s = b.get_element(i), t = y.get_element(i); if (s.A != t.A || s.Z != t.Z || s.stn != t.stn) return false; }
    return c.z_effective == z.z_effective && c.corrections == z.corrections && c.calculation == z.calculation && c.low_energy == z.low_energy && c.scattering == z.scattering && c.scattering_factor == z.scattering_factor;
}
static void check_store(Data& d, const std::vector<Combo>& pool, const std::deque<int>& model, const std::string& hist) {
    std::vector<int> seen(pool.size(), 0);
    int filled = 0;
    if (d.GetN() > max_storage_data) H.violation("too-many-entries", fmt("%d ", d.GetN()) + hist);
    for (int i = 0; i < d.GetN(); i++) {
        DataPoint& e = d.Get((unsigned)i);
        if (e.range.empty()) continue;
        filled++;
        int f = -1;
        for (size_t j = 0; j < pool.size(); j++) if (same(e.p, e.m, e.config, pool[j].p, pool[j].m, pool[j].c)) { f = j; break; }
        if (f < 0) { H.violation("foreign-entry", hist); continue; }
        if (seen[f]++) H.violation("stored-twice", desc(e.p) + desc(e.m) + desc(e.config) + hist);
        if (pool[f].known && (e.range != pool[f].range || e.range_straggling != pool[f].strag || e.angular_variance != pool[f].ang)) H.violation("entry-data-changed", desc(e.p) + desc(e.m) + desc(e.config) + hist);
    }
    if (filled != (int)model.size()) H.violation("number-of-entries", fmt("%d, model %zu ", filled, model.size()) + hist);
    for (int j : model) if (!seen[j]) { H.violation("retained-entry-missing", fmt("combination %d ", j) + hist); break; }
}
static void one(long k, Rng& r) {
    static Data own;
    bool global = k % 3 == 0;
    Data& d = global ? _storage : own;
    d.Reset();
    // pool of combinations, no two identical
    std::vector<Combo> pool;
    bool over = k % 2; // overflow the store
    int want = over ? r.irange(max_storage_data - 1, max_storage_data + 30) : r.irange(3, 40);
    while ((int)pool.size() < want) {
        Query q;
        if (pool.empty() || r.chance(0.5)) { q = gen_query(r); }
        else { auto& b = pool[r.irange(0, pool.size() - 1)]; q.p = b.p; q.m = b.m; q.c = b.c; mutate(q, r); }
        q.m.thickness(0);
        bool dup = false;
        for (auto& x : pool) {
            if (same(x.p, x.m, x.c, q.p, q.m, q.c)) dup = true;
            double dd = std::fabs(x.m.density() - q.m.density());
            if (dd > 1e-8 && dd < 1e-5) dup = true;
        }
        if (!dup) { Combo c; c.p = q.p; c.m = q.m; c.c = q.c; pool.push_back(c); }
    }
    std::deque<int> model; // oldest first
    const size_t cap = max_storage_data;
    std::string hist = global ? " global:" : " own:";
    int len = over ? r.irange(160, H.tier == "quick" ? 300 : 600) : r.irange(60, 180), cur = 0, sweep = 0;
    int inserted = 0, hits = 0, evicted = 0;
    check_store(d, pool, model, hist);
    for (int i = 0; i < len; i++) {
        if (r.chance(over ? 0.002 : 0.01)) { d.Reset(); model.clear(); hist += " reset"; H.count("clears"); check_store(d, pool, model, hist); }
        // sweeps through the pool, revisits, random
        double how_next = r.uni();
        if (how_next < 0.65) cur = sweep = (sweep + 1) % pool.size();
        else if (how_next < 0.8 && !model.empty()) cur = model[r.irange(0, model.size() - 1)];
        else if (how_next < 0.9 && !model.empty()) cur = r.chance(0.5) ? model.front() : model.back();
        else cur = r.irange(0, pool.size() - 1);
        Combo& c = pool[cur];
        bool hit = std::find(model.begin(), model.end(), cur) != model.end();
        Projectile p = c.p; p.T = gen_energy(r); // energy and thickness are no part of the combination
        Material m = c.m; m.thickness(r.chance(0.5) ? 0 : r.loguni(1e-6, 10));
        if (r.chance(0.3)) m.density(m.density() + r.uni(-1, 1) * 1e-9);
        int how = r.irange(0, global ? 3 : 1);
        hist += fmt(" %d", cur);
        DataPoint* e = nullptr;
        if (how == 0) { d.Add(p, m, c.c); H.count("add"); }
        else if (how == 1) e = &d.Get(p, m, c.c);
        else if (how == 2) { range(p, m, c.c); H.count("through range"); }
        else e = const_cast<DataPoint*>(&get_data(p, m, c.c));
        if (hit) hits++;
        else {
            inserted++;
            if (model.size() == cap) { model.pop_front(); evicted++; }
            model.push_back(cur);
        }
        H.evaluations++;
        if (e) {
            if (!same(e->p, e->m, e->config, c.p, c.m, c.c)) H.violation("wrong-entry-returned", fmt("request %d ", cur) + hist);
            if (e->range.size() != max_datapoints) H.violation("entry-without-data", hist);
            else if (!c.known) {
                auto x = calculate_DataPoint(c.p, c.m, c.c);
                c.range = x.range; c.strag = x.range_straggling; c.ang = x.angular_variance; c.known = true;
            }
        }
        check_store(d, pool, model, hist.size() > 900 ? " ..." + hist.substr(hist.size() - 900) : hist);
        H.nontrivial(hash_mix(hash_mix(k, i), cur));
    }
    // the store survives being asked by address: a reference to an entry stays valid until it is replaced
    H.count("insertions", inserted); H.count("hits", hits); H.count("replacements", evicted);
    H.sample(fmt("{\"case\":%ld,\"pool\":%zu,\"calls\":%d,\"insertions\":%d,\"replacements\":%d}", k, pool.size(), len, inserted, evicted));
}
MON_MAIN(H.run(one))
