// C21: the same calculations in builds with other option combinations. One build writes its numbers to a
// file (--dump), the others compare theirs with it (--ref). Cases and shards are the same in all of them.
#include "common.h"
#include "catima/storage.h"
#include "catima/reactions.h"
using namespace mon;
using namespace catima;
struct Val { double v, abs; int thin; };
static std::vector<Val> vals;
static std::vector<std::string> names;
static void put(const char* n, double v, double abs = 0, int thin = 0) { vals.push_back({v, abs, thin}); names.push_back(n); }
static void put(const Result& x, double A) {
    bool passed = x.Eout >= 1e-3, thin = passed && x.Eout > 0.9985 * x.Ein && x.Eout != x.Ein;
    // differences of nearly equal interpolated variances are only as good as rounding of the variances
    double s = 3e-7 * x.dEdxo * x.sigma_r / A;
    put("Ein", x.Ein); put("Eout", x.Eout, 1e-12 * x.Ein); put("Eloss", x.Eloss, 1e-12 * x.Ein * A); put("range", x.range); put("dEdxi", x.dEdxi); put("dEdxo", x.dEdxo);
    put("sigma_E", x.sigma_E, s, thin); put("sigma_a", x.sigma_a, thin ? 1e-7 : 1e-9, thin); put("sigma_r", x.sigma_r, 1e-12); put("sigma_x", x.sigma_x); put("cov", x.cov); put("tof", x.tof, 1e-12);
    H.count(!passed ? "layers with stopped projectile" : thin ? "thin layers" : "layers passed");
}
static void put(const MultiResult& m, const Layers& l, double A) {
    bool thin = false; double s = 0, len = l.thickness_cm();
    for (auto& r : m.results) { put(r, A); if (r.Eout > 0.9985 * r.Ein) thin = true; s += 3e-7 * r.dEdxo * r.sigma_r / A; }
    auto& t = m.total_result;
    put("total Eout", t.Eout, 1e-12 * t.Ein); put("total Eloss", t.Eloss, 1e-12 * t.Ein * A); put("total sigma_E", t.sigma_E, s, thin); put("total sigma_a", t.sigma_a, thin ? 1e-7 : 1e-9, thin); put("total sigma_x", t.sigma_x, thin ? 1e-7 * len : 1e-9, thin); put("total cov", t.cov, thin ? 1e-7 * len * (t.sigma_a + 1e-7) : 1e-15, thin); put("total tof", t.tof, 1e-12);
}
static std::vector<std::vector<Val>> refs;
static size_t refpos = 0;
static FILE* fout = nullptr;
static Projectile P; static Material M; static Config Cf; static double T;
static void layer(Rng& r) {
    Projectile p = P; Material m = M;
    double R = range(p(T), m, Cf);
    double th = r.chance(0.35) ? R * r.loguni(1e-7, 1e-3) : r.chance(0.2) ? R * r.uni(1.0, 1.5) : R * r.uni(0.001, 0.999);
    m.thickness(th);
    put(calculate(p(T), m, Cf), p.A);
    put("energy_out", energy_out(p(T), m, Cf), 1e-12 * T);
    for (double e : energy_out(p, std::vector<double>{T, 0.5 * T, 1e-4, 2 * T}, m, Cf)) put("energy_out list", e, 1e-12 * T);
    double e2 = T * r.uni(0.05, 0.99);
    put("angular from E", angular_straggling_from_E(p(T), e2, m, Cf));
    put("energy straggling from E", energy_straggling_from_E(p, T, e2, m, Cf), 1e-12);
    put("tof from E", calculate_tof_from_E(p(T), e2, m, Cf));
    auto w = w_magnification(p, T, m, Cf);
    put("w", w.first, 1e-6); put("w2", w.second, 1e-6);
    put("angular variance", angular_variance(p(T), m, Cf)); 
    Projectile pp = p; pp.T = T; put("nonreaction", nonreaction_rate(pp, m, Cf), 1e-12);
}
static void one(long k, Rng& r) {
    vals.clear(); names.clear();
    if (r.chance(0.05)) _storage.Reset();
    P = gen_projectile(r); M = gen_material(r); Cf = gen_config(r);
    int n = r.irange(2, 6);
    for (int i = 0; i < n; i++) {
        T = r.chance(0.15) ? (r.chance(0.5) ? 1.0 : r.uni(0.999, 1.001)) * energy_table(r.irange(1, max_datapoints - 2)) : r.chance(0.7) ? r.loguni(5, 2000) : r.loguni(2e-3, 5e6);
        Projectile p = P;
        put("range", range(p(T), M, Cf)); put("dedx", dedx(p(T), M, Cf)); put("dedx_from_range", dedx_from_range(p(T), M, Cf)); put("range straggling", range_straggling(p, T, M, Cf), 1e-12); put("range variance", range_variance(p, T, M, Cf), 1e-15);
        put("domega2de", domega2de(p, T, M, Cf), 1e-15); put("domega2dx", domega2dx(p(T), M, Cf));
        for (double e : dedx_from_range(p, std::vector<double>{T, 1e-4, 0.3 * T}, M, Cf)) put("dedx list", e);
        layer(r);
    }
    if (k % 3 == 0) {
        Layers l; int m = r.irange(1, 4);
        for (int i = 0; i < m; i++) { Material a = r.chance(0.5) ? M : gen_material(r); Projectile p = P; a.thickness(range(p(T), a, Cf) * r.uni(0.0005, 0.4)); l.add(a); }
        Phasespace ps{r.uni(0, 1), r.uni(0, 0.01), 0};
        Projectile p = P; put(calculate(p(T), ps, l, Cf), l, p.A);
        H.count("stacks");
    }
    for (int i = 0; i < 40; i++) { // positions away from rounding of the table points
        double v = r.loguni(1e-4, 1e8); int j = energy_table.index(v);
        bool edge = false;
        for (int d = -1; d <= 2; d++) if (j + d >= 0 && j + d < max_datapoints && std::abs(v / energy_table(j + d) - 1) < 1e-11) edge = true;
        put("table position", edge ? 0 : j);
    }
    H.count("numbers", vals.size());
    if (fout) {
        uint64_t c = vals.size();
        if (fwrite(&k, 8, 1, fout) != 1 || fwrite(&c, 8, 1, fout) != 1 || fwrite(vals.data(), sizeof(Val), c, fout) != c) _exit(3);
        H.evaluations++;
        return;
    }
    static const double loose = H.opt.count("--loose") ? atof(H.opt["--loose"].c_str()) : 1; // other rounding (C31)
    if (refpos >= refs.size()) _exit(3);
    auto& ref = refs[refpos++];
    if (ref.size() != vals.size()) { H.violation("number-of-results", fmt("%zu against %zu", vals.size(), ref.size())); return; }
    for (size_t i = 0; i < vals.size(); i++) {
        double a = vals[i].v, b = ref[i].v, tol = loose * (1e-9 * std::max(std::abs(a), std::abs(b)) + std::max(vals[i].abs, ref[i].abs));
        if (vals[i].thin || ref[i].thin) { tol = 3 * tol + 2e-3 * std::abs(b); if (b > 0) H.maximum("thin-layer difference of " + names[i], std::abs(a / b - 1)); }
        else if (b != 0 && std::isfinite(b)) H.maximum("other difference", std::abs(a / b - 1), names[i]);
        H.evaluations++;
        if (a != b) H.count("not bit-identical");
        if (!(a == b || std::abs(a - b) <= tol || (std::isnan(a) && std::isnan(b)))) H.violation(names[i], fmt("%s %.17g, other build %.17g, %s %s %s T=%.17g", names[i].c_str(), a, b, desc(P).c_str(), desc(M).c_str(), desc(Cf).c_str(), T));
    }
    H.nontrivial(hash_d(hash_of(P, M, Cf), T));
    if (k % 50 == 0) H.sample(fmt("{\"projectile\":\"%s\",\"material\":\"%s\",\"T\":%.6g,\"numbers compared\":%zu}", jesc(desc(P)).c_str(), jesc(desc(M)).c_str(), T, vals.size()));
}
static void all() {
    std::string f = fmt("%s.%d", (H.opt.count("--dump") ? H.opt["--dump"] : H.opt["--ref"]).c_str(), H.shard);
    if (H.opt.count("--dump")) { fout = fopen(f.c_str(), "wb"); if (!fout) _exit(3); H.run(one); fclose(fout); return; }
    FILE* fi = fopen(f.c_str(), "rb"); if (!fi) _exit(3);
    for (uint64_t h[2]; fread(h, 8, 2, fi) == 2;) { if (h[1] > 1000000) _exit(3); std::vector<Val> v(h[1]); if (fread(v.data(), sizeof(Val), h[1], fi) != h[1]) _exit(3); if (H.only < 0 || (long)h[0] == H.only) refs.push_back(v); }
    fclose(fi);
    H.run(one);
}
MON_MAIN(all())
