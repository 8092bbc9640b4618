// C11: layer stacks against the composition of single layers
#include "path.h"
using namespace mon;
using namespace catima;
constexpr double EZ = 1e-3;

static std::string dstack(const Layers& l) { std::string s = "["; for (auto& m : l.get_materials()) s += desc(m) + ";"; return s + "]"; }
static bool same_result(const Result& a, const Result& b) {
    return a.Ein == b.Ein && a.Eout == b.Eout && a.Eloss == b.Eloss && a.range == b.range && a.dEdxi == b.dEdxi && a.dEdxo == b.dEdxo && a.sigma_E == b.sigma_E && a.sigma_a == b.sigma_a && a.sigma_r == b.sigma_r && a.sigma_x == b.sigma_x && a.cov == b.cov && a.tof == b.tof && a.sp == b.sp;
}
static MultiResult compose(Projectile p, const Phasespace& ps, const std::vector<Material>& ms, const Config& c) {
    MultiResult m;
    double e = p.T, x2 = ps.sigma_x * ps.sigma_x, a2 = ps.sigma_a * ps.sigma_a, cov = ps.cov_x, e2 = 0, tof = 0, loss = 0, sp = 1;
    bool spok = true;
    for (auto& l : ms) {
        p.T = e;
        Result r = calculate(p, l, c);
        m.results.push_back(r);
        double L = e < EZ ? 0 : std::min(l.thickness(), r.range) / l.density();
        x2 += 2 * L * cov + L * L * a2 + r.sigma_x * r.sigma_x;
        cov += L * a2 + r.cov;
        a2 += r.sigma_a * r.sigma_a;
        e2 += r.sigma_E * r.sigma_E;
        tof += r.tof; loss += r.Eloss;
        if (r.sp < 0) spok = false; else sp *= r.sp;
        e = r.Eout;
    }
    Result& t = m.total_result;
    t.Eout = e; t.Eloss = loss; t.tof = tof; t.sp = spok ? sp : -1; t.cov = cov;
    t.sigma_x = std::sqrt(std::max(0.0, x2));
    t.sigma_a = e > EZ ? std::sqrt(a2) : 0; t.sigma_E = e > EZ ? std::sqrt(e2) : 0;
    return m;
}
static void compare(const char* key, const Result& g, const Result& w, double tol, const std::function<std::string()>& d) {
    auto k = [&](const char* f) { return std::string(key) + "-" + f; };
    expect_close(k("Eout"), g.Eout, w.Eout, tol, 0, d);
    expect_close(k("Eloss"), g.Eloss, w.Eloss, tol, 0, d);
    expect_close(k("tof"), g.tof, w.tof, tol, 0, d);
    expect_close(k("sp"), g.sp, w.sp, tol, 0, d);
    expect_close(k("sigma_E"), g.sigma_E, w.sigma_E, tol, 0, d);
    expect_close(k("sigma_a"), g.sigma_a, w.sigma_a, tol, 0, d);
    expect_close(k("sigma_x"), g.sigma_x, w.sigma_x, tol * 10, 0, d);
    expect_close(k("cov"), g.cov, w.cov, tol * 10, tol * w.sigma_x * w.sigma_a, d);
}
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Config c = gen_config(r);
    std::vector<Material> pool;
    int np = r.irange(1, 4);
    for (int i = 0; i < np; i++) pool.push_back(gen_material(r));
    for (int rep = 0; rep < 8; rep++) {
        double T = r.chance(0.5) ? r.loguni(20, 2000) : gen_energy(r, 1e-3, 1e5);
        p.T = T;
        int n = r.chance(0.05) ? 0 : r.chance(0.05) ? r.irange(20, 60) : r.irange(1, 6);
        Layers L;
        double want = r.chance(0.25) ? 1.3 : r.uni(0.05, 0.98); // fraction of the range used in total
        for (int i = 0; i < n; i++) {
            Material m = pool[r.irange(0, np - 1)];
            p.T = T;
            m.thickness(r.chance(0.1) ? 0 : range(p, m, c) * want / n * r.uni(0.3, 1.1));
            L.add(m);
        }
        p.T = T;
        Phasespace ps;
        if (r.chance(0.5)) {
            ps.sigma_x = r.chance(0.2) ? 0 : r.loguni(1e-4, 2); ps.sigma_a = r.chance(0.2) ? 0 : r.loguni(1e-5, 0.1);
            ps.cov_x = r.chance(0.4) ? 0 : r.uni(-0.99, 0.99) * ps.sigma_x * ps.sigma_a;
        }
        bool plain = ps.sigma_x == 0 && ps.sigma_a == 0 && ps.cov_x == 0;
        auto d = [&] { return desc(p) + " " + dstack(L) + " " + desc(c) + fmt(" ps(%.17g %.17g %.17g)", ps.sigma_x, ps.sigma_a, ps.cov_x); };
        MultiResult g = calculate(p, ps, L, c), w = compose(p, ps, L.get_materials(), c);
        H.evaluations++;
        expect_close("Ein", g.total_result.Ein, T, 0, 0, d);
        compare("total", g.total_result, w.total_result, 1e-10, d);
        if (g.results.size() != (size_t)n) H.violation("number-of-results", d());
        else for (int i = 0; i < n; i++) if (!same_result(g.results[i], w.results[i])) H.violation("layer-result", fmt("layer %d ", i) + d());
        if (plain) {
            MultiResult a = r.chance(0.5) ? calculate(p, L, c) : calculate(p, T, L, c);
            if (!same_result(a.total_result, g.total_result)) H.violation("no-phase-space", d());
        }
        if (n == 0) { H.count("empty stack"); expect_close("empty-Eout", g.total_result.Eout, T, 0, 0, d); expect_close("empty-sigma-x", g.total_result.sigma_x, ps.sigma_x, 1e-14, 0, d); continue; }
        H.count(w.total_result.Eout < EZ ? "stopped" : "passed");
        H.count(fmt("layers %s", n == 1 ? "1" : n < 7 ? "2-6" : "20-60"));
        uint64_t h = 5;
        for (auto& m : L.get_materials()) h = hash_of(p, m, c, h);
        H.nontrivial(h);
        // total loss against the energies
        if (w.total_result.Eout >= EZ || true) expect_close("loss-balance", g.total_result.Eloss, p.A * (T - g.total_result.Eout), 1e-9, 1e-12 * p.A * T, d);
        // zero-thickness layers anywhere
        Layers Z;
        for (auto& m : L.get_materials()) {
            if (r.chance(0.5)) { Material z = pool[r.irange(0, np - 1)]; z.thickness(0); Z.add(z); }
            Z.add(m);
        }
        { Material z = pool[0]; z.thickness(0); Z.add(z); }
        compare("zero-layer", calculate(p, ps, Z, c).total_result, g.total_result, 1e-12, d);
        H.count("zero-thickness insertion");
        // stack built from two stacks
        Layers A, B;
        int cut = r.irange(0, n);
        for (int i = 0; i < n; i++) (i < cut ? A : B).add(L.get_materials()[i]);
        Layers AB = A + B;
        if (!same_result(calculate(p, ps, AB, c).total_result, g.total_result)) H.violation("concatenation", d());
        A.add(B);
        if (!same_result(calculate(p, ps, A, c).total_result, g.total_result)) H.violation("append", d());
        expect_close("thickness", AB.thickness(), [&] { double s = 0; for (auto& m : L.get_materials()) s += m.thickness(); return s; }(), 1e-12, 0, d);
        expect_close("thickness-cm", AB.thickness_cm(), [&] { double s = 0; for (auto& m : L.get_materials()) s += m.thickness() / m.density(); return s; }(), 1e-12, 0, d);
        // cut the layers into pieces, for models whose scattering power depends on the energy only
        double minrest = 1e300, minth = 1e300, minE = 1e300;
        for (int i = 0; i < n; i++) { auto& q = w.results[i]; minE = std::min(minE, q.Eout); minrest = std::min(minrest, q.range - L.get_materials()[i].thickness()); if (L.get_materials()[i].thickness() > 0) minth = std::min(minth, L.get_materials()[i].thickness()); }
        if (minrest > 2e-2 && minth > 2e-2 && minE > 0.1 && n < 10 && c.scattering != 1 && c.scattering != 2) {
            Layers C;
            for (auto& m : L.get_materials()) {
                if (m.thickness() == 0) continue;
                int parts = r.irange(1, 4);
                for (int j = 0; j < parts; j++) { Material q = m; q.thickness(m.thickness() / parts); C.add(q); }
            }
            Result x = calculate(p, ps, C, c).total_result; const Result& y = g.total_result;
            double t = 5e-3 + 1e-3 * C.num() / std::min(minrest, minth) * 0.1;
            expect_close("cut-Eloss", x.Eloss, y.Eloss, t, 0, d);
            expect_close("cut-tof", x.tof, y.tof, t, 0, d);
            expect_close("cut-sigma-a", x.sigma_a, y.sigma_a, t, 0, d);
            expect_close("cut-sigma-x", x.sigma_x, y.sigma_x, 2 * t, 0, d);
            expect_close("cut-cov", x.cov, y.cov, 2 * t, t * y.sigma_x * y.sigma_a, d);
            if ((x.sp < 0) != (y.sp < 0)) { if (std::fabs(y.Eout - 30) > 0.1) H.violation("cut-sp-applicability", d()); }
            else if (y.sp > 0) expect_close("cut-sp", std::log(x.sp), std::log(y.sp), 2e-2, 1e-12, d);
            H.maximum("cut sigma_a relative", reldiff(x.sigma_a, y.sigma_a));
            H.maximum("cut sigma_x relative", reldiff(x.sigma_x, y.sigma_x));
            H.maximum("cut Eloss relative", reldiff(x.Eloss, y.Eloss));
            H.maximum("cut tof relative", reldiff(x.tof, y.tof));
            H.maximum("cut sp relative", y.sp > 0 ? reldiff(std::log(x.sp), std::log(y.sp)) : 0);
            H.count("cut into pieces");
        }
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %d materials %s\"}", k, desc(p).c_str(), np, desc(c).c_str()));
}
MON_MAIN(H.run(one))
