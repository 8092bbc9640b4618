// C09: energy and range straggling
#include "bridge.h"
using namespace mon;
using namespace catima;

static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    Config c = gen_config(r);
    auto R = rm(m); auto P = rp(p); auto C = rc(c);
    auto where = [&] { return desc(p) + " " + desc(m) + " " + desc(c); };
    const double q = grid_ratio();
    // (a) variance per path, material and single element
    for (int i = 0; i < 10; i++) {
        double T = i < 5 ? gen_energy(r) : gen_energy(r, 1e-3, 100);
        p.T = T;
        if (std::fabs(T - 1) < 1e-9 || std::fabs(T - 30) < 1e-9 || (c.z_effective == 3 && std::fabs(T - 2.5) < 1e-9)) continue;
        H.evaluations++;
        expect_close("variance", domega2dx(p, m, c), ref::variance(P, T, R, C), 1e-8, 0, where);
        auto t = m.get_element(0);
        expect_close("variance-element", dedx_variance(p, t, c), ref::variance_el(P, T, t.A, t.Z, C), 1e-8, 0, where);
        expect_close("firsov", energy_straggling_firsov(p.Z, T, t.Z, t.A), 4.8184e-3 * std::pow(p.Z + t.Z, 8. / 3) / t.A * ref::beta2(T) / ref::ALPHA / ref::ALPHA, 1e-9, 0, where);
        expect_close("straggling-factor", precalculated_lindhard_X(p), ref::lsx(p.A, p.Z, T), 1e-8, 1e-9, where);
    }
    // (b) range variance between table points
    auto f = [&](double e) { double s = dedx(p(e), m, c); return p.A * domega2dx(p(e), m, c) / (s * s * s); };
    auto jump_tol = [&](double e1, double e2) { return step_error(f, e1, e2); };
    std::vector<int> nodes = {0, GRID - 1};
    for (int i = 0; i < 4; i++) nodes.push_back(r.irange(0, GRID - 1));
    std::sort(nodes.begin(), nodes.end());
    for (size_t i = 1; i < nodes.size(); i++) {
        if (nodes[i] == nodes[i - 1]) continue;
        double e1 = grid(nodes[i - 1]), e2 = grid(nodes[i]);
        double got = range_variance(p, e2, m, c) - range_variance(p, e1, m, c), want = integrate_energy(f, e1, e2, 1e-10);
        double jt = jump_tol(e1, e2);
        H.evaluations++;
        double excess = std::fabs(got - want) - jt - 1e-13 * std::fabs(range_variance(p, std::min(1e7, 10 * e2), m, c)), dev = excess <= 0 ? 0 : excess / want;
        H.maximum("range_variance_integral", dev, where() + fmt(" E=%g..%g", e1, e2));
        if (!(dev < 1e-5)) H.violation("range-variance-integral", fmt("E %.17g..%.17g got %.17g want %.17g ", e1, e2, got, want) + where());
    }
    // (c) derived quantities
    for (int i = 0; i < 6; i++) {
        double T = gen_energy(r);
        p.T = T;
        double R0 = range(p, m, c), rv = std::max(0.0, range_variance(p, T, m, c));
        expect_close("range-straggling", range_straggling(p, T, m, c), std::sqrt(rv), 1e-12, 0, where);
        double fr = i == 0 ? 1.0 + r.uni(0.01, 2) : r.chance(0.3) ? r.loguni(1e-6, 1e-2) : r.uni(0.01, 0.98);
        Material l = m; l.thickness(std::max(1e-12, R0 * fr));
        if (!(R0 > 1e-4)) { H.skipped++; continue; }
        Result x = calculate(p, l, c);
        H.evaluations++;
        auto wh = [&] { return where() + fmt(" th=%.17g Eout=%.17g", l.thickness(), x.Eout); };
        expect_close("sigma-r", x.sigma_r, std::sqrt(rv), 1e-12, 0, wh);
        if (x.Eout < 1e-3) {
            expect_close("stopped", x.sigma_E, 0, 0, 0, wh);
            H.count("stopped layers");
            continue;
        }
        double so = dedx_from_range(p(x.Eout), m, c);
        p.T = T;
        double rvo = range_variance(p, x.Eout, m, c);
        if (domega2dx(p, m, c) == 0 || domega2dx(p(x.Eout), m, c) == 0) { // straggling switched off by the model at this energy
            p.T = T;
            if (!(x.sigma_E >= 0)) H.violation("sigma-E-negative", wh());
            H.count("layers with vanishing straggling");
            continue;
        }
        p.T = T;
        if (x.Eout > 0.9995 * T) {
            // thin layer: trapezoid of the variance
            double d0 = domega2de(p, T, m, c), d1 = domega2de(p, x.Eout, m, c);
            double want = so / p.A * std::sqrt((T - x.Eout) * 0.5 * (d0 + d1));
            expect_close("sigma-E-thin", x.sigma_E, want, 2e-2, 0, wh);
            H.count("thin layers");
        } else {
            double want = so / p.A * std::sqrt(std::max(0.0, rv - rvo));
            double tol = x.Eout > 0.998 * T ? 2e-2 : 1e-7, at = so / p.A * std::sqrt(1e-12 * rv);
            expect_close("sigma-E", x.sigma_E, want, tol, at, wh);
            expect_close("sigma-E-from-E", energy_straggling_from_E(p, T, x.Eout, m, c), want, 1e-9, at, wh);
            H.count("thick layers");
        }
        // slope of the range variance against the formula, away from jumps
        double h = f(T); p.T = T;
        double g[5]; for (int j = -2; j <= 2; j++) g[j + 2] = f(std::min(1.1e7, std::max(8e-4, T * std::pow(q, 2 * j))));
        p.T = T;
        double rough = std::max({std::fabs(g[0] - 2 * g[1] + g[2]), std::fabs(g[1] - 2 * g[2] + g[3]), std::fabs(g[2] - 2 * g[3] + g[4])}) / h;
        if (T > 2e-3 && T < 3e5 && h > 0 && (c.z_effective != 3 || T < 2.2 || T > 3)) expect_close("variance-slope", domega2de(p, T, m, c), h, 1e-3 + 2 * rough, 1e-30, where);
    }
    H.nontrivial(hash_of(p, m, c));
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s\"}", k, where().c_str()));
}
MON_MAIN(H.run(one))
