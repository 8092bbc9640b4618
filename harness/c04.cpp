// C04: outgoing energy against the range
#include "path.h"
using namespace mon;
using namespace catima;
constexpr double EPS = 1e-5; // documented tolerance of the outgoing energy, g/cm2
constexpr double EZERO = 1e-3;

static double gen_th(Rng& r, double R) {
    switch (r.irange(0, 9)) {
    case 0: return R * r.loguni(1e-12, 1e-3);
    case 1: return r.loguni(1e-9, 1e-4);
    case 2: return R * (1 - r.loguni(1e-9, 1e-1));
    case 3: return R * (1 + r.loguni(1e-12, 1));
    case 4: return std::max(0.0, R + r.uni(-4, 4) * EPS);
    case 5: { double t = R; int n = r.irange(-2, 2); for (int i = 0; i < std::abs(n); i++) t = std::nextafter(t, n < 0 ? 0 : 1e300); return t; }
    default: return R * r.uni(0, 1);
    }
}
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    Config c = gen_config(r);
    for (int i = 0; i < 60; i++) {
        double T = gen_energy(r);
        p.T = T;
        double R = range(p, m, c), th = gen_th(r, R);
        Material l = m; l.thickness(th);
        Result x = calculate(p, l, c);
        double e = energy_out(p, l, c);
        auto w = [&] { return desc(p) + " " + desc(l) + " " + desc(c) + fmt(" range=%.17g Eout=%.17g", R, e); };
        H.evaluations++;
        const double rnd = 1e-12 * R;
        expect_close("same-in-result", x.Eout, e, 0, 0, w);
        expect_close("incoming", x.Ein, T, 0, 0, w);
        expect_close("range-in-result", x.range, R, 0, 0, w);
        if (!(e >= 0 && e <= T)) H.violation("out-of-bounds", w());
        expect_close("energy-loss", x.Eloss, (T - x.Eout) * p.A, 1e-12, 0, w);
        if (th == 0) expect_close("zero-thickness", e, T, 0, 0, w);
        if (e < EZERO) {
            if (th < R - EPS - rnd) H.violation("stopped-early", w());
            H.count("stopped");
            continue;
        }
        if (th > R + EPS + rnd) H.violation("not-stopped", w());
        p.T = e;
        double Ro = range(p, m, c);
        p.T = T;
        double d = std::fabs(R - Ro - th);
        H.maximum("range_balance_over_tolerance", d / (EPS + rnd));
        if (!(d <= EPS + rnd)) H.violation("range-balance", fmt("difference %g ", d) + w());
        H.count(R > 1e-2 ? "passed, range above 10 mg/cm2" : "passed, short range");
        H.nontrivial(hash_of(p, l, c));
        // two slabs
        if (th > 0 && R > 1e-3) {
            double f = r.uni(0.02, 0.98);
            Material a = m, b = m; a.thickness(th * f); b.thickness(th * (1 - f));
            double e1 = energy_out(p, a, c);
            p.T = e1;
            double e2 = e1 < EZERO ? 0 : energy_out(p, b, c);
            double R2 = 0;
            if (e2 >= EZERO) { p.T = e2; R2 = range(p, m, c); }
            p.T = T;
            if (!(std::fabs(R2 - Ro) <= 3 * EPS + 3 * rnd)) H.violation("two-slabs", fmt("split %g E %.17g vs %.17g ", f, e2, e) + w());
            if (e1 < e && R - th > 5 * EPS && range(p(e1), m, c) < Ro - 2 * EPS - rnd) { H.violation("thinner-loses-more", w()); }
            p.T = T;
            H.count("two slabs");
        }
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %s %s\"}", k, desc(p).c_str(), desc(m).c_str(), desc(c).c_str()));
}
MON_MAIN(H.run(one))
