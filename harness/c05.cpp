// C05: range is the integral of the inverse stopping power
#include "bridge.h"
using namespace mon;
using namespace catima;

static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    std::string md;
    Material m = gen_material(r, &md);
    Config c = gen_config(r);
    auto f = [&](double e) { return p.A / dedx(p(e), m, c); };
    auto where = [&] { return desc(p) + " " + desc(m) + " " + desc(c); };
    const double q = grid_ratio();
    const int N = GRID;
    auto jump_tol = [&](double e1, double e2) { return step_error(f, e1, e2); };
    // (a) between table points
    std::vector<int> nodes;
    for (int i = 0; i < 4; i++) nodes.push_back(r.irange(0, N - 1));
    nodes.push_back(0); nodes.push_back(N - 1);
    std::sort(nodes.begin(), nodes.end());
    for (size_t i = 1; i < nodes.size(); i++) {
        if (nodes[i] == nodes[i - 1]) continue;
        double e1 = grid(nodes[i - 1]), e2 = grid(nodes[i]);
        double R1 = range(p(e1), m, c), R2 = range(p(e2), m, c);
        double want = integrate_energy(f, e1, e2, 1e-10);
        double jt = jump_tol(e1, e2);
        H.evaluations++;
        double dev = (std::fabs(R2 - R1 - want) - jt) / want;
        H.maximum("node", dev, where() + fmt(" E=%g..%g", e1, e2));
        if (!(dev < 1e-5)) H.violation("range-integral", fmt("E %.17g..%.17g got %.17g want %.17g ", e1, e2, R2 - R1, want) + where());
    }
    // (b) arbitrary energies: value and slope
    // relative second difference of the integrand over the neighbouring table steps: what a cubic
    // interpolation with this step can at best resolve
    auto rough = [&](double e) {
        double v = 0;
        double g[9];
        for (int i = -4; i <= 4; i++) g[i + 4] = f(std::min(1.2e7, std::max(5e-4, e * std::pow(q, i))));
        for (int i = 1; i < 8; i++) v = std::max(v, std::fabs(g[i - 1] - 2 * g[i] + g[i + 1]) / g[4]);
        return v;
    };
    std::vector<double> es;
    for (int i = 0; i < 6; i++) es.push_back(gen_energy(r));
    std::sort(es.begin(), es.end());
    double prevR = 0, prevE = 0, prevTol = 0;
    for (double e : es) {
        double R = range(p(e), m, c);
        H.evaluations++;
        double steps = std::min(std::fabs(std::log(e / EMIN)), std::fabs(std::log(1e7 / e))) / std::log(q);
        double edge = 0.03 * std::pow(0.27, steps); // natural end condition of the spline
        double rg = rough(e);
        double vtol = f(e) * e * (q - 1) * (0.1 * rg + edge);
        if (prevE > 0 && e > prevE) {
            double want = integrate_energy(f, prevE, e, 1e-10);
            double got = R - prevR;
            double tol = 1e-5 * want + jump_tol(prevE, e) + 1e-11 * R + vtol + prevTol;
            H.maximum("free_over_tolerance", std::fabs(got - want) / tol, where() + fmt(" E=%g..%g", prevE, e));
            if (e > prevE * 1.001) H.maximum("free_reldiff", std::fabs(got - want) / want, where() + fmt(" E=%g..%g", prevE, e));
            if (e > prevE * (1 + 1e-9) && !(got > 0)) H.violation("range-not-increasing", fmt("E %.17g -> %.17g R %.17g -> %.17g ", prevE, e, prevR, R) + where());
            if (!(std::fabs(got - want) <= tol)) H.violation("range-between-points", fmt("E %.17g..%.17g got %.17g want %.17g tol %g ", prevE, e, got, want, tol) + where());
        }
        double d1 = dedx(p(e), m, c), d2 = dedx_from_range(p(e), m, c);
        double stol = 1e-4 + rg + edge;
        double dev = std::fabs(1 / d2 - 1 / d1) * d1;
        H.maximum("slope_over_tolerance", dev / stol, where() + fmt(" E=%g", e));
        H.maximum("slope_tolerance", stol);
        H.count(stol < 1e-3 ? "slope tolerance below 1e-3" : stol < 1e-2 ? "slope tolerance 1e-3..1e-2" : "slope tolerance above 1e-2");
        if (!(dev <= stol)) H.violation("slope", fmt("E %.17g dedx %.17g from range %.17g tol %g ", e, d1, d2, stol) + where());
        prevR = R; prevE = e; prevTol = vtol;
    }
    H.nontrivial(hash_of(p, m, c));
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s\",\"range\":%.9g}", k, where().c_str(), prevR));
}
MON_MAIN(H.run(one))
