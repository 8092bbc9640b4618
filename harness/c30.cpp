// C30: kinematic quantities of the library against their definitions, and the magnification of layers against the stopping powers at both ends
#include "common.h"
#include "ref.h"
#include "catima/calculations.h"
#include "catima/reactions.h"
using namespace mon;
using namespace catima;
double momentum_from_calculations(double T, double M); // c30_lib.cpp
static const long double U = 931.4940954L;
static void kinematics(long k, Rng& r) {
    for (int i = 0; i < 50; i++) {
        double T = r.chance(0.02) ? 0 : r.chance(0.1) ? (double)r.irange(1, 5000) : r.loguni(1e-6, 1e8), A = r.chance(0.3) ? 1 : r.uni(0.5, 300), B = r.uni(0.5, 300);
        long double g = 1 + T / U, b = T > 0 ? std::sqrt(T * (T + 2 * U)) / (T + U) : 0, pm = A * std::sqrt(T * (T + 2 * U));
        auto is = [&](const char* w, double got, long double want, double tol) {
            H.evaluations++;
            if (!(std::abs(got - want) <= tol)) H.violation(w, fmt("%s %.17g, expected %.17Lg, T=%.17g A=%.17g", w, got, want, T, A));
            else if (tol > 0) H.maximum(std::string("fraction of tolerance used by ") + w, (double)(std::abs(got - want) / tol));
        };
        double ga = gamma_from_T(T), be = beta_from_T(T), p = catima::p_from_T(T, A);
        is("gamma", ga, g, 1e-15 * (double)g + 1e-15);
        // one minus one over gamma squared loses digits at low velocity
        is("beta", be, b, 1e-15 + (b > 0 ? 6e-16 / (double)b : 1e-7));
        is("momentum", p, pm, 1e-14 * (double)pm);
        double pl = momentum_from_calculations(T, A);
        is("momentum", pl, pm, 1e-14 * (double)pm);
        if (hash_d(0, p) != hash_d(0, pl)) H.violation("momentum depends on the included headers", fmt("%.17g and %.17g, T=%.17g A=%.17g", p, pl, T, A));
        if (be > 1 || be < 0 || ga < 1) H.violation("range", fmt("beta %.17g gamma %.17g T=%.17g", be, ga, T));
        is("centre-of-mass energy", Ecm_from_T(T, A, B), (long double)T * A * B / ((long double)A + B), 1e-14 * T * A);
        is("centre-of-mass symmetry", Ecm_from_T(T, A, B), Ecm_from_T(T, B, A), 1e-14 * T * A);
        double T2 = T * r.uni(1.000001, 3) + 1e-9;
        if (!(catima::p_from_T(T2, A) > p && gamma_from_T(T2) >= ga && beta_from_T(T2) >= be)) H.violation("monotonic", fmt("T=%.17g and %.17g", T, T2));
        double x = r.loguni(1e-3, 1e3), y = r.uni(-4, 4); int n = r.irange(-3, 6);
        is("power", power(x, y), std::pow((long double)x, (long double)y), 2e-14 * std::pow(x, y));
        is("integer power", ipow(x, n), std::pow((long double)x, n), 1e-14 * std::pow(x, n));
        is("integer power", ipow(-x, n), std::pow(-(long double)x, n), 1e-14 * std::pow(x, n));
        is("mass scales momentum", catima::p_from_T(T, A), (long double)A * catima::p_from_T(T, 1.0), 1e-14 * (double)pm);
        H.nontrivial(hash_d(k, T));
    }
}
static void magnification(long k, Rng& r) {
    Projectile p = gen_projectile(r); Material m = gen_material(r); Config c = gen_config(r);
    double R;
    for (int i = 0; i < 12; i++) {
        double T = r.chance(0.6) ? r.loguni(10, 2000) : r.loguni(0.1, 9e4);
        p.T = T; R = range(p, m, c);
        double f = r.chance(0.15) ? r.uni(0.95, 1.2) : r.chance(0.2) ? r.loguni(1e-3, 0.1) : r.uni(0.05, 0.95);
        m.thickness(R * f);
        if (i == 0) { Material e = m; e.thickness(0); auto u = w_magnification(p, T, e, c); H.evaluations++; if (u.first != 1 || u.second != 1) H.violation("no layer", fmt("%.17g %.17g", u.first, u.second)); }
        auto w = w_magnification(p, T, m, c);
        p.T = T * 0.99; double lo = energy_out(p, m, c), Rl = range(p, m, c);
        p.T = T * 1.01; double hi = energy_out(p, m, c);
        p.T = T; double E = energy_out(p, m, c);
        std::string d = fmt("T=%.17g Eout=%.17g thickness/range=%.6g ", T, E, f) + desc(p) + " " + desc(m) + " " + desc(c);
        H.evaluations++;
        if (m.thickness() > Rl * 1.0001 + 1e-4) { // the slowest of the three does not come out
            H.count("slowest stopped");
            if (w.first != 0 || w.second != 0) H.violation("stopped", fmt("%.17g %.17g ", w.first, w.second) + d);
            continue;
        }
        if (!(lo > 1e-2)) { H.count("close to stopping"); continue; }
        // energies of the three
        double dw = 4e-5 * dedx(p, m, c) / p.A; // iteration tolerance of the outgoing energy
        long double want = (long double)(hi - lo) / (0.02L * T) * T / E, P = std::sqrt((long double)T * (T + 2 * U)), Pe = std::sqrt((long double)E * (E + 2 * U));
        auto mom = [](long double t) { return std::sqrt(t * (t + 2 * U)); };
        long double want2 = (mom(hi) - mom(lo)) / (mom(1.01L * T) - mom(0.99L * T)) * P / Pe;
        H.evaluations += 2; H.count("compared");
        double tol = 1e-9 + 1e-14 * T / (hi - lo);
        if (!(std::abs(w.first - want) <= tol * std::abs((double)want))) H.violation("energy-magnification", fmt("%.17g, expected %.17Lg ", w.first, want) + d);
        if (!(std::abs(w.second - want2) <= tol * std::abs((double)want2))) H.violation("momentum-magnification", fmt("%.17g, expected %.17Lg ", w.second, want2) + d);
        // dEout/dEin is the ratio of the stopping powers of both ends
        // (the largest and smallest of the passed energies and one table step around them; the interpolation smooths over a step)
        auto extremes = [&](double x, double y) {
            std::pair<double, double> e{1e300, 0}; Projectile q = p;
            for (int j = 0; j <= 20; j++) { q.T = x / 1.04 * std::pow(y * 1.04 * 1.04 / x, j / 20.0); double v = dedx(q, m, c); e.first = std::min(e.first, v); e.second = std::max(e.second, v); }
            return e;
        };
        auto [smin, smax] = extremes(lo, hi); auto [imin, imax] = extremes(0.99 * T, 1.01 * T);
        if (hi - lo > 100 * dw && dw * 100 < 0.02 * T) {
            double s = dw / (0.01 * T);
            double j = 0.005 + 0.2 * std::max(smax / smin - 1, imax / imin - 1); // the interpolation overshoots next to a jump
            double up = T / E * (smax / imin) * (1 + j) + s * T / E, down = T / E * (smin / imax) / (1 + j) - s * T / E;
            H.evaluations++; H.count("compared with stopping powers");
            H.maximum("bracket width", up / down, d);
            if (!(w.first >= down && w.first <= up)) H.violation("stopping-power-ratio", fmt("%.17g outside %.17g..%.17g ", w.first, down, up) + d);
        }
        H.nontrivial(hash_d(hash_of(p, m, c), T * f));
        if (i == 0 && k % 40 == 0) H.sample(fmt("{\"T\":%.6g,\"Eout\":%.6g,\"magnification\":[%.9g,%.9g]}", T, E, w.first, w.second));
    }
}
static void one(long k, Rng& r) { kinematics(k, r); if (k % 4 == 0) magnification(k, r); }
MON_MAIN(H.run(one))
