// C10: angular and lateral spread
#include "path.h"
using namespace mon;
using namespace catima;
#ifdef GSL_INTEGRATION
static const double SCALING = 1e-5; // the error of an adaptive rule does not scale with the integrand
#else
static const double SCALING = 1e-9;
#endif

static const double ES_HIGH = 2 * ref::PI / ref::ALPHA * ref::ME * ref::ME;
static double pv(double T, double a) { return ref::momentum(T, a) * ref::beta(T); }
// scattering power per g/cm2 at energy e and depth x (g/cm2) for incoming energy T
static double power_at(const Projectile& p, const ref::Mat& m, const Config& c, double e, double x, double T, double X0, double XS) {
    double k = p.Z * p.Z / (pv(e, p.A) * pv(e, p.A));
    switch (c.scattering) {
    case 0: return ES_HIGH * k / X0;
    case 1: { double l = std::log(x / X0); return l > -20.7 ? ES_HIGH * k / X0 * 0.97 * (1 + l / 20.7) * (1 + l / 22.7) : 0; }
    case 2: {
        double a = std::log10(1 - std::pow(pv(e, p.A) / pv(T, p.A), 2)), b = std::log10(pv(e, p.A));
        double f = 0.5244 + 0.1975 * a + 0.2320 * b - 0.0098 * a * b;
        return f > 0 ? f * 225.0 * k / XS : 0;
    }
    default: return 198.81 * k / X0;
    }
}
static void elements(Rng& r, const Projectile& p, const Material& m, const Config& c) {
    auto R = rm(m);
    auto w = [&] { return desc(p) + " " + desc(m) + " " + desc(c); };
    double X0 = ref::X0(R), XS = ref::XS(R), k = p.Z * p.Z / std::pow(pv(p.T, p.A), 2);
    expect_close("radiation-length", radiation_length(m), X0, 1e-9, 0, w);
    expect_close("scattering-length", scattering_length(m), XS, 1e-9, 0, w);
    expect_close("power-material", angular_scattering_power(p, m), 198.81 * k / X0, 1e-9, 0, w);
    auto t = m.get_element(r.irange(0, m.ncomponents() - 1));
    double es = r.uni(100, 300);
    expect_close("power-element", angular_scattering_power(p, t, es), es * k / ref::radlen(t.Z, t.A), 1e-9, 0, w);
    expect_close("power-material-es", angular_scattering_power(p, m, es), es * k / X0, 1e-9, 0, w);
    double want = c.scattering_factor * (c.scattering <= 1 ? ES_HIGH : 198.81) * k / X0;
    expect_close("da2dx", da2dx(p, m, c), want, 1e-9, 0, w);
    double T1 = p.T * r.uni(1.0001, 3);
    double a = std::log10(1 - std::pow(pv(p.T, p.A) / pv(T1, p.A), 2)), b = std::log10(pv(p.T, p.A)), f = 0.5244 + 0.1975 * a + 0.2320 * b - 0.0098 * a * b;
    expect_close("power-gottschalk", angular_scattering_power_xs(p, m, ref::momentum(T1, p.A), ref::beta(T1)), std::max(0.0, f) * 225 * k / XS, 1e-7, 0, w);
}
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    Config c = gen_config(r);
    c.scattering = std::vector<int>{0, 1, 2, 255}[k % 4];
    if (r.chance(0.5)) c.scattering_factor = r.loguni(0.1, 10);
    auto R = rm(m);
    double X0 = ref::X0(R), XS = ref::XS(R), rho = m.density();
    for (int i = 0; i < 6; i++) { p.T = gen_energy(r, 1e-2, 1e6); elements(r, p, m, c); H.evaluations++; }
    for (int i = 0; i < 5; i++) {
        double T = r.chance(0.7) ? r.loguni(1, 2000) : r.loguni(0.1, 1e5);
        p.T = T;
        Path path(p, m, c, T);
        double Rg = path.R;
        if (Rg < 2e-3) { H.skipped++; continue; }
        bool stopped = i == 0;
        double fr = stopped ? 1 + r.uni(0.01, 1) : r.chance(0.3) ? r.loguni(1e-4, 1e-1) : r.uni(0.05, 0.97);
        double th = fr * Rg, L = std::min(th, Rg);
        if (!stopped && (Rg - th < 1e-3 || th < 1e-4)) { H.skipped++; continue; }
        Material l = m; l.thickness(th);
        double rest = stopped ? 1e-3 : Rg - th;
        double e1 = stopped ? EMIN : path.energy(th);
        double tol = 2e-3 + 4e-5 / rest;
        if (c.scattering == 1) tol += 6e-3; // logarithmic at the entrance
        if (c.scattering == 2) tol += 1.5e-2 + 1e-5 / th;
        auto w = [&] { return desc(p) + " " + desc(l) + " " + desc(c) + fmt(" range=%.9g", Rg); };
        double v[3], lib[3];
        for (int o = 0; o < 3; o++) {
            // the angular spread of a stopped projectile is zero, its covariance depends on where "stopped" begins
            if (stopped && o == 1) { lib[1] = angular_variance(p, l, c, 1); if (!(lib[1] >= 0)) H.violation("stopped-covariance", w()); continue; }
            if (stopped && o == 0) { v[0] = lib[0] = 0; continue; }
            v[o] = c.scattering_factor * path.integrate(e1, [&](double e, double x) { return std::pow(std::max(0.0, L - x) / rho, o) * power_at(p, R, c, e, std::max(x, 1e-300), T, X0, XS); }, 1e-7);
            lib[o] = angular_variance(p, l, c, o);
            double t = stopped ? 5e-3 + 3e-3 / Rg : tol;
            double d = std::fabs(lib[o] - v[o]) / v[o];
            H.maximum(fmt("order %d %s model %d over tolerance", o, stopped ? "stopped" : "passed", c.scattering), d / t, w());
            H.evaluations++;
            if (!(d <= t)) H.violation(fmt("moment-%d%s-model-%d", o, stopped ? "-stopped" : "", c.scattering), fmt("got %.12g want %.12g tol %g ", lib[o], v[o], t) + w());
        }
        Result x = calculate(p, l, c);
        expect_close("sigma-x", x.sigma_x, std::sqrt(lib[2]), 1e-9, 0, w);
        expect_close("covariance", x.cov, lib[1], 1e-9, 0, w);
        if (stopped) expect_close("stopped-sigma-a", x.sigma_a, 0, 0, 0, w);
        else {
            expect_close(fmt("sigma-a-model-%d", c.scattering), x.sigma_a, std::sqrt(v[0]), tol + 1e-5 / th, 0, w);
            expect_close("angular-straggling", angular_straggling(p, l, c), std::sqrt(lib[0]), 1e-9, 0, w);
            if (!(x.cov <= x.sigma_a * x.sigma_x * (1 + tol + 1e-5 / th))) H.violation("covariance-too-large", w() + fmt(" cov=%.12g sa=%.12g sx=%.12g", x.cov, x.sigma_a, x.sigma_x));
            Material l2 = l; l2.thickness(th * 0.9);
            Result y = calculate(p, l2, c);
            if (!(y.sigma_a < x.sigma_a)) H.violation("spread-not-growing", w() + fmt(" %.12g at 0.9 th, %.12g", y.sigma_a, x.sigma_a));
            expect_close("from-E", angular_straggling_from_E(p, x.Eout, m, c), std::sqrt(v[0]), tol + 1e-5 / th, 0, w);
            // linear in the scattering factor
            Config c2 = c; c2.scattering_factor = 4 * c.scattering_factor;
            Result z = calculate(p, l, c2);
            expect_close("factor-sigma-a", z.sigma_a, 2 * x.sigma_a, SCALING, 0, w);
            expect_close("factor-sigma-x", z.sigma_x, 2 * x.sigma_x, SCALING, 0, w);
            expect_close("factor-cov", z.cov, 4 * x.cov, 1e-9, 0, w);
        }
        H.count(fmt("model %d %s", c.scattering, stopped ? "stopped" : "passed"));
        H.nontrivial(hash_of(p, l, c));
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %s %s\"}", k, desc(p).c_str(), desc(m).c_str(), desc(c).c_str()));
}
MON_MAIN(H.run(one))
