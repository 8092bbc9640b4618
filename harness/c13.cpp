// C13: survival, reaction and production rates
#include "path.h"
#include "catima/reactions.h"
using namespace mon;
using namespace catima;
static void closed(Rng& r) {
    double s = r.chance(0.1) ? 0 : r.loguni(1e-3, 1e4), t = r.chance(0.05) ? 0 : r.loguni(1e-6, 50);
    auto w = [&] { return fmt("sigma=%.17g t=%.17g", s, t); };
    double x = s * t * 1e-4;
    expect_close("reaction-rate", reaction_rate(s, t), -std::expm1(-x), 1e-10, 1e-15, w);
    expect_close("nonreaction-rate-const", nonreaction_rate(s, t), std::exp(-x), 1e-12, 0, w);
    double k = r.uni(-1, 1);
    auto f = [&](double y) { return s * (1 + k * y / (t + 1)); };
    expect_close("reaction-rate-function", reaction_rate(f, t), -std::expm1(-1e-4 * s * (t + k * t * t / (2 * (t + 1)))), 1e-9, 1e-14, w);
    H.evaluations += 3;
    Material m = gen_material(r);
    double cs = r.loguni(1e-6, 500), rp1 = r.loguni(10, 6000), rp2 = rp1 + (r.chance(0.5) ? r.uni(-12, 12) : r.chance(0.5) ? r.uni(-1, 1) * r.loguni(1e-12, 1) : r.uni(-0.9, 1) * rp1);
    if (rp2 < 0) rp2 = 0;
    m.thickness(r.loguni(1e-6, 100));
    double n = m.number_density_cm2();
    double u = 1e-4 * (rp2 - rp1) * n;
    double g = std::fabs(u) < 1e-10 ? 1 : -std::expm1(-u) / u; // (1-exp(-u))/u
    double want = 1e-4 * cs * n * std::exp(-1e-4 * rp1 * n) * g;
    auto w2 = [&] { return fmt("cs=%.17g projectile=%.17g product=%.17g ", cs, rp1, rp2) + desc(m); };
    bool close = std::fabs(rp2 - rp1) < 5.0 + 1e-9;
    double tol = close ? 0.52e-4 * std::fabs(rp2 - rp1) * n + 1e-9 : 1e-9;
    double got = production_rate(cs, rp1, rp2, m);
    // difference of two nearly equal exponentials above the threshold
    double cancel = close ? 0 : 1e-15 * cs / std::fabs(rp2 - rp1);
    H.maximum("production relative deviation", want > 1e-290 ? std::fabs(got / want - 1) : 0);
    if (want > 1e-290) expect_close(close ? "production-close" : "production", got, want, tol, cancel, w2);
    H.count(close ? "production, close cross sections" : "production");
    H.evaluations++;
}
static double sigma(const Projectile& p, const ref::Mat& M, double e) { // mb times nuclei per 1e23 per g
    double s = 0;
    for (auto& t : M) s += t.w * ref::NA / t.a * ref::kox(std::lround(p.A), std::lround(p.Z), e, ref::iso_a(t.z, 0), t.z);
    return s;
}
static void one(long k, Rng& r) {
    for (int i = 0; i < 10; i++) closed(r);
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    Config c = gen_config(r);
    auto M = rm(m);
    for (auto& e : M) if (ref::niso(e.z) < 1) { H.count("element without natural isotope"); return; }
    double h = r.uni(31, 2000);
    for (int ee = 0; ee < 3; ee++) { // cross section
        int ap = r.irange(1, 240), zp = std::max(1, std::min(ap, (int)(ap * r.uni(0.38, 0.5)))), tz = r.irange(1, 83), at = ref::iso_a(tz, 0); double e = r.loguni(30, 1e5);
#ifndef NUREX
        if (at > 0) expect_close("kox", SigmaR_Kox(ap, zp, e, at, tz), ref::kox(ap, zp, e, at, tz), 1e-11, 0, [&] { return fmt("%d %d %.17g %d %d", ap, zp, e, at, tz); });
#endif
        H.evaluations++;
    }
    for (int i = 0; i < 14; i++) {
        double T = r.chance(0.15) ? r.uni(20, 40) : r.chance(0.2) ? h : r.loguni(30, 20000);
        p.T = T;
        Path path(p, m, c, T);
        double x30 = T > 30 ? path.depth(30) : 0;
        double th = i == 0 ? 0 : r.chance(0.2) ? path.R * r.uni(0.5, 2) : x30 * (r.chance(0.3) ? r.loguni(1e-5, 0.1) : r.uni(0, 1.02));
        Material l = m; l.thickness(th);
        double got = nonreaction_rate(p, l, c);
        Result x = calculate(p, l, c);
        auto w = [&] { return desc(p) + " " + desc(l) + " " + desc(c) + fmt(" got=%.17g", got); };
        H.evaluations++;
        expect_close("projectile-changed", p.T, T, 0, 0, w);
        if (th == 0) {
            expect_close("zero-thickness", x.sp, 1, 0, 0, w);
            if (T >= 30) expect_close("zero-thickness-function", got, 1, 0, 0, w);
            H.count("zero thickness"); continue;
        }
        expect_close("in-result", x.sp, got, 1e-12, 0, w);
        // at the border of validity the energy is accurate to 1e-5 g/cm2
        if (T < 30 || th > x30 + 2e-5) { if (got != -1) H.violation("not-applicable", w()); H.count("model not applicable"); continue; }
        if (th > x30 - 2e-5) { H.count("border"); continue; }
        double e1 = path.energy(th);
        double ex = 1e-4 * path.integrate(e1, [&](double e, double) { return sigma(p, M, e); }, 1e-8);
        double s0 = sigma(p, M, T), s1 = sigma(p, M, e1);
        // a nearly constant cross section is replaced by the mean of its values at both ends
        double tol = (std::fabs(s1 - s0) < 0.0501 * std::fabs(s0) ? 3e-2 : 1e-2) * std::fabs(ex) + 1e-4 * 2e-5 * std::fabs(s0);
        if (ex > 650) { H.count("no survivors"); if (!(got >= 0 && got < 1e-250)) H.violation("survivors", w()); continue; }
        double lg = -std::log(got);
        H.maximum("exponent deviation over tolerance", std::fabs(lg - ex) / tol, w());
        if (!(std::fabs(lg - ex) <= tol)) H.violation("survival", fmt("want exponent %.12g got %.12g tol %g ", ex, lg, tol) + w());
        H.maximum("relative exponent", std::fabs(lg / ex - 1), w());
        bool open = s0 > 0 && s1 > 0; // above the Coulomb barrier
        if (open && !(got > 0 && got <= 1)) H.violation("outside-unit-interval", w());
        H.count(std::fabs(s1 - s0) < 0.05 * s0 ? "nearly constant cross section" : "varying cross section");
        H.nontrivial(hash_of(p, l, c));
        if (open) { // thickness and composition of layers
            Material a = l, b = l; double f = r.uni(0.1, 0.9); a.thickness(th * f); b.thickness(th * (1 - f));
            double g1 = nonreaction_rate(p, a, c);
            if (!(g1 >= got * (1 - 1e-12))) H.violation("not-falling", fmt("thinner %.12g ", g1) + w());
            Projectile q = p; q.T = energy_out(p, a, c);
            double g2 = q.T > 30.001 ? nonreaction_rate(q, b, c) : -1;
            if (g2 > 0) { expect_close("multiply", std::log(g1 * g2), std::log(got), 4e-2, 3 * tol, w); H.count("two layers"); }
        }
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %s %s\"}", k, desc(p).c_str(), desc(m).c_str(), desc(c).c_str()));
}
MON_MAIN(H.run(one))
