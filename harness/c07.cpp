// C07: Bethe stopping power, its terms and the correction switches
#include "bridge.h"
using namespace mon;
using namespace catima;

static double gen_bethe_energy(Rng& r) {
    switch (r.irange(0, 4)) {
    case 0: return r.loguni(40000, 1e7);
    case 1: return r.loguni(5, 100);
    case 2: return r.loguni(0.5, 20);
    default: return gen_energy(r, 1.0, 1e7);
    }
}
static double dens_tol(double eta, int z) { // the density-effect fit jumps at its first table point; rounding decides the branch there
    double x = std::log10(eta);
    return (std::fabs(x - ref::x0(z)) < 1e-6 || std::fabs(x - ref::x1(z)) < 1e-6) ? 1 : 0;
}
static bool near_break(double T, double x) { return std::fabs(T / x - 1) < 1e-9; }

static void one(long k, Rng& r) {
    if (k == 0) for (int z = 1; z <= 97; z++) for (double x : {ref::x0(z) + 1e-4, ref::x0(z) + 0.1, ref::x1(z)}) {
        double e = std::pow(10.0, x), v = bethek_density_effect(e / std::sqrt(1 + e * e), z);
        if (!(v >= -0.1)) H.violation(fmt("density-effect-negative-Z%d", z), fmt("%g at log10(beta gamma)=%g", v, x));
    }
    Projectile p = gen_projectile(r);
    double T = gen_bethe_energy(r);
    p.T = T;
    int tz = k < 400 ? 1 + k % 98 : r.irange(1, 98);
    double ta = r.chance(0.5) ? element_atomic_weight(tz) : std::max(1.0, std::round(element_atomic_weight(tz) * r.uni(0.9, 1.1)));
    Target t{ta, tz, 1.0};
    double I = r.chance(0.4) ? ref::ipot(tz) * r.uni(0.7, 1.4) : 0.0;
    double eta = std::sqrt(T * (T + 2 * ref::U)) / ref::U;
    bool skip = false;
    for (double b : ref::breaks(rp(p), {{ta, tz, 1.0}}, {})) if (near_break(T, b) && b != 50000.0 && b != 10.0 && b != 30.0 && b != 1.0) skip = true;
    if (skip || dens_tol(eta, tz)) { H.skipped++; return; }
    for (int z = 0; z < 6; z++) {
        if (z && r.chance(0.5)) continue;
        for (int bits = 0; bits < 16; bits++) {
            Config c; c.z_effective = z; c.corrections = bits;
            if (r.chance(0.2)) c.corrections |= 0xF0; // bits that name no correction
            c.calculation = r.irange(0, 1); c.low_energy = r.irange(0, 1);
            auto where = [&] { return desc(p) + fmt(" tz=%d ta=%.17g I=%.17g ", tz, ta, I) + desc(c); };
            double want = ref::bethe(rp(p), T, ta, tz, rc(c), I), got = bethek_dedx_e(p, t, c, I);
            // compare relative to the stopping number 1 so that cancelling terms do not blow up the relative error
            double ze = ref::zeff(z, p.Z, p.Q, T, tz), scale = ref::KD * ze * ze * tz / ref::beta2(T) / ta;
            H.evaluations++;
            expect_close(fmt("bethe-switches-%d", bits), got, want, 1e-7, 1e-8 * scale, where);
            H.maximum("bethe_reldiff", std::fabs(got - want) / (scale + std::fabs(want)));
        }
    }
    Config none; none.z_effective = 0; none.corrections = 7;
    auto where = [&] { return desc(p) + fmt(" tz=%d ta=%.17g", tz, ta); };
    double ze = r.uni(0.1, p.Z);
    expect_close("barkas", bethek_barkas(ze, eta, tz), ref::barkas(ze, eta, tz), 1e-9, 0, where);
    { // reduced velocities at and around the joints of the correction
        int zt = r.pick(std::vector<int>{1, 4, 9, 16, 25, 36, 49, 64, 81, tz}), v = r.irange(1, 4);
        double e0 = v * fine_structure * std::sqrt(zt);
        for (double e : {e0, std::nextafter(e0, 0), std::nextafter(e0, 1e9)}) {
            double got = bethek_barkas(ze, e, zt) - 1, k = 2 * ze / (v * v * std::sqrt(zt));
            static const double F[5] = {0, 0.33, 0.30, 0.26, 0.23};
            bool ok = std::fabs(got - k * F[v]) < 1e-9 * k || (v == 1 && got == 0) || (v == 4 && std::fabs(got - k * 0.225) < 1e-9 * k);
            if (!ok) H.violation("barkas-joint", fmt("reduced velocity %d, zt %d: %.17g", v, zt, got) + where());
            H.evaluations++;
        }
        H.count("joints of the Barkas correction");
    }
    expect_close("density-effect", bethek_density_effect(ref::beta(T), tz), ref::density_effect(eta, tz), 1e-6, 1e-6, where);
    expect_close("lindhard", precalculated_lindhard(p), ref::ls(p.A, p.Z, T), 1e-8, 1e-9, where);
    // polarisation of the medium never adds stopping power (published fits dip to -0.03)
    double del = bethek_density_effect(ref::beta(T), tz);
    if (!(del >= -0.1)) H.violation(fmt("density-effect-negative-Z%d", tz), fmt("%g at ", del) + where());
    double g = T > 30000 ? 1 : 0;
    if (g) {
        expect_close("pair-production", pair_production(p, t), ref::pair(rp(p), T, ta, tz), 1e-8, 1e-12, where);
        expect_close("bremsstrahlung", bremsstrahlung(p, t), ref::brems(rp(p), T, ta, tz), 1e-8, 0, where);
        H.count("high-energy terms");
    }
    H.count(T > 50000 ? "above 50 GeV/u" : eta < 0.13 ? "below shell limit" : "between");
    // a material: weights and user-set ionisation potential reach every element, and dedx above 30 MeV/u uses it
    Material m = gen_material(r);
    Config c = gen_config(r);
    auto mw = [&] { return desc(p) + " " + desc(m) + " " + desc(c); };
    for (double b : ref::breaks(rp(p), rm(m), rc(c))) if (near_break(T, b) && b != 50000.0 && b != 10.0 && b != 30.0) return;
    double want = ref::electronic_bethe(rp(p), T, rm(m), rc(c), m.I());
    expect_close("material", bethek_dedx_e(p, m, c), want, 1e-7, 0, mw);
    if (T > 30) {
        double n = 0;
        for (auto& e : rm(m)) n += e.w * ref::nuclear(rp(p), T, e.a, e.z);
        expect_close("dedx-above-30", dedx(p, m, c), want + n, 1e-7, 0, mw);
        if (m.I() > 0) H.count("user ionisation potential");
    }
    H.nontrivial(hash_of(p, m, c, hash_mix(tz, k)));
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s\"}", k, mw().c_str()));
}
MON_MAIN(H.run(one))
