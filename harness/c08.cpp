// C08: effective charge models
#include "bridge.h"
using namespace mon;
using namespace catima;

static void one(long k, Rng& r) {
    int pz = 1 + int(k / 98) % 98, tz = 1 + int(k % 98);
    Projectile p(element_atomic_weight(pz), pz);
    Target t{element_atomic_weight(tz), tz, 1.0};
    Material m(0, tz, 1.0);
    for (int i = 0; i < 12; i++) {
        double T = i < 3 ? r.loguni(1e-3, 30) : i < 6 ? r.loguni(10, 2000) : gen_energy(r);
        p.T = T;
        if (r.chance(0.5)) p.Q = r.irange(1, pz); else p.Q = pz;
        if (r.chance(0.1)) p.Q = r.uni(0.5, pz);
        double b = ref::beta(T);
        for (int z = 0; z < 6; z++) {
            Config c; c.z_effective = z;
            c.corrections = r.irange(0, 15);
            auto where = [&] { return desc(p) + fmt(" tz=%d ", tz) + desc(c); };
            double want = ref::zeff(z, pz, p.Q, T, tz), got = z_effective(p, t, c);
            H.evaluations++;
            expect_close(fmt("model-%d", z), got, want, 1e-8, 1e-8 * pz, where);
            H.maximum(fmt("model %d over nuclear charge", z), got / pz);
            double lim = z == 5 ? 1.001 : 1 + 1e-12; // the published Schiwietz fit overshoots by less than a permille
            if (z && !(got <= pz * lim)) H.violation(fmt("exceeds-nuclear-charge-%d", z), where() + fmt(" got %.17g", got));
            double direct = z == 0 ? p.Q : z == 1 ? z_eff_Pierce_Blann(pz, b) : z == 2 ? z_eff_Anthony_Landford(pz, b, tz) : z == 3 ? z_eff_Hubert(pz, T, tz) : z == 4 ? z_eff_Winger(pz, b, tz) : z_eff_Schiwietz(pz, b, tz);
            expect_close(fmt("direct-%d", z), direct, want, 1e-8, 1e-8 * pz, where);
            // the selection is used by stopping power and straggling: both go with the square of the charge
            if (T > 31 && std::fabs(want) > 1e-3) {
                Config c0 = c, c1 = c; c0.z_effective = 0; c0.corrections = c1.corrections = 15;
                Projectile q = p; q.Q = want;
                expect_close("stopping-uses-selection", dedx(p, m, c1) - dedx_n(p, m), dedx(q, m, c0) - dedx_n(q, m), 1e-8, 0, where);
                c0.calculation = c1.calculation = r.irange(0, 1);
                expect_close("straggling-uses-selection", domega2dx(p, m, c1), domega2dx(q, m, c0), 1e-8, 0, where);
                c0.corrections = c1.corrections = c.corrections;
                expect_close("stopping-uses-selection-corrected", dedx(p, m, c1), dedx(q, m, c0), 1e-7, 0, where);
            }
        }
        // the two parts of the global model that need no external data
        if (T > 2000 || T < 30 || pz < 29) {
            Config c; c.z_effective = 6;
            expect_close("global-outside", z_effective(p, t, c), ref::zeff(6, pz, p.Q, T, tz), 1e-8, 0, [&] { return desc(p) + fmt(" tz=%d", tz); });
            H.count("global model outside its data");
        }
        H.nontrivial(hash_d(hash_mix(k, i), T));
    }
    // high-velocity limit
    p.T = 1e7;
    p.Q = pz;
    for (int z = 1; z < 6; z++) {
        Config c; c.z_effective = z;
        double got = z_effective(p, t, c);
        H.maximum(fmt("model %d limit deviation", z), std::fabs(got / pz - 1));
        // the Winger fit is not made for such velocities, it may end at half the charge
        if (z != 4 && !(std::fabs(got / pz - 1) < 0.02))
            H.violation("high-velocity-limit", fmt("model %d pz=%d tz=%d gives %.17g at 1e7 MeV/u", z, pz, tz, got));
    }
    // monotone growth with velocity for Pierce-Blann
    double last = 0;
    for (int i = 0; i < 40; i++) {
        double v = z_eff_Pierce_Blann(pz, ref::beta(std::pow(10, -3 + 0.25 * i)));
        if (!(v >= last)) H.violation("pierce-blann-not-growing", fmt("pz=%d i=%d", pz, i));
        last = v;
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"pz %d tz %d\",\"limit\":%.9g}", k, pz, tz, last));
}
MON_MAIN(H.run(one))
