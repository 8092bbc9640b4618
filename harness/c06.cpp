// C06: stopping power = nuclear + electronic (low energy model / blend / Bethe), summed by weight
#include "bridge.h"
#include "catima/srim.h"
using namespace mon;
using namespace catima;

static void pairs(long k, Rng& r) { // every projectile and target element once
    int pz = 1 + int(k / 98) % 98, tz = 1 + int(k % 98);
    double pa = element_atomic_weight(pz), ta = element_atomic_weight(tz);
    Target t{ta, tz, 1.0};
    Material m(0, tz, 1.0);
    for (int i = 0; i < 8; i++) {
        double e = i < 2 ? gen_energy(r, 1e-6, 10.0) : i < 5 ? r.loguni(1e-3, 0.2) : gen_energy(r, 1e-6, 1e7);
        if (i == 1) e = r.loguni(1e-7, 1e-3);
        for (int n = 0; n < 2; n++) {
            H.evaluations++;
            double got = srim_dedx_e(pz, tz, e, n), want = ref::srim(pz, tz, e, n);
            auto where = [&] { return fmt("pz=%d tz=%d E=%.17g srim%d", pz, tz, e, n ? 95 : 85); };
            expect_close("low-energy", got, want, 1e-9, 0, where);
            if (e > 0 && e <= 30 && !(got > 0)) H.violation("low-energy-not-positive", where() + fmt(" got %g", got));
            Config c; c.low_energy = n;
            Projectile p(pa, pz, 0, e);
            if (n) expect_close("low-energy-material", sezi_dedx_e(p, m, c), 60.22140857 * 10 * want / ta, 1e-8, 0, where);
        }
        Projectile p(pa, pz, 0, e);
        expect_close("nuclear", dedx_n(p, t), ref::nuclear(rp(p), e, ta, tz), 1e-9, 0, [&] { return desc(p) + fmt(" tz=%d", tz); });
        expect_close("reduced-energy", reduced_energy_loss_unit(p, t), ref::eps(rp(p), e, ta, tz), 1e-9, 0, [&] { return desc(p) + fmt(" tz=%d", tz); });
        H.count(e < 0.025 ? "below 25 keV/u" : e < 10 ? "below 10 MeV/u" : e < 30 ? "10..30 MeV/u" : "above 30 MeV/u");
    }
    H.nontrivial(hash_mix(3, k));
}
static void mats(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    for (int i = 0; i < 6; i++) {
        Config c = gen_config(r);
        double e = i == 0 ? r.uni(10, 30) : i == 1 ? r.loguni(1e-5, 40) : gen_energy(r);
        p.T = e;
        auto where = [&] { return desc(p) + " " + desc(m) + " " + desc(c); };
        auto R = rm(m);
        double want = ref::dedx(rp(p), e, R, rc(c), m.I());
        double got = dedx(p, m, c);
        H.evaluations++;
        expect_close("stopping-power", got, want, 1e-7, 0, where);
        H.maximum("stopping_power_reldiff", reldiff(got, want), where());
        if (!(got > 0)) H.violation("not-positive", where() + fmt(" got %g", got));
        Projectile rest = p; rest.T = 0;
        if (dedx(rest, m, c) != 0) H.violation("stopping-power-at-rest", where());
        double n = 0;
        for (auto& x : R) n += x.w * ref::nuclear(rp(p), e, x.a, x.z);
        expect_close("nuclear-material", dedx_n(p, m), n, 1e-9, 0, where);
        expect_close("low-material", sezi_dedx_e(p, m, c), ref::low(rp(p), e, R, c.low_energy == 1), 1e-8, 0, where);
        if (i == 0) {
            // seam continuity: the blend leaves no jump at 10 and 30
            for (double b : {10.0, 30.0}) {
                double d0 = dedx(p(b * (1 - 1e-9)), m, c), d1 = dedx(p(b * (1 + 1e-9)), m, c);
                expect_close("seam", d1, d0, 1e-6, 1e-7 * sezi_dedx_e(p, m, c), where);
                H.count("seams");
            }
            p.T = e;
        }
        H.nontrivial(hash_of(p, m, c));
    }
    p.T = 0;
    expect_close("zero-energy", dedx(p, m), 0, 0, 0, [&] { return desc(p) + desc(m); });
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %s\"}", k, desc(p).c_str(), desc(m).c_str()));
}
static void one(long k, Rng& r) { if (k < 9604) pairs(k, r); else mats(k, r); }
MON_MAIN(H.run(one))
