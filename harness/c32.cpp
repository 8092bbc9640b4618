// C32: the effective-charge models that need the external charge-state library, with a stand-in for it
#include "bridge.h"
#include "catima/storage.h"
using namespace mon;
using namespace catima;

int default_model_seen_alone();
static long asked = 0;
static std::string wrong;
static double mean_charge(double pz, double tz, double E) { return pz - (pz - 20) * 0.2 * std::exp(-E / 350) * (1 + 0.004 * tz); }
extern "C" double global_qmean(double pz, double tz, double E) {
    asked++;
    if (!(E >= 30 && E <= 2000) || !(pz >= 29 && pz <= 130) || !(tz >= 1 && tz <= 130)) wrong = fmt("pz=%.17g tz=%.17g E=%.17g", pz, tz, E);
    return mean_charge(pz, tz, E);
}
static double model(int z, double pz, double q, double T, double tz) {
    if (z < 6) return ref::zeff(z, pz, q, T, tz);
    double pb = ref::zeff(1, pz, q, T, tz);
    if (z == 6) return T > 2000 ? pz : T < 30 || pz < 29 ? pb : mean_charge(pz, tz, T);
    double w = ref::zeff(4, pz, q, T, tz), hi = pz * (1 - std::exp(-180 * ref::beta(T) * std::pow(ref::gam(T), 0.18) * std::pow(pz, -0.82) * std::pow(tz, 0.1)));
    double mid = pz <= 28 ? w : (mean_charge(pz, tz, T) - pb) * 1.4 * std::pow(tz + 1, -0.28) * (1 - std::exp(-0.04 * T)) + pb;
    auto mix = [](double a, double b, double x) { return a + (b - a) * x; };
    if (T >= 1500) return hi;
    if (T > 1000) return mix(mid, hi, (T - 1000) / 500);
    if (pz <= 28 || T <= 30) return w;
    return T < 70 ? mix(w, mid, (T - 30) / 40) : mid;
}
static double dither(Rng& r, double x) { return r.chance(0.3) ? x : r.chance(0.5) ? std::nextafter(x, r.chance(0.5) ? 0 : 1e9) : x * (1 + r.uni(-1e-6, 1e-6)); }

static void one(long k, Rng& r) {
    int pz = 1 + int(k / 98) % 98, tz = 1 + int(k % 98);
    if (r.chance(0.3)) pz = r.irange(26, 31);
    Projectile p(element_atomic_weight(pz), pz);
    Target t{element_atomic_weight(tz), tz, 1.0};
    Material m(0, tz, r.loguni(1e-3, 20));
    wrong.clear();
    H.evaluations++;
    if (Config().z_effective != z_eff_type::atima14 || default_config.z_effective != z_eff_type::atima14) H.violation("default-model", fmt("%d %d", Config().z_effective, default_config.z_effective));
    if (default_model_seen_alone() != Config().z_effective) H.violation("default-model-depends-on-headers", fmt("%d with the configuration header alone, %d with the library header", default_model_seen_alone(), Config().z_effective));
    static const double joints[] = {30, 70, 1000, 1500, 2000};
    for (int i = 0; i < 14; i++) {
        double T = i < 5 ? dither(r, joints[i]) : i < 8 ? r.uni(25, 80) : i < 11 ? r.uni(900, 2200) : i < 13 ? r.loguni(20, 3000) : gen_energy(r);
        p.T = T;
        p.Q = r.chance(0.5) ? pz : r.irange(1, pz);
        for (int z = 6; z < 8; z++) {
            Config c; c.z_effective = z; c.corrections = r.irange(0, 15);
            auto where = [&] { return desc(p) + fmt(" tz=%d ", tz) + desc(c); };
            double want = model(z, pz, p.Q, T, tz);
            expect_close(fmt("model-%d", z), z_effective(p, t, c), want, 1e-8, 1e-8 * pz, where);
            expect_close(fmt("direct-%d", z), z == 6 ? z_eff_global(pz, T, tz) : z_eff_atima14(pz, T, tz), want, 1e-8, 1e-8 * pz, where);
            H.evaluations++;
            if (T > 31 && std::fabs(want) > 1e-3) {
                Config c0 = c; c0.z_effective = 0;
                Projectile q = p; q.Q = want;
                expect_close("stopping-uses-selection", dedx(p, m, c), dedx(q, m, c0), 1e-7, 0, where);
                c0.calculation = c.calculation = r.irange(0, 1);
                expect_close("straggling-uses-selection", domega2dx(p, m, c), domega2dx(q, m, c0), 1e-7, 0, where);
            }
            if (z == 7 && i < 5) { // no step at the joints of the second model, except where a light projectile meets none
                double a = z_eff_atima14(pz, joints[i] * (1 - 1e-9), tz), b = z_eff_atima14(pz, joints[i] * (1 + 1e-9), tz);
                if (!(std::fabs(a - b) < 1e-5 * pz)) H.violation("step", fmt("pz=%d tz=%d at %g: %.17g %.17g", pz, tz, joints[i], a, b));
                H.evaluations++;
            }
            H.count(T < 30 ? "below 30 MeV/u" : T < 70 ? "30 to 70" : T < 1000 ? "70 to 1000" : T < 1500 ? "1000 to 1500" : T < 2000 ? "1500 to 2000" : "above 2000");
        }
        H.nontrivial(hash_d(hash_mix(hash_mix(pz, tz), i), T));
    }
    // tables of the two models and of the others are kept apart
    if (k % 40 == 0) {
        p.T = r.loguni(40, 3000);
        std::vector<Config> cs;
        for (int z : {1, 4, 6, 7}) { Config c; c.z_effective = z; cs.push_back(c); }
        std::vector<double> cold;
        for (auto& c : cs) { _storage.Reset(); cold.push_back(range(p, m, c)); cold.push_back(domega2de(p, p.T, m, c)); }
        _storage.Reset();
        for (int n = 0; n < 12; n++) {
            int i = r.irange(0, 3);
            double a = range(p, m, cs[i]), b = domega2de(p, p.T, m, cs[i]);
            H.evaluations++;
            if (memcmp(&a, &cold[2 * i], 8) || memcmp(&b, &cold[2 * i + 1], 8)) H.violation("tables-mixed", desc(p) + " " + desc(m) + " " + desc(cs[i]) + fmt(" %.17g %.17g", a, cold[2 * i]));
        }
        // the range is the integral of the stopping power of the model
        Config c; c.z_effective = r.irange(6, 7);
        double lo = r.uni(35, 600), hi = lo * r.uni(1.05, 1.5);
        auto f = [&](double T) { return p.A / dedx(p(T), m, c); };
        double sum = 0;
        std::vector<double> cut = {lo};
        for (double j : joints) if (j > lo && j < hi) cut.push_back(j);
        cut.push_back(hi);
        for (size_t i = 0; i + 1 < cut.size(); i++) {
            const int N = 400;
            double h = (cut[i + 1] - cut[i]) / N, s = 0;
            for (int j = 0; j <= N; j++) s += (j == 0 || j == N ? 1 : j % 2 ? 4 : 2) * f(cut[i] + j * h * (1 - 1e-13));
            sum += s * h / 3;
        }
        expect_close("range-of-model", range(p(hi), m, c) - range(p(lo), m, c), sum, 5e-3, 1e-6 * range(p(hi), m, c), [&] { return desc(p) + " " + desc(m) + " " + desc(c) + fmt(" %g..%g", lo, hi); });
        H.count("ranges compared");
    }
    if (!wrong.empty()) H.violation("asked-outside-its-range", wrong);
    H.count("questions to the external library", asked);
    asked = 0;
    H.sample(fmt("{\"case\":%ld,\"in\":\"pz %d tz %d\",\"at 200\":[%.9g,%.9g]}", k, pz, tz, z_eff_global(pz, 200, tz), z_eff_atima14(pz, 200, tz)));
}
MON_MAIN(H.run(one))
