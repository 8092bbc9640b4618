// C16: the C interface against the C++ calls with the same meaning, in arbitrary sequences
#include "common.h"
#include "catima/reactions.h"
#include "catima/cwrapper.h"
using namespace mon;
using namespace catima;
static const int initial_model = catima_defaults.z_effective;
static void one(long k, Rng& r) {
    if (initial_model != Config().z_effective) H.violation("initial-defaults", fmt("the C interface starts with model %d", initial_model));
    default_config = Config();
    if (r.chance(0.3)) { default_config.corrections = r.irange(0, 15); default_config.calculation = r.irange(0, 1); default_config.low_energy = r.irange(0, 1); default_config.scattering_factor = r.uni(0.5, 2); }
    struct Combo { double pa; int pz; double ta, tz; };
    std::vector<Combo> pool;
    for (int i = 0; i < 3; i++) {
        Projectile p = gen_projectile(r);
        Combo c{p.A, (int)p.Z, 0, 0};
        if (r.chance(0.6)) { int z = r.irange(1, 98); c.tz = z; c.ta = r.chance(0.5) ? 0 : r.chance(0.5) ? element_atomic_weight(z) : std::round(element_atomic_weight(z) * r.uni(0.95, 1.1)); }
        else c.tz = r.irange(201, 349);
        pool.push_back(c);
    }
    std::string hist;
    int n = 30;
    for (int i = 0; i < n; i++) {
        if (r.chance(0.2)) { catima_defaults.z_effective = r.irange(0, 5); hist += fmt("zeff=%d;", catima_defaults.z_effective); }
        if (r.chance(0.1)) { default_config.scattering = r.pick(std::vector<int>{0, 1, 2, 255}); default_config.z_effective = r.irange(0, 5); hist += "default changed;"; }
        const Combo& c = r.pick(pool);
        double T = gen_energy(r), T2 = gen_energy(r, 1e-3, T), rho = r.chance(0.3) ? (r.chance(0.5) ? 0 : -1) : r.loguni(1e-3, 20);
        Config q = default_config; q.z_effective = catima_defaults.z_effective; q.scattering = 255;
        auto mat = [&](double th, double d) {
            Material m = c.tz > 200 ? get_material((int)c.tz) : Material(c.ta, (int)c.tz);
            double dd = d > 0 ? d : get_material((int)c.tz).density();
            return m.density(dd).thickness(th);
        };
        Projectile p(c.pa, c.pz); p.T = T;
        std::vector<double> got, want; std::string call;
        int f = r.irange(0, 7);
        double R = range(p, mat(0, -1), q), th = R * r.pick(std::vector<double>{1e-4, 0.1, 0.5, 0.9, 1.2}) * r.uni(0.5, 1);
        // the configuration as left behind by earlier C calls must not matter
        switch (f) {
        case 0: case 1: { call = "calculate"; auto x = catima_calculate(c.pa, c.pz, T, c.ta, c.tz, th, rho); got = {x.Ein, x.Eout, x.Eloss, x.range, x.dEdxi, x.dEdxo, x.sigma_E, x.sigma_a, x.sigma_r, x.tof};
            auto y = calculate(p, mat(th, rho), q); want = {y.Ein, y.Eout, y.Eloss, y.range, y.dEdxi, y.dEdxo, y.sigma_E, y.sigma_a, y.sigma_r, y.tof}; break; }
        case 2: call = "Eout"; got = {catima_Eout(c.pa, c.pz, T, c.ta, c.tz, th, rho)}; want = {energy_out(p, mat(th, rho), q)}; break;
        case 3: call = "range"; got = {catima_range(c.pa, c.pz, T, c.ta, c.tz)}; want = {range(p, mat(0, -1), q)}; break;
        case 4: call = "range_straggling"; got = {catima_range_straggling(c.pa, c.pz, T, c.ta, c.tz)}; want = {range_straggling(p, T, mat(0, -1), q)}; break;
        case 5: call = "angular_straggling_from_E"; got = {catima_angular_straggling_from_E(c.pa, c.pz, T, T2, c.ta, c.tz)}; want = {angular_straggling_from_E(p, T2, mat(0, -1), q)}; break;
        case 6: call = "energy_straggling_from_E"; got = {catima_energy_straggling_from_E(c.pa, c.pz, T, T2, c.ta, c.tz)}; want = {energy_straggling_from_E(p, T, T2, mat(0, -1), q)}; break;
        default: call = "nonreaction_rate"; got = {catima_nonreaction_rate(c.pa, c.pz, T, c.ta, c.tz, th)}; { Projectile pp = p; want = {nonreaction_rate(pp, mat(th, -1), q)}; } break;
        }
        hist += call + ";";
        if (hist.size() > 600) hist = "..." + hist.substr(hist.size() - 500);
        H.evaluations += got.size();
        H.count("C " + call);
        for (size_t j = 0; j < got.size(); j++) if (!same_value(got[j], want[j]) && !(reldiff(got[j], want[j]) < 1e-12))
            H.violation("c-interface:" + call + fmt(":%zu", j), fmt("value %zu of %s(%g,%d,%.17g,T2=%.17g,%g,%g,th=%.17g,rho=%g) zeff=%d: C %.17g, C++ %.17g; history ", j, call.c_str(), c.pa, c.pz, T, T2, c.ta, c.tz, th, rho, catima_defaults.z_effective, got[j], want[j]) + hist);
        H.nontrivial(hash_d(hash_d(hash_d(f, c.pa * 1000 + c.pz), c.tz), T));
    }
    H.evaluations++;
    int z = r.irange(-10, 150);
    if (!same_value(atomic_weight(z), element_atomic_weight(z))) H.violation("c-interface:atomic_weight", fmt("%d", z));
    if (k % 10 == 0) H.sample(fmt("{\"case\":%ld,\"history\":\"%s\"}", k, hist.substr(0, 300).c_str()));
    catima_defaults.z_effective = 1;
}
MON_MAIN(H.run(one))
