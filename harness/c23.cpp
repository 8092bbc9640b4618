// C23: all reported quantities finite and not negative
#include "bridge.h"
#include "catima/reactions.h"
using namespace mon;
using namespace catima;

static void field(const char* n, double v, const std::function<std::string()>& w) {
    if (!std::isfinite(v)) H.violation(fmt("not-finite-%s", n), fmt("%s=%g ", n, v) + w());
    else if (v < 0) H.violation(fmt("negative-%s", n), fmt("%s=%.17g ", n, v) + w());
}
static void fields(const Result& x, const std::function<std::string()>& w) {
    field("Ein", x.Ein, w); field("Eout", x.Eout, w); field("Eloss", x.Eloss, w); field("range", x.range, w); field("dEdxi", x.dEdxi, w); field("dEdxo", x.dEdxo, w);
    field("sigma_E", x.sigma_E, w); field("sigma_a", x.sigma_a, w); field("sigma_r", x.sigma_r, w); field("sigma_x", x.sigma_x, w); field("cov", x.cov, w); field("tof", x.tof, w);
    if (!(std::isfinite(x.sp) && (x.sp == -1 || (x.sp >= 0 && x.sp <= 1)))) H.violation("survival", fmt("sp=%.17g ", x.sp) + w());
}
static double gen_thickness(Rng& r, double R) {
    switch (r.irange(0, 10)) {
    case 0: return 0;
    case 1: return r.loguni(1e-300, 1e-20);
    case 2: return r.loguni(1e-20, 1e-8);
    case 3: return R * r.loguni(1e-16, 1e-4);
    case 4: return R * r.loguni(1e-4, 1e-1);
    case 5: return R * r.uni(0.1, 1);
    case 6: return R * (1 - r.loguni(1e-15, 1e-2));
    case 7: { double t = R; int n = r.irange(-3, 3); for (int i = 0; i < std::abs(n); i++) t = std::nextafter(t, n < 0 ? 0 : 1e300); return t; }
    case 8: return std::max(0.0, R + r.uni(-3e-5, 3e-5));
    case 9: return R * (1 + r.loguni(1e-15, 10));
    default: return r.loguni(1, 1e12);
    }
}
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    Config c = gen_config(r);
    if (r.chance(0.5)) c.scattering = r.pick(std::vector<int>{0, 1, 2, 255});
    if (r.chance(0.1)) c.scattering_factor = 0;
    if (r.chance(0.3)) m.density(r.loguni(1e-9, 1e2));
    for (int i = 0; i < 25; i++) {
        double T = gen_energy(r);
        p.T = T;
        double R = range(p, m, c);
        Material l = m;
        l.thickness(gen_thickness(r, R));
        auto w = [&] { return desc(p) + " " + desc(l) + " " + desc(c) + fmt(" range=%.17g", R); };
        Result x = calculate(p, l, c);
        H.evaluations++;
        H.count(l.thickness() == 0 ? "zero thickness" : x.Eout < 1e-3 ? "stopped" : x.Eout == T ? "energy unchanged" : x.Eout > 0.999 * T ? "thin" : "thick");
        fields(x, w);
        field("range()", R, w);
        field("dedx", dedx(p, m, c), w);
        field("domega2dx", domega2dx(p, m, c), w);
        field("da2dx", da2dx(p, m, c), w);
        field("range_straggling", range_straggling(p, T, m, c), w);
        field("dedx_from_range", dedx_from_range(p, m, c), w);
        field("energy_out", energy_out(p, l, c), w);
        field("radiation_length", radiation_length(m), w);
        if (l.thickness() > 0) {
            for (int o = 0; o < 3; o++) field(fmt("angular_variance%d", o).c_str(), angular_variance(p, l, c, o), w);
            field("angular_straggling", angular_straggling(p, l, c), w);
        }
        double T2 = r.chance(0.2) ? T : r.chance(0.3) ? std::max(1e-3, T * (1 - r.loguni(1e-16, 1e-3))) : r.uni(1e-3, T);
        field("energy_straggling_from_E", energy_straggling_from_E(p, T, T2, m, c), w);
        field("angular_straggling_from_E", angular_straggling_from_E(p, T2, m, c), [&] { return w() + fmt(" Tout=%.17g", T2); });
        field("tof_from_E", calculate_tof_from_E(p, T2, m, c), w);
        auto wm = w_magnification(p, T, l, c);
        if (!std::isfinite(wm.first) || !std::isfinite(wm.second)) H.violation("not-finite-magnification", w());
        H.nontrivial(hash_of(p, l, c));
    }
    // stacks
    Layers ls;
    for (int i = 0, n = r.irange(1, 5); i < n; i++) {
        Material a = r.chance(0.7) ? m : gen_material(r);
        p.T = gen_energy(r, 1, 1e4);
        a.thickness(gen_thickness(r, r.loguni(1e-6, 10)));
        ls.add(a);
    }
    for (int i = 0; i < 4; i++) {
        p.T = gen_energy(r);
        Phasespace ps;
        if (r.chance(0.5)) { ps.sigma_x = r.loguni(1e-4, 1); ps.sigma_a = r.loguni(1e-5, 0.1); ps.cov_x = ps.sigma_x * ps.sigma_a * r.uni(0, 1); }
        auto w = [&] { std::string s = desc(p) + " " + desc(c); for (auto& a : ls.get_materials()) s += " " + desc(a); return s; };
        auto x = calculate(p, ps, ls, c);
        H.evaluations++;
        H.count("stacks");
        for (auto& y : x.results) fields(y, w);
        fields(x.total_result, w);
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %s\"}", k, desc(p).c_str(), desc(m).c_str()));
}
MON_MAIN(H.run(one))
