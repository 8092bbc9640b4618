// C26: the same queries under different configurations and default configurations
#include "query.h"
#include "catima/storage.h"
using namespace mon;
using namespace catima;
static bool eq(const Config& a, const Config& b) {
    return a.z_effective == b.z_effective && a.corrections == b.corrections && a.calculation == b.calculation && a.low_energy == b.low_energy && a.scattering == b.scattering && a.scattering_factor == b.scattering_factor;
}
static Config any_config(Rng& r) {
    Config c;
    c.z_effective = r.irange(0, 5); c.corrections = r.irange(0, 15); c.calculation = r.irange(0, 1); c.low_energy = r.irange(0, 1);
    c.scattering = r.pick(std::vector<int>{0, 1, 2, 255}); c.scattering_factor = r.uni(0.2, 3);
    return c;
}
static bool close(double a, double b, double tol) { return same_value(a, b) || std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
struct Named { const char* n; double v; int group; }; // 0 stopping, 1 straggling, 2 angular and lateral, 3 survival
static std::vector<Named> all_values(Projectile p, Material m, double T, double th, const Config& c) {
    std::vector<Named> v;
    p.T = T; m.thickness(th);
    auto x = calculate(p, m, c);
    v = {{"Ein", x.Ein, 0}, {"Eout", x.Eout, 0}, {"Eloss", x.Eloss, 0}, {"range", x.range, 0}, {"dEdxi", x.dEdxi, 0}, {"dEdxo", x.dEdxo, 0}, {"tof", x.tof, 0}, {"sigma_E", x.sigma_E, 1}, {"sigma_r", x.sigma_r, 1}, {"sigma_a", x.sigma_a, 2}, {"sigma_x", x.sigma_x, 2}, {"cov", x.cov, 2},
#ifdef REACTIONS
         {"sp", x.sp, 3},
#endif
        };
    auto add = [&](const char* n, double d, int g) { v.push_back({n, d, g}); };
    add("dedx()", dedx(p, m, c), 0); add("range()", range(p, m, c), 0); add("dedx_from_range()", dedx_from_range(p, m, c), 0); add("energy_out()", energy_out(p, m, c), 0);
    add("energy_out(list)", energy_out(p, std::vector<double>{0.8 * T}, m, c)[0], 0); add("dedx_from_range(list)", dedx_from_range(p, std::vector<double>{0.8 * T}, m, c)[0], 0);
    add("tof from E", calculate_tof_from_E(p, 0.5 * T, m, c), 0);
    auto w = w_magnification(p, T, m, c); add("w_magnification", w.first, 0); add("w_magnification 2", w.second, 0);
    add("domega2dx", domega2dx(p, m, c), 1); add("domega2de", domega2de(p, T, m, c), 1); add("range_straggling", range_straggling(p, T, m, c), 1); add("range_variance", range_variance(p, T, m, c), 1); add("energy straggling from E", energy_straggling_from_E(p, T, 0.5 * T, m, c), 1);
    add("da2dx", da2dx(p, m, c), 2); add("angular_variance", angular_variance(p, m, c), 2); add("angular_straggling", angular_straggling(p, m, c), 2); add("angular from E", angular_straggling_from_E(p, 0.5 * T, m, c), 2);
    Layers l; l.add(m); l.add(m);
    auto y = calculate(p, Phasespace(), l, c).total_result;
    add("stack Eout", y.Eout, 0); add("stack Eloss", y.Eloss, 0); add("stack tof", y.tof, 0); add("stack sigma_E", y.sigma_E, 1); add("stack sigma_a", y.sigma_a, 2); add("stack sigma_x", y.sigma_x, 2); add("stack cov", y.cov, 2);
#ifdef REACTIONS
    add("nonreaction_rate", nonreaction_rate(p, m, c), 3);
#endif
    return v;
}
static std::vector<Named> default_values(Projectile p, Material m, double T, double th) {
    std::vector<Named> v;
    p.T = T; m.thickness(th);
    auto x = calculate(p, m);
    v = {{"Ein", x.Ein, 0}, {"Eout", x.Eout, 0}, {"Eloss", x.Eloss, 0}, {"range", x.range, 0}, {"dEdxi", x.dEdxi, 0}, {"dEdxo", x.dEdxo, 0}, {"tof", x.tof, 0}, {"sigma_E", x.sigma_E, 1}, {"sigma_r", x.sigma_r, 1}, {"sigma_a", x.sigma_a, 2}, {"sigma_x", x.sigma_x, 2}, {"cov", x.cov, 2},
#ifdef REACTIONS
         {"sp", x.sp, 3},
#endif
        };
    auto add = [&](const char* n, double d, int g) { v.push_back({n, d, g}); };
    add("dedx()", dedx(p, m), 0); add("range()", range(p, m), 0); add("dedx_from_range()", dedx_from_range(p, m), 0); add("energy_out()", energy_out(p, m), 0);
    add("energy_out(list)", energy_out(p, std::vector<double>{0.8 * T}, m)[0], 0); add("dedx_from_range(list)", dedx_from_range(p, std::vector<double>{0.8 * T}, m)[0], 0);
    add("tof from E", calculate_tof_from_E(p, 0.5 * T, m), 0);
    auto w = w_magnification(p, T, m); add("w_magnification", w.first, 0); add("w_magnification 2", w.second, 0);
    add("domega2dx", domega2dx(p, m), 1); add("domega2de", domega2de(p, T, m), 1); add("range_straggling", range_straggling(p, T, m), 1); add("range_variance", range_variance(p, T, m), 1); add("energy straggling from E", energy_straggling_from_E(p, T, 0.5 * T, m), 1);
    add("da2dx", da2dx(p, m), 2); add("angular_variance", angular_variance(p, m), 2); add("angular_straggling", angular_straggling(p, m), 2); add("angular from E", angular_straggling_from_E(p, 0.5 * T, m), 2);
    Layers l; l.add(m); l.add(m);
    auto y = calculate(p, l).total_result;
    add("stack Eout", y.Eout, 0); add("stack Eloss", y.Eloss, 0); add("stack tof", y.tof, 0); add("stack sigma_E", y.sigma_E, 1); add("stack sigma_a", y.sigma_a, 2); add("stack sigma_x", y.sigma_x, 2); add("stack cov", y.cov, 2);
#ifdef REACTIONS
    add("nonreaction_rate", nonreaction_rate(p, m), 3);
#endif
    return v;
}
static const Config initial = default_config;
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r); Material m = gen_material(r);
    Config c = any_config(r), D = any_config(r);
    if (c.z_effective == 0 && p.Q < p.Z / 2) p.Q = p.Z;
    double T = r.chance(0.8) ? r.loguni(3, 3000) : r.loguni(0.02, 1e6);
    _storage.Reset(); default_config = initial;
    double R = range(p(T), m, c), th = R * (r.chance(0.2) ? r.loguni(1e-5, 1e-2) : r.uni(0.01, 1.1));
    std::string where = desc(p(T)) + " " + desc(m) + fmt(" th=%.17g ", th) + desc(c);
    auto base = all_values(p, m, T, th, c);
    H.nontrivial(hash_of(p, m, c));
    auto compare = [&](const char* what, const std::vector<Named>& o, int mask, double tol) {
        for (size_t i = 0; i < base.size(); i++) if (!(mask >> base[i].group & 1)) {
            H.evaluations++;
            if (!close(base[i].v, o[i].v, tol)) H.violation(std::string(what) + ":" + base[i].n, fmt("%.17g %.17g ", base[i].v, o[i].v) + where);
        }
    };
    auto unchanged = [&](const Config& d, const char* what) { H.evaluations++; if (!eq(default_config, d)) { H.violation(std::string("default changed:") + what, desc(default_config) + " was " + desc(d) + " " + where); default_config = d; } };
    unchanged(initial, "calls with configuration");
    // the default configuration has no influence on calls with an own one
    default_config = D; _storage.Reset();
    compare("default influences", all_values(p, m, T, th, c), 0, 0);
    unchanged(D, "calls with configuration");
    // calls without configuration are calls with the default one, whatever it is
    _storage.Reset();
    auto dv = default_values(p, m, T, th); unchanged(D, "calls without configuration");
    default_config = initial; _storage.Reset();
    auto ev = all_values(p, m, T, th, D);
    for (size_t i = 0; i < dv.size(); i++) { H.evaluations++; if (!same_value(dv[i].v, ev[i].v)) H.violation(std::string("default not used:") + dv[i].n, fmt("%.17g %.17g ", dv[i].v, ev[i].v) + where + " default " + desc(D)); }
    // scattering settings
    _storage.Reset(); Config s = c;
    s.scattering = r.pick(std::vector<int>{0, 1, 2, 255}); s.scattering_factor = r.uni(0.2, 3);
    auto sv = all_values(p, m, T, th, s);
    compare("scattering setting", sv, 1 << 2, 1e-12);
    if (s.scattering != c.scattering) H.count("scattering models changed");
    Config f = c; double q = r.loguni(0.1, 10); f.scattering_factor = c.scattering_factor * q;
    auto fv = all_values(p, m, T, th, f);
    for (size_t i = 0; i < base.size(); i++) if (base[i].group == 2) {
        std::string n = base[i].n;
        bool var = n == "cov" || n == "stack cov" || n == "da2dx" || n == "angular_variance";
        double want = base[i].v * (var ? q : std::sqrt(q));
        H.evaluations++;
        // the spread is the root of a small difference of large interpolated variances in thin layers
        double scale = n.find("sigma_a") != std::string::npos && c.scattering == 255 ? 3e-7 * std::sqrt(q * c.scattering_factor) : 0;
        if (!close(want, fv[i].v, 1e-5) && std::abs(want - fv[i].v) > scale) H.violation("scattering factor:" + n, fmt("factor %g gives %.17g instead of %.17g ", q, fv[i].v, want) + where);
    }
    // straggling option
    _storage.Reset(); Config g = c; g.calculation ^= 1;
    compare("straggling option", all_values(p, m, T, th, g), 1 << 1, 1e-12);
    // settings that influence stopping: path length and time by an own integration of the stopping power
    double Eout = base[1].v, lo = Eout;
    if (Eout > 0.3 && T - Eout > 0.02 * T && th > 2e-3) {
        const int N = 400; double a = std::log(lo), b = std::log(T), sx = 0, st = 0;
        for (int i = 0; i < N; i++) {
            double e = std::exp(a + (b - a) * (i + 0.5) / N), d = dedx(p(e), m, c), ga = 1 + e / 931.4940954, be = std::sqrt(1 - 1 / (ga * ga));
            double w = e * (b - a) / N * p.A / d;
            sx += w; st += w / (be * m.density() * 29.9792458);
        }
        double ex = std::abs(sx / th - 1), et = std::abs(st / base[6].v - 1);
        H.maximum("path error", ex, where); H.maximum("time error", et, where);
        H.evaluations += 2; H.count("paths integrated");
        if (!(ex < 0.02)) H.violation("stopping setting:energy loss", fmt("path %.9g layer %.9g ", sx, th) + where);
        if (!(et < 0.02)) H.violation("stopping setting:time of flight", fmt("%.9g, integrated %.9g ", base[6].v, st) + where);
    }
    double di = std::abs(base[4].v / dedx(p(T), m, c) - 1);
    if (T > 1) { H.evaluations++; H.maximum("dEdx error", di, where); if (!(di < 0.1)) H.violation("stopping setting:dEdx", fmt("%.9g %.9g ", base[4].v, dedx(p(T), m, c)) + where); }
    unchanged(initial, "all calls");
    if (k % 100 == 0) H.sample("{\"case\":\"" + jesc(where) + "\"," + fmt("\"Eout\":%.9g,\"sigma_a\":%.9g}", base[1].v, base[9].v));
}
MON_MAIN(H.run(one))
