// C03: hostile argument values of every public function; the sanitizers, the CPU limit and the process itself are the oracle
#include "common.h"
#include "catima/reactions.h"
#include "catima/cwrapper.h"
#include "catima/srim.h"
#include "catima/abundance_database.h"
#include "catima/integrator.h"
#include "catima/convert.h"
#include "catima/data_ionisation_potential.h"
#include <climits>
#include <limits>
using namespace mon;
using namespace catima;
static volatile double sink;
static volatile char csink;
static double hd(Rng& r) {
    static const std::vector<double> v = {0, -0.0, -1, 1e-320, 4.9e-324, 1e-300, 1e-3, 0.999e-3, 9.9999999e6, 1e7, 1.0000001e7, 1e8, 1e15, 1e300, std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), INFINITY, -INFINITY, NAN, 2147483647.0, 2147483648.0, -2147483649.0, 9.3e18, -1e-9, 0.5, 1, 30, 50000, 65536, 92, 93, 98, 99, 108, 109, 110, 120, 121, 200, 201, 349, 350};
    double q = r.uni();
    if (q < 0.7) return r.pick(v);
    if (q < 0.8) { uint64_t u = r.u64(); double d; memcpy(&d, &u, 8); return d; }
    return r.loguni(1e-6, 1e6) * (r.chance(0.2) ? -1 : 1);
}
static int hi(Rng& r) {
    static const std::vector<int> v = {INT_MIN, INT_MIN + 1, -1000, -2, -1, 0, 1, 2, 6, 82, 91, 92, 93, 97, 98, 99, 100, 107, 108, 109, 110, 111, 112, 119, 120, 121, 130, 150, 199, 200, 201, 202, 346, 347, 348, 349, 350, 351, 1000, 46341, 65536, 1 << 30, INT_MAX - 1, INT_MAX};
    return r.chance(0.8) ? r.pick(v) : r.chance(0.5) ? (int)r.u64() : r.irange(-5, 400);
}
static double some(Rng& r, double normal, double p) { return r.chance(p) ? hd(r) : normal; }
static Projectile hp(Rng& r) {
    Projectile p = gen_projectile(r);
    double f = r.chance(0.3) ? 0 : 0.25;
    p.A = some(r, p.A, f); p.Z = some(r, p.Z, f); p.Q = some(r, p.Q, f); p.T = some(r, gen_energy(r), r.chance(0.3) ? 0 : 0.5);
    return p;
}
static Material hm(Rng& r) {
    Material m;
    switch (r.irange(0, 5)) {
    case 0: m = gen_material(r); break;
    case 1: m = get_material(hi(r)); break;
    case 2: m = Material(hd(r), hi(r), hd(r), hd(r), hd(r)); break;
    case 3: { int n = r.irange(0, 4); for (int i = 0; i < n; i++) m.add_element(some(r, 12, 0.5), r.chance(0.5) ? hi(r) : r.irange(1, 99), some(r, 1, 0.5)); if (r.chance(0.5)) m.calculate(); break; }
    case 4: m = Material({{some(r, 12, 0.5), some(r, 6, 0.5), some(r, 1, 0.5)}, {some(r, 1, 0.5), some(r, 1, 0.5), some(r, 0.5, 0.5)}}, hd(r), hd(r), hd(r)); break;
    default: m = gen_material(r); m.add_element(hd(r), hi(r), hd(r)); break;
    }
    m.thickness(some(r, r.loguni(1e-5, 10), 0.5));
    if (r.chance(0.4)) m.density(hd(r));
    if (r.chance(0.2)) m.I(hd(r));
    if (r.chance(0.2)) m.M(hd(r));
    if (r.chance(0.2)) m.thickness_cm(hd(r));
    return m;
}
static Config hc(Rng& r) {
    Config c = gen_config(r);
    if (r.chance(0.4)) c.z_effective = r.irange(0, 255);
    if (r.chance(0.3)) c.corrections = r.irange(0, 255);
    if (r.chance(0.3)) c.calculation = r.irange(0, 255);
    if (r.chance(0.3)) c.low_energy = r.irange(0, 255);
    if (r.chance(0.3)) c.scattering = r.irange(0, 255);
    if (r.chance(0.3)) c.scattering_factor = hd(r);
    return c;
}
static std::string last;
static void say(const std::string& s) { // what is about to be called goes to stderr, so that it stands before a sanitizer report
    last = s;
    fprintf(stderr, "%s\n", s.c_str());
}
static void take(double v) { sink = v; H.count(std::isnan(v) ? "nan returned" : std::isinf(v) ? "infinity returned" : "finite returned"); }
static void take(const Result& x) { for (double d : {x.Ein, x.Eout, x.Eloss, x.range, x.dEdxi, x.dEdxo, x.sigma_E, x.sigma_a, x.sigma_r, x.sigma_x, x.cov, x.tof, x.sp}) take(d); }
static void take(const std::vector<double>& v) { for (double d : v) take(d); }

static void cheap(Rng& r) {
    Projectile p = hp(r); Material m = hm(r); Config c = hc(r);
    Target t{some(r, 12, 0.4), hi(r), some(r, 1, 0.3)};
    std::string d = desc(p) + " " + desc(m) + " " + desc(c) + fmt(" t(%g,%d)", t.A, t.Z);
    int k = r.irange(0, 41);
    double a = hd(r), b = hd(r), e = hd(r); int i = hi(r), j = hi(r);
    say(fmt("cheap %d %.17g %.17g %.17g %d %d ", k, a, b, e, i, j) + d);
    H.count(fmt("function group %02d", k));
    switch (k) {
    case 0: take(dedx(p, m, c)); break;
    case 1: take(domega2dx(p, m, c)); break;
    case 2: take(da2dx(p, m, c)); break;
    case 3: take(dedx_n(p, t)); take(dedx_n(p, m)); break;
    case 4: take(dedx_variance(p, t, c)); break;
    case 5: take(reduced_energy_loss_unit(p, t)); break;
    case 6: take(bethek_dedx_e(p, t, c, a)); take(bethek_dedx_e(p, m, c)); break;
    case 7: take(bethek_barkas(a, b, e)); break;
    case 8: take(bethek_density_effect(a, i)); take(bethek_density_effect(r.uni(), j)); break;
    case 9: take(pair_production(p, t)); take(bremsstrahlung(p, t)); break;
    case 10: take(precalculated_lindhard(p)); break;
    case 11: take(precalculated_lindhard_X(p)); break;
    case 12: take(energy_straggling_firsov(a, b, e, hd(r))); break;
    case 13: take(sezi_dedx_e(p, m, c)); break;
    case 14: take(angular_scattering_power(p, t, a)); take(angular_scattering_power(p, m, a)); break;
    case 15: take(angular_scattering_power_xs(p, m, a, b, e)); break;
    case 16: take(radiation_length(i, a)); take(radiation_length(m)); break;
    case 17: take(scattering_length(m)); break;
    case 18: take(z_effective(p, t, c)); break;
    case 19: take(z_eff_Pierce_Blann(a, b)); take(z_eff_Anthony_Landford(a, b, e)); break;
    case 20: take(z_eff_Hubert(a, b, e)); take(z_eff_Winger(a, b, e)); break;
    case 21: take(z_eff_global(a, b, e)); take(z_eff_Schiwietz(a, b, e)); take(z_eff_atima14(a, b, e)); break;
    case 22: take(gamma_from_T(a)); take(beta_from_T(a)); take(p_from_T(a, b)); break;
    case 23: { auto z = lngamma({a, b}); take(z.real()); take(z.imag()); break; }
    case 24: take(power(a, b)); take(ipow(a, i)); break;
    case 25: take(element_atomic_weight(i)); take(element_density(i)); take(ipot(i)); break;
    case 26: take(abundance::get_isotopes_num(i)); take(abundance::get_isotope_a(i, j)); take(abundance::get_abundance(i, j)); { auto x = abundance::get_isotope(i, j); take(x.first); take(x.second); } take(abundance::get_isotope_a(r.irange(1, 109), j)); take(abundance::get_abundance(r.irange(1, 109), j)); break;
    case 27: take(srim_dedx_e(i, j, a, r.chance(0.5))); take(srim_dedx_e(r.irange(1, 100), j, a, r.chance(0.5))); take(srim_dedx_e(i, r.irange(1, 100), a, r.chance(0.5))); break;
    case 28: take(p_se(i, a)); break;
    case 29: { auto x = get_material(i); take(x.density()); auto y = get_compound((material)r.irange(201, 349)); take(y.M()); break; }
    case 30: take(m.number_density()); take(m.number_density(i)); take(m.number_density_cm2()); take(m.number_density_cm2(i)); take(m.thickness_cm()); break;
    case 31: take(reaction_rate(a, b)); take(nonreaction_rate(a, b)); take(production_rate(a, b, e, m, c)); break;
    case 32: take(SigmaR_Kox(i, j, a, hi(r), hi(r))); break;
    case 33: take(energy_table.index(a)); if (std::abs(a) < 1e100 && std::abs(b) < 1e100 && a < b) take(LinearVArray<600>(a, b).index(e)); take(LogVArray<600>(r.uni(-3, 0), r.uni(1, 7)).index(e)); break;
    case 34: { double y[600]; for (int q = 0; q < 600; q++) y[q] = r.chance(0.01) ? hd(r) : q; take(EnergyTable_interpolate(energy_table, a, y)); break; }
    case 35: { std::vector<double> y(600); for (auto& q : y) q = r.chance(0.01) ? hd(r) : r.uni(); Interpolator s(energy_table, y); take(s(a)); take(s.derivative(b)); take(energy_out(a, b, s)); take(energy_out(gen_energy(r), e, s)); break; }
    case 36: { Layers l; int n = r.irange(0, 5); for (int q = 0; q < n; q++) l.add(hm(r)); l.add(l); Layers s = l + l + m; take(s.thickness()); take(s.thickness_cm()); take(s.num()); break; }
    case 37: { Material x = hm(r), y = x; csink = (m == x) + (x == y) + (p == hp(r)) + (c == hc(r)); break; }
    case 38: take(calculate_tof_from_E(p, a, m, c)); break;
    case 39: { auto f = [&](double x) { return x > e ? 1.0 : 0.5; }; take(integrator.integrate(f, a, b)); take(integrator_adaptive.integrate(f, a, b, 1e-3, 1e-3)); break; }
    case 40: take(materialdb_id(m)); break;
    default: take(atomic_weight(i)); break;
    }
}
// tables handed over or, where the library allows it, copied must not depend on the object they came from
template <class D> static void keep_tables(D& stored, double T) {
    D kept;
    if constexpr (std::is_copy_assignable_v<D>) kept = stored;
    else kept = std::move(stored);
    _storage.Reset();
    D moved = std::move(kept);
    take(get_range_spline(moved)(T)); take(get_range_straggling_spline(moved)(T)); take(get_angular_variance_spline(moved)(T));
}
static void cached(Rng& r) {
    Projectile p = hp(r); Material m = hm(r); Config c = hc(r);
    double a = hd(r), b = hd(r); int i = hi(r);
    int k = r.irange(0, 16);
    say(fmt("cached %d %.17g %.17g %d ", k, a, b, i) + desc(p) + " " + desc(m) + " " + desc(c));
    H.count(fmt("cached function group %02d", k));
    switch (k) {
    case 0: case 1: take(calculate(p, m, c)); break;
    case 2: take(range(p, m, c)); take(dedx_from_range(p, m, c)); break;
    case 3: take(energy_out(p, m, c)); take(energy_out(p, std::vector<double>{a, b, 100, hd(r), hd(r)}, m, c)); break;
    case 4: take(dedx_from_range(p, std::vector<double>{a, b, 1e-3, hd(r)}, m, c)); take(dedx_from_range(p, std::vector<double>{}, m, c)); break;
    case 5: take(range_straggling(p, a, m, c)); take(range_variance(p, b, m, c)); take(domega2de(p, a, m, c)); break;
    case 6: for (int o : {0, 1, 2, 3, -1}) take(angular_variance(p, m, c, o)); take(angular_variance(p, m, c, r.chance(0.5) ? 7 : i)); break;
    case 7: take(angular_straggling(p, m, c)); take(angular_straggling_from_E(p, a, m, c)); break;
    case 8: take(energy_straggling_from_E(p, a, b, m, c)); break;
    case 9: { auto w = w_magnification(p, a, m, c); take(w.first); take(w.second); break; }
    case 10: take(nonreaction_rate(p, m, c)); break;
    case 11: { Layers l; int n = r.irange(0, 3); for (int q = 0; q < n; q++) l.add(r.chance(0.5) ? hm(r) : m); auto x = calculate(p, {hd(r), hd(r), hd(r)}, l, c); take(x.total_result); for (auto& y : x.results) take(y); break; }
    case 12: take(calculate(hd(r), hi(r), a, hd(r), b, hd(r), hd(r))); break;
    case 13: { catima_defaults.z_effective = r.irange(-128, 127); double pa = some(r, 12, 0.5), T = some(r, 100, 0.5), ta = some(r, 12, 0.5), tz = r.chance(0.5) ? hd(r) : i; int pz = r.chance(0.5) ? 6 : hi(r);
        say(last + fmt(" C %.17g %d %.17g %.17g %.17g", pa, pz, T, ta, tz));
        auto x = catima_calculate(pa, pz, T, ta, tz, a, b); for (double d : {x.Ein, x.Eout, x.Eloss, x.range, x.dEdxi, x.dEdxo, x.sigma_E, x.sigma_a, x.sigma_r, x.tof}) take(d);
        take(catima_Eout(pa, pz, T, ta, tz, a, b)); take(catima_range(pa, pz, T, ta, tz)); take(catima_range_straggling(pa, pz, T, ta, tz)); take(catima_angular_straggling_from_E(pa, pz, T, a, ta, tz)); take(catima_energy_straggling_from_E(pa, pz, T, a, ta, tz)); take(catima_nonreaction_rate(pa, pz, T, ta, tz, a)); break; }
    case 14: take(calculate_tof(p, m, c)); break;
    case 15: { auto d = calculate_DataPoint(p, m, c); take(d.range[599]); take(d.range_straggling[599]); take(d.angular_variance[599]); keep_tables(_storage.Get(p, m, c), a); break; }
    default: _storage.Reset(); take(_storage.GetN()); { auto& d = get_data(p, m, c); take(d.range[17]); _storage.Add(p, m, c); take(_storage.Get((unsigned)0).range.size()); take(_storage.get_index()); } break;
    }
    if (r.chance(0.01)) {
        std::string f = H.scratch + fmt("/c03-%d.in", getpid());
        Layers l; l.add(m); l.add(hm(r));
        say(last + " export");
        csink = save_mocadi(f.c_str(), p, l, {hd(r), hd(r), hd(r)}, {hd(r), hd(r), hd(r)});
        unlink(f.c_str());
        csink = save_mocadi("/nonexistent-directory/x", p, l);
        H.count("export");
    }
}
static void direct(Rng& r) { // direct partial-wave sums are slow
    Projectile p = hp(r);
    if (r.chance(0.5)) p.T = r.loguni(1e-3, 1e12);
    say("direct " + desc(p));
    take(bethek_lindhard(p));
    if (r.chance(0.5)) take(bethek_lindhard_X(p));
    std::complex<double> a(hd(r), hd(r)), b(hd(r), hd(r)), z(hd(r), hd(r));
    say(fmt("hyperg %g %g %g %g %g %g", a.real(), a.imag(), b.real(), b.imag(), z.real(), z.imag()));
    take(std::abs(hyperg(a, b, z)));
    H.count("direct Lindhard-Sorensen");
}
static void one(long k, Rng& r) {
    int n = H.opt.count("--light") ? 20 : 150;
    for (int i = 0; i < n; i++) { cheap(r); H.evaluations++; H.nontrivial(std::hash<std::string>()(last)); }
    if (!H.opt.count("--light") || k % 4 == 0) for (int i = 0; i < (n > 20 ? 6 : 1); i++) { cached(r); H.evaluations++; H.nontrivial(std::hash<std::string>()(last)); }
    if (k % 8 == 3 && n > 20) { direct(r); H.evaluations++; H.nontrivial(std::hash<std::string>()(last)); }
    H.sample(fmt("{\"case\":%ld,\"last\":\"%s\"}", k, jesc(last).c_str()));
}
MON_MAIN(H.run(one))
