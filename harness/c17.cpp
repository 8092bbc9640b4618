// C17: batch forms, overloads and per-element forms against the general functions
#include "common.h"
#include "catima/reactions.h"
using namespace mon;
using namespace catima;
static std::string ctx;
static void eq(const char* what, double a, double b, double tol = 1e-11) {
    H.evaluations++;
    H.count(what);
    if (!same_value(a, b) && !(std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)))) H.violation(what, fmt("%s: %.17g against %.17g ", what, a, b) + ctx);
}
static void eqr(const char* what, const Result& a, const Result& b) {
    eq(what, a.Ein, b.Ein); eq(what, a.Eout, b.Eout); eq(what, a.Eloss, b.Eloss); eq(what, a.range, b.range); eq(what, a.dEdxi, b.dEdxi); eq(what, a.dEdxo, b.dEdxo);
    eq(what, a.sigma_E, b.sigma_E); eq(what, a.sigma_a, b.sigma_a); eq(what, a.sigma_r, b.sigma_r); eq(what, a.sigma_x, b.sigma_x); eq(what, a.cov, b.cov); eq(what, a.tof, b.tof); eq(what, a.sp, b.sp);
}
static void eqm(const char* what, const MultiResult& a, const MultiResult& b) {
    eq(what, a.results.size(), b.results.size());
    if (a.results.size() == b.results.size()) for (size_t i = 0; i < a.results.size(); i++) eqr(what, a.results[i], b.results[i]);
    eqr(what, a.total_result, b.total_result);
}
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r); Material m = gen_material(r); Config c = gen_config(r);
    double T = gen_energy(r);
    p.T = T;
    double R = range(p, m, c);
    m.thickness(R * r.pick(std::vector<double>{1e-4, 0.05, 0.4, 0.8, 0.98, 1.3}) * r.uni(0.8, 1));
    ctx = desc(p) + " " + desc(m) + " " + desc(c);
    const Projectile p0 = p; const Material m0 = m; const Config c0 = c;
    // batch forms
    std::vector<double> e;
    int n = r.pick(std::vector<int>{0, 1, 2, 3, 7, 20, 100, 700});
    for (int i = 0; i < n; i++) {
        double q = r.uni();
        if (q < 0.08) e.push_back(r.pick(std::vector<double>{0, -1, -0.0, 1e-4, 9.99999e-4, 1e-3, std::nextafter(1e-3, 0), std::nextafter(1e-3, 1), 5e-4, -100}));
        else if (q < 0.15 && i) e.push_back(e[r.irange(0, i - 1)]);
        else e.push_back(gen_energy(r));
    }
    int order = r.irange(0, 3);
    if (order == 0) std::sort(e.begin(), e.end());
    if (order == 1) std::sort(e.rbegin(), e.rend());
    const auto e0 = e;
    auto be = energy_out(p, e, m, c), bd = dedx_from_range(p, e, m, c);
    eq("batch length", be.size(), e.size()); eq("batch length", bd.size(), e.size());
    for (size_t i = 0; i < e.size() && be.size() == e.size() && bd.size() == e.size(); i++) {
        Projectile q = p; q.T = e[i];
        bool low = e[i] < 1e-3;
        eq(low ? "batch energy_out below lowest energy" : "batch energy_out", be[i], low ? 0.0 : energy_out(q, m, c));
        eq(low ? "batch dedx_from_range below lowest energy" : "batch dedx_from_range", bd[i], low ? 0.0 : dedx_from_range(q, m, c));
    }
    if (!(e == e0)) H.violation("argument modified", "energy list " + ctx);
    // overloads
    Projectile other = p; other.T = gen_energy(r);
    Result a = calculate(p, m, c);
    eqr("calculate with energy", calculate(other, m, T, c), a);
    Layers l; l.add(m); l.add(gen_material(r).thickness(R * r.uni(0.01, 0.5))); l.add(m);
    MultiResult ml = calculate(p, Phasespace(), l, c);
    eqm("stack without phase space", calculate(p, l, c), ml);
    eqm("stack with energy", calculate(other, T, l, c), ml);
    // composition of a result
    eq("range of result", a.range, range(p, m, c)); eq("dEdx of result", a.dEdxi, dedx_from_range(p, m, c)); eq("Eout of result", a.Eout, energy_out(p, m, c));
    eq("sigma_r of result", a.sigma_r, range_straggling(p, T, m, c)); eq("Eloss of result", a.Eloss, (T - a.Eout) * p.A);
    eq("variance against straggling", std::pow(range_straggling(p, T, m, c), 2), std::max(0.0, range_variance(p, T, m, c)));
    eq("sigma_x of result", a.sigma_x, std::sqrt(angular_variance(p, m, c, 2))); eq("covariance of result", a.cov, angular_variance(p, m, c, 1));
    eq("angular straggling", angular_straggling(p, m, c), std::sqrt(angular_variance(p, m, c, 0)));
    if (a.Eout >= 1e-3) {
        if (c.scattering != 255) eq("sigma_a of result", a.sigma_a, angular_straggling(p, m, c));
        eq("tof of result", a.tof, calculate_tof_from_E(p, a.Eout, m, c));
        Projectile q = p; q.T = a.Eout; eq("dEdxo of result", a.dEdxo, dedx_from_range(q, m, c));
        double vi = range_variance(p, T, m, c), vo = range_variance(p, a.Eout, m, c);
        double s = energy_straggling_from_E(p, T, a.Eout, m, c);
        eq("energy straggling from energies", s, a.dEdxo * std::sqrt(std::max(0.0, vi - vo)) / p.A, 1e-7 + 1e-15 * vi / std::max(1e-300, std::abs(vi - vo)));
    } else { eq("stopped", a.sigma_E, 0); eq("stopped", a.tof, 0); eq("stopped", a.sigma_a, 0); }
    { Projectile q = p; eq("survival of result", a.sp, nonreaction_rate(q, m, c)); if (!(q == p) || q.T != p.T) H.violation("argument modified", "projectile by nonreaction_rate " + ctx); }
    { double Tout = T * r.uni(0.05, 1); Projectile q = p; q.T = Tout; Material t = m; t.thickness(range(p, m, c) - range(q, m, c)); eq("angular straggling from energies", angular_straggling_from_E(p, Tout, m, c), angular_straggling(p, t, c), 1e-9); }
    { Projectile q = other; q.T = T; eq("straggling ignores projectile energy", range_straggling(other, T, m, c), range_straggling(q, T, m, c)); eq("variance ignores projectile energy", range_variance(other, T, m, c), range_variance(q, T, m, c)); eq("domega2de ignores projectile energy", domega2de(other, T, m, c), domega2de(q, T, m, c)); }
    { auto& data = _storage.Get(p, m, c); Interpolator s(energy_table, data.range); eq("energy_out with given interpolation", energy_out(T, m.thickness(), s), a.Eout); }
    { auto& data = _storage.Get(p, m, c); Interpolator s(energy_table, data.angular_variance); eq("da2de of interpolation", da2de(p, T, m, c), s.derivative(T)); Projectile q = other; q.T = 1; eq("da2de ignores projectile energy", da2de(q, T, m, c), da2de(p, T, m, c));
      double want = p.A * da2dx(p, m, c) / dedx(p, m, c), dev = std::abs(da2de(p, T, m, c) / want - 1); if (T > 1 && T < 5e6) { H.evaluations++; H.maximum("da2de against da2dx", dev, ctx); if (!(dev < 0.1)) H.violation("da2de against da2dx", fmt("%.9g %.9g ", da2de(p, T, m, c), want) + ctx); } }
    { double pa = std::max(1.0, std::round(p.A)), th = m.thickness(), rho = r.loguni(1e-3, 20); int pz = (int)p.Z, tz = r.irange(1, 98); double ta = r.chance(0.5) ? 0 : std::round(element_atomic_weight(tz));
      Projectile q(pa, pz); q.T = T; Material t(ta, tz, rho, th); eqr("calculate from numbers", calculate(pa, pz, T, ta, tz, th, rho), calculate(q, t)); }
    { auto w = w_magnification(p, T, m, c); Projectile q = p; q.T = 0.99 * T; double lo = energy_out(q, m, c); q.T = 1.01 * T; double hi = energy_out(q, m, c), mid = a.Eout;
      if (0.99 * T >= 1e-3) {
        if (lo > 0 && hi > 0 && mid > 0) { auto P = [&](double t) { return p.A * std::sqrt(t * (t + 2 * 931.4940954)); };
          // difference quotients of energies found to 1e-5 g/cm2
          double tol = 1e-9 + 1e-13 * T / std::max(1e-300, std::abs(hi - lo)) ;
          eq("energy magnification", w.first, T * (hi - lo) / (mid * 0.02 * T), tol); eq("momentum magnification", w.second, P(T) * (P(hi) - P(lo)) / (P(mid) * (P(1.01 * T) - P(0.99 * T))), 100 * tol); }
        else { eq("magnification of stopped", w.first, 0); eq("magnification of stopped", w.second, 0); } }
      Material t = m; t.thickness(0); auto u = w_magnification(p, T, t, c); eq("magnification of nothing", u.first, 1); eq("magnification of nothing", u.second, 1); }
    // per-element forms
    { double sn = 0, so = 0, sb = 0, sx = 0, ss = 0; 
      for (int i = 0; i < m.ncomponents(); i++) { auto t = m.get_element(i); double w = m.weight_fraction(i); sn += w * dedx_n(p, t); so += w * dedx_variance(p, t, c); sb += w * bethek_dedx_e(p, t, c, m.I()); sx += w / radiation_length(t.Z, t.A); Material el(t.A, t.Z); ss += w / scattering_length(el);
          eq("element radiation length", radiation_length(el), radiation_length(t.Z, t.A)); eq("element nuclear stopping", dedx_n(p, el), dedx_n(p, t)); eq("element scattering power", angular_scattering_power(p, el, 200), angular_scattering_power(p, t, 200)); eq("element Bethe stopping", bethek_dedx_e(p, el, c), bethek_dedx_e(p, t, c)); }
      eq("nuclear stopping of material", dedx_n(p, m), sn); eq("straggling of material", domega2dx(p, m, c), so); if (m.I() == 0) eq("Bethe stopping of material", bethek_dedx_e(p, m, c), sb);
      eq("radiation length of material", radiation_length(m), 1 / sx); eq("scattering length of material", scattering_length(m), 1 / ss); }
    { int id = r.irange(201, 349); Material x = get_material(id), y = get_compound((catima::material)id); eq("compound", x == y, 1); eq("compound density", x.density(), y.density()); }
    if (!(p == p0) || p.T != p0.T || !(m == m0) || m.thickness() != m0.thickness() || !(c == c0)) H.violation("argument modified", ctx);
    H.nontrivial(hash_d(hash_d(hash_of(p, m, c), T), m.thickness()));
    if (k % 100 == 0) H.sample(fmt("{\"case\":%ld,\"list length\":%d,\"of\":\"%s\"}", k, n, jesc(ctx).c_str()));
}
MON_MAIN(H.run(one))
