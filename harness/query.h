// Queries of the public interface with a flat list of returned numbers, and slight variations of them.
#pragma once
#include "common.h"
#include "catima/reactions.h"
#include "catima/cwrapper.h"
namespace mon {
struct Query {
    Projectile p; Material m; Config c; double T = 0, th = 0, e2 = 0; int kind = 0; int cz = 1;
    std::vector<Material> stack; catima::Phasespace ps;
};
enum { QKINDS = 18 };
inline const char* kind_name(int k) {
    static const char* n[] = {"calculate", "range", "energy_out", "energy_out list", "dedx_from_range", "range straggling", "domega2de", "angular_variance", "angular from E", "energy straggling from E", "tof from E", "tables", "w_magnification", "nonreaction", "stack", "differential", "C interface", "calculate_DataPoint"};
    return n[k];
}
// thickness and second energy come from own rough estimates, never from the library's cached data
inline Query gen_query(Rng& r) {
    Query q;
    q.p = gen_projectile(r); q.m = gen_material(r); q.c = gen_config(r);
    q.kind = r.irange(0, QKINDS - 1);
    if (r.chance(0.3)) q.kind = 0;
    q.T = r.chance(0.6) ? r.loguni(5, 2000) : gen_energy(r, 1e-3, 1e6);
    double R = 1e-3 + 5e-3 * std::pow(q.T, 1.7) * q.p.A / (q.p.Z * q.p.Z) / (1 + q.T / 300); // about g/cm2
    q.th = R * (r.chance(0.2) ? r.loguni(1e-4, 10) : r.uni(0.01, 1.3));
    q.e2 = q.T * r.uni(0.05, 0.99);
    q.cz = r.irange(0, 5);
    if (q.kind == 14) {
        int n = r.irange(1, 4);
        for (int i = 0; i < n; i++) { Material l = r.chance(0.5) ? q.m : gen_material(r); l.thickness(q.th / n * r.uni(0.2, 1)); q.stack.push_back(l); }
        if (r.chance(0.5)) q.ps = {r.uni(0, 1), r.uni(0, 0.01), 0};
    }
    return q;
}
// change one field, often only slightly
inline std::string mutate(Query& q, Rng& r) {
    auto tiny = [&](double v) { switch (r.irange(0, 3)) { case 0: return std::nextafter(v, 1e300); case 1: return v * (1 + 1e-9); case 2: return v * 1.0001; default: return v * 1.01; } };
    switch (r.irange(0, 16)) {
    case 0: q.p.A = tiny(q.p.A); return "mass";
    case 1: q.p.Z = q.p.Z > 1 ? q.p.Z - 1 : 2; q.p.Q = std::min(q.p.Q, q.p.Z); return "charge";
    case 2: q.p.Q = q.p.Q > 1 ? q.p.Q - 1 : q.p.Z; return "charge state";
    case 3: q.m.density(q.m.density() * r.pick(std::vector<double>{1 + 1e-9, 1.001, 1.5})); return "density";
    case 4: q.m.I(q.m.I() > 0 ? tiny(q.m.I()) : 80); return "ionisation potential";
    case 5: q.m.M(tiny(q.m.M())); return "molar mass";
    case 6: { // rebuild with one count changed or the order of elements reversed
        Material n; bool rev = r.chance(0.4); int w = r.irange(0, q.m.ncomponents() - 1);
        for (int j = 0; j < q.m.ncomponents(); j++) { int i = rev ? q.m.ncomponents() - 1 - j : j; auto t = q.m.get_element(i); n.add_element(t.A, t.Z, t.stn + (!rev && i == w ? (t.stn < 1 ? 1e-6 : 1) : 0)); }
        n.M(q.m.M()); n.density(q.m.density()); n.I(q.m.I()); q.m = n; return "composition"; }
    case 7: { Material n; int w = r.irange(0, q.m.ncomponents() - 1);
        for (int i = 0; i < q.m.ncomponents(); i++) { auto t = q.m.get_element(i); n.add_element(i == w ? tiny(t.A) : t.A, t.Z, t.stn); }
        n.M(q.m.M()); n.density(q.m.density()); n.I(q.m.I()); q.m = n; return "target mass"; }
    case 8: { Material n; int w = r.irange(0, q.m.ncomponents() - 1);
        for (int i = 0; i < q.m.ncomponents(); i++) { auto t = q.m.get_element(i); n.add_element(t.A, i == w ? (t.Z > 1 ? t.Z - 1 : 2) : t.Z, t.stn); }
        n.M(q.m.M()); n.density(q.m.density()); n.I(q.m.I()); q.m = n; return "target charge"; }
    case 9: q.c.z_effective = (q.c.z_effective + 1) % 6; return "charge model";
    case 10: q.c.corrections ^= 1 << r.irange(0, 3); return "corrections";
    case 11: q.c.calculation ^= 1; return "straggling option";
    case 12: q.c.low_energy ^= 1; return "low-energy option";
    case 13: q.c.scattering = q.c.scattering == 255 ? 0 : q.c.scattering == 0 ? 1 : q.c.scattering == 1 ? 2 : 255; return "scattering model";
    case 14: q.c.scattering_factor = tiny(q.c.scattering_factor); return "scattering factor";
    case 15: q.th = r.chance(0.5) ? tiny(q.th) : q.th * 0.5; return "thickness";
    default: q.T = r.chance(0.5) ? tiny(q.T) : q.T * 0.7; return "energy";
    }
}
inline void put(std::vector<double>& v, const catima::Result& x) {
    for (double d : {x.Ein, x.Eout, x.Eloss, x.range, x.dEdxi, x.dEdxo, x.sigma_E, x.sigma_a, x.sigma_r, x.sigma_x, x.cov, x.tof}) v.push_back(d);
#ifdef REACTIONS
    v.push_back(x.sp);
#endif
}
inline std::vector<double> eval(const Query& q) {
    using namespace catima;
    std::vector<double> v;
    Projectile p = q.p; p.T = q.T;
    Material m = q.m; m.thickness(q.th);
    switch (q.kind) {
    case 0: put(v, calculate(p, m, q.c)); break;
    case 1: v.push_back(range(p, m, q.c)); break;
    case 2: v.push_back(energy_out(p, m, q.c)); break;
    case 3: for (double e : energy_out(p, std::vector<double>{q.T, q.e2, 1e-4, q.T * 1.1}, m, q.c)) v.push_back(e); break;
    case 4: v.push_back(dedx_from_range(p, m, q.c)); for (double e : dedx_from_range(p, std::vector<double>{q.T, q.e2, 1e-4}, m, q.c)) v.push_back(e); break;
    case 5: v.push_back(range_straggling(p, q.T, m, q.c)); v.push_back(range_variance(p, q.e2, m, q.c)); break;
    case 6: v.push_back(domega2de(p, q.T, m, q.c)); break;
    case 7: for (int o = 0; o < 3; o++) v.push_back(angular_variance(p, m, q.c, o)); break;
    case 8: v.push_back(angular_straggling_from_E(p, q.e2, m, q.c)); v.push_back(angular_straggling(p, m, q.c)); break;
    case 9: v.push_back(energy_straggling_from_E(p, q.T, q.e2, m, q.c)); break;
    case 10: v.push_back(calculate_tof_from_E(p, q.e2, m, q.c)); break;
    case 11: { auto& d = get_data(p, m, q.c); for (int i = 0; i < 600; i += 23) { v.push_back(d.range[i]); v.push_back(d.range_straggling[i]); v.push_back(d.angular_variance[i]); } break; }
    case 12: { auto w = w_magnification(p, q.T, m, q.c); v.push_back(w.first); v.push_back(w.second); break; }
    case 13:
#ifdef REACTIONS
        v.push_back(nonreaction_rate(p, m, q.c)); v.push_back(production_rate(10, 1000, 900, m, q.c));
#endif
        break;
    case 14: { Layers l; for (auto& x : q.stack) l.add(x); auto r = calculate(p, q.ps, l, q.c); put(v, r.total_result); for (auto& x : r.results) put(v, x); break; }
    case 15: v.push_back(dedx(p, m, q.c)); v.push_back(domega2dx(p, m, q.c)); v.push_back(da2dx(p, m, q.c)); v.push_back(radiation_length(m)); break;
    case 16: {
        catima_defaults.z_effective = q.cz;
        int pz = std::lround(q.p.Z); auto t = q.m.get_element(0);
        auto x = catima_calculate(q.p.A, pz, q.T, t.A, t.Z, q.th, q.m.density());
        for (double d : {x.Ein, x.Eout, x.Eloss, x.range, x.dEdxi, x.dEdxo, x.sigma_E, x.sigma_a, x.sigma_r, x.tof}) v.push_back(d);
        v.push_back(catima_Eout(q.p.A, pz, q.T, t.A, t.Z, q.th, 0)); v.push_back(catima_range(q.p.A, pz, q.T, t.A, t.Z));
        v.push_back(catima_range_straggling(q.p.A, pz, q.T, t.A, t.Z)); v.push_back(catima_energy_straggling_from_E(q.p.A, pz, q.T, q.e2, t.A, t.Z));
        v.push_back(catima_angular_straggling_from_E(q.p.A, pz, q.T, q.e2, t.A, t.Z));
        break; }
    default: { auto d = calculate_DataPoint(p, m, q.c); for (int i = 1; i < 600; i += 37) { v.push_back(d.range[i]); v.push_back(d.range_straggling[i]); v.push_back(d.angular_variance[i]); } break; }
    }
    return v;
}
inline std::string desc(const Query& q) {
    Projectile p = q.p; p.T = q.T; Material m = q.m; m.thickness(q.th);
    std::string s = std::string(kind_name(q.kind)) + " " + desc(p) + " " + desc(m) + " " + desc(q.c) + fmt(" e2=%.17g cz=%d", q.e2, q.cz);
    for (auto& l : q.stack) s += " layer " + desc(l);
    return s;
}
inline bool identical(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same_value(a[i], b[i])) return false;
    return true;
}
inline std::string show(const std::vector<double>& a, const std::vector<double>& b) {
    std::string s = fmt("sizes %zu %zu ", a.size(), b.size());
    int n = 0;
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++) if (!same_value(a[i], b[i]) && n++ < 4) s += fmt("[%zu] %.17g vs %.17g ", i, a[i], b[i]);
    return s;
}
} // namespace mon
