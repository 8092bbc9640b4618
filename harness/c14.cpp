// C14: equivalent descriptions of a material, and the conversions and setters of materials
#include "common.h"
#include "catima/reactions.h"
using namespace mon;
using namespace catima;
struct Desc { std::vector<Elem> e; };
static Material from_list(const std::vector<Elem>& v, double rho, double I) {
    Material m;
    switch (v.size()) {
    case 1: m = Material({{v[0].a, (double)v[0].z, v[0].n}}, rho, I); break;
    case 2: m = Material({{v[0].a, (double)v[0].z, v[0].n}, {v[1].a, (double)v[1].z, v[1].n}}, rho, I); break;
    case 3: m = Material({{v[0].a, (double)v[0].z, v[0].n}, {v[1].a, (double)v[1].z, v[1].n}, {v[2].a, (double)v[2].z, v[2].n}}, rho, I); break;
    default: m = Material({{v[0].a, (double)v[0].z, v[0].n}, {v[1].a, (double)v[1].z, v[1].n}, {v[2].a, (double)v[2].z, v[2].n}, {v[3].a, (double)v[3].z, v[3].n}}, rho, I); break;
    }
    return m;
}
static Material added(const std::vector<Elem>& v, double rho, double I, bool calc) {
    Material m;
    for (auto& e : v) m.add_element(e.a, e.z, e.n);
    if (calc) m.calculate();
    m.density(rho);
    if (I > 0) m.I(I);
    return m;
}
static double dens_of(const Material& m, int z, bool cm2) {
    double s = 0;
    for (int i = 0; i < m.ncomponents(); i++) if (m.get_element(i).Z == z) s += cm2 ? m.number_density_cm2(i) : m.number_density(i);
    return s;
}
static double frac_of(const Material& m, int z) {
    double s = 0;
    for (int i = 0; i < m.ncomponents(); i++) if (m.get_element(i).Z == z) s += m.weight_fraction(i);
    return s;
}
static bool near(double a, double b, double tol) { return same_value(a, b) || std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
static void variants(long k, Rng& r) {
    auto v = gen_stoich(r);
    if (r.chance(0.3)) for (auto& e : v) e.n = r.uni(1, 20); // non-integer counts
    double wmax = 0;
    for (auto& e : v) wmax = std::max(wmax, element_atomic_weight(e.z));
    double rho = r.loguni(1e-3, 20), I = 0;
    Material m0 = from_list(v, rho, I);
    std::vector<std::pair<std::string, Material>> alt;
    { auto w = v; for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[r.irange(0, (int)i - 1)]); alt.push_back({"order", added(w, rho, I, r.chance(0.5))}); }
    { auto w = v; double c = r.chance(0.5) ? r.irange(2, 30) : r.uni(1, 50); for (auto& e : w) e.n *= c; alt.push_back({"counts scaled", r.chance(0.5) ? added(w, rho, I, false) : from_list(w, rho, I)}); }
    alt.push_back({"added one by one", added(v, rho, I, r.chance(0.5))});
    { auto w = v; for (auto& e : w) if (e.a == 0) e.a = element_atomic_weight(e.z); alt.push_back({"masses explicit", from_list(w, rho, I)}); }
    if (v.size() > 1) {
        double M = 0; std::vector<double> A;
        for (auto& e : v) { double a = e.a > 0 ? e.a : element_atomic_weight(e.z); A.push_back(a); M += e.n * a; }
        auto w = v; bool ok = true;
        for (size_t i = 0; i < w.size(); i++) { w[i].n = v[i].n * A[i] / M; ok = ok && w[i].n < 1; }
        if (ok) {
            alt.push_back({"weight fractions", from_list(w, rho, I)});
            std::swap(w[0], w[w.size() - 1]);
            alt.push_back({"weight fractions added", added(w, rho, I, true)});
        }
    }
    Projectile p = gen_projectile(r);
    Config c = gen_config(r);
    p.T = r.loguni(0.01, 3000);
    double R0 = range(p, m0, c);
    double th = R0 * (r.chance(0.15) ? r.uni(1, 1.5) : r.uni(0.001, 0.99));
    m0.thickness(th);
    Result a = calculate(p, m0, c);
    double sum = 0, back = 0;
    for (int i = 0; i < m0.ncomponents(); i++) { sum += m0.weight_fraction(i); back += m0.number_density(i) * m0.get_element(i).A; }
    std::string d = desc(p) + fmt(" T=%.17g ", p.T) + desc(m0) + " " + desc(c);
    if (!(std::abs(sum - 1) < 1e-12)) H.violation("weight-fractions", fmt("sum of weight fractions %.17g ", sum) + d);
    if (!near(back, 6.022140857 * rho, 1e-12)) H.violation("atom-density-mass", fmt("atom densities x masses %.17g, density x Avogadro %.17g ", back, 6.022140857 * rho) + d);
    for (auto& x : alt) {
        Material& m = x.second;
        m.thickness(th);
        auto bad = [&](const char* what, double q, double w) { H.violation(std::string(what) + ":" + x.first, fmt("%s: %s %.17g against %.17g for ", x.first.c_str(), what, q, w) + d + " other " + desc(m)); };
        auto need = [&](const char* what, double q, double w, double tol) {
            H.evaluations++;
            if (!near(q, w, tol)) bad(what, q, w);
            if (std::isfinite(w) && w != 0) H.maximum(std::string("largest relative difference of ") + what, std::abs(q - w) / std::abs(w));
        };
        for (auto& e : v) {
            need("weight fraction", frac_of(m, e.z), frac_of(m0, e.z), 1e-11);
            need("atom density", dens_of(m, e.z, false), dens_of(m0, e.z, false), 1e-11);
            need("atom density cm2", dens_of(m, e.z, true), dens_of(m0, e.z, true), 1e-11);
        }
        need("stopping power", dedx(p, m, c), dedx(p, m0, c), 1e-11);
        need("straggling", domega2dx(p, m, c), domega2dx(p, m0, c), 1e-11);
        need("radiation length", radiation_length(m), radiation_length(m0), 1e-11);
        need("scattering length", scattering_length(m), scattering_length(m0), 1e-11);
        need("scattering power", da2dx(p, m, c), da2dx(p, m0, c), 1e-11);
        Result b = calculate(p, m, c);
        need("range", b.range, a.range, 1e-9);
        need("sigma_r", b.sigma_r, a.sigma_r, 1e-7);
        need("dEdx", b.dEdxi, a.dEdxi, 1e-6);
        double etol = 2.2e-5 * std::max(a.dEdxo, b.dEdxo) / p.A + 1e-12 * p.T;
        H.evaluations++;
        if (!(std::abs(a.Eout - b.Eout) <= etol)) bad("Eout", b.Eout, a.Eout);
        bool tight = near(a.Eout, b.Eout, 1e-11);
        H.count(tight ? "energies equal to rounding" : "energies equal to the iteration limit");
        if (tight && th > 1e-4) {
            need("sigma_a", b.sigma_a, a.sigma_a, 1e-5);
            need("sigma_x", b.sigma_x, a.sigma_x, 1e-5);
            need("tof", b.tof, a.tof, 1e-6);
            if (a.sigma_E > 1e-4 * a.dEdxo * a.sigma_r / p.A) need("sigma_E", b.sigma_E, a.sigma_E, 1e-4);
        }
        if (a.sp < 0 || b.sp < 0) { if (a.sp != b.sp && std::abs(a.Eout - 30) > etol) bad("sp", b.sp, a.sp); }
        else if (!near(a.sp, b.sp, 1e-9)) {
            // the other integration method may be taken when the cross sections of both ends differ by 5 percent
            double xa = -std::log(a.sp), xb = -std::log(b.sp);
            if (!(std::abs(xa - xb) < 1e-6 * xa || (!tight && std::abs(xa - xb) < 0.02 * xa))) bad("sp", b.sp, a.sp);
        }
        H.count(x.first);
    }
    H.nontrivial(hash_d(hash_of(p, m0, c), p.T));
    if (k % 40 == 0) H.sample(fmt("{\"case\":%ld,\"%s\":1}", k, jesc(d).c_str()));
}
// program of construction and setter calls on a material, mirrored on a plain model
static void program(long k, Rng& r) {
    struct M { double rho = 1e-5, th = 0, I = 0; std::vector<Elem> e; double mass = 0; } s;
    Material m;
    std::string d;
    if (r.chance(0.5)) {
        int z = r.irange(1, 98); double a = r.chance(0.5) ? 0 : std::round(element_atomic_weight(z));
        s.rho = r.loguni(1e-4, 20); s.th = r.loguni(1e-4, 10); s.I = r.chance(0.3) ? r.uni(10, 900) : 0;
        m = Material(a, z, s.rho, s.th, s.I);
        double aa = a > 0 ? a : element_atomic_weight(z);
        s.e.push_back({aa, z, 1}); s.mass = aa;
        d = fmt("Material(%g,%d,%g,%g,%g)", a, z, s.rho, s.th, s.I);
    }
    else if (r.chance(0.3)) { // amounts with the molar mass given
        int z = r.irange(1, 98), z2 = r.irange(1, 98); bool frac = r.chance(0.5);
        double x = frac ? r.uni(0.01, 0.99) : r.irange(1, 9), y = frac ? 1 - x : r.irange(1, 9);
        s.rho = r.loguni(1e-4, 20); s.I = r.chance(0.3) ? r.uni(10, 900) : 0; s.mass = r.uni(1, 500);
        m = Material({{0, (double)z, x}, {0, (double)z2, y}}, s.rho, s.I, s.mass);
        s.e.push_back({element_atomic_weight(z), z, x}); s.e.push_back({element_atomic_weight(z2), z2, y});
        d = fmt("Material({%d,%g},{%d,%g},%g,%g,mass %g)", z, x, z2, y, s.rho, s.I, s.mass);
        H.count("materials with a given molar mass");
    }
    int n = r.irange(1, 20);
    for (int i = 0; i < n; i++) {
        double x = r.loguni(1e-6, 100);
        switch (r.irange(0, 5)) {
        case 0: m.density(x); s.rho = x; d += fmt(".density(%g)", x); break;
        case 1: m.thickness(x); s.th = x; d += fmt(".thickness(%g)", x); break;
        case 2: m.thickness_cm(x); s.th = s.rho * x; d += fmt(".thickness_cm(%g)", x); break;
        case 3: m.I(x * 10); s.I = x * 10; d += fmt(".I(%g)", x * 10); break;
        case 4: { int z = r.irange(1, 98); double c = r.irange(1, 9), a = r.chance(0.5) ? 0 : r.irange(1, 250); m.add_element(a, z, c); double aa = a > 0 ? a : element_atomic_weight(z); s.e.push_back({aa, z, c}); s.mass += c * aa; d += fmt(".add(%g,%d,%g)", a, z, c); break; }
        default: { Material q = m; q.density(x).thickness(x).I(x).add_element(1, 1, 1); d += ".copy"; break; }
        }
        H.evaluations++;
        auto chk = [&](const char* w, double a, double b) { if (!near(a, b, 1e-14)) H.violation(std::string("setter:") + w, fmt("%s is %.17g, expected %.17g after ", w, a, b) + d); };
        chk("density", m.density(), s.rho); chk("thickness", m.thickness(), s.th); chk("I", m.I(), s.I); chk("length", m.thickness_cm(), s.th / s.rho); chk("molar mass", m.M(), s.mass);
        chk("components", m.ncomponents(), s.e.size());
        if (s.e.size() && m.ncomponents() == (int)s.e.size()) {
            chk("molecule density", m.number_density(), 6.022140857 * s.rho / s.mass); chk("molecule density cm2", m.number_density_cm2(), 6.022140857 * s.th / s.mass);
            for (size_t j = 0; j < s.e.size(); j++) {
                auto t = m.get_element(j);
                chk("element mass", t.A, s.e[j].a); chk("element charge", t.Z, s.e[j].z); chk("element count", t.stn, s.e[j].n);
                double x = s.e[j].n, mf = x < 1 ? x * s.mass / s.e[j].a : x; // amounts below one are weight fractions
                chk("weight fraction", m.weight_fraction(j), x < 1 ? x : x * s.e[j].a / s.mass);
                chk("molar fraction", m.molar_fraction(j), mf);
                chk("element density", m.number_density(j), 6.022140857 * s.rho / s.mass * mf);
                chk("element density cm2", m.number_density_cm2(j), 6.022140857 * s.th / s.mass * mf);
            }
            chk("density of absent element", m.number_density((int)s.e.size()), 0);
        }
    }
    H.count("setter programs");
    H.nontrivial(std::hash<std::string>()(d));
}
static void one(long k, Rng& r) { variants(k, r); for (int i = 0; i < 5; i++) program(k, r); }
MON_MAIN(H.run(one))
