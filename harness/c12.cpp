// C12: time of flight against the path integral of the inverse velocity
#include "path.h"
using namespace mon;
using namespace catima;
static void one(long k, Rng& r) {
    Projectile p = gen_projectile(r);
    Material m = gen_material(r);
    Config c = gen_config(r);
    auto P = rp(p); auto M = rm(m); auto C = rc(c);
    for (int i = 0; i < 12; i++) {
        double T = r.chance(0.7) ? r.loguni(1, 3000) : gen_energy(r, 1e-2, 1e6);
        p.T = T;
        double R = range(p, m, c);
        double th = i == 0 ? R * (1 + r.loguni(1e-6, 1)) : R * (r.chance(0.3) ? 1 - r.loguni(1e-5, 0.5) : r.chance(0.3) ? r.loguni(1e-5, 0.1) : r.uni(0, 1));
        Material l = m; l.thickness(th);
        Result x = calculate(p, l, c);
        auto w = [&] { return desc(p) + " " + desc(l) + " " + desc(c) + fmt(" Eout=%.17g tof=%.17g", x.Eout, x.tof); };
        H.evaluations++;
        if (x.Eout < 1e-3) {
            expect_close("stopped", x.tof, 0, 0, 0, w);
            H.count("stopped");
            if (th > R * (1 + 1e-9) && x.Eout > 0) H.violation("stopped-energy", w());
            continue;
        }
        auto f = [&](double e) { return p.A / (ref::dedx(P, e, M, C, m.I()) * ref::beta(e)); };
        double unit = 10 / (ref::CL * m.density());
        double want = x.Eout < T ? unit * integrate_energy(f, x.Eout, T, 1e-7) : 0;
        // the jumps of the model limit a fixed quadrature rule on octaves of the energy
        double jump = 0;
        for (double a = x.Eout; a < T;) { double b = std::min(2 * a, T), e; double v = gk15(f, a, b, e); jump += 2 * std::max(std::fabs(e), std::fabs(v - gl8(f, a, b))); a = b; }
        double tol = 2e-3 * want + unit * jump;
        H.maximum("relative deviation", want > 0 ? std::fabs(x.tof - want) / want : 0, w());
        if (!(std::fabs(x.tof - want) <= tol)) H.violation("path-integral", fmt("want %.17g tol %g ", want, tol) + w());
        // velocities at entrance and exit; the energy is accurate to 1e-5 g/cm2
        double L = th / m.density(), lo = 10 * L / (ref::CL * ref::beta(T)), hi = 10 * L / (ref::CL * ref::beta(x.Eout));
        if (th > 1e-3) {
            double t2 = 2e-3 + 1e-5 / th + std::fabs(integrate_energy([&](double e) { return p.A / ref::dedx(P, e, M, C, m.I()); }, x.Eout, T, 1e-7) / th - 1) + 2 * unit * jump / want;
            if (!(x.tof >= lo * (1 - t2) && x.tof <= hi * (1 + t2) + 1.1e-4 / (ref::CL * m.density() * ref::beta(x.Eout)))) H.violation("velocity-bounds", fmt("bounds %.12g %.12g ", lo, hi) + w());
            H.count("bounded by velocities");
        }
        expect_close("from-energies", calculate_tof_from_E(p, x.Eout, l, c), x.tof, 1e-12, 0, w);
        // density
        Material d = l; double q = r.loguni(1e-3, 1e3); d.density(l.density() * q);
        expect_close("density-scaling", calculate(p, d, c).tof * q, x.tof, 1e-9, 0, w);
        H.count("passed");
        H.nontrivial(hash_of(p, l, c));
    }
    // cumulative table
    if (k % 32 == 0) {
        auto v = calculate_tof(p, m, c);
        auto w = [&] { return desc(p) + " " + desc(m) + " " + desc(c); };
        double unit = 10 / (ref::CL * m.density()), s = 0;
        auto f = [&](double e) { return p.A / (ref::dedx(P, e, M, C, m.I()) * ref::beta(e)); };
        if (v.size() != GRID) H.violation("table-size", w());
        else for (int i = 0; i < GRID; i++) {
            if (i) s += integrate_energy(f, grid(i - 1), grid(i), 1e-7);
            if (i % 37 == 1) expect_close("table", v[i], s * unit, 2e-3, 2 * step_error(f, 1e-3, grid(i)) * unit, w);
        }
        H.count("cumulative table");
    }
    H.sample(fmt("{\"case\":%ld,\"in\":\"%s %s %s\"}", k, desc(p).c_str(), desc(m).c_str(), desc(c).c_str()));
}
MON_MAIN(H.run(one))
