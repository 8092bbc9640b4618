// Slowing-down path of a projectile, from the library's range-energy relation only.
#pragma once
#include "bridge.h"
namespace mon {
struct Path {
    Projectile p; Material m; Config c; double T, R;
    Path(const Projectile& p_, const Material& m_, const Config& c_, double T_) : p(p_), m(m_), c(c_), T(T_) { R = range_at(T); }
    double range_at(double e) const { Projectile q = p; q.T = e; return catima::range(q, m, c); }
    double S(double e) const { Projectile q = p; q.T = e; return catima::dedx(q, m, c); }
    double depth(double e) const { return R - range_at(e); } // g/cm2
    // energy after the given areal depth by bisection of the range; 0 when stopped
    double energy(double x) const {
        double want = R - x;
        if (want <= 0) return 0;
        double a = EMIN, b = T;
        for (int i = 0; i < 200 && b / a - 1 > 4e-16; i++) {
            double e = b / a > 1.1 ? std::sqrt(a * b) : 0.5 * (a + b);
            if (e <= a || e >= b) break;
            if (range_at(e) > want) b = e; else a = e;
        }
        return 0.5 * (a + b);
    }
    // integral over areal depth of f(energy, depth) between two energies
    double integrate(double e1, const std::function<double(double, double)>& f, double rtol = 1e-9) const {
        return integrate_energy([&](double e) { return f(e, depth(e)) * p.A / S(e); }, e1, T, rtol);
    }
};
} // namespace mon
