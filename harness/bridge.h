// Translation of library objects to the reference model.
#pragma once
#include "common.h"
#include "ref.h"
namespace mon {
inline ref::Proj rp(const Projectile& p) { return {p.A, p.Z, p.Q}; }
inline ref::Mat rm(const Material& m) {
    std::vector<ref::El> v;
    for (int i = 0; i < m.ncomponents(); i++) { auto t = m.get_element(i); v.push_back({t.A, t.Z, t.stn}); }
    return ref::weights(v);
}
inline ref::Cfg rc(const Config& c) { ref::Cfg r; r.zeff = c.z_effective; r.corr = c.corrections; r.straggling = c.calculation; r.low = c.low_energy; r.scat = c.scattering; r.sf = c.scattering_factor; return r; }
// the energy grid on which the library tabulates (600 points, equal steps in the logarithm, 1 keV/u to 10 TeV/u)
constexpr int GRID = 600;
inline double grid(int i) { return std::pow(10.0, -3.0 + 10.0 * i / (GRID - 1)); }
inline double grid_ratio() { return std::pow(10.0, 10.0 / (GRID - 1)); }
} // namespace mon
