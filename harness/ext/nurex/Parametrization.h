// Stand-in for the external cross-section library of the optional build.
#pragma once
namespace ref { double kox(int ap, int zp, double E, int at, int zt); }
namespace nurex { inline double SigmaR_Kox(int ap, int zp, double E, int at, int zt) { return ref::kox(ap, zp, E, at, zt); } }
