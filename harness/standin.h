// the function that stands in for the slow direct correction sums when tables are generated (C29)
#pragma once
#include <cmath>
inline double standin(double z, double a, double t) { return 0.37 * z + 0.0113 * a + 0.1 * std::log(t) * (1 + 0.01 * z); }
inline double standin_X(double z, double a, double t) { return 0.5 + 0.21 * z - 0.0007 * a + 0.3 * std::log(t); }
