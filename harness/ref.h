// Independent reference model of the published formulas, on frozen data. Uses nothing of the library.
#pragma once
#include <functional>
#include <vector>
namespace ref {
constexpr double U = 931.4940954, ME = 0.510998928, ALPHA = 1 / 137.035999139, PI = 3.14159265358979323846, NA = 6.022140857, CL = 299.792458, KD = 0.3070749187;
struct El { double a; int z; double w; }; // mass, charge, weight fraction
using Mat = std::vector<El>;
enum Corr { NO_BARKAS = 1, NO_LS = 2, NO_SHELL = 4, NO_HIGH = 8 };
struct Proj { double a, z, q; };
struct Cfg { int zeff = 1, corr = 0, straggling = 1, low = 0, scat = 255; double sf = 1; };

double weight(int z), density(int z), ipot(int z); // 0 outside the tables
int niso(int z); int iso_a(int z, int i); float iso_f(int z, int i);
struct Compound { int id; double rho; std::vector<El> e; /* w holds count or fraction as listed */ };
const std::vector<Compound>& compounds();
Mat weights(const std::vector<El>& listed); // weight fractions from counts (>=1) or fractions (<1)

double beta2(double T), gam(double T), beta(double T);
double nuclear(const Proj& p, double T, double ta, double tz);
double eps(const Proj& p, double T, double ta, double tz); // reduced energy
double srim(int pz, int tz, double T, bool new95); // 1e-15 eV cm2
double low(const Proj& p, double T, const Mat& m, bool new95); // MeV cm2/g
double zeff(int model, double z, double q, double T, double tz);
double barkas(double zeff, double eta, double zt);
double density_effect(double eta, int zt);
double x0(int zt), x1(int zt);
double ls(double a, double z, double T), lsx(double a, double z, double T);
double ls_node(int which, int z, int i); // table value: 0 a, 1 ahi, 2 X a, 3 X ahi
double pair(const Proj& p, double T, double ta, double tz), brems(const Proj& p, double T, double ta, double tz);
double bethe(const Proj& p, double T, double ta, int tz, const Cfg& c, double I);
double electronic_bethe(const Proj& p, double T, const Mat& m, const Cfg& c, double I);
double dedx(const Proj& p, double T, const Mat& m, const Cfg& c, double I);
double variance_el(const Proj& p, double T, double ta, int tz, const Cfg& c);
double variance(const Proj& p, double T, const Mat& m, const Cfg& c);
double radlen(int z, double a), scatlen(double a, int z);
double X0(const Mat& m), XS(const Mat& m);
double momentum(double T, double a); // MeV/c
double kox(int ap, int zp, double E, int at, int zt); // mb
// all energies where the stopping model has a jump or kink for this combination
std::vector<double> breaks(const Proj& p, const Mat& m, const Cfg& c);
} // namespace ref
