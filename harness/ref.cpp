#include "ref.h"
#include "ref_data.h"
#include <algorithm>
#include <cmath>
namespace ref {
using namespace std;
double weight(int z) { return (z < 1 || z > 109) ? 0 : refdata::weight[z]; }
double density(int z) { return (z < 1 || z > 98) ? 0 : refdata::density[z]; }
double ipot(int z) { return (z < 1 || z > 120) ? 0 : refdata::ipot[z]; }
int niso(int z) { return (z < 1 || z > 110) ? 0 : refdata::niso[z]; }
int iso_a(int z, int i) { return (i < 0 || i >= niso(z)) ? 0 : refdata::iso[z][i].a; }
float iso_f(int z, int i) { return (i < 0 || i >= niso(z)) ? 0 : refdata::iso[z][i].f; }
const vector<Compound>& compounds() {
    static const vector<Compound> v = [] {
        vector<Compound> r;
        for (auto& c : refdata::comp) {
            Compound k{c.id, c.rho, {}};
            for (int i = 0; i < c.n; i++) k.e.push_back({c.e[i][0], (int)c.e[i][1], c.e[i][2]});
            r.push_back(k);
        }
        return r;
    }();
    return v;
}
Mat weights(const vector<El>& l) {
    bool frac = all_of(l.begin(), l.end(), [](const El& e) { return e.w < 1; });
    double s = 0;
    for (auto& e : l) s += e.w * e.a;
    Mat m = l;
    if (!frac) for (auto& e : m) e.w = e.w * e.a / s;
    return m;
}
double gam(double T) { return (T + U) / U; }
double beta2(double T) { return T * (T + 2 * U) / ((T + U) * (T + U)); }
double beta(double T) { return sqrt(beta2(T)); }
static double eta_of(double T) { return sqrt(T * (T + 2 * U)) / U; }
double momentum(double T, double a) { return a * sqrt(T * (T + 2 * U)); }

double eps(const Proj& p, double T, double ta, double tz) {
    double zs = pow(p.z, 0.23) + pow(tz, 0.23);
    return 32.53 * ta * (1000 * T * p.a) / (p.z * tz * (p.a + ta) * zs);
}
double nuclear(const Proj& p, double T, double ta, double tz) {
    double e = eps(p, T, ta, tz);
    if (!(e > 0)) return 0;
    double s = e > 30 ? log(e) / (2 * e) : log(1 + 1.1383 * e) / (2 * (e + 0.01321 * pow(e, 0.21226) + 0.19593 * sqrt(e)));
    double zs = pow(p.z, 0.23) + pow(tz, 0.23);
    return s * 846.21 * p.z * tz * p.a / ((p.a + ta) * zs) * NA / ta;
}
static double proton(int tz, double ekev, bool n) {
    const double* c = n ? refdata::pse95[min(tz, 92) - 1] : refdata::pse85[min(tz, 92) - 1];
    double e = max(ekev, 25.0);
    double lo = c[0] * pow(e, c[1]) + c[2] * pow(e, c[3]);
    double hi = c[4] * pow(e, -c[5]) * log(c[6] / e + c[7] * e);
    double s = 1 / (1 / lo + 1 / hi);
    if (ekev <= 25) s *= pow(ekev / 25, tz > 6 ? 0.45 : 0.25);
    return s;
}
double srim(int pz, int tz, double T, bool n) {
    double e = 1000 * T;
    if (pz == 1) return proton(tz, e, n);
    if (pz == 2) {
        double b = log(max(e, 1.0));
        double a = 0.2865 + 0.1266 * b - 0.001429 * b * b + 0.02402 * b * b * b - 0.01135 * pow(b, 4) + 0.001475 * pow(b, 5);
        double h = 1 - exp(-min(30.0, a));
        double d = 7.6 - max(0.0, b);
        double g = 1 + (0.007 + 0.00005 * tz) * exp(-d * d);
        return proton(tz, e, n) * 4 * h * g * g;
    }
    double vf = refdata::vfermi[min(tz, 92) - 1];
    double v = sqrt(e / 25) / vf, z13 = cbrt((double)pz), z23 = z13 * z13;
    double vr = v >= 1 ? v * vf * (1 + 0.2 / (v * v)) : 0.75 * vf * (1 + 2 * v * v / 3 - pow(v, 4) / 15);
    double floor_ = max(0.13, 1 / z23);
    double y = max(vr / z23, floor_);
    double a = -0.803 * pow(y, 0.3) + 1.3167 * pow(y, 0.6) + 0.38157 * y + 0.008983 * y * y;
    double q = min(1.0, max(0.0, 1 - exp(-min(a, 50.0))));
    double b = min(0.43, max(0.32, 0.12 + 0.025 * pz)) / z13;
    double l0 = (0.8 - q * min(1.2, 0.6 + pz / 30.0)) / z13;
    double l1 = 0, k1 = max(0.0, 0.9 - 0.025 * pz), k2 = max(0.0, 1 - 0.025 * min(16.0, (double)pz));
    if (q >= 0.2) {
        if (q < k1) l1 = b * (q - 0.2) / fabs(k1 - 0.2000001);
        else if (q < k2) l1 = b;
        else l1 = b * (1 - q) / (0.025 * min(16.0, (double)pz));
    }
    double l = max(l1, l0 * refdata::lambda[min(pz, 92) - 1]);
    double h = 4 * l * vf / 1.919;
    double zeta = q + (1 - q) / (2 * vf * vf) * log(1 + h * h);
    double d = 7.6 - max(0.0, log(e));
    zeta *= 1 + (0.18 + 0.0015 * tz) * exp(-d * d) / (double(pz) * pz);
    double c2 = zeta * pz * zeta * pz;
    if (y <= floor_) {
        double vrm = max(1.0, 0.13 * z23);
        double vm = 0.5 * (vrm + sqrt(max(0.0, vrm * vrm - 0.8 * vf * vf)));
        double em = 25 * vm * vm;
        double pw = (tz == 6 || ((tz == 14 || tz == 32) && pz <= 19)) ? 0.35 : 0.5;
        return proton(tz, em, n) * c2 * pow(e / em, pw);
    }
    return proton(tz, e, n) * c2;
}
double low(const Proj& p, double T, const Mat& m, bool n) {
    double s = 0;
    for (auto& e : m) s += e.w * srim((int)p.z, e.z, T, n) / e.a;
    return 100 * NA * s;
}
double zeff(int model, double z, double q, double T, double tz) {
    double b = beta(T), z23 = cbrt(z * z), ia = 1 / ALPHA;
    switch (model) {
    case 0: return q;
    case 1: return z * (1 - exp(-0.95 * ia * b / z23));
    case 2: {
        double B = 1.18 - 7.5e-3 * tz + 4.53e-5 * tz * tz, A = 1.16 - 1.91e-3 * tz + 1.26e-5 * tz * tz;
        return z * (1 - A * exp(-ia * B * b / z23));
    }
    case 3: {
        if (T < 2.5) return 0;
        double l = log(tz), x1, x2, x3, x4;
        if (tz == 4) x1 = 2.045 + 2 * exp(-0.04369 * z), x2 = 7, x3 = 0.2643, x4 = 0.4171;
        else if (tz == 6) x1 = 2.584 + 1.91 * exp(-0.03958 * z), x2 = 6.933, x3 = 0.2433, x4 = 0.3969;
        else x1 = 1.164 + 0.2319 * exp(-0.004302 * tz) + 1.658 * exp(-0.0517 * z), x2 = 8.144 + 0.09876 * l, x3 = 0.314 + 0.01072 * l, x4 = 0.5218 + 0.02521 * l;
        return z * (1 - x1 * exp(-x2 * pow(T, x3) / pow(z, x4)));
    }
    case 4: {
        double t = tz == 1 ? 2.6 : tz == 2 ? 2.8 : tz;
        double x = b / 0.012 / pow(z, 0.45), lz = log(z), lt = log(t);
        double a1 = -0.5491 * exp(0.7028 * lz - 0.1089 * lz * lz + 0.001644 * lz * lz * lz - 0.5155 * lt + 0.05633 * lt * lt);
        double a2 = 0.005447 * exp(0.8795 * lz - 1.091 * lt);
        double a3 = -0.0008261 * exp(2.848 * lz - 0.2442 * lz * lz * lz);
        return z * (1 - exp(-0.4662 + x * (a1 + x * (a2 + x * (a3 - 0.00009293 * x)))));
    }
    case 5: {
        double s = b / (2.19 / CL) / pow(z, 0.543);
        double c1 = 1 - 0.26 * exp(-tz / 11) * exp(-(tz - z) * (tz - z) / 9), c2 = 1 + 0.03 * s * log(tz);
        double x = c1 * pow(s / c2 / 1.54, 1 + 1.83 / z), x4 = pow(x, 4);
        return z * (8.29 * x + x4) / (0.06 / x + 4 + 7.4 * x + x4);
    }
    case 6:
        if (T > 2000) return z;
        return zeff(1, z, q, T, tz); // below 30 MeV/u or light projectiles
    }
    return NAN;
}
double barkas(double ze, double eta, double zt) {
    double v = eta / (ALPHA * sqrt(zt)), f = 0;
    if (v >= 4) f = 0.45 / sqrt(v);
    else if (v >= 1) {
        static const double F[4] = {0.33, 0.30, 0.26, 0.23};
        int i = min(2, max(0, (int)ceil(v) - 2));
        f = F[i] + (v - (i + 1)) * (F[i + 1] - F[i]);
    }
    return 1 + 2 * ze * f / (v * v * sqrt(zt));
}
double x0(int z) { return refdata::x0[min(z, 97) - 1]; }
double x1(int z) { return refdata::x1[min(z, 97) - 1]; }
double density_effect(double eta, int z) {
    int i = min(z, 97) - 1;
    double x = log(eta) / 2.3025851;
    if (x < refdata::x0[i]) return refdata::del0[i] > 0 ? refdata::del0[i] * pow(10, 2 * (x - refdata::x0[i])) : 0;
    double d = 4.6052 * x - refdata::dc[i];
    if (x <= refdata::x1[i]) d += refdata::da[i] * pow(refdata::x1[i] - x, refdata::dm[i]);
    return d;
}
static double ls_energy(int i) { return pow(10.0, i * 7.0 / 199.0); }
static double ls_tab(const double* y, double T) {
    if (T <= 1) return y[0];
    if (T >= ls_energy(199)) return y[199];
    int i = min(198, max(0, (int)floor(log10(T) * 199 / 7)));
    while (i < 198 && T >= ls_energy(i + 1)) i++;
    while (i > 0 && T < ls_energy(i)) i--;
    double e0 = ls_energy(i), e1 = ls_energy(i + 1);
    return y[i] + (y[i + 1] - y[i]) * (T - e0) / (e1 - e0);
}
static double ls_any(const double (*ta)[200], const double (*th)[200], double a, double z, double T) {
    int k = min(108, (int)z);
    double w = weight(k), v1 = ls_tab(ta[k - 1], T), v2 = ls_tab(th[k - 1], T);
    return v1 + (v2 - v1) * ((a - w) / w) / 0.05;
}
double ls(double a, double z, double T) { return ls_any(refdata::ls_a, refdata::ls_ahi, a, z, T); }
double lsx(double a, double z, double T) { return T < 1 ? 1.0 : max(0.0, ls_any(refdata::lsx_a, refdata::lsx_ahi, a, z, T)); }
double ls_node(int which, int z, int i) {
    auto t = which == 0 ? refdata::ls_a : which == 1 ? refdata::ls_ahi : which == 2 ? refdata::lsx_a : refdata::lsx_ahi;
    return t[z - 1][i];
}
double pair(const Proj& p, double T, double ta, double tz) {
    double g = gam(T), d = 1 / sqrt(g), ld = -log(g), l0 = log(2 * g), s = 183 / cbrt(tz), p2 = PI * PI;
    double L0 = 19.0 / 9 * log(s / (1 + 25.018803808 * s / g));
    double L1 = d * (4178 / (81 * p2) - 21.0 / 27 - 248 * l0 / (27 * p2) + (28 * l0 / 9 - 446.0 / 27) * ld / p2 + 14 * ld * ld / (9 * p2));
    return max(0.0, KD / 4 * ALPHA * ALPHA * p.z * p.z * tz * (tz + 1) * g * (L0 + L1) / ta);
}
double brems(const Proj& p, double T, double ta, double tz) {
    double g = gam(T), R = 1.18 * (cbrt(p.a) + cbrt(ta));
    double L = log1p(2 * g * 0.1 * 6.582119514 * CL / U / R / p.a);
    return 4 / (3 * PI) * KD * ALPHA * (ME / U) * g * pow(p.z, 4) * tz * tz * L / (ta * p.a);
}
double bethe(const Proj& p, double T, double ta, int tz, const Cfg& c, double I) {
    double b2 = beta2(T), g = gam(T), eta = eta_of(T), ip = I > 0 ? I : ipot(tz);
    double ze = zeff(c.zeff, p.z, p.q, T, tz);
    double L = log(2e6 * ME * b2 / ip) + 2 * log(g) - b2;
    if (!(c.corr & NO_SHELL) && eta >= 0.13) {
        double e2 = 1 / (eta * eta), e4 = e2 * e2, e6 = e4 * e2;
        L -= ((0.422377 * e2 + 0.0304043 * e4 - 0.00038106 * e6) * 1e-6 * ip * ip + (3.858019 * e2 - 0.1667989 * e4 + 0.00157955 * e6) * 1e-9 * ip * ip * ip) / tz;
    }
    if (!(c.corr & NO_BARKAS)) L *= barkas(ze, eta, tz);
    if (!(c.corr & NO_LS)) L += ls(p.a, p.z, T);
    L -= density_effect(eta, tz) / 2;
    double s = KD * ze * ze * tz / (b2 * ta) * L;
    if (T > 50000 && !(c.corr & NO_HIGH)) s += pair(p, T, ta, tz) + brems(p, T, ta, tz);
    return s;
}
double electronic_bethe(const Proj& p, double T, const Mat& m, const Cfg& c, double I) {
    double s = 0;
    for (auto& e : m) s += e.w * bethe(p, T, e.a, e.z, c, I);
    return s;
}
double dedx(const Proj& p, double T, const Mat& m, const Cfg& c, double I) {
    if (T <= 0) return 0;
    double s = 0;
    for (auto& e : m) s += e.w * nuclear(p, T, e.a, e.z);
    double f = T <= 10 ? 0 : T >= 30 ? 1 : (T - 10) / 20;
    if (f < 1) s += (1 - f) * low(p, T, m, c.low == 1);
    if (f > 0) s += f * electronic_bethe(p, T, m, c, I);
    return s;
}
double variance_el(const Proj& p, double T, double ta, int tz, const Cfg& c) {
    double b2 = beta2(T), g = gam(T), ze = zeff(c.zeff, p.z, p.q, T, tz);
    double cor = 0;
    if (c.straggling == 0) cor = max(0.0, 24.89 * pow(tz, 1.2324) / (1e6 * ME * b2) * log(2e6 * ME * b2 / (33.05 * pow(tz, 1.6364))));
    double v = KD * ME * ze * ze * tz / ta * (lsx(p.a, p.z, T) * g * g + cor);
    if (T < 30) v = min(v, 4.8184e-3 * pow(p.z + tz, 8.0 / 3) / ta * b2 / (ALPHA * ALPHA));
    return v;
}
double variance(const Proj& p, double T, const Mat& m, const Cfg& c) {
    double s = 0;
    for (auto& e : m) s += e.w * variance_el(p, T, e.a, e.z, c);
    return s;
}
double radlen(int z, double a) {
    static const double tab[][2] = {{1, 63.04}, {2, 94.32}, {3, 82.78}, {4, 65.19}, {6, 42.7}, {7, 37.99}, {8, 34.24}, {9, 32.93}, {10, 28.94}, {13, 24.01}, {14, 21.82}, {17, 19.28}, {18, 19.55}, {22, 16.16}, {26, 13.84}, {29, 12.86}, {32, 12.25}, {50, 8.82}, {54, 8.48}, {74, 6.76}, {78, 6.54}, {79, 6.46}, {82, 6.37}, {92, 6.00}};
    for (auto& t : tab) if (t[0] == z) return t[1];
    double a2 = ALPHA * ALPHA * z * z, f = 1.202 * a2 - 1.0369 * a2 * a2 + 1.008 * a2 * a2 * a2 / (1 + a2);
    return 716.405 * a / (double(z) * z * (log(184.15 / cbrt(z)) - f) + z * log(1194.0 / cbrt(double(z) * z)));
}
double scatlen(double a, int z) { return a / (0.00034896 * z * z * (2 * log(33219 / cbrt(a * z)) - 1)); }
double X0(const Mat& m) { double s = 0; for (auto& e : m) s += e.w / radlen(e.z, e.a); return 1 / s; }
double XS(const Mat& m) { double s = 0; for (auto& e : m) s += e.w / scatlen(e.a, e.z); return 1 / s; }
double kox(int ap, int zp, double E, int at, int zt) {
    double p3 = cbrt(ap), t3 = cbrt(at), le = log10(E);
    double c = le < 1.5 ? (2 - 10 / pow(1.5, 5)) * pow(le / 1.5, 3) : 2 - 10 / pow(le, 5);
    double D = 5.0 * (at - 2 * zt) * zp / (double(ap) * at);
    double R = 1.1 * (p3 + t3 + 1.85 * p3 * t3 / (p3 + t3) - c) + D;
    double Bc = double(zp) * zt / (1.3 * (p3 + t3)), Ecm = E * ap * at / double(ap + at);
    return 10 * PI * R * R * (1 - Bc / Ecm);
}
std::vector<double> breaks(const Proj& p, const Mat& m, const Cfg& c) {
    auto t_eta = [](double eta) { return U * (sqrt(1 + eta * eta) - 1); };
    vector<double> v = {0.001, 0.025, 1.0, 10.0, 30.0, 50000.0, t_eta(0.13)};
    if (c.zeff == 3) v.push_back(2.5);
    for (auto& e : m) {
        for (double k : {1., 2., 3., 4.}) v.push_back(t_eta(k * ALPHA * sqrt(e.z)));
        v.push_back(t_eta(exp(2.3025851 * x0(e.z))));
        v.push_back(t_eta(exp(2.3025851 * x1(e.z))));
        v.push_back(30 / eps(p, 1.0, e.a, e.z));
    }
    sort(v.begin(), v.end());
    return v;
}
} // namespace ref
