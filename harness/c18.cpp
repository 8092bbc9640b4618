// C18: table positions and interpolation against an own natural cubic spline in extended precision
#include "common.h"
using namespace mon;
using namespace catima;
typedef long double ld;
struct Spl { // natural cubic spline, or one which is flat at both ends; linear outside
    std::vector<ld> x, y, m;
    Spl(const std::vector<double>& xs, const std::vector<double>& ys, bool flat = false) : x(xs.begin(), xs.end()), y(ys.begin(), ys.end()), m(xs.size(), 0) {
        int n = x.size();
        std::vector<ld> c(n, 0), d(n, 0);
        if (flat) { ld h = x[1] - x[0]; c[0] = 0.5L; d[0] = 3 * (y[1] - y[0]) / (h * h); }
        for (int i = 1; i < n - 1; i++) {
            ld h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i], b = 2 * (h0 + h1), r = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0), q = b - h0 * c[i - 1];
            c[i] = h1 / q; d[i] = (r - h0 * d[i - 1]) / q;
        }
        if (flat) { ld h = x[n - 1] - x[n - 2]; m[n - 1] = (-6 * (y[n - 1] - y[n - 2]) / (h * h) - d[n - 2]) / (2 - c[n - 2]); }
        for (int i = n - 2; i >= (flat ? 0 : 1); i--) m[i] = d[i] - c[i] * m[i + 1];
    }
    ld slope(int i, bool right) const { // at x[i] from the interval to the right or left
        if (right) { ld h = x[i + 1] - x[i]; return (y[i + 1] - y[i]) / h - h * (2 * m[i] + m[i + 1]) / 6; }
        ld h = x[i] - x[i - 1]; return (y[i] - y[i - 1]) / h + h * (m[i - 1] + 2 * m[i]) / 6;
    }
    ld eval(ld t, ld* der) const {
        int n = x.size();
        if (t < x[0]) { *der = slope(0, true); return y[0] + *der * (t - x[0]); }
        if (t > x[n - 1]) { *der = slope(n - 1, false); return y[n - 1] + *der * (t - x[n - 1]); }
        int i = std::min<int>(n - 2, std::upper_bound(x.begin(), x.end(), t) - x.begin() - 1);
        ld h = x[i + 1] - x[i], a = (x[i + 1] - t) / h, b = 1 - a;
        *der = (y[i + 1] - y[i]) / h - (3 * a * a - 1) * h * m[i] / 6 + (3 * b * b - 1) * h * m[i + 1] / 6;
        return a * y[i] + b * y[i + 1] + ((a * a * a - a) * m[i] + (b * b * b - b) * m[i + 1]) * h * h / 6;
    }
};
static std::vector<double> gen_data(Rng& r, const std::vector<double>& x, std::string* name, bool* line) {
    int n = x.size();
    std::vector<double> y(n);
    *line = false;
    switch (r.irange(0, 7)) {
    case 0: { double a = r.uni(-5, 5), b = r.uni(-5, 5) / (r.chance(0.5) ? 1 : x[n - 1]); for (int i = 0; i < n; i++) y[i] = a + b * x[i]; *name = "line"; *line = true; break; }
    case 1: { for (int i = 0; i < n; i++) y[i] = r.uni(-1, 1); *name = "noise"; break; }
    case 2: { double s = r.uni(-2, 2); for (int i = 0; i < n; i++) y[i] = std::pow(std::abs(x[i]) + 1e-9, s); *name = "power"; break; }
    case 3: { int q = r.irange(0, n - 1); for (int i = 0; i < n; i++) y[i] = i == q; *name = "spike"; break; }
    case 4: { int q = r.irange(1, n - 1); for (int i = 0; i < n; i++) y[i] = i >= q; *name = "step"; break; }
    case 5: { double s = 0; for (int i = 0; i < n; i++) { s += r.loguni(1e-6, 1); y[i] = s; } *name = "rising"; break; }
    case 6: { double w = r.uni(0.01, 1); for (int i = 0; i < n; i++) y[i] = std::sin(w * i) * 1e3; *name = "wave"; break; }
    default: { double v = r.uni(-10, 10); for (int i = 0; i < n; i++) y[i] = v; *name = "constant"; *line = true; break; }
    }
    return y;
}
template <typename Table>
static double gen_x(Rng& r, const Table& t, int n, const char** kind) {
    int i = r.irange(0, n - 1);
    if (r.chance(0.25)) i = r.pick(std::vector<int>{0, 1, 2, n - 3, n - 2, n - 1});
    double x = t[i];
    switch (r.irange(0, 6)) {
    case 0: *kind = "table point"; return x;
    case 1: { int k = r.irange(1, 4); for (int q = 0; q < k; q++) x = std::nextafter(x, -1e300); *kind = "just below table point"; return x; }
    case 2: { int k = r.irange(1, 4); for (int q = 0; q < k; q++) x = std::nextafter(x, 1e300); *kind = "just above table point"; return x; }
    case 3: *kind = "near table point"; return x + (t[n - 1] - t[0]) * 1e-12 * r.uni(-1, 1) * (x / t[n - 1] + 1e-9);
    case 4: { *kind = "outside"; double w = t[n - 1] - t[0]; return r.chance(0.5) ? t[0] - r.pick(std::vector<double>{1e-9, 1e-4, 1, 1000}) * r.uni() * std::min(w, std::abs(t[0])) : t[n - 1] + r.uni() * w * r.pick(std::vector<double>{1e-9, 1e-2, 3}); }
    default: { int j = r.irange(0, n - 2); *kind = "inside"; return t[j] + r.uni() * (t[j + 1] - t[j]); }
    }
}
template <typename Table>
static void positions(const Table& t, int n, bool exact, Rng& r, const char* name) {
    for (int q = 0; q < 400; q++) {
        const char* kind;
        double x = gen_x(r, t, n, &kind);
        int i = t.index(x);
        H.evaluations++; H.count(std::string("positions ") + name + " " + kind);
        double tol = 4e-15 + 2e-14 * std::abs(x) + (exact ? 0 : 4e-15 * (std::abs(t[0]) + std::abs(t[n - 1])));
        bool ok;
        if (x < t[0]) ok = i == -1;
        else if (x >= t[n - 1]) ok = i == n - 1 || (!exact && i == n - 2 && x <= t[n - 1] + tol);
        else ok = i >= 0 && i <= n - 1 && x >= t[i] - tol && (i == n - 1 ? x >= t[n - 1] - tol : x < t[i + 1] + tol);
        if (ok && exact && !strcmp(kind, "table point")) ok = t[i] == x;
        if (!ok) H.violation(std::string("position:") + name, fmt("%s: position of %.17g is %d; points around %.17g %.17g; %d points from %.17g to %.17g", name, x, i, i >= 0 && i < n ? t[i] : NAN, i + 1 >= 0 && i + 1 < n ? t[i + 1] : NAN, n, t[0], t[n - 1]));
    }
    for (double x : {NAN, -INFINITY}) if (t.index(x) != -1) H.violation(std::string("position:") + name, fmt("position of %g is %d", x, t.index(x)));
    if (t.index(INFINITY) != n - 1) H.violation(std::string("position:") + name, fmt("position of infinity is %d", t.index(INFINITY)));
}
template <typename Table>
struct Flat { // the spline with vanishing slope at both ends, with the interface of the interpolators
    const Table& t; cspline_special<Table> s;
    Flat(const Table& t, const std::vector<double>& y) : t(t), s(t, y, false) {}
    double get_min() const { return t[0]; }
    double get_max() const { return t[Table::size() - 1]; }
    double operator()(double x) const { return s(x); }
    double eval(double x) const { return s.evaluate(x); }
    double derivative(double x) const { return s.deriv(x); }
};
template <typename Interp, typename Table>
static void spline(const Table& t, int n, Rng& r, const char* name, bool flat = false) {
    std::vector<double> x(n);
    for (int i = 0; i < n; i++) x[i] = t[i];
    std::string dn; bool line;
    auto y = gen_data(r, x, &dn, &line);
    const auto y0 = y;
    Interp s(t, y);
    Spl ref(x, y, flat);
    double ymax = 0;
    for (double v : y) ymax = std::max(ymax, std::abs(v));
    if (s.get_min() != x[0] || s.get_max() != x[n - 1]) H.violation(std::string("limits:") + name, fmt("%.17g %.17g", s.get_min(), s.get_max()));
    for (int q = 0; q < 300; q++) {
        const char* kind;
        double X = gen_x(r, t, n, &kind);
        ld d; ld v = ref.eval(X, &d);
        int i = std::max(0, std::min<int>(n - 2, std::upper_bound(x.begin(), x.end(), X) - x.begin() - 1));
        double h = x[i + 1] - x[i], out = X < x[0] ? x[0] - X : X > x[n - 1] ? X - x[n - 1] : 0;
        // rounding of the abscissa differences of neighbouring intervals, magnified outside of the table
        double dtol = 1e-10 * ymax / h + 1e-9 * std::abs((double)d), vtol = 1e-11 * ymax + 1e-11 * std::abs((double)v) + dtol * out + 4e-15 * std::abs(X) * std::abs((double)d);
        double gv = s(X), ge = s.eval(X), gd = s.derivative(X);
        H.evaluations += 2; H.count(std::string("interpolated ") + name + " " + kind); H.count("data " + dn);
        // the derivative of a piecewise cubic: at a point its slope may change by second derivative times rounding
        double near = std::abs((double)ref.m[i]) * 4e-15 * std::abs(X);
        if (!(std::abs(gv - (double)v) <= vtol) || gv != ge) H.violation(std::string("value:") + name, fmt("%s, %s data: value at %.17g (%s) is %.17g, expected %.17Lg, tolerance %g", name, dn.c_str(), X, kind, gv, v, vtol));
        if (!(std::abs(gd - (double)d) <= dtol + near)) H.violation(std::string("slope:") + name, fmt("%s, %s data: slope at %.17g (%s) is %.17g, expected %.17Lg, tolerance %g", name, dn.c_str(), X, kind, gd, d, dtol));
        if (!strcmp(kind, "table point")) { int j = std::lower_bound(x.begin(), x.end(), X) - x.begin(); if (!(std::abs(gv - y[j]) <= 1e-13 * ymax)) H.violation(std::string("point:") + name, fmt("%s, %s data: value at point %d is %.17g, tabulated %.17g", name, dn.c_str(), j, gv, y[j])); }
        H.maximum("largest value difference over largest data value", std::abs(gv - (double)v) / (ymax + std::abs((double)v) + 1e-300));
        H.nontrivial(hash_d(hash_d(std::hash<std::string>()(name), X), y[n / 2] + y[n / 3]));
    }
    if (y != y0) H.violation("data modified", name);
}
// linear interpolation used for the tabulated corrections
template <int N>
static void linear_table(Rng& r) {
    double lo = r.uni(-4, 1);
    EnergyTable<N> t(lo, r.chance(0.3) ? lo + r.uni(0.1, 3) : r.uni(2, 7)); // also such that neighbouring numbers are closer than the rounding allowed for
    std::vector<double> x(N), y(N);
    for (int i = 0; i < N; i++) x[i] = t[i];
    std::string dn; bool line;
    y = gen_data(r, x, &dn, &line);
    positions(t, N, true, r, "random energy table");
    double ymax = 0;
    for (double v : y) ymax = std::max(ymax, std::abs(v));
    for (int q = 0; q < 100; q++) {
        const char* kind;
        double X = gen_x(r, t, N, &kind);
        double g = EnergyTable_interpolate(t, X, y.data()), w, slope = 0;
        if (X < x[0] || X > x[N - 1]) w = 0;
        else { int i = std::min<int>(N - 2, std::upper_bound(x.begin(), x.end(), X) - x.begin() - 1); ld f = ((ld)X - x[i]) / ((ld)x[i + 1] - x[i]); w = y[i] + f * ((ld)y[i + 1] - y[i]); for (int j = std::max(0, i - 1); j <= std::min(N - 2, i + 1); j++) slope = std::max(slope, std::abs(y[j + 1] - y[j]) / (x[j + 1] - x[j])); }
        H.evaluations++; H.count(std::string("linear ") + kind);
        if (!(std::abs(g - w) <= 1e-12 * ymax + 1e-13 + slope * (4e-15 + 2e-14 * std::abs(X)))) H.violation("linear", fmt("linear interpolation at %.17g (%s) is %.17g, expected %.17g (%s data, table of %d from %.17g)", X, kind, g, w, dn.c_str(), N, x[0]));
    }
}
template <int N>
static void linear_system(Rng& r) {
    tridiagonal_matrix<N> A;
    std::vector<std::array<double, 3>> e(N);
    std::array<double, N> b;
    for (int i = 0; i < N; i++) {
        e[i] = {r.uni(-1, 1), r.uni(2.1, 9) * (r.chance(0.5) ? 1 : -1), r.uni(-1, 1)};
        b[i] = r.uni(-10, 10);
        if (i > 0) A(i, i - 1) = e[i][0];
        A(i, i) = e[i][1];
        if (i < N - 1) A(i, i + 1) = e[i][2];
    }
    const auto& C = A;
    for (int q = 0; q < 3 * N; q++) {
        int i = r.irange(0, N - 1), j = std::max(0, std::min(N - 1, i + r.irange(-3, 3)));
        double want = std::abs(i - j) > 1 ? 0.0 : e[i][j - i + 1], got = C(i, j);
        H.evaluations++; H.count("matrix elements");
        if (got != want) H.violation("matrix element", fmt("element %d,%d of %d is %.17g, set to %.17g", i, j, N, got, want));
    }
    auto x = A.trig_solve(b);
    for (int i = 0; i < N; i++) {
        ld v = (ld)e[i][1] * x[i] - b[i];
        if (i > 0) v += (ld)e[i][0] * x[i - 1];
        if (i < N - 1) v += (ld)e[i][2] * x[i + 1];
        H.evaluations++; H.count("equations solved");
        if (!(std::abs((double)v) <= 1e-12)) H.violation("linear system", fmt("equation %d of %d is off by %Lg", i, N, v));
    }
    std::array<double, N> first;
    for (int q = 0; q < 2; q++) { // a vanishing first pivot: the same answer whatever the memory held
        alignas(std::array<double, N>) unsigned char place[sizeof(std::array<double, N>)];
        memset(place, q ? 0x3f : 0xc0, sizeof place);
        tridiagonal_matrix<N> B;
        for (int i = 0; i < N; i++) { if (i > 0) B(i, i - 1) = e[i][0]; B(i, i) = i ? e[i][1] : 0.0; if (i < N - 1) B(i, i + 1) = e[i][2]; }
        auto& y = *new (place) std::array<double, N>(B.trig_solve(b));
        H.evaluations++;
        if (!q) first = y;
        for (double v : y) if (!(std::abs(v) < 1e300)) { H.violation("vanishing pivot", fmt("%d equations, got %g", N, v)); break; }
        if (memcmp(&first, &y, sizeof y)) H.violation("vanishing pivot", fmt("%d equations, two answers", N));
    }
}
static void one(long k, Rng& r) {
    positions(energy_table, energy_table.size(), true, r, "library energy table");
    static const LogVArray<600> lv(-3, 7);
    positions(lv, 600, true, r, "virtual log table");
    { double a = r.uni(-3, 1), b = r.uni(2, 7); LogVArray<50> t(a, b); positions(t, 50, true, r, "random virtual log table"); }
    { double a = r.uni(-3, 3), b = a + r.loguni(0.1, 1e5); LinearVArray<600> t(a, b); positions(t, 600, false, r, "linear table"); LinearVArray<17> u(a, b); positions(u, 17, false, r, "short linear table"); }
    { double a = r.uni(-3, 3); LinearVArray<17> t(a, r.chance(0.5) ? a : a - r.uni(0, 5)); double x = a + r.uni(-9, 9); H.evaluations++; H.count("empty tables"); if (t.index(x) != -1) H.violation("position:empty table", fmt("position of %.17g is %d", x, t.index(x))); }
    spline<Interpolator>(energy_table, 600, r, "library spline");
    spline<InterpolatorCSpline<EnergyTable<600>>>(energy_table, 600, r, "energy table spline");
    spline<InterpolatorCSpline<LogVArray<600>>>(lv, 600, r, "virtual log spline");
    { double a = r.uni(-3, 3), b = a + r.loguni(0.1, 1e5); LinearVArray<600> t(a, b); spline<InterpolatorCSpline<LinearVArray<600>>>(t, 600, r, "linear table spline"); }
    { double a = r.uni(-3, 3), b = a + r.loguni(0.1, 1e5); LinearVArray<17> t(a, b); spline<InterpolatorCSpline<LinearVArray<17>>>(t, 17, r, "short linear table spline"); spline<Flat<LinearVArray<17>>>(t, 17, r, "flat short linear table spline", true); }
    { double a = r.uni(-3, 1), b = r.uni(2, 7); EnergyTable<31> t(a, b); spline<InterpolatorCSpline<EnergyTable<31>>>(t, 31, r, "short energy table spline"); spline<Flat<EnergyTable<31>>>(t, 31, r, "flat short energy table spline", true);
      LogVArray<50> u(a, b); spline<InterpolatorCSpline<LogVArray<50>>>(u, 50, r, "short virtual log spline"); }
    spline<Flat<EnergyTable<600>>>(energy_table, 600, r, "flat energy table spline", true);
    linear_system<3>(r); linear_system<20>(r); linear_system<600>(r);
    linear_table<200>(r); linear_table<3>(r); linear_table<31>(r);
    if (k % 50 == 0) H.sample(fmt("{\"case\":%ld,\"evaluations\":%ld}", k, H.evaluations));
}
MON_MAIN(H.run(one))
