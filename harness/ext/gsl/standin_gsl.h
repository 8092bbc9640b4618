// Stand-in for the parts of the GNU Scientific Library that the optional builds use: same interface and
// documented behaviour, own algorithms. It also watches how it is used: a workspace may not be used for two
// integrations at once, and evaluation outside the interpolated interval is an error; misuse ends the program.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstddef>
#include <vector>
namespace standin {
inline void wrong(const char* w) { fprintf(stderr, "GSL misuse: %s\n", w); abort(); }
}
inline void* gsl_set_error_handler_off() { return nullptr; }
struct gsl_function { double (*function)(double x, void* params); void* params; };
struct gsl_integration_workspace { size_t limit; bool busy; };
inline gsl_integration_workspace* gsl_integration_workspace_alloc(size_t n) { return new gsl_integration_workspace{n, false}; }
inline void gsl_integration_workspace_free(gsl_integration_workspace* w) { delete w; }
namespace standin {
inline double gauss(const gsl_function* f, double a, double b) { // 10-point rule
    static const double x[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
    static const double w[5] = {0.2955242247147529, 0.2692667193099964, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
    double c = 0.5 * (a + b), h = 0.5 * (b - a), s = 0;
    for (int i = 0; i < 5; i++) s += w[i] * (f->function(c - h * x[i], f->params) + f->function(c + h * x[i], f->params));
    return s * h;
}
inline double adapt(const gsl_function* f, double a, double b, double whole, double tol, double rel, int depth, double* err) {
    double m = 0.5 * (a + b), l = gauss(f, a, m), r = gauss(f, m, b), d = std::abs(l + r - whole);
    if (depth <= 0 || d <= tol || d <= rel * std::abs(l + r)) { *err += d; return l + r; }
    return adapt(f, a, m, l, tol / 2, rel, depth - 1, err) + adapt(f, m, b, r, tol / 2, rel, depth - 1, err);
}
}
inline int gsl_integration_qag(const gsl_function* f, double a, double b, double epsabs, double epsrel, size_t limit, int key, gsl_integration_workspace* w, double* result, double* abserr) {
    if (!w || w->limit < limit || key < 1 || key > 6) { standin::wrong("workspace or rule"); return 4; }
    if (w->busy) standin::wrong("workspace used by two integrations");
    w->busy = true;
    double err = 0;
    *result = standin::adapt(f, a, b, standin::gauss(f, a, b), epsabs * 1e-5, epsrel * 1e-5, 4, &err);
    *abserr = err;
    w->busy = false;
    return 0;
}
inline int gsl_integration_qng(const gsl_function* f, double a, double b, double epsabs, double epsrel, double* result, double* abserr, size_t* n) {
    double err = 0;
    *result = standin::adapt(f, a, b, standin::gauss(f, a, b), epsabs * 1e-5, epsrel * 1e-5, 3, &err);
    *abserr = err; *n = 87;
    return 0;
}
struct gsl_interp_accel { size_t last; };
struct gsl_interp_type { int kind; };
inline const gsl_interp_type standin_cspline{0}, standin_linear{1};
inline const gsl_interp_type *gsl_interp_cspline = &standin_cspline, *gsl_interp_linear = &standin_linear;
struct gsl_spline { int kind; size_t n; std::vector<double> x, y, m; };
inline gsl_interp_accel* gsl_interp_accel_alloc() { return new gsl_interp_accel{0}; }
inline void gsl_interp_accel_free(gsl_interp_accel* a) { delete a; }
inline gsl_spline* gsl_spline_alloc(const gsl_interp_type* t, size_t n) { return new gsl_spline{t->kind, n, {}, {}, {}}; }
inline void gsl_spline_free(gsl_spline* s) { delete s; }
inline int gsl_spline_init(gsl_spline* s, const double* x, const double* y, size_t n) {
    if (n != s->n) { standin::wrong("number of points"); return 4; }
    s->x.assign(x, x + n); s->y.assign(y, y + n); s->m.assign(n, 0.0);
    if (s->kind || n < 3) return 0;
    std::vector<long double> c(n, 0), d(n, 0); // natural spline, second derivatives
    for (size_t i = 1; i + 1 < n; i++) {
        long double h0 = (long double)x[i] - x[i - 1], h1 = (long double)x[i + 1] - x[i];
        long double r = 6 * (((long double)y[i + 1] - y[i]) / h1 - ((long double)y[i] - y[i - 1]) / h0), p = 2 * (h0 + h1) - h0 * c[i - 1];
        c[i] = h1 / p; d[i] = (r - h0 * d[i - 1]) / p;
    }
    for (size_t i = n - 2; i > 0; i--) s->m[i] = (double)(d[i] - c[i] * s->m[i + 1]);
    return 0;
}
inline double standin_eval(const gsl_spline* s, double x, gsl_interp_accel* a, bool deriv) {
    if (!s || !a) { standin::wrong("no spline"); return NAN; }
    if (std::isnan(x)) return NAN;
    if (!(x >= s->x.front() && x <= s->x.back())) { standin::wrong("argument outside the interval"); return NAN; }
    size_t lo = 0, hi = s->n - 1;
    while (hi - lo > 1) { size_t k = (lo + hi) / 2; (s->x[k] <= x ? lo : hi) = k; }
    a->last = lo;
    double h = s->x[hi] - s->x[lo], t = x - s->x[lo], u = s->x[hi] - x, m0 = s->m[lo], m1 = s->m[hi], sl = (s->y[hi] - s->y[lo]) / h;
    if (deriv) return sl - h / 6 * (m1 - m0) + (m1 * t * t - m0 * u * u) / (2 * h);
    return s->y[lo] + t * sl - t * u / (6 * h) * (m0 * (h + u) + m1 * (h + t));
}
inline double gsl_spline_eval(const gsl_spline* s, double x, gsl_interp_accel* a) { return standin_eval(s, x, a, false); }
inline double gsl_spline_eval_deriv(const gsl_spline* s, double x, gsl_interp_accel* a) { return standin_eval(s, x, a, true); }
