// C19: quadrature rules: exactness on polynomials, points and weights, adaptive accuracy
#include "common.h"
#include "catima/integrator.h"
using namespace mon;
typedef long double ld;
static void gen_interval(Rng& r, double& a, double& b) {
    switch (r.irange(0, 4)) {
    case 0: a = -1; b = 1; break;
    case 1: a = r.uni(-10, 10); b = a + r.loguni(1e-6, 1e4); break;
    case 2: a = r.loguni(1e-4, 1e6); b = a * (1 + r.loguni(1e-6, 10)); break;
    case 3: a = 0; b = r.loguni(1e-8, 1e8); break;
    default: a = -r.loguni(1e-3, 1e3); b = r.loguni(1e-3, 1e3); break;
    }
    if (r.chance(0.3)) std::swap(a, b);
}
// polynomials in t=(x-centre)/half on the interval: sum c_k t^k
struct Poly {
    std::vector<double> c; double q, p; double mn, mx;
    double lo, hi;
    bool inside = true; long calls = 0;
    double operator()(double x) { calls++; double e = 1e-12 * (std::abs(lo) + std::abs(hi)); if (!(x >= std::min(lo, hi) - e && x <= std::max(lo, hi) + e)) inside = false; double t = (x - q) / p, s = 0; for (int i = c.size() - 1; i >= 0; i--) s = s * t + c[i]; return s; }
    double exact() const { ld s = 0; for (size_t i = 0; i < c.size(); i += 2) s += 2 * (ld)c[i] / (i + 1); return s * p; }
    double scale() const { double s = 0; for (double v : c) s += std::abs(v); return s * std::abs(p); }
};
static Poly gen_poly(Rng& r, int deg, double a, double b) {
    Poly f; f.lo = a; f.hi = b; f.q = 0.5 * (a + b); f.p = 0.5 * (b - a);
    f.c.assign(deg + 1, 0);
    if (r.chance(0.5)) f.c[r.irange(0, deg)] = 1; else for (auto& v : f.c) v = r.uni(-1, 1);
    if (r.chance(0.5)) { f.c[deg] = 1; if (deg) f.c[deg - 1] = r.uni(-1, 1); }
    return f;
}
static double slack(double a, double b) { return 1e-13 + 4e-16 * (std::abs(a) + std::abs(b)) / std::abs(b - a) * 200; }
template <int N>
static void legendre(Rng& r) {
    integrators::GaussLegendreIntegration<N> g;
    double a, b; gen_interval(r, a, b);
    int deg = r.chance(0.5) ? 2 * N - 1 : r.chance(0.3) ? 2 * N - 2 : r.irange(0, 2 * N - 1);
    Poly f = gen_poly(r, deg, a, b);
    double v = r.chance(0.5) ? g.integrate(f, a, b) : g(f, a, b), w = f.exact();
    H.evaluations++; H.count(fmt("Gauss-Legendre %d", N));
    // degree times the rounding of the points
    double tol = f.scale() * slack(a, b) * (1 + 0.05 * deg);
    if (!(std::abs(v - w) <= tol)) H.violation(fmt("legendre:%d", N), fmt("order %d, degree %d on [%.17g,%.17g]: %.17g, exact %.17g, tolerance %g", N, deg, a, b, v, w, tol));
    H.maximum("Gauss-Legendre error over scale", std::abs(v - w) / f.scale());
    if (!f.inside) H.violation(fmt("legendre-points:%d", N), fmt("point outside of [%.17g,%.17g]", a, b));
    if (f.calls != N) H.violation(fmt("legendre-calls:%d", N), fmt("%ld calls", f.calls));
    double back = g.integrate(f, b, a);
    if (!(std::abs(back + v) <= 1e-12 * f.scale())) H.violation(fmt("legendre-reverse:%d", N), fmt("[%.17g,%.17g]: %.17g reversed %.17g", a, b, v, back));
    auto pts = g.get_points(a, b);
    double ws = 0;
    for (int i = 0; i < (N + 1) / 2; i++) { double wi = g.w(i); ws += (N % 2 && i == 0) ? wi : 2 * wi; if (!(wi > 0)) H.violation(fmt("legendre-weight:%d", N), fmt("weight %d is %g", i, wi)); }
    if (!(std::abs(ws - 2) < 1e-13)) H.violation(fmt("legendre-weights:%d", N), fmt("sum %.17g", ws));
    std::set<double> used;
    struct Rec { std::vector<double> x; double operator()(double t) { x.push_back(t); return 1; } } rec;
    g.integrate(rec, a, b);
    std::sort(rec.x.begin(), rec.x.end());
    std::vector<double> ps(pts.begin(), pts.end());
    for (size_t i = 1; i < ps.size(); i++) if ((ps[i] > ps[i - 1]) != (b > a)) H.violation(fmt("legendre-points-order:%d", N), fmt("[%.17g,%.17g] point %zu", a, b, i));
    std::sort(ps.begin(), ps.end());
    if (ps.size() == rec.x.size()) for (size_t i = 0; i < ps.size(); i++) if (!(std::abs(ps[i] - rec.x[i]) <= 1e-14 * (std::abs(a) + std::abs(b)))) H.violation(fmt("legendre-points-used:%d", N), fmt("[%.17g,%.17g] point %zu listed %.17g used %.17g", a, b, i, ps[i], rec.x[i]));
    if (g.n() != N) H.violation("legendre-n", "");
    // two dimensions
    if (N <= 16) {
        integrators::GaussLegendreIntegration2D<N> g2;
        double c, d; gen_interval(r, c, d);
        Poly fy = gen_poly(r, r.irange(0, 2 * N - 1), c, d);
        auto F = [&](double x, double y) { return f(x) * fy(y); };
        double v2 = r.chance(0.5) ? g2.integrate(F, a, b, c, d) : g2(F, a, b, c, d), w2 = f.exact() * fy.exact();
        H.evaluations++; H.count("Gauss-Legendre 2D");
        double t2 = f.scale() * fy.scale() * (slack(a, b) + slack(c, d)) * (1 + 0.05 * deg) * 2;
        if (!(std::abs(v2 - w2) <= t2)) H.violation(fmt("legendre2d:%d", N), fmt("order %d on [%.17g,%.17g]x[%.17g,%.17g]: %.17g, exact %.17g", N, a, b, c, d, v2, w2));
        integrators::GaussLegendreIntegration2DA<N, 8> g3;
        Poly fz = gen_poly(r, r.irange(0, 15), c, d);
        auto F3 = [&](double x, double y) { return f(x) * fz(y); };
        double v3 = g3.integrate(F3, a, b, c, d), w3 = f.exact() * fz.exact();
        if (!(std::abs(v3 - w3) <= f.scale() * fz.scale() * (slack(a, b) + slack(c, d)) * (1 + 0.05 * deg) * 2)) H.violation(fmt("legendre2da:%d", N), fmt("orders %d,8 on [%.17g,%.17g]x[%.17g,%.17g]: %.17g, exact %.17g", N, a, b, c, d, v3, w3));
    }
    H.nontrivial(hash_d(hash_d(hash_d(N, a), b), f.c[deg] + deg));
}
struct Fn { std::string name; std::function<double(double)> f; double a, b, exact, width; /* smallest structure */ };
static Fn gen_fn(Rng& r) {
    Fn q;
    double a = r.uni(-3, 3), L = r.loguni(0.05, 50), b = a + L;
    double s = r.loguni(0.1, 100);
    switch (r.irange(0, 9)) {
    case 0: { double k = r.uni(-8, 8) / L; q = {"exp", [=](double x) { return s * std::exp(k * (x - a)); }, a, b, k == 0 ? s * L : s * std::expm1(k * L) / k, 0}; break; }
    case 1: { double c = a + L * r.uni(0.1, 0.9), w = L * r.loguni(0.01, 1); q = {"gaussian peak", [=](double x) { double t = (x - c) / w; return s * std::exp(-t * t); }, a, b, s * w * std::sqrt(M_PI) / 2 * (std::erf((b - c) / w) - std::erf((a - c) / w)), w}; break; }
    case 2: { double c = a + L * r.uni(0.0, 1), w = L * r.loguni(0.005, 1); q = {"lorentz peak", [=](double x) { double t = (x - c) / w; return s / (1 + t * t); }, a, b, s * w * (std::atan((b - c) / w) - std::atan((a - c) / w)), w}; break; }
    case 3: { double x0 = r.loguni(1e-3, 1), x1 = x0 * r.loguni(1.1, 1e5); q = {"reciprocal", [=](double x) { return s / x; }, x0, x1, s * std::log(x1 / x0), 0}; break; }
    case 4: { double e = r.uni(0.2, 3); q = {"power with end singularity", [=](double x) { return s * std::pow(std::max(0.0, x - a), e); }, a, b, s * std::pow(L, e + 1) / (e + 1), 0}; break; }
    case 5: { double c = a + L * r.uni(); q = {"kink", [=](double x) { return s * std::abs(x - c); }, a, b, s * ((c - a) * (c - a) + (b - c) * (b - c)) / 2, 0}; break; }
    case 6: { double c = a + L * r.uni(); q = {"step", [=](double x) { return x < c ? s : 0.3 * s; }, a, b, s * (c - a) + 0.3 * s * (b - c), 0}; break; }
    case 7: { double k = r.uni(0.5, 12) / L, ph = r.uni(0, 6.3); q = {"wave", [=](double x) { return s * std::sin(k * (x - a) + ph); }, a, b, s / k * (std::cos(ph) - std::cos(k * L + ph)), 1.5 / k}; break; }
    case 8: { // two peaks of opposite sign and nearly equal area
        double c1 = a + L * r.uni(0.1, 0.9), w1 = L * r.loguni(0.05, 1), c2 = a + L * r.uni(0.1, 0.9), w2 = L * r.loguni(0.05, 1);
        auto I = [&](double c, double w) { return w * std::sqrt(M_PI) / 2 * (std::erf((b - c) / w) - std::erf((a - c) / w)); };
        double s2 = s * I(c1, w1) / I(c2, w2) * (1 + (r.chance(0.5) ? 0 : r.loguni(1e-6, 1e-1)));
        q = {"cancelling", [=](double x) { double t = (x - c1) / w1, u = (x - c2) / w2; return s * std::exp(-t * t) - s2 * std::exp(-u * u); }, a, b, s * I(c1, w1) - s2 * I(c2, w2), std::min(w1, w2)}; break; }
    default: { double k = r.uni(0.5, 20) / L; q = {"damped wave above zero", [=](double x) { return s * (1 + std::sin(k * (x - a))) * std::exp(-(x - a) / L); }, a, b, 0, 1.5 / k};
        double al = 1 / L; auto F = [&](double t) { return -std::exp(-al * t) * (al * std::sin(k * t) + k * std::cos(k * t)) / (al * al + k * k); };
        q.exact = s * (-std::expm1(-al * L) / al + F(L) - F(0)); break; }
    }
    return q;
}
template <int N>
static void kronrod(Rng& r) {
    typedef integrators::GaussKronrodIntegration<N> G;
    G g;
    const int n = (N - 1) / 2, design = 3 * n + 1;
    double a, b; gen_interval(r, a, b);
    int deg = r.chance(0.4) ? design : r.irange(0, design);
    Poly f = gen_poly(r, deg, a, b);
    auto v = G::integrate_nonadaptive(f, a, b);
    double w = f.exact(), tol = f.scale() * slack(a, b) * (1 + 0.05 * deg);
    H.evaluations++; H.count(fmt("Gauss-Kronrod %d", N));
    if (!(std::abs(v.first - w) <= tol)) H.violation(fmt("kronrod:%d", N), fmt("order %d, degree %d on [%.17g,%.17g]: %.17g, exact %.17g", N, deg, a, b, v.first, w));
    if (!f.inside) H.violation(fmt("kronrod-points:%d", N), "point outside");
    if (f.calls != N) H.violation(fmt("kronrod-calls:%d", N), fmt("%ld calls", f.calls));
    if (!(v.second >= 0)) H.violation(fmt("kronrod-error-sign:%d", N), fmt("error estimate %g", v.second));
    // the embedded Gauss rule is exact up to degree 2n-1, then the error estimate is rounding only
    { Poly h = gen_poly(r, r.irange(0, 2 * n - 1), a, b); auto e = G::integrate_nonadaptive(h, a, b); H.evaluations++; if (!(e.second <= h.scale() * slack(a, b) * 4 + 1e-15 * std::abs(b - a))) H.violation(fmt("kronrod-gauss:%d", N), fmt("order %d, degree %zu on [%.17g,%.17g]: error estimate %g", N, h.c.size() - 1, a, b, e.second)); }
    // degree beyond the embedded rule: the estimate must see the difference
    { Poly h = gen_poly(r, 2 * n, a, b); std::fill(h.c.begin(), h.c.end(), 0); h.c[2 * n] = 1; auto e = G::integrate_nonadaptive(h, a, b);
      // exact error of the n-point Gauss rule for t^(2n): 2^(2n+1) (n!)^4/((2n+1)((2n)!)^2)
      double lg = (2 * n + 1) * std::log(2.0) + 4 * std::lgamma(n + 1.0) - std::log(2 * n + 1.0) - 2 * std::lgamma(2 * n + 1.0);
      double err = std::exp(lg) * std::abs(h.p); H.evaluations++;
      if (!(std::abs(e.second - err) <= 1e-6 * err + h.scale() * slack(a, b) * 4 + 1e-15 * std::abs(b - a))) H.violation(fmt("kronrod-estimate:%d", N), fmt("order %d on [%.17g,%.17g]: error estimate %g, difference of the rules %g", N, a, b, e.second, err)); }
    double ws = 0;
    for (int i = 0; i <= n; i++) { double wi = G::w(i); ws += i == 0 ? wi : 2 * wi; if (!(wi > 0)) H.violation(fmt("kronrod-weight:%d", N), fmt("weight %d", i)); }
    if (!(std::abs(ws - 2) < 1e-13)) H.violation(fmt("kronrod-weights:%d", N), fmt("sum %.17g", ws));
    auto pts = G::get_points(a, b);
    for (size_t i = 0; i < pts.size(); i++) { if (i && (pts[i] > pts[i - 1]) != (b > a)) H.violation(fmt("kronrod-points-order:%d", N), fmt("[%.17g,%.17g] %zu", a, b, i)); if (!(pts[i] >= std::min(a, b) && pts[i] <= std::max(a, b))) H.violation(fmt("kronrod-points:%d", N), "listed point outside"); }
    if (G::n() != N) H.violation("kronrod-n", "");
    // adaptive
    Fn q = gen_fn(r);
    double eps = r.pick(std::vector<double>{1e-1, 1e-3, 1e-5, 1e-7, 1e-9}), reps = r.pick(std::vector<double>{0, 1e-3, 1e-6, 1e-9, 1e-12});
    if (r.chance(0.3)) { eps = 1e-3; reps = 1e-6; }
    if (q.name == "cancelling") { eps = r.pick(std::vector<double>{1e-2, 1e-3, 1e-4, 1e-5}); }
    // enough panels to see the structure at all; the estimate of unresolved structure can be right by chance
    int M = r.pick(std::vector<int>{1, 1, 2, 5, 40});
    const double reach = N == 7 ? 1.5 : N == 15 ? 3 : N == 21 ? 4 : N == 31 ? 6 : 10;
    if (q.width > 0) M = std::max(M, (int)std::ceil((q.b - q.a) / (reach * q.width)));
    auto& F = q.f;
    double I; std::string form;
    bool rev = r.chance(0.25);
    double A = rev ? q.b : q.a, B = rev ? q.a : q.b;
    int how = r.irange(0, 2);
    long parts = 1;
    if (how == 0 && M == 1) { form = "adaptive"; I = G::integrate_adaptive(F, A, B, eps, reps); }
    else if (how == 1) { std::vector<std::pair<double, double>> iv; double st = (B - A) / M; for (int i = 0; i < M; i++) iv.push_back({A + i * st, i == M - 1 ? B : A + (i + 1) * st}); form = "intervals"; I = G::integrate_intervals(F, iv, eps, reps); parts = M; }
    else { form = "panels"; I = G::integrate(F, A, B, eps, reps, M); parts = M; }
    double want = rev ? -q.exact : q.exact;
    // relative accuracy is per panel; summed moduli bound it
    double mod = 0; { int K = 2000; double st = (q.b - q.a) / K; for (int i = 0; i < K; i++) mod += std::abs(F(q.a + (i + 0.5) * st)) * st; }
    double lim = 2 * std::max(eps, reps * mod) + (parts > 1 ? reps * mod : 0) + 1e-12 * mod + 1e-11;
    if (q.name == "power with end singularity") lim = 20 * lim + 1e-8 * mod;
    if (q.name == "kink" || q.name == "step") lim = 200 * lim + 0.05 * mod; // not smooth: the estimate of the two rules can agree by chance
    H.evaluations++; H.count("adaptive " + q.name + " " + form);
    if (!(std::abs(I - want) <= lim)) H.violation("adaptive:" + q.name, fmt("order %d %s of %s on [%.17g,%.17g], eps=%g reps=%g panels=%d: %.17g, exact %.17g, error %g allowed %g", N, form.c_str(), q.name.c_str(), A, B, eps, reps, M, I, want, std::abs(I - want), lim));
    H.maximum("adaptive error over allowed", std::abs(I - want) / lim, q.name);
    H.nontrivial(hash_d(hash_d(hash_d(1000 + N, a), b), q.exact));
}
static void one(long k, Rng& r) {
    legendre<3>(r); legendre<4>(r); legendre<5>(r); legendre<6>(r); legendre<7>(r); legendre<8>(r); legendre<10>(r); legendre<12>(r); legendre<14>(r); legendre<16>(r); legendre<20>(r); legendre<32>(r); legendre<64>(r); legendre<128>(r);
    kronrod<7>(r); kronrod<15>(r); kronrod<21>(r); kronrod<31>(r); kronrod<61>(r);
    // the integrators of the library
    double a, b; gen_interval(r, a, b);
    Poly f = gen_poly(r, 15, a, b);
    double v = catima::integrator.integrate(f, a, b);
    H.evaluations++;
    if (!(std::abs(v - f.exact()) <= f.scale() * slack(a, b) * 2)) H.violation("library-integrator", fmt("degree 15 on [%.17g,%.17g]: %.17g exact %.17g", a, b, v, f.exact()));
    if (k % 500 == 0) H.sample(fmt("{\"case\":%ld,\"degree 15 integral\":%.12g,\"exact\":%.12g}", k, v, f.exact()));
}
MON_MAIN(H.run(one))
