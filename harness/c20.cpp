// C20: Lindhard-Sorensen tables against the direct partial-wave sums, and the special functions underneath
#include "common.h"
#include "ref.h"
#include "bridge.h"
using namespace mon;
using namespace catima;
typedef std::complex<double> cd;
static double node(int i) { return std::exp(std::log(10.0) * (7.0 * i / 199)); }
static void direct(long k, Rng& r) {
    int z = k < 108 ? k + 1 : r.irange(1, 108);
    int i = r.chance(0.15) ? r.pick(std::vector<int>{0, 1, 198, 199}) : r.irange(0, 199), hi = r.irange(0, 1);
    Projectile p(ref::weight(z) * (hi ? 1.05 : 1), z);
    p.T = node(i);
    double d = bethek_lindhard(p), x = bethek_lindhard_X(p), t = precalculated_lindhard(p), tx = precalculated_lindhard_X(p);
    // stepping over a table point by rounding does not change the linear interpolation;
    // the straggling sum is ill-conditioned above about 8e5 MeV/u (1e-6 in the mass moves it by a few 1e-3)
    double tol = 2e-5, tolx = (p.T > 7e5 ? 8e-3 : 2e-5);
    H.evaluations += 2; H.count(hi ? "direct sums at raised mass" : "direct sums at natural mass");
    H.maximum("table against direct stopping correction", std::abs(d - t), fmt("Z=%d T=%g", z, p.T)); H.maximum("table against direct straggling correction", std::abs(x - tx), fmt("Z=%d T=%g", z, p.T));
    if (!(std::abs(d - t) <= tol * (1 + std::abs(d)))) H.violation("direct-LS", fmt("Z=%d A=%.8g T=%.17g: table %.9g direct %.9g", z, p.A, p.T, t, d));
    if (!(std::abs(x - tx) <= tolx * (1 + std::abs(x)))) H.violation("direct-X", fmt("Z=%d A=%.8g T=%.17g: table %.9g direct %.9g", z, p.A, p.T, tx, x));
    H.nontrivial(hash_mix(z * 1000 + i, hi));
    if (k % 20 == 0) H.sample(fmt("{\"Z\":%d,\"A\":%.6g,\"T\":%.6g,\"stopping table\":%.7g,\"direct\":%.7g,\"straggling table\":%.7g,\"direct\":%.7g}", z, p.A, p.T, t, d, tx, x));
    // between the points the direct sum stays near the straight line
    if (i < 199 && k % 3 == 0) {
        p.T = node(i) + r.uni(0.1, 0.9) * (node(i + 1) - node(i));
        double dd = bethek_lindhard(p), tt = precalculated_lindhard(p);
        double lo = ref::ls_node(hi, z, i), up = ref::ls_node(hi, z, i + 1);
        H.evaluations++; H.count("direct sums between table points");
        if (!(std::abs(dd - tt) <= 2e-4 + (p.T < 2e5 ? 0.2 : 1.0) * std::abs(up - lo))) H.violation("direct-between", fmt("Z=%d A=%.8g T=%.17g: table %.9g direct %.9g, neighbours %.9g %.9g", z, p.A, p.T, tt, dd, lo, up));
    }
}
static void table(Rng& r) {
    for (int q = 0; q < 300; q++) {
        double z = r.chance(0.1) ? r.pick(std::vector<int>{1, 2, 107, 108, 109, 110, 111, 112, 120, 130, 200}) : r.irange(1, 108);
        if (r.chance(0.05)) z += r.uni();
        double w = ref::weight(std::min((int)z, 108));
        Projectile p(w * r.uni(0.7, 1.4), z);
        int i = r.irange(0, 199);
        const char* kind = "inside";
        switch (r.irange(0, 5)) {
        case 0: p.T = node(i); kind = "table point"; break;
        case 1: p.T = node(i) * (1 + r.pick(std::vector<double>{1e-15, -1e-15, 1e-13, -1e-13, 1e-9, -1e-9})); kind = "next to table point"; break;
        case 2: p.T = r.loguni(1e-3, 1); kind = "below table"; break;
        case 3: p.T = 1e7 * r.loguni(1, 1e3); kind = "above table"; break;
        default: p.T = r.loguni(1, 1e7); break;
        }
        double a = precalculated_lindhard(p), b = precalculated_lindhard_X(p), ra = ref::ls(p.A, p.Z, p.T), rb = ref::lsx(p.A, p.Z, p.T);
        H.evaluations += 2; H.count(std::string("table ") + kind);
        // at the first point rounding decides between the first value and the limit below the table
        bool edge = std::abs(p.T - 1) < 1e-12;
        if (!(std::abs(a - ra) <= 1e-9 * (1 + std::abs(ra)))) H.violation(std::string("table-LS:") + kind, fmt("Z=%g A=%.17g T=%.17g: %.17g, expected %.17g", z, p.A, p.T, a, ra));
        if (!(std::abs(b - rb) <= 1e-9 * (1 + std::abs(rb))) && !(edge && std::abs(b - 1) < 1e-12) && !edge) H.violation(std::string("table-X:") + kind, fmt("Z=%g A=%.17g T=%.17g: %.17g, expected %.17g", z, p.A, p.T, b, rb));
        H.nontrivial(hash_d(hash_d((uint64_t)z, p.T), p.A));
        // the correction is linear in mass
        Projectile p1 = p, p2 = p, p3 = p; p1.A = 0.9 * w; p2.A = 1.0 * w; p3.A = 1.3 * w;
        double l1 = precalculated_lindhard(p1), l2 = precalculated_lindhard(p2), l3 = precalculated_lindhard(p3);
        H.evaluations++;
        if (!(std::abs((l3 - l2) - 3 * (l2 - l1)) <= 1e-9 * (std::abs(l1) + std::abs(l2) + std::abs(l3) + 1))) H.violation("mass-linear", fmt("Z=%g T=%.17g: %.17g %.17g %.17g", z, p.T, l1, l2, l3));
    }
}
static void gammas(Rng& r) {
    for (int q = 0; q < 200; q++) {
        cd z(r.uni(0.02, 60), r.chance(0.3) ? 0 : r.uni(-30, 30));
        if (r.chance(0.3)) z = cd(r.uni(0.02, 3), r.uni(-3, 3));
        auto wrap = [](double d) { return std::remainder(d, 2 * M_PI); };
        cd g = lngamma(z), g1 = lngamma(z + 1.0), gc = lngamma(std::conj(z));
        cd e = g + std::log(z);
        double tol = 2e-8 * (1 + std::abs(g));
        H.evaluations += 2; H.count("complex gamma");
        if (!(std::abs(g1.real() - e.real()) <= tol && std::abs(wrap(g1.imag() - e.imag())) <= tol)) H.violation("gamma-recurrence", fmt("z=(%.17g,%.17g): lngamma(z+1)=(%.17g,%.17g) expected (%.17g,%.17g)", z.real(), z.imag(), g1.real(), g1.imag(), e.real(), e.imag()));
        if (!(std::abs(gc.real() - g.real()) <= tol && std::abs(wrap(gc.imag() + g.imag())) <= tol)) H.violation("gamma-conjugate", fmt("z=(%.17g,%.17g)", z.real(), z.imag()));
        if (z.imag() == 0) { H.evaluations++; double s = std::lgamma(z.real()); if (!(std::abs(g.real() - s) <= 1e-9 * (1 + std::abs(s)))) H.violation("gamma-real", fmt("z=%.17g: %.17g expected %.17g", z.real(), g.real(), s)); }
        // reflection, also for arguments left of the imaginary axis
        cd y(r.uni(0.05, 0.95), r.uni(-4, 4)), a = lngamma(y), b = lngamma(1.0 - y), w = std::log(M_PI / std::sin(M_PI * y));
        H.evaluations++;
        if (!(std::abs((a + b - w).real()) < 1e-7 && std::abs(wrap((a + b - w).imag())) < 1e-7)) H.violation("gamma-reflection", fmt("z=(%.17g,%.17g)", y.real(), y.imag()));
        cd n(-r.uni(0.05, 6), r.uni(0.05, 4) * (r.chance(0.5) ? 1 : -1)), na = lngamma(n), nb = lngamma(1.0 - n), nw = std::log(M_PI / std::sin(M_PI * n));
        H.evaluations++; H.count("complex gamma left of the axis");
        if (!(std::abs((na + nb - nw).real()) < 1e-6 && std::abs(wrap((na + nb - nw).imag())) < 1e-6)) H.violation("gamma-reflection-left", fmt("z=(%.17g,%.17g)", n.real(), n.imag()));
        // confluent hypergeometric function
        cd A(r.uni(-3, 6), r.uni(-4, 4)), B(r.uni(0.5, 8), r.uni(-3, 3)), Z(r.uni(-4, 4), r.uni(-8, 8));
        auto M = [](cd a, cd b, cd z) { return hyperg(a, b, z); };
        double scale = std::exp(std::abs(Z)) * 1e-14 * std::pow(1 + std::abs(A), 2);
        cd m = M(A, B, Z), k = std::exp(Z) * M(B - A, B, -Z);
        double t = 3e-5 * (1 + std::exp(Z.real())) + scale * (1 + std::exp(Z.real()));
        H.evaluations += 4; H.count("hypergeometric function");
        if (!(std::abs(m - k) <= t * (1 + std::abs(m)))) H.violation("hyperg-kummer", fmt("a=(%g,%g) b=(%g,%g) z=(%g,%g): (%g,%g) (%g,%g)", A.real(), A.imag(), B.real(), B.imag(), Z.real(), Z.imag(), m.real(), m.imag(), k.real(), k.imag()));
        cd x = M(B, B, Z);
        if (!(std::abs(x - std::exp(Z)) <= 1e-5 + scale)) H.violation("hyperg-exp", fmt("b=(%g,%g) z=(%g,%g): (%g,%g)", B.real(), B.imag(), Z.real(), Z.imag(), x.real(), x.imag()));
        cd c = B * m - B * M(A - 1.0, B, Z) - Z * M(A, B + 1.0, Z);
        if (!(std::abs(c) <= (3e-5 + scale) * (std::abs(B) + std::abs(Z)) * 2)) H.violation("hyperg-contiguous", fmt("a=(%g,%g) b=(%g,%g) z=(%g,%g): residual %g", A.real(), A.imag(), B.real(), B.imag(), Z.real(), Z.imag(), std::abs(c)));
        if (std::abs(M(A, B, 0) - 1.0) > 1e-15) H.violation("hyperg-zero", "");
    }
}
static void one(long k, Rng& r) { direct(k, r); table(r); gammas(r); }
MON_MAIN(H.run(one))
