// C29: a library built with the tables the generator wrote gives back the function they were generated from
#include "common.h"
#include "ref.h"
#include "standin.h"
#include "catima/calculations.h"
using namespace mon;
using namespace catima;
static double node(int i) { return std::exp(std::log(10.0) * (7.0 * i / 199)); }
static void one(long k, Rng& r) {
    int z = k % 108 + 1;
    double w = ref::weight(z);
    auto is = [&](const char* what, double got, double want, double a, double t, double extra) {
        H.evaluations++;
        double tol = 1.2e-5 * std::abs(want) + extra; // six printed digits of two table values, mass interpolated
        if (!(std::abs(got - want) <= tol)) H.violation(what, fmt("%s Z=%d A=%.8g T=%.8g: %.9g, generated from %.9g", what, z, a, t, got, want));
        H.maximum("fraction of tolerance used", std::abs(got - want) / tol);
    };
    for (int i = 0; i < 200; i++) for (int hi = 0; hi < 2; hi++) {
        Projectile p(w * (hi ? 1.05 : 1), z); p.T = node(i);
        if (i == 0) p.T *= 1 + 1e-12; // not below the table
        if (i == 199) p.T *= 1 - 1e-12;
        is("stopping correction", precalculated_lindhard(p), standin(z, p.A, p.T), p.A, p.T, 0);
        is("straggling correction", precalculated_lindhard_X(p), standin_X(z, p.A, p.T), p.A, p.T, 0);
        H.nontrivial(hash_mix(z * 1000 + i, hi));
    }
    for (int q = 0; q < 100; q++) {
        Projectile p(w * r.uni(0.9, 1.2), z); p.T = r.loguni(1.0001, 9.999e6);
        double n = std::floor(std::log10(p.T) / 7 * 199), f = (p.T - node(n)) / (node(n + 1) - node(n));
        is("stopping correction between", precalculated_lindhard(p), (1 - f) * standin(z, p.A, node(n)) + f * standin(z, p.A, node(n + 1)), p.A, p.T, 1.2e-4 * std::abs(standin(z, p.A, p.T)));
        is("straggling correction between", precalculated_lindhard_X(p), (1 - f) * standin_X(z, p.A, node(n)) + f * standin_X(z, p.A, node(n + 1)), p.A, p.T, 1.2e-4 * std::abs(standin_X(z, p.A, p.T)));
    }
    if (k % 20 == 0) H.sample(fmt("{\"Z\":%d,\"values\":1000}", z));
}
MON_MAIN(H.run(one))
