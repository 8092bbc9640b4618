// Shared part of the monitor programs: case loop, random generators, reporting.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include "catima/catima.h"
#include "catima/nucdata.h"
#include "catima/material_database.h"

namespace mon {

struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t z) {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t a = 1, uint64_t b = 0) { s[0] = mix(a * 0x100000001b3ull + b); s[1] = mix(s[0] ^ (b + 0x51ed27)); if (!(s[0] | s[1])) s[0] = 1; }
    uint64_t u64() {
        uint64_t x = s[0], y = s[1];
        s[0] = y;
        x ^= x << 23;
        s[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
        return s[1] + y;
    }
    double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    double loguni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    int irange(int a, int b) { return a + int(u64() % uint64_t(b - a + 1)); } // inclusive
    bool chance(double p) { return uni() < p; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
};

inline uint64_t hash_mix(uint64_t h, uint64_t v) { return Rng::mix(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2))); }
inline uint64_t hash_d(uint64_t h, double v) { uint64_t u; memcpy(&u, &v, 8); return hash_mix(h, u); }

inline std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}

struct Harness {
    uint64_t seed = 1;
    long cases = 100, first = 0, only = -1;
    int shard = 0, nshards = 1;
    std::string hashfile, progress, tier = "quick", scratch = "/tmp";
    std::map<std::string, std::string> opt;
    long evaluations = 0, skipped = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, long> counters;
    std::map<std::string, double> maxima;
    std::map<std::string, std::string> maxwhere;
    int nviol = 0, nsamples = 0;
    std::map<std::string, int> violkeys;
    long cur = -1;
    int pfd = -1;
    int cpu_limit = 60;
    std::string current_desc;

    void parse(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--cases") cases = atol(v.c_str());
            else if (k == "--first") first = atol(v.c_str());
            else if (k == "--only") only = atol(v.c_str());
            else if (k == "--shard") shard = atoi(v.c_str());
            else if (k == "--nshards") nshards = atoi(v.c_str());
            else if (k == "--hashfile") hashfile = v;
            else if (k == "--progress") progress = v;
            else if (k == "--tier") tier = v;
            else if (k == "--scratch") scratch = v;
            else if (k == "--cpu") cpu_limit = atoi(v.c_str());
            else opt[k] = v;
        }
        if (!progress.empty()) pfd = open(progress.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    }
    void mark(long k) {
        cur = k;
        if (pfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%20ld\n", k); if (pwrite(pfd, b, n, 0) != n) _exit(3); }
        if (cpu_limit > 0) {
            struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpu_limit;
            setitimer(ITIMER_PROF, &t, nullptr);
        }
    }
    static void on_timer(int) {
        const char m[] = "\nCPULIMIT\n";
        if (write(1, m, sizeof m - 1) < 0) {}
        _exit(97);
    }
    void count(const std::string& k, long n = 1) { counters[k] += n; }
    void maximum(const std::string& k, double v, const std::string& where = "") {
        auto it = maxima.find(k);
        if (it == maxima.end() || v > it->second) { maxima[k] = v; if (!where.empty()) maxwhere[k] = where; }
    }
    // one evaluated, distinct, non-trivial case
    void nontrivial(uint64_t h) { hashes.insert(h); }
    void sample(const std::string& s) {
        if (nsamples < 4) { nsamples++; printf("SAMPLE %s\n", s.c_str()); }
    }
    void violation(const std::string& key, const std::string& detail) {
        nviol++;
        int& n = violkeys[key];
        if (n++ < 3) {
            printf("VIOL {\"key\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n", jesc(key).c_str(), cur, jesc(detail).c_str());
            fflush(stdout);
        }
    }
    // run f(case, rng) for the cases of this shard
    void run(const std::function<void(long, Rng&)>& f) {
        signal(SIGPROF, on_timer);
        for (long k = first; k < first + cases; k++) {
            if (only >= 0 ? (k != only) : ((k - first) % nshards != shard)) continue;
            mark(k);
            Rng r(seed, (uint64_t)k);
            f(k, r);
        }
        if (only >= first + cases || (only >= 0 && only < first)) {
            mark(only);
            Rng r(seed, (uint64_t)only);
            f(only, r);
        }
        struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_PROF, &t, nullptr);
    }
    int finish() {
        if (!hashfile.empty()) {
            FILE* fo = fopen(hashfile.c_str(), "wb");
            if (!fo) return 3;
            for (uint64_t h : hashes) fwrite(&h, 8, 1, fo);
            fclose(fo);
        }
        std::string s = fmt("STAT {\"evaluations\":%ld,\"distinct\":%zu,\"skipped\":%ld,\"violations\":%d,\"counters\":{", evaluations, hashes.size(), skipped, nviol);
        bool c = false;
        for (auto& e : counters) { s += fmt("%s\"%s\":%ld", c ? "," : "", jesc(e.first).c_str(), e.second); c = true; }
        s += "},\"maxima\":{";
        c = false;
        for (auto& e : maxima) {
            if (!std::isfinite(e.second)) continue;
            s += fmt("%s\"%s\":%.6g", c ? "," : "", jesc(e.first).c_str(), e.second); c = true; }
        s += "},\"maxwhere\":{";
        c = false;
        for (auto& e : maxwhere) { s += fmt("%s\"%s\":\"%s\"", c ? "," : "", jesc(e.first).c_str(), jesc(e.second).c_str()); c = true; }
        s += "},\"violkeys\":{";
        c = false;
        for (auto& e : violkeys) { s += fmt("%s\"%s\":%d", c ? "," : "", jesc(e.first).c_str(), e.second); c = true; }
        s += "}}";
        puts(s.c_str());
        fflush(stdout);
        return 0;
    }
};

extern Harness H;

// ---- generators -------------------------------------------------------------------------
using catima::Projectile;
using catima::Material;
using catima::Config;
using catima::Layers;
using catima::Target;

constexpr double EMIN = 1e-3;

inline Projectile gen_projectile(Rng& r) {
    int z;
    double q = r.uni();
    if (q < 0.15) z = 1;
    else if (q < 0.3) z = 2;
    else if (q < 0.6) z = r.irange(3, 30);
    else z = r.irange(3, 98);
    double w = catima::element_atomic_weight(z);
    double a = w;
    switch (r.irange(0, 3)) {
    case 0: a = std::round(w); break;
    case 1: a = std::max(1.0, std::round(w * r.uni(0.85, 1.2))); break;
    case 2: a = w * r.uni(0.9, 1.15); break;
    default: break;
    }
    if (z == 1 && a < 0.9) a = 1.0;
    double Q = 0;
    if (r.chance(0.2)) Q = r.irange((z + 1) / 2, z); // a partly stripped ion
    Projectile p(a, z, Q, 0);
    return p;
}

// energy in the calculated domain, with weight on model boundaries and table nodes
inline double gen_energy(Rng& r, double lo = EMIN, double hi = 1e7) {
    double e;
    double q = r.uni();
    if (q < 0.45) e = r.loguni(lo, hi);
    else if (q < 0.7) e = r.loguni(1.0, 2000.0);
    else if (q < 0.85) {
        static const std::vector<double> b = {1e-3, 2.5e-2, 1.0, 2.5, 10.0, 30.0, 2000.0, 50000.0, 1e7, 0.1, 29.0, 31.0, 9.0, 11.0};
        e = r.pick(b);
        switch (r.irange(0, 5)) {
        case 0: break;
        case 1: e = std::nextafter(e, 0); break;
        case 2: e = std::nextafter(e, 1e300); break;
        case 3: e *= 1 + 1e-9 * r.uni(-1, 1); break;
        case 4: e *= 1 + 1e-4 * r.uni(-1, 1); break;
        default: e *= r.uni(0.9, 1.1); break;
        }
    } else {
        e = std::pow(10.0, -3.0 + 10.0 * r.irange(0, 599) / 599.0); // tabulated energies
        int n = r.irange(-3, 3);
        for (int k = 0; k < std::abs(n); k++) e = std::nextafter(e, n < 0 ? 0.0 : 1e300);
        if (r.chance(0.3)) e *= 1 + 1e-6 * r.uni(-1, 1);
    }
    if (e < lo) e = lo;
    if (e > hi) e = hi;
    return e;
}

inline const std::vector<int>& compound_ids() {
    static std::vector<int> v = [] { std::vector<int> x; for (int i = 201; i <= 349; i++) x.push_back(i); return x; }();
    return v;
}

struct Elem { double a; int z; double n; };

inline std::vector<Elem> gen_stoich(Rng& r, int maxn = 4) {
    int n = r.irange(1, maxn);
    std::vector<Elem> v;
    std::set<int> used;
    for (int i = 0; i < n; i++) {
        int z = r.chance(0.5) ? r.irange(1, 20) : r.irange(1, 98);
        if (!used.insert(z).second) continue;
        double a = 0;
        if (r.chance(0.25)) a = std::round(catima::element_atomic_weight(z));
        if (a < 1) a = 0;
        v.push_back({a, z, (double)r.irange(1, 12)});
    }
    return v;
}

inline Material make_stoich(const std::vector<Elem>& v) {
    Material m;
    for (auto& e : v) m.add_element(e.a, e.z, e.n);
    return m;
}

// material without thickness; kind reports how it was made
inline Material gen_material(Rng& r, std::string* desc = nullptr) {
    double q = r.uni();
    Material m;
    std::string d;
    if (q < 0.45) {
        int z = r.chance(0.5) ? r.pick(std::vector<int>{1, 2, 4, 6, 7, 13, 14, 18, 22, 26, 29, 47, 50, 74, 79, 82, 92}) : r.irange(1, 98);
        m = catima::get_material(z);
        d = fmt("el%d", z);
        if (r.chance(0.2)) {
            double a = std::max(1.0, std::round(catima::element_atomic_weight(z) * r.uni(0.95, 1.1)));
            m = Material(a, z, r.loguni(1e-4, 20));
            d = fmt("el%d a=%g", z, a);
        }
    } else if (q < 0.75) {
        int id = r.pick(compound_ids());
        m = catima::get_material(id);
        d = fmt("id%d", id);
    } else {
        auto v = gen_stoich(r);
        m = make_stoich(v);
        d = "st[";
        for (auto& e : v) d += fmt("%d:%g:%g ", e.z, e.a, e.n);
        d += "]";
        m.density(r.loguni(1e-4, 20));
    }
    if (!(m.density() > 0)) m.density(r.loguni(1e-3, 10));
    if (r.chance(0.08)) m.density(r.loguni(1e-5, 25));
    if (r.chance(0.12)) {
        // a custom mean ionisation potential near the elemental ones; not far above that of the lightest element
        double s = 0, w = 0, mn = 1e9;
        for (int i = 0; i < m.ncomponents(); i++) {
            auto t = m.get_element(i);
            double ip = (t.Z == 1) ? 19.2 : (t.Z == 2 ? 41.8 : 16.0 * std::pow(t.Z, 0.9));
            s += m.weight_fraction(i) * t.Z / t.A * std::log(ip); w += m.weight_fraction(i) * t.Z / t.A; mn = std::min(mn, ip);
        }
        double I = std::exp(s / w) * r.uni(0.8, 1.3);
        if (I < 2 * mn + 60) m.I(I);
    }
    d += fmt(" rho=%.17g", m.density());
    if (desc) *desc = d;
    return m;
}

inline Config gen_config(Rng& r, bool scat = true) {
    Config c;
    if (r.chance(0.35)) return c;
    static const std::vector<int> ze = {0, 1, 2, 3, 4, 5};
    if (r.chance(0.6)) c.z_effective = r.pick(ze);
    if (r.chance(0.5)) c.corrections = r.irange(0, 15);
    if (r.chance(0.5)) c.calculation = r.irange(0, 1);
    if (r.chance(0.5)) c.low_energy = r.irange(0, 1);
    if (scat) {
        static const std::vector<int> sc = {0, 1, 2, 255};
        if (r.chance(0.5)) c.scattering = r.pick(sc);
        if (r.chance(0.3)) c.scattering_factor = r.uni(0.2, 3);
    }
    return c;
}

inline std::string desc(const Projectile& p) { return fmt("A=%.17g Z=%.17g Q=%.17g T=%.17g", p.A, p.Z, p.Q, p.T); }
inline std::string desc(const Config& c) { return fmt("cfg(z=%d cor=%d calc=%d low=%d sc=%d f=%.17g)", c.z_effective, c.corrections, c.calculation, c.low_energy, c.scattering, c.scattering_factor); }
inline std::string desc(const Material& m) {
    std::string s = "mat{";
    for (int i = 0; i < m.ncomponents(); i++) { auto t = m.get_element(i); s += fmt("(%.9g,%d,%.9g)", t.A, t.Z, t.stn); }
    s += fmt(" rho=%.17g th=%.17g I=%.9g M=%.9g}", m.density(), m.thickness(), m.I(), m.M());
    return s;
}
inline uint64_t hash_of(const Projectile& p, const Material& m, const Config& c, uint64_t h = 7) {
    h = hash_d(h, p.A); h = hash_d(h, p.Z); h = hash_d(h, p.Q); h = hash_d(h, p.T);
    for (int i = 0; i < m.ncomponents(); i++) { auto t = m.get_element(i); h = hash_d(h, t.A); h = hash_d(h, t.Z); h = hash_d(h, t.stn); }
    h = hash_d(h, m.density()); h = hash_d(h, m.thickness()); h = hash_d(h, m.I());
    h = hash_mix(h, c.z_effective | c.corrections << 8 | c.calculation << 16 | c.low_energy << 20);
    h = hash_mix(h, c.scattering); h = hash_d(h, c.scattering_factor);
    return h;
}

inline double reldiff(double a, double b) {
    if (a == b) return 0;
    if (!std::isfinite(a) || !std::isfinite(b)) return INFINITY;
    return std::fabs(a - b) / std::max(std::fabs(a), std::fabs(b));
}
inline bool same_value(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// relative comparison with absolute floor; reports a violation on mismatch
inline bool expect_close(const std::string& key, double got, double want, double rtol, double atol, const std::function<std::string()>& where) {
    double d = std::fabs(got - want);
    bool ok = (got == want) || (std::isfinite(got) && std::isfinite(want) && d <= atol + rtol * std::max(std::fabs(got), std::fabs(want)));
    if (!ok) H.violation(key, fmt("got %.17g want %.17g : ", got, want) + where());
    return ok;
}

// ---- independent integration: adaptive Gauss-Kronrod 15 on user function -----------------
inline double gk15(const std::function<double(double)>& f, double a, double b, double& err) {
    static const double xk[8] = {0.991455371120812639206854697526329, 0.949107912342758524526189684047851, 0.864864423359769072789712788640926, 0.741531185599394439863864773280788, 0.586087235467691130294144691693013, 0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.0};
    static const double wk[8] = {0.022935322010529224963732008058970, 0.063092092629978553290700663189204, 0.104790010322250183839876322541518, 0.140653259715525918745189590510238, 0.169004726639267902826583426598550, 0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714};
    static const double wg[4] = {0.129484966168869693270611432679082, 0.279705391489276667901467771423780, 0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
    double c = 0.5 * (a + b), h = 0.5 * (b - a);
    double k = 0, g = 0;
    for (int i = 0; i < 8; i++) {
        double s = (i == 7) ? f(c) : f(c - h * xk[i]) + f(c + h * xk[i]);
        k += wk[i] * s;
        if (i % 2) g += wg[i / 2] * s;
    }
    err = std::fabs((k - g) * h);
    return k * h;
}
inline double gl8(const std::function<double(double)>& f, double a, double b) {
    static const double x[4] = {0.183434642495649804939476142360184, 0.525532409916328985817739049189246, 0.796666477413626739591553936475831, 0.960289856497536231683560868569473};
    static const double w[4] = {0.362683783378361982965150449277196, 0.313706645877887287337962201986601, 0.222381034453374470544355994426241, 0.101228536290376259152531354309962};
    double c = 0.5 * (a + b), h = 0.5 * (b - a), s = 0;
    for (int i = 0; i < 4; i++) s += w[i] * (f(c - h * x[i]) + f(c + h * x[i]));
    return s * h;
}
inline double adapt(const std::function<double(double)>& f, double a, double b, double rtol, int depth = 0) {
    double e;
    double r = gk15(f, a, b, e);
    if (e <= rtol * std::fabs(r) || depth > 14 || !std::isfinite(r)) return r;
    double m = 0.5 * (a + b);
    return adapt(f, a, m, rtol, depth + 1) + adapt(f, m, b, rtol, depth + 1);
}
// integral over energy, split at the model boundaries and in equal log steps
inline double integrate_energy(const std::function<double(double)>& f, double a, double b, double rtol = 1e-9) {
    std::vector<double> br = {a};
    static const double bs[] = {1e-3, 0.025, 1.0, 2.5, 10.0, 30.0, 2000.0, 50000.0, 1e7};
    for (double x : bs) if (x > a && x < b) br.push_back(x);
    br.push_back(b);
    double s = 0;
    for (size_t i = 0; i + 1 < br.size(); i++) {
        double lo = br[i], hi = br[i + 1];
        int n = std::max(1, (int)std::ceil(std::log(hi / lo) / 0.7));
        for (int j = 0; j < n; j++) {
            double x0 = lo * std::pow(hi / lo, double(j) / n), x1 = (j == n - 1) ? hi : lo * std::pow(hi / lo, double(j + 1) / n);
            s += adapt(f, x0, x1, rtol);
        }
    }
    return s;
}

// how well a fixed rule per table step can do between two energies: jumps and kinks of the model inside a step
inline double step_error(const std::function<double(double)>& f, double e1, double e2) {
    auto g = [](int i) { return std::pow(10.0, -3.0 + 10.0 * i / 599.0); };
    double s = 0, e, lq = std::log(10.0) * 10 / 599;
    int i0 = std::max(0, (int)std::floor(std::log(e1 / EMIN) / lq) - 1), i1 = std::min(599, (int)std::ceil(std::log(e2 / EMIN) / lq) + 1);
    for (int i = i0; i < i1; i++) {
        double k = gk15(f, g(i), g(i + 1), e);
        s += std::max(e, std::fabs(k - gl8(f, g(i), g(i + 1))));
    }
    return 2 * s;
}

} // namespace mon

#define MON_MAIN(setup) \
    mon::Harness mon::H; \
    int main(int argc, char** argv) { mon::H.parse(argc, argv); setup; return mon::H.finish(); }
