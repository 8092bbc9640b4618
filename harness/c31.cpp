// C31: the same calls in builds and runs whose fresh memory has different contents. One run writes its numbers to a file (--dump), others compare theirs with it bit by bit (--ref).
#include "query.h"
#include "catima/storage.h"
#include "catima/abundance_database.h"
using namespace mon;
using namespace catima;
static std::vector<std::vector<double>> refs;
static size_t refpos = 0;
static FILE* fout = nullptr;
// leave different contents on the stack and in freed blocks, so that what an earlier call left there cannot be right by accident
static void __attribute__((noinline)) dirty(unsigned char b) {
    volatile unsigned char a[65536];
    for (size_t i = 0; i < sizeof a; i++) a[i] = b;
    for (size_t n : {16, 64, 200, 1000, 4800, 4900, 60000}) { void* p = malloc(n); if (p) memset(p, b, n); asm volatile("" : : "r"(p) : "memory"); free(p); }
}
static void defaults(std::vector<double>& v) {
    Result a; put(v, a);
    MultiResult m; put(v, m.total_result); v.push_back(m.results.size());
    Material t; v.push_back(t.density()); v.push_back(t.thickness()); v.push_back(t.M()); v.push_back(t.I()); v.push_back(t.ncomponents());
    Material u(12, 6); v.push_back(u.density()); v.push_back(u.thickness()); v.push_back(u.M()); v.push_back(u.I());
    Projectile p; v.push_back(p.A); v.push_back(p.Z); v.push_back(p.Q); v.push_back(p.T);
    Projectile p2(4, 2); v.push_back(p2.Q); v.push_back(p2.T);
    Config c; v.push_back(c.z_effective); v.push_back(c.corrections); v.push_back(c.calculation); v.push_back(c.low_energy); v.push_back(c.scattering); v.push_back(c.scattering_factor);
    Phasespace ps; v.push_back(ps.sigma_x); v.push_back(ps.sigma_a); v.push_back(ps.cov_x);
    Layers l; v.push_back(l.num()); v.push_back(l.thickness());
    Target x; v.push_back(x.A); v.push_back(x.Z); v.push_back(x.stn);
    DataPoint d; v.push_back(d.range.size()); v.push_back(d.p.A); v.push_back(d.m.density());
}
static void one(long k, Rng& r) {
    Query q = gen_query(r);
    if (k % QKINDS != q.kind) { q.kind = k % QKINDS; if (q.kind == 14 && q.stack.empty()) { q.m.thickness(q.th * 0.3); q.stack = {q.m, q.m}; } }
    unsigned char b = strtoul(H.opt["--fill"].c_str(), nullptr, 0);
    if (r.chance(0.05)) { dirty(b); _storage.Reset(); }
    dirty(b);
    std::vector<double> v = eval(q);
    dirty(b ^ 0x5a);
    std::vector<double> w = eval(q);
    H.evaluations++;
    if (!identical(v, w)) H.violation(std::string("repeated-") + kind_name(q.kind), show(v, w) + desc(q));
    if (k % 50 == 0) { dirty(b); defaults(v); H.count("default objects"); }
    if (k % 5 == 0) { // direct functions
        dirty(b);
        Projectile p = q.p; p.T = q.T; Target t = q.m.get_element(0);
        v.push_back(dedx_n(p, t)); v.push_back(dedx_variance(p, t, q.c)); v.push_back(bethek_dedx_e(p, t, q.c)); v.push_back(z_effective(p, t, q.c)); v.push_back(bethek_lindhard(p)); v.push_back(bethek_lindhard_X(p));
        v.push_back(precalculated_lindhard(p)); v.push_back(precalculated_lindhard_X(p)); v.push_back(pair_production(p, t)); v.push_back(bremsstrahlung(p, t)); v.push_back(sezi_dedx_e(p, q.m, q.c)); v.push_back(scattering_length(q.m));
        Material g = get_material(r.irange(-5, 360)); v.push_back(g.density()); v.push_back(g.M()); v.push_back(g.ncomponents()); v.push_back(g.thickness()); v.push_back(g.I());
        dirty(b);
        int z = r.irange(1, 99); v.push_back(abundance::get_isotopes_num(z)); v.push_back(abundance::get_isotope_a(z, 0)); v.push_back(abundance::get_abundance(z, 0));
    }
    H.count("numbers", v.size()); H.count(kind_name(q.kind));
    H.nontrivial(hash_mix(hash_d(hash_of(q.p, q.m, q.c), q.T), q.kind));
    if (fout) {
        uint64_t c = v.size();
        if (fwrite(&k, 8, 1, fout) != 1 || fwrite(&c, 8, 1, fout) != 1 || fwrite(v.data(), 8, c, fout) != c) _exit(3);
        return;
    }
    if (refpos >= refs.size()) _exit(3);
    auto& ref = refs[refpos++];
    H.evaluations += v.size();
    if (!identical(v, ref)) H.violation(std::string("memory-contents-") + kind_name(q.kind), show(v, ref) + desc(q));
    if (k % 60 == 0) H.sample(fmt("{\"call\":\"%s\",\"numbers compared\":%zu}", jesc(desc(q)).c_str(), v.size()));
}
static void all() {
    std::string f = fmt("%s.%d", (H.opt.count("--dump") ? H.opt["--dump"] : H.opt["--ref"]).c_str(), H.shard);
    if (H.opt.count("--dump")) { fout = fopen(f.c_str(), "wb"); if (!fout) _exit(3); H.run(one); fclose(fout); return; }
    FILE* fi = fopen(f.c_str(), "rb"); if (!fi) _exit(3);
    for (uint64_t h[2]; fread(h, 8, 2, fi) == 2;) { if (h[1] > 1000000) _exit(3); std::vector<double> v(h[1]); if (fread(v.data(), 8, h[1], fi) != h[1]) _exit(3); if (H.only < 0 || (long)h[0] == H.only) refs.push_back(v); }
    fclose(fi);
    H.run(one);
}
MON_MAIN(all())
