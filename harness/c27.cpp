// C27: random programs on materials, stacks and projectiles against a plain model of their contents
#include "common.h"
using namespace mon;
using namespace catima;
struct MM { std::vector<Target> el; double rho, th, M, I; }; // model of a material
static bool same_target(const Target& a, const Target& b) { return a.A == b.A && a.Z == b.Z && a.stn == b.stn; }
static bool equal_model(const MM& a, const MM& b) {
    if (a.el.size() != b.el.size() || a.M != b.M || a.I != b.I || std::abs(a.rho - b.rho) > 1e-6) return false;
    for (size_t i = 0; i < a.el.size(); i++) if (!same_target(a.el[i], b.el[i])) return false;
    return true;
}
static bool matches(const Material& m, const MM& x, std::string& why) {
    if (m.ncomponents() != (int)x.el.size()) { why = "components"; return false; }
    for (size_t i = 0; i < x.el.size(); i++) if (!same_target(m.get_element(i), x.el[i])) { why = "element"; return false; }
    if (m.density() != x.rho) { why = "density"; return false; }
    if (m.thickness() != x.th) { why = "thickness"; return false; }
    if (m.I() != x.I) { why = "ionisation potential"; return false; }
    if (!(std::abs(m.M() - x.M) <= 1e-12 * std::abs(x.M))) { why = "molar mass"; return false; }
    return true;
}
static MM model_of(const Material& m) { MM x; for (int i = 0; i < m.ncomponents(); i++) x.el.push_back(m.get_element(i)); x.rho = m.density(); x.th = m.thickness(); x.M = m.M(); x.I = m.I(); return x; }
static std::string prog;
static void stack_checks(Layers& l, const std::vector<MM>& x, const char* what) {
    H.evaluations++;
    if (l.num() != (int)x.size() || l.get_materials().size() != x.size()) { H.violation(std::string("number:") + what, fmt("%d instead of %zu", l.num(), x.size()) + prog); return; }
    double th = 0, cm = 0; std::string why;
    for (size_t i = 0; i < x.size(); i++) {
        if (!matches(l[i], x[i], why) || !matches(l.get_materials()[i], x[i], why)) { H.violation(std::string("layer ") + why + ":" + what, fmt("layer %zu", i) + prog); return; }
        th += x[i].th; cm += x[i].th / x[i].rho;
    }
    if (!(std::abs(l.thickness() - th) <= 1e-12 * std::abs(th))) H.violation("total thickness", fmt("%.17g %.17g", l.thickness(), th) + prog);
    if (!(std::abs(l.thickness_cm() - cm) <= 1e-12 * std::abs(cm))) H.violation("total length", fmt("%.17g %.17g", l.thickness_cm(), cm) + prog);
}
static void programs(long, Rng& r) {
    prog = " program:";
    std::vector<Material> ms; std::vector<MM> mx;
    std::vector<Layers> ls(r.irange(1, 4)); std::vector<std::vector<MM>> lx(ls.size());
    int n = r.irange(10, 60);
    for (int i = 0; i < 3; i++) { Material m = gen_material(r); m.thickness(r.loguni(1e-4, 10)); ms.push_back(m); mx.push_back(model_of(m)); }
    uint64_t h = 1;
    auto li = [&] { return r.irange(0, ls.size() - 1); };
    auto mi = [&] { return r.irange(0, ms.size() - 1); };
    for (int s = 0; s < n; s++) {
        int op = r.irange(0, 16), a = li(), b = li(), m = mi();
        if (ls[a].num() + ls[b].num() > 300 && (op == 2 || op == 3 || op == 4 || op == 15)) { ls[a] = Layers(); lx[a].clear(); }
        if (r.chance(0.15)) b = a;
        h = hash_mix(h, op * 64 + a * 8 + b);
        prog += fmt(" %d:%d,%d,%d", op, a, b, m);
        switch (op) {
        case 0: case 1: ls[a].add(ms[m]); lx[a].push_back(mx[m]); break;
        case 2: ls[a].add(ls[b]); { auto c = lx[b]; lx[a].insert(lx[a].end(), c.begin(), c.end()); } if (a == b) H.count("stacks added to themselves"); else H.count("stacks added"); break;
        case 3: { Layers j = ls[a] + ls[b]; auto c = lx[a]; c.insert(c.end(), lx[b].begin(), lx[b].end()); stack_checks(j, c, "join"); if (j.num()) { j[0].thickness(77); j[j.num() - 1].density(33); } H.count("stacks joined"); break; }
        case 4: { Layers j = ls[a] + ms[m]; auto c = lx[a]; c.push_back(mx[m]); stack_checks(j, c, "join material"); j[j.num() - 1].thickness(99); break; }
        case 5: ls[a] = ls[b]; lx[a] = lx[b]; break;
        case 6: { Layers c(ls[a]); auto x = lx[a]; if (c.num()) { int i = r.irange(0, c.num() - 1); c[i].thickness(5).density(2).I(70); x[i].th = 5; x[i].rho = 2; x[i].I = 70; } stack_checks(c, x, "copy"); H.count("copies changed"); break; }
        case 7: if (ls[a].num()) { int i = r.irange(0, ls[a].num() - 1); double v = r.loguni(1e-4, 10); ls[a][i].thickness(v); lx[a][i].th = v; } break;
        case 8: if (ls[a].num()) { int i = r.irange(0, ls[a].num() - 1); double v = r.loguni(1e-3, 10), d = r.loguni(1e-3, 10); ls[a][i].density(d).thickness_cm(v); lx[a][i].rho = d; lx[a][i].th = d * v; } break;
        case 9: { double v = r.loguni(1e-4, 10); ms[m].thickness(v); mx[m].th = v; break; }
        case 10: { double v = r.loguni(1e-3, 20); ms[m].density(v); mx[m].rho = v; break; }
        case 11: { double v = r.uni(10, 900); ms[m].I(v); mx[m].I = v; break; }
        case 12: { double v = r.uni(1, 300); ms[m].M(v); mx[m].M = v; break; }
        case 13: { Material c = ms[m]; MM x = mx[m]; ms.push_back(c); mx.push_back(x); break; }
        case 14: { // a material with one more element
            int z = r.irange(1, 90); double n2 = r.irange(1, 5), aa = r.chance(0.5) ? 0 : z * 2.3 + 1; ms[m].add_element(aa, z, n2);
            double w = aa > 0 ? aa : element_atomic_weight(z); mx[m].el.push_back({w, z, n2}); mx[m].M += n2 * w; break; }
        case 15: if (ls[a].num()) { int i = r.irange(0, ls[a].num() - 1); Material t = ls[a][i]; ls[a].add(ls[a][i]); lx[a].push_back(MM(lx[a][i])); H.count("own layers added"); } break;
        default: { Layers moved(std::move(ls[a])); ls[a] = moved; stack_checks(moved, lx[a], "move"); break; }
        }
        for (size_t i = 0; i < ls.size(); i++) stack_checks(ls[i], lx[i], "program");
        std::string why;
        for (size_t i = 0; i < ms.size(); i++) if (!matches(ms[i], mx[i], why)) { H.violation("material changed:" + why, prog); return; }
    }
    H.count("programs"); H.nontrivial(h);
}
static Material rebuild(const MM& x) { Material m; for (auto& t : x.el) m.add_element(t.A, t.Z, t.stn); m.M(x.M); m.density(x.rho).thickness(x.th).I(x.I); return m; }
static void compare(long k, Rng& r) {
    Material a = gen_material(r); a.thickness(r.loguni(1e-4, 10));
    if (r.chance(0.3)) a.I(r.uni(20, 800));
    MM x = model_of(a), y = x;
    int n = r.irange(0, 2); std::string what = "same";
    auto tiny = [&](double v) { switch (r.irange(0, 3)) { case 0: return std::nextafter(v, 1e300); case 1: return v * (1 + 1e-9); case 2: return v * 1.001; default: return v * 1.5; } };
    for (int i = 0; i < n; i++) switch (r.irange(0, 9)) {
        case 0: y.th = tiny(y.th); what += " thickness"; break;
        case 1: { double d = r.pick(std::vector<double>{0.5e-6, 0.99e-6, 1.01e-6, 2e-6, 1e-4, 1e-3, 1e-9}); y.rho += r.chance(0.5) ? d : -d; if (y.rho <= 0) y.rho = x.rho + d; what += fmt(" density%+g", y.rho - x.rho); break; }
        case 2: y.I = y.I > 0 ? tiny(y.I) : 80; what += " I"; break;
        case 3: y.M = tiny(y.M); what += " M"; break;
        case 4: { int j = r.irange(0, y.el.size() - 1); y.el[j].A = tiny(y.el[j].A); what += " A"; break; }
        case 5: { int j = r.irange(0, y.el.size() - 1); y.el[j].Z = y.el[j].Z > 1 ? y.el[j].Z - 1 : 2; what += " Z"; break; }
        case 6: { int j = r.irange(0, y.el.size() - 1); y.el[j].stn = tiny(y.el[j].stn); what += " count"; break; }
        case 7: y.el.push_back({12.011, 6, 1}); what += " element added"; break;
        case 8: if (y.el.size() > 1) { y.el.pop_back(); what += " element removed"; } break;
        default: if (y.I > 0) { y.I = 0; what += " I removed"; } break;
    }
    Material b = rebuild(y);
    double d = std::abs(x.rho - y.rho);
    if (std::abs(d - 1e-6) < 1e-12) { H.skipped++; return; }
    bool want = equal_model(x, y), got = a == b, rev = b == a;
    H.evaluations += 2; H.count(want ? "equal materials" : "different materials"); H.nontrivial(hash_mix(hash_of(Projectile(), a, Config()), std::hash<std::string>()(what)));
    if (got != want || rev != want) H.violation(std::string(want ? "not equal:" : "equal:") + what.substr(0, what.find_first_of("+-")), desc(a) + " / " + desc(b));
    if (!(a == a) || !(b == b)) H.violation("not equal to itself", desc(a));
    Projectile p = gen_projectile(r), q = p; bool pe = true;
    p.T = r.uni(1, 1000); if (r.chance(0.5)) q.T = r.uni(1, 1000);
    switch (r.irange(0, 4)) { case 0: q.A = tiny(q.A); pe = false; break; case 1: q.Z += 1; pe = false; break; case 2: q.Q = q.Q > 1 ? q.Q - 1 : 0.5; pe = false; break; case 3: { double t = r.uni(1, 100); Projectile& ref = q(t); if (&ref != &q || q.T != t) H.violation("projectile energy setter", desc(q)); break; } default: break; }
    H.evaluations++; H.count(pe ? "equal projectiles" : "different projectiles");
    if ((p == q) != pe || (q == p) != pe) H.violation(pe ? "projectiles not equal" : "projectiles equal", desc(p) + " / " + desc(q));
    double A = r.uni(1, 200), Z = r.irange(1, 90), Q = r.irange(1, 90), T = r.uni(0, 100);
    Projectile u(A, Z), v(A, Z, Q), w(A, Z, Q, T); H.evaluations++;
    if (u.A != A || u.Z != Z || u.Q != Z || u.T != 0 || v.Q != Q || w.T != T || w.Q != Q) H.violation("projectile constructor", desc(w));
    unsigned char place[sizeof(Result)] __attribute__((aligned(16))); // fresh values in memory that held something else
    auto zero = [&](const char* what, double x) { H.evaluations++; if (x != 0 || std::signbit(x)) H.violation(std::string("fresh value:") + what, fmt("%g", x)); };
    memset(place, r.irange(1, 255), sizeof place);
    { auto& f = *new (place) Result; for (double x : {f.Ein, f.Eout, f.Eloss, f.range, f.dEdxi, f.dEdxo, f.sigma_E, f.sigma_a, f.sigma_r, f.sigma_x, f.cov, f.tof}) zero("result", x); zero("survival", f.sp - 1); }
    { auto& f = *new (place) Projectile; for (double x : {f.A, f.Z, f.Q, f.T}) zero("projectile", x); }
    { auto& f = *new (place) Phasespace; for (double x : {f.sigma_x, f.sigma_a, f.cov_x}) zero("phase space", x); }
    { auto& f = *new (place) Target; for (double x : {f.A, (double)f.Z, f.stn - 1}) zero("constituent", x); }
    { Material f; for (double x : {f.thickness(), f.I(), (double)f.ncomponents()}) zero("material", x); Layers l; zero("stack", l.num() + l.thickness()); }
    { MultiResult f; zero("stack result", f.results.size()); zero("stack result", f.total_result.Eout); zero("stack result", f.total_result.sp - 1); }
    H.count("fresh values");
    if (k % 2000 == 1) H.sample("{\"a\":\"" + jesc(desc(a)) + "\",\"change\":\"" + what + "\"," + fmt("\"equal\":%d}", got));
}
static void one(long k, Rng& r) { if (k % 4 == 0) programs(k, r); else compare(k, r); }
MON_MAIN(H.run(one))
