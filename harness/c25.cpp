// C25: exported MOCADI files are parsed and compared with the beam and layers they were made from
#include "common.h"
#include "catima/convert.h"
#include <csignal>
#include <sys/resource.h>
using namespace mon;
using namespace catima;
static std::vector<std::string> lines(const std::string& f) {
    std::vector<std::string> v; std::string s;
    FILE* i = fopen(f.c_str(), "r"); if (!i) return v;
    int c; while ((c = fgetc(i)) != EOF) { if (c == '\n') { v.push_back(s); s.clear(); } else s += c; }
    if (!s.empty()) v.push_back(s);
    fclose(i); return v;
}
static std::string bytes(const std::string& f) { std::string s; if (FILE* i = fopen(f.c_str(), "rb")) { int c; while ((c = fgetc(i)) != EOF) s += (char)c; fclose(i); } return s; }
static std::vector<double> nums(const std::string& s) {
    std::vector<double> v; const char* p = s.c_str();
    while (*p) { char* e; double d = strtod(p, &e); if (e == p) { p++; continue; } v.push_back(d); p = e; }
    return v;
}
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }
static bool near(double got, double want) { return std::abs(got - want) <= 0.51e-6 + 1e-12 * std::abs(want); }
// a predefined compound with something changed: no number of another material may stand for it
static void changed(Rng& r) {
    int id = r.pick(compound_ids());
    Material g = get_material(id), m;
    std::vector<std::array<double, 3>> el;
    for (int i = 0; i < g.ncomponents(); i++) { auto t = g.get_element(i); el.push_back({t.A, (double)t.Z, t.stn}); }
    double rho = g.density(), M = g.M(); const char* what = "nothing";
    int i = r.irange(0, el.size() - 1), j = r.irange(0, el.size() - 1);
    auto tiny = [&](double v) { return r.chance(0.3) ? std::nextafter(v, 1e300) : v * (1 + r.loguni(1e-12, 0.5)); };
    switch (r.irange(0, 8)) {
    case 0: rho += r.chance(0.5) ? r.loguni(1e-5, 1) : r.loguni(1e-12, 5e-7); what = "density"; break;
    case 1: el[i][2] = tiny(el[i][2]); what = "amount"; break;
    case 2: el[i][0] = tiny(el[i][0]); what = "mass"; break;
    case 3: el[i][1] = el[i][1] > 1 ? el[i][1] - 1 : 2; what = "element"; break;
    case 4: std::swap(el[i][2], el[j][2]); what = "amounts exchanged"; break;
    case 5: if (r.chance(0.5)) el.push_back(el[j]); else if (el.size() > 2) el.pop_back(); what = "number of elements"; break;
    case 6: M = tiny(M); what = "molar mass"; break;
    case 7: std::swap(el[i], el[j]); what = "order"; break;
    default: break;
    }
    for (auto& e : el) m.add_element(e[0], e[1], e[2]);
    m.M(M); m.density(rho).thickness(r.loguni(1e-3, 10)); // the molar mass stays unless it is what changes
    std::vector<int> fit;
    for (int q = 201; q <= 349; q++) {
        Material c = get_material(q);
        bool same = c.ncomponents() == (int)el.size() && std::abs(c.density() - rho) <= 1e-6 && c.M() == M;
        for (size_t e = 0; same && e < el.size(); e++) { auto t = c.get_element(e); same = t.A == el[e][0] && t.Z == el[e][1] && t.stn == el[e][2]; }
        if (same) fit.push_back(q);
    }
    int got = materialdb_id(m);
    H.evaluations++; H.count(fit.empty() ? "changed compounds" : "compounds equal to a predefined one"); H.count(std::string("changed: ") + what);
    if (fit.empty() ? got != 0 : std::find(fit.begin(), fit.end(), got) == fit.end()) H.violation(std::string("number of a changed compound:") + what, fmt("%d changed in %s gets %d; ", id, what, got) + desc(m));
}
static std::string squeeze(const std::string& s) { std::string t; for (char c : s) if (!isspace((unsigned char)c)) t += c; return t; }
static void one(long k, Rng& r) {
    for (int q = 0; q < 2; q++) changed(r);
    std::string f = fmt("%s/c25.%d", H.scratch.c_str(), H.shard);
    Projectile p = gen_projectile(r); p.T = r.loguni(0.01, 1e5);
    Phasespace px{r.chance(0.3) ? 0 : r.loguni(1e-3, 10), r.chance(0.3) ? 0 : r.loguni(1e-5, 0.1), r.uni(0, 1)}, py{r.loguni(1e-3, 10), r.loguni(1e-5, 0.1), 0};
    Layers l; std::vector<int> ids; int n = r.irange(0, 6);
    if (k < 149) n = std::max(n, 1);
    std::string where;
    for (int i = 0; i < n; i++) {
        Material m; int id = 0;
        if (k < 149 && i == 0) { id = 201 + k; m = get_material(id); }
        else if (r.chance(0.5)) { id = r.pick(compound_ids()); m = get_material(id); }
        else { int z = r.irange(1, 98); m = r.chance(0.5) ? get_material(z) : Material(r.chance(0.5) ? 0 : r.uni(1, 250), z, r.loguni(1e-4, 20)); if (r.chance(0.2)) m.density(r.loguni(1e-4, 20)); if (r.chance(0.2)) { m = Material({{r.chance(0.5) ? 0 : r.uni(1, 250), (double)z, r.chance(0.5) ? r.irange(1, 4) : r.uni(0.1, 5)}}, r.loguni(1e-4, 20), 0, r.chance(0.3) ? r.uni(1, 300) : 0); H.count("elements with an amount"); } }
        m.thickness(r.chance(0.05) ? 0 : r.loguni(1e-4, 100));
        if (id && m.ncomponents() == 1) id = 0;
        l.add(m); ids.push_back(id); where += fmt(" id=%d ", id) + desc(m);
    }
    bool few = r.chance(0.1);
    bool ok = few ? save_mocadi(f.c_str(), p, l) : save_mocadi(f.c_str(), p, l, px, py);
    if (few) px = py = Phasespace();
    auto v = lines(f);
    std::string whole = bytes(f);
    unlink(f.c_str());
    std::string text; for (auto& s : v) text += s + "|";
    auto bad = [&](const std::string& key, const std::string& d) { H.violation(key, d + where + " file: " + text.substr(0, 1500)); };
    H.evaluations++; H.nontrivial(hash_d(std::hash<std::string>()(where), p.T));
    if (!ok) { bad("reported failure", ""); return; }
    size_t b = 0; while (b < v.size() && trim(v[b]) != "BEAM") b++;
    if (b + 7 >= v.size()) { bad("no beam", ""); return; }
    auto e = nums(v[b + 2]), sx = nums(v[b + 4]), sy = nums(v[b + 6]);
    H.evaluations++;
    if (e.size() < 4 || !near(e[0], p.T) || !near(e[2], p.A) || !near(e[3], p.Z)) bad("beam", v[b + 2] + " " + desc(p));
    if (sx.size() < 2 || !near(sx[0], px.sigma_x) || !near(sx[1], 1000 * px.sigma_a)) bad("horizontal spread", v[b + 4] + fmt(" %.17g %.17g", px.sigma_x, px.sigma_a));
    if (sy.size() < 2 || !near(sy[0], py.sigma_x) || !near(sy[1], 1000 * py.sigma_a)) bad("vertical spread", v[b + 6] + fmt(" %.17g %.17g", py.sigma_x, py.sigma_a));
    { // what does not depend on the arguments, with the lines that do left out
        std::string fixed, want = "epax2|atima-1.0|optionlistmoderoot|BEAM|100000||2||2||1|0,0,0,0,0|";
        for (int q = 0; q < n; q++) want += "*******|MATTER|||0.|0.,0.,0.|1,1,0|0,0,0,0|";
        want += "ERWARTUNGSWERTE|SAVE|END|";
        for (size_t q = 0; q < v.size(); q++) fixed += (q == b + 2 || q == b + 4 || q == b + 6 || (q > 0 && squeeze(v[q - 1]) == "MATTER") || (q > 1 && squeeze(v[q - 2]) == "MATTER") ? "" : squeeze(v[q])) + "|";
        H.evaluations++; H.count("fixed parts");
        if (fixed != want) bad("fixed part", fixed);
        if (e.size() != 4 || e[1] != 0 || sx.size() != 5 || sx[2] || sx[3] || sx[4] || sy.size() != 5 || sy[2] || sy[3] || sy[4]) bad("fixed part", "beam");
    }
    int i = 0;
    for (size_t q = b; q < v.size(); q++) if (trim(v[q]) == "MATTER") {
        if (i >= n || q + 2 >= v.size()) { i++; continue; }
        auto x = nums(v[q + 1]), t = nums(v[q + 2]);
        Material m = l[i];
        H.evaluations++; H.count(ids[i] ? "compound layers" : "element layers");
        if (x.size() < 3 || t.size() < 2) { bad("layer format", v[q + 1]); return; }
        if (x.size() != 3 || t.size() != 2 || t[0] != 2) bad("layer format", v[q + 1] + " " + v[q + 2]);
        if (ids[i]) {
            // several ids may describe the same material
            int z = std::lround(x[1]); Material g = get_material(z); bool same = g.ncomponents() == m.ncomponents() && std::abs(g.density() - m.density()) < 2e-6;
            for (int j = 0; same && j < m.ncomponents(); j++) { auto s = g.get_element(j), u = m.get_element(j); same = s.Z == u.Z && s.A == u.A && s.stn == u.stn; }
            if (!same) bad("compound id", fmt("layer %d printed id %g instead of %d", i, x[1], ids[i]));
            if (z == ids[i]) H.count("own id");
            int mid = materialdb_id(m); H.evaluations++;
            if (mid != z) bad("materialdb_id", fmt("%d, file %d", mid, z));
        }
        else if (!near(x[0], m.get_element(0).A) || x[1] != m.get_element(0).Z) bad("element", fmt("layer %d ", i) + v[q + 1]);
        if (!near(x[2], 1000 * m.density())) bad("density", fmt("layer %d ", i) + v[q + 1]);
        if (!near(t[1], m.thickness() / m.density())) bad("length", fmt("layer %d ", i) + v[q + 2] + fmt(" %.17g", m.thickness() / m.density()));
        i++;
    }
    H.evaluations++;
    if (i != n) bad("number of layers", fmt("%d printed, %d given", i, n));
    if (trim(v.back()) != "END") bad("unfinished file", "");
    if (k % 8 == 0) {
        H.evaluations++; H.count("unwritable files");
        std::string g = r.pick(std::vector<std::string>{H.scratch + "/nonexistent/file", H.scratch, "", "/dev/full"});
        if (save_mocadi(g.c_str(), p, l, px, py)) bad("failure not reported", g);
    }
    if (k % 8 == 4) { // the file system accepts only so many bytes
        size_t size = whole.size();
        struct rlimit old; getrlimit(RLIMIT_FSIZE, &old); auto sig = signal(SIGXFSZ, SIG_IGN);
        for (size_t lim : {(size_t)0, (size_t)1, size / 2, (size_t)(r.u64() % size), size - 2, size - 1, size, size + 1}) {
            struct rlimit now = old; now.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &now);
            bool done = few ? save_mocadi(f.c_str(), p, l) : save_mocadi(f.c_str(), p, l, px, py);
            setrlimit(RLIMIT_FSIZE, &old);
            std::string again = bytes(f);
            unlink(f.c_str());
            H.evaluations++; H.count(again == whole ? "limited, complete" : "limited, incomplete");
            if (done != (again == whole)) bad(done ? "incomplete file reported as written" : "complete file reported as failure", fmt("%zu of %zu bytes accepted", lim, size));
        }
        signal(SIGXFSZ, sig);
    }
    if (k % 500 == 0) H.sample("{\"layers\":\"" + jesc(where) + "\",\"file\":\"" + jesc(text.substr(0, 300)) + "\"}");
}
MON_MAIN(H.run(one))
