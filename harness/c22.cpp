// C22: the calculator program on generated input files against the library called for the same description
#include "common.h"
#include "ref.h"
#include <sys/wait.h>
#include <sys/stat.h>
using namespace mon;
using namespace catima;
static std::string num(Rng& r, double v) {
    std::string s = fmt("%.17g", v);
    if (s.find_first_of(".en") == std::string::npos && r.chance(0.3)) s += ".0";
    return s;
}
struct Out { int status; bool timeout; std::string out, err; };
static std::string slurp(const std::string& f) { std::string s; if (FILE* i = fopen(f.c_str(), "rb")) { char b[65536]; for (size_t n; (n = fread(b, 1, sizeof b, i)) > 0;) s.append(b, n); fclose(i); } return s; }
static std::string base;
static Out run_calc(const std::string& file) {
    std::string o = base + ".out", e = base + ".err";
    pid_t pid = fork();
    if (pid < 0) _exit(3);
    if (!pid) {
        int fo = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fo < 0 || fe < 0) _exit(126);
        dup2(fo, 1); dup2(fe, 2);
        signal(SIGALRM, SIG_DFL); signal(SIGPROF, SIG_DFL); alarm(40);
        const char* c = H.opt["--calc"].c_str();
        if (file.empty()) execl(c, c, (char*)nullptr); else execl(c, c, file.c_str(), (char*)nullptr);
        _exit(126);
    }
    Out r; r.timeout = false;
    if (waitpid(pid, &r.status, 0) != pid) _exit(3);
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 126) _exit(3);
    if (WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM) r.timeout = true;
    r.out = slurp(o); r.err = slurp(e);
    return r;
}
static void write_file(const std::string& f, const std::string& s) { FILE* o = fopen(f.c_str(), "wb"); if (!o) _exit(3); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static bool crashed(const Out& o) { return (WIFSIGNALED(o.status) && !o.timeout) || o.err.find("Sanitizer") != std::string::npos || o.err.find("runtime error") != std::string::npos || o.err.find("terminate called") != std::string::npos; }
static std::string crash_key(const Out& o) {
    if (WIFSIGNALED(o.status)) return fmt("crash:signal %d", WTERMSIG(o.status));
    size_t p = o.err.find("runtime error: "); if (p != std::string::npos) { std::string s = o.err.substr(p + 15, 40); for (char& c : s) if (c < 32 || isdigit((unsigned char)c) || c == '"') c = '.'; return "crash:ub " + s; }
    p = o.err.find("Sanitizer: "); return "crash:" + (p == std::string::npos ? std::string("abort") : o.err.substr(p + 11, 25));
}
struct Mat { double A = 0, rho = 0, th = 0, I = 0; int Z = 0; bool hasA = 0, hasrho = 0, hasth = 1, hasI = 0; };
static std::string mat_json(const Mat& m, Rng& r) {
    std::vector<std::string> f;
    if (m.hasA) f.push_back("\"A\":" + num(r, m.A));
    f.push_back(fmt("\"Z\":%d", m.Z));
    if (m.hasrho) f.push_back("\"density\": " + num(r, m.rho));
    if (m.hasth) f.push_back("\"thickness\":" + num(r, m.th));
    if (m.hasI) f.push_back("\"Ipot\":" + num(r, m.I));
    if (r.chance(0.1)) f.push_back("\"comment\":\"x\"");
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[r.u64() % i]);
    std::string s = "{";
    for (size_t i = 0; i < f.size(); i++) s += (i ? ", " : "") + f[i];
    return s + "}";
}
struct Spec { double A, Z; std::vector<double> energies; std::string ejson; std::vector<Mat> mats; bool single = false; std::string conf; };
static double typical_ipot(const Material& m) {
    double s = 0;
    for (int i = 0; i < m.ncomponents(); i++) s += m.weight_fraction(i) * ref::ipot(m.get_element(i).Z);
    return m.I() > 0 ? m.I() : s;
}
static Spec gen(Rng& r) {
    Spec s;
    Projectile p = gen_projectile(r); s.A = r.chance(0.3) ? std::round(p.A) : p.A; s.Z = p.Z;
    double e = r.chance(0.8) ? r.loguni(20, 2000) : r.loguni(1e-2, 1e6);
    double R = 1e-3 + 5e-3 * std::pow(e, 1.7) * s.A / (s.Z * s.Z) / (1 + e / 300);
    switch (r.irange(0, 4)) {
    case 0: s.energies = {e}; s.ejson = num(r, e); break;
    case 1: s.energies = {e}; s.ejson = "\"" + fmt("%.17g", e) + "\""; break;
    case 2: { int n = r.irange(1, 4); s.ejson = "["; for (int i = 0; i < n; i++) { double v = e * r.uni(0.7, 1.5); s.energies.push_back(v); s.ejson += (i ? "," : "") + num(r, v); } s.ejson += "]"; break; }
    case 3: { int n = r.irange(2, 6); double b = e * r.uni(1.1, 3); for (int i = 0; i < n; i++) s.energies.push_back(i == n - 1 ? b : e + (b - e) * i / (n - 1)); s.ejson = "{\"min\":" + num(r, e) + ",\"max\":" + num(r, b) + fmt(",\"num\":%d}", n); break; }
    default: { // steps: whole steps that fit between the limits
        double st = std::round(e * r.uni(0.05, 0.4) * 100) / 100; if (st <= 0) st = 0.01;
        e = std::round(e * 100) / 100 + 0.01; int n = r.irange(1, 6);
        double b = e + n * st + (r.chance(0.5) ? 0 : st * r.uni(0.1, 0.9));
        for (int i = 0; i <= n; i++) s.energies.push_back(e + i * st);
        s.ejson = "{\"min\":" + num(r, e) + ",\"max\":" + num(r, b) + ",\"step\":" + num(r, st) + "}"; break; }
    }
    int n = r.chance(0.4) ? 1 : r.irange(1, 4);
    s.single = n == 1 && r.chance(0.5);
    for (int i = 0; i < n; i++) {
        Mat m;
        if (r.chance(0.65)) { m.Z = r.irange(1, 98); if (r.chance(0.5)) { m.hasA = true; m.A = r.chance(0.2) ? 0 : r.chance(0.5) ? std::round(element_atomic_weight(m.Z)) : element_atomic_weight(m.Z); } }
        else { m.Z = r.pick(compound_ids()); if (r.chance(0.2)) { m.hasA = true; m.A = r.chance(0.5) ? 0 : 12; } }
        if (r.chance(0.5)) { m.hasrho = true; m.rho = r.chance(0.1) ? 0 : r.loguni(1e-4, 20); }
        if (r.chance(0.3)) { m.hasI = true; m.I = r.chance(0.2) ? 0 : r.uni(0.6, 1.6) * typical_ipot(m.Z < 200 ? Material(0, m.Z, 1, 1) : get_material(m.Z)); }
        m.th = R * r.uni(0.01, 1.0) / n; if (r.chance(0.05)) m.th = 0; if (r.chance(0.05)) { m.hasth = false; m.th = 0; }
        s.mats.push_back(m);
    }
    s.conf = r.pick(std::vector<std::string>{"", "", "atimav1.3", "atimav1.4", "other"});
    return s;
}
static std::string text(const Spec& s, Rng& r) {
    std::vector<std::string> f;
    f.push_back("\"projectile\":[" + num(r, s.A) + ", " + num(r, s.Z) + "]");
    f.push_back("\"energy\": " + s.ejson);
    std::string m;
    if (s.single) m = mat_json(s.mats[0], r);
    else { m = "["; for (size_t i = 0; i < s.mats.size(); i++) m += (i ? ",\n  " : "") + mat_json(s.mats[i], r); m += "]"; }
    f.push_back("\"material\":" + m);
    if (!s.conf.empty()) f.push_back("\"config\":\"" + s.conf + "\"");
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[r.u64() % i]);
    std::string t = "{\n";
    for (size_t i = 0; i < f.size(); i++) t += f[i] + (i + 1 < f.size() ? ",\n" : "\n");
    return t + "}\n";
}
static bool same(double got, double want) { return got == want || (std::isnan(got) && std::isnan(want)) || std::abs(got - want) <= 1.2e-5 * std::abs(want) + 1e-300; }
// value printed after "label = " from position pos on; moves pos behind it
static bool take(const std::string& o, size_t& pos, const char* label, double& v) {
    std::string l = std::string(label) + " = ";
    size_t p = o.find(l, pos);
    if (p == std::string::npos) return false;
    char* end; v = strtod(o.c_str() + p + l.size(), &end);
    pos = end - o.c_str();
    return end != o.c_str() + p + l.size();
}
static void valid(long k, Rng& r) {
    Spec s = gen(r);
    std::string t = text(s, r), f = base + ".json";
    write_file(f, t);
    Out o = run_calc(f);
    if (o.timeout) { H.skipped++; return; }
    auto fail = [&](const std::string& key, const std::string& d) { H.violation(key, d + " input: " + t + " output: " + o.out.substr(0, 600)); };
    if (crashed(o)) { fail(crash_key(o), o.err.substr(0, 300)); return; }
    Layers l;
    for (auto& m : s.mats) {
        double rho = m.hasrho && m.rho > 0 ? m.rho : 0;
        Material x;
        if (m.Z < 200) { x = Material(m.hasA ? m.A : 0, m.Z, rho > 0 ? rho : element_density(m.Z), m.th); }
        else { x = get_material(m.Z); if (rho > 0) x.density(rho); x.thickness(m.th); }
        if (m.hasI && m.I > 0) x.I(m.I);
        l.add(x);
    }
    Config c; if (s.conf == "atimav1.3") c.z_effective = z_eff_type::pierce_blann;
    Projectile p(s.A, s.Z);
    size_t pos = 0; double v;
    auto cmp = [&](const char* label, double want) {
        H.evaluations++;
        if (!take(o.out, pos, label, v)) { fail(std::string("missing:") + label, ""); return false; }
        if (!same(v, want)) { fail(std::string("value:") + label, fmt("%s printed %.9g, library %.9g.", label, v, want)); return false; }
        return true;
    };
    if (!cmp("A", s.A) || !cmp("Z", s.Z)) return;
    for (int i = 0; i < l.num(); i++) if (!cmp("density", l[i].density()) || !cmp("thickness", l[i].thickness())) return;
    for (double e : s.energies) {
        if (!cmp("T", e)) return;
        auto res = calculate(p(e), l, c);
        size_t next = o.out.find(" T = ", pos); std::string block = o.out.substr(pos, next == std::string::npos ? std::string::npos : next - pos);
        size_t layers = 0; for (size_t q = 0; (q = block.find("material #", q)) != std::string::npos; q++) layers++;
        if (layers != res.results.size()) { fail("number of layers", fmt("%zu printed, %zu given", layers, res.results.size())); return; }
        for (auto& x : res.results)
            if (!cmp("Ein", x.Ein) || !cmp("Eout", x.Eout) || !cmp("sigma_E", x.sigma_E) || !cmp("Eloss", x.Eloss) || !cmp("range", x.range) || !cmp("sigma_r", x.sigma_r) || !cmp("sigma_a", x.sigma_a) || !cmp("dEdx(Ein)", x.dEdxi) || !cmp("TOF", x.tof)) return;
        auto& q = res.total_result; double g = 1 + q.Eout / 931.4940954;
        if (!cmp("Eout", q.Eout) || !cmp("Beta", std::sqrt(1 - 1 / (g * g))) || !cmp("Gamma", g) || !cmp("P", std::sqrt(q.Eout * (q.Eout + 2 * 931.4940954)) * s.A) || !cmp("Eloss", q.Eloss) || !cmp("sigma_E", q.sigma_E) || !cmp("sigma_a", q.sigma_a) || !cmp("TOF", q.tof)) return;
        H.count("energies compared");
    }
    size_t more = 0; for (size_t q = 0; (q = o.out.find("T = ", q)) != std::string::npos; q++) if (q >= 9 && o.out.compare(q - 9, 9, "-------- ") == 0) more++;
    H.evaluations++;
    if (more != s.energies.size()) fail("number of energies", fmt("%zu printed, %zu requested.", more, s.energies.size()));
    H.count("valid files"); H.count(s.ejson[0] == '{' ? (s.ejson.find("step") != std::string::npos ? "energy range by step" : "energy range by count") : s.ejson[0] == '[' ? "energy list" : s.ejson[0] == '"' ? "energy as text" : "energy number");
    for (auto& m : s.mats) { if (m.Z > 200) H.count("predefined materials"); if (!m.hasrho) H.count("default densities"); if (m.hasI && m.I > 0) H.count("ionisation potentials"); }
    H.nontrivial(hash_d(std::hash<std::string>()(t), 1));
    if (k % 40 == 0) H.sample(fmt("{\"input\":\"%s\",\"printed\":\"%s\"}", jesc(t).c_str(), jesc(o.out.substr(0, 200)).c_str()));
}
static void malformed(long k, Rng& r) {
    Spec s = gen(r);
    s.energies.resize(1);
    std::string t = text(s, r), why, f = base + ".bad";
    auto rep = [&](const std::string& a, const std::string& b) { size_t p = t.find(a); if (p != std::string::npos) t.replace(p, a.size(), b); };
    std::string m0 = fmt("\"Z\":%d", s.mats[0].Z);
    std::string junk = r.pick(std::vector<std::string>{"null", "true", "\"x\"", "[]", "{}", "[[1]]", "{\"a\":{}}"});
    switch (r.irange(0, 13)) {
    case 0: rep("\"projectile\"", "\"projectiles\""); why = "no projectile"; break;
    case 1: rep("\"energy\"", "\"energies\""); why = "no energy"; break;
    case 2: rep("\"material\"", "\"materials\""); why = "no material"; break;
    case 3: { size_t a = t.find("\"projectile\":[") + 13, b = t.find("]", a); t.replace(a, b - a + 1, r.pick(std::vector<std::string>{"[12]", "[]", "\"12C\"", "{\"A\":12,\"Z\":6}", "null", "12", "[\"a\",\"b\"]", "[null,6]", "true"})); why = "bad projectile"; break; }
    case 4: { size_t a = t.find("\"energy\": ") + 10; t.replace(a, s.ejson.size(), r.pick(std::vector<std::string>{"null", "true", "[]", "{}", "\"abc\"", "\"\"", "{\"min\":1}", "{\"min\":1,\"max\":5}", "{\"min\":5,\"max\":1,\"num\":5}", "{\"min\":1,\"max\":5,\"num\":0}", "{\"min\":1,\"max\":5,\"num\":-3}", "{\"min\":1,\"max\":5,\"num\":1e300}", "{\"min\":1,\"max\":5,\"num\":4294967298}", "{\"min\":1,\"max\":5,\"num\":-4294967290}", "{\"min\":1,\"max\":5,\"num\":\"a\"}", "{\"min\":1,\"max\":5,\"step\":0}", "{\"min\":1,\"max\":5,\"step\":-1}", "{\"min\":\"1\",\"max\":5,\"step\":1}", "[null,\"a\"]"})); why = "bad energy"; break; }
    case 5: rep(m0, r.pick(std::vector<std::string>{"\"Z\":0", "\"Z\":-1", "\"Z\":\"C\"", "\"Z\":null", "\"Zz\":6", "\"Z\":[6]", "\"Z\":9999", "\"Z\":-2147483648", "\"Z\":599", "\"Z\":4294967302", "\"Z\":1e300", "\"Z\":-1e300", "\"Z\":8589934598", "\"Z\":18446744073709551622"})); why = "bad Z"; break;
    case 6: { size_t a = t.find("\"material\":") + 11; size_t b = a; int d = 0; do { if (t[b] == '[' || t[b] == '{') d++; if (t[b] == ']' || t[b] == '}') d--; b++; } while (d > 0); t.replace(a, b - a, r.pick(std::vector<std::string>{"[]", "null", "[1]", "[null]", "[[]]", "\"C\"", "6", "true", "{}", "[{}]", "[{\"density\":1}]"})); why = "bad material"; break; }
    case 7: t.resize(t.size() - 2 - r.irange(0, std::min<int>(t.size() - 3, 60))); why = "truncated"; break;
    case 8: t = r.pick(std::vector<std::string>{"", " ", "[]", "{}", "null", "1", "\"a\"", "{", "}", "[1,2", "\xff\xfe", std::string("\0\0", 2), "{\"projectile\":}", "nan", std::string(5000, '[')}); why = "no object"; break;
    case 9: f = base + ".nonexistent"; why = "no file"; break;
    case 10: f = base + ".dir"; mkdir(f.c_str(), 0755); why = "directory"; break;
    case 11: rep("\"thickness\":", "\"thickness\":" + junk + ",\"t\":"); why = "thickness not a number"; if (t.find("\"t\":") == std::string::npos) return; break;
    case 12: rep(m0, m0 + ",\"density\":" + junk + ",\"A\":" + junk); why = "density not a number"; { size_t c = 0; for (size_t q = 0; (q = t.find("\"density\"", q)) != std::string::npos; q++) c++; if (s.mats[0].hasrho || s.mats[0].hasA) return; } break;
    default: rep(",", ",,"); why = "not JSON"; break;
    }
    // a null value is not a number in any of these places
    write_file(base + ".bad", t);
    Out o = run_calc(f);
    if (o.timeout) { H.skipped++; return; }
    H.evaluations++; H.count("malformed: " + why); H.nontrivial(hash_d(std::hash<std::string>()(t + why), 2));
    std::string where = why + " input: " + t.substr(0, 800) + " output: " + o.out.substr(0, 300) + " " + o.err.substr(0, 600);
    if (crashed(o)) { H.violation(crash_key(o), where); return; }
    bool results = o.out.find("total:") != std::string::npos;
    bool message = o.out.find("Could not") != std::string::npos || o.out.find("error") != std::string::npos || o.out.find("no material") != std::string::npos || o.out.find("no energy") != std::string::npos || !o.err.empty();
    if (results) H.violation("accepted:" + why, where);
    if (!message) H.violation("no message:" + why, where);
}
// unknown validity: only crashes are judged
static void mangled(long, Rng& r) {
    Spec s = gen(r);
    std::string t = text(s, r), f = base + ".man";
    int n = r.irange(1, 4);
    for (int i = 0; i < n; i++) {
        size_t p = r.u64() % t.size();
        switch (r.irange(0, 4)) {
        case 0: t[p] = r.pick(std::vector<char>{'{', '}', '[', ']', ',', ':', '"', '-', 'e', '.', '\0', '\xff', 'n'}); break;
        case 1: t.erase(p, r.irange(1, 8)); break;
        case 2: { size_t q = t.find(':', p); if (q != std::string::npos) t.insert(q + 1, r.pick(std::vector<std::string>{"null,\"q\":", "true,\"q\":", "\"5\",\"q\":", "{},\"q\":", "[],\"q\":", "-1,\"q\":", "0,\"q\":", "1e308,\"q\":", "-1e308,\"q\":", "1e-320,\"q\":", "\"nan\",\"q\":", "\"inf\",\"q\":", "\"-5\",\"q\":", "2147483647,\"q\":", "-2147483648,\"q\":"})); break; }
        case 3: if (!isdigit((unsigned char)t[p])) t.insert(p, 1, r.pick(std::vector<char>{'-', '"', ',', ' ', '\n'})); break;
        default: t.resize(std::max<size_t>(1, p)); break;
        }
        if (t.empty()) t = "x";
    }
    size_t q = t.find("\"num\":"); if (q != std::string::npos && (t.compare(q + 6, 4, "1e30") == 0 || t.compare(q + 6, 5, "21474") == 0 || atof(t.c_str() + q + 6) > 1000)) return;
    write_file(f, t);
    Out o = run_calc(f);
    if (o.timeout) { H.skipped++; return; }
    H.evaluations++; H.count(o.out.find("total:") != std::string::npos ? "mangled, calculated" : "mangled, refused"); H.nontrivial(hash_d(std::hash<std::string>()(t), 3));
    if (crashed(o)) H.violation(crash_key(o), " input: " + t.substr(0, 800) + " output: " + o.out.substr(0, 200) + " " + o.err.substr(0, 900));
}
static void one(long k, Rng& r) {
    base = fmt("%s/c22.%s.%d", H.scratch.c_str(), H.opt["--mode"].c_str(), H.shard);
    if (H.opt["--mode"] == "valid") valid(k, r);
    else if (k % 2) malformed(k, r); else mangled(k, r);
}
static void all() {
    H.run(one);
    if (H.shard == 0 && H.only < 0) { base = H.scratch + "/c22.noarg"; Out o = run_calc(""); H.evaluations++; if (crashed(o) || o.out.empty()) H.violation("no arguments", o.out + o.err); unlink((base + ".out").c_str()); unlink((base + ".err").c_str()); }
    for (const char* e : {".json", ".bad", ".man", ".out", ".err"}) unlink(fmt("%s/c22.%s.%d%s", H.scratch.c_str(), H.opt["--mode"].c_str(), H.shard, e).c_str());
    rmdir(fmt("%s/c22.%s.%d.dir", H.scratch.c_str(), H.opt["--mode"].c_str(), H.shard).c_str());
}
MON_MAIN(all())
