"""C33: programs made of several source files that include the public headers alone, in pairs and in random order"""
import concurrent.futures as cf, glob, os, random, shutil, subprocess
import check as C

# what a source file can evaluate with one header: (name, expression)
USE = {
    'catima.h': [('dedx', 'catima::dedx(catima::Projectile(12,6,0,100),catima::Material(12,6,2,0))'),
                 ('range', 'catima::range(catima::Projectile(12,6,0,100),catima::Material(12,6,2,0))'),
                 ('eout', 'catima::energy_out(catima::Projectile(12,6,0,300),catima::Material(12,6,2,1))'),
                 ('tof', 'catima::calculate(catima::Projectile(12,6,0,300),catima::Material(12,6,2,1)).tof')],
    'calculations.h': [('momentum', 'catima::p_from_T(123.4,12.3)'), ('beta', 'catima::beta_from_T(123.4)'), ('radiation length', 'catima::radiation_length(5,10.8)')],
    'reactions.h': [('momentum', 'catima::p_from_T(123.4,12.3)'), ('momentum of one', 'catima::p_from_T(123.4)'), ('ecm', 'catima::Ecm_from_T(77.0,12,40)'), ('reaction rate', 'catima::reaction_rate(1234.0,0.5)'),
                    ('kox', 'catima::SigmaR_Kox(12,6,300.0,27,13)')],
    'convert.h': [('material id', 'materialdb_id(catima::get_material(206))'), ('no id', 'materialdb_id(catima::Material({{0,6,3},{0,92,1}},1.0))')],
    'structures.h': [('molar mass', 'catima::Material({{0,1,2},{0,8,1}},1.0).M()'), ('atoms', 'catima::Material(12,6,2,1).number_density(0)')],
    'storage.h': [('table', 'catima::energy_table(123)'), ('position', 'catima::energy_table.index(77.7)'), ('stored range', 'catima::get_data(catima::Projectile(12,6),catima::Material(12,6,2,0)).range.at(300)')],
    'nucdata.h': [('weight', 'catima::element_atomic_weight(26)'), ('density', 'catima::element_density(26)')],
    'material_database.h': [('water', 'catima::get_material(206).density()'), ('water mass', 'catima::get_material(206).M()')],
    'abundance_database.h': [('isotope', 'abundance::get_isotope_a(26,1)'), ('abundance', 'abundance::get_abundance(26,1)')],
    'srim.h': [('srim', 'catima::srim_dedx_e(6,29,2.5)'), ('srim 85', 'catima::srim_dedx_e(6,29,2.5,false)')],
    'integrator.h': [('gauss', 'catima::integrator.integrate(cube,0.0,1.5)'), ('kronrod', 'catima::integrator_adaptive.integrate(bell,0.0,1.5)')],
    'glq_integrator.h': [('gauss 10', 'integrators::GaussLegendreIntegration<10>().integrate(cube,0.0,1.5)')],
    'gkq_integrator.h': [('kronrod 31', 'integrators::GaussKronrodIntegration<31>().integrate(bell,0.0,1.5)')],
    'config.h': [('charge model', 'catima::Config().z_effective'), ('scattering', 'catima::Config().scattering'), ('default', 'catima::default_config.calculation')],
    'constants.h': [('mass unit', 'catima::atomic_mass_unit'), ('lowest energy', 'catima::Ezero')],
    'cwrapper.h': [('c range', 'catima_range(12,6,100,0,6)'), ('c weight', 'atomic_weight(6)')],
    'spline.h': [('interpolation kinds', 'catima::linear')],
    'data_atima.h': [],
    'data_ionisation_potential.h': [],
}
HEAD = '#include <map>\n#include <string>\nvoid note(const char* name, double v);\nstatic double cube(double x) { return x * x * x + 1; }\nstatic double bell(double x) { return 1 / (1 + x * x); }\n'
MAIN = '''#include <cstdio>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string, double> got; static int bad = 0, n = 0;
void note(const char* name, double v) {
    n++; auto it = got.find(name);
    if (it == got.end()) got[name] = v;
    else if (memcmp(&it->second, &v, 8)) { bad++; printf("DIFFERENT %s %.17g %.17g\\n", name, it->second, v); }
}
@@DECL@@
int main() {
@@CALL@@
    printf("NOTED %d %zu\\n", n, got.size());
    for (auto& x : got) printf("VALUE %s=%a\\n", x.first.c_str(), x.second);
    return bad ? 1 : 0;
}
'''


def unit(headers, i, std_first=False):
    body = ''.join('#include "catima/%s"\n' % h for h in headers)
    s = body + HEAD if not std_first else HEAD + body
    s += 'void unit%d() {\n' % i
    for h in sorted(set(headers)):
        for name, ex in USE[h]:
            s += '    note("%s", (double)(%s));\n' % (name, ex)
    return s + '}\n'


def program(lib, incs, wd, name, units, std):
    """returns (problem key, detail, values noted)"""
    d = os.path.join(wd, name)
    os.makedirs(d, exist_ok=True)
    srcs = [('u%d.cpp' % i, unit(u, i, i % 2 == 1)) for i, u in enumerate(units)]
    srcs.append(('main.cpp', MAIN.replace('@@DECL@@', ''.join('void unit%d();\n' % i for i in range(len(units)))).replace('@@CALL@@', ''.join('    unit%d();\n' % i for i in range(len(units))))))
    try:
        for f, t in srcs:
            with open(os.path.join(d, f), 'w') as fh:
                fh.write(t)
        objs = []
        for i, (f, t) in enumerate(srcs):
            o = os.path.join(d, f + '.o')
            p = subprocess.run([C.CXX, '-std=' + std, '-w', '-O1'] + incs + ['-c', os.path.join(d, f), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                if i == len(units):
                    raise C.BuildError(p.stdout.decode(errors='replace'))
                return 'compile:' + '+'.join(units[i][:2]), '%s %s: %s' % (std, units[i], p.stdout.decode(errors='replace')[:1500]), None
            objs.append(o)
        exe = os.path.join(d, 'prog')
        p = subprocess.run([C.CXX, '-pthread'] + objs + lib + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return 'link', '%s %s: %s' % (std, units, p.stdout.decode(errors='replace')[:1500]), None
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        out = p.stdout.decode(errors='replace')
        if p.returncode:
            return ('different' if 'DIFFERENT' in out else 'run'), '%s %s: exit %s %s' % (std, units, p.returncode, out[:1500]), None
        return None, '', dict(l[6:].rsplit('=', 1) for l in out.splitlines() if l.startswith('VALUE '))
    finally:
        shutil.rmtree(d, ignore_errors=True)


C_UNIT = '''#include "catima/cwrapper.h"
#include "catima/cwrapper.h"
#include <stdio.h>
int main(void) {
    CatimaResult r = catima_calculate(12, 6, 300, 12, 6, 1.0, 2.0);
    printf("VALUE c range=%a\\n", catima_range(12, 6, 100, 0, 6));
    printf("VALUE c weight=%a\\n", atomic_weight(6));
    printf("VALUE c layer=%a\\n", r.Eout);
    return catima_defaults.z_effective == pierce_blann ? 0 : 2;
}
'''


def other_program(lib, incs, wd, name, src, compiler):
    """a program of one given source file; returns (problem key, detail, values noted)"""
    d = os.path.join(wd, name)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'prog')
    try:
        for cmd in (compiler + ['-w', '-O1'] + incs + ['-c', src, '-o', exe + '.o'], [C.CXX, exe + '.o'] + lib + ['-o', exe]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                return 'build:' + name, p.stdout.decode(errors='replace')[:1500], None
        p = subprocess.run([exe], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        out = p.stdout.decode(errors='replace')
        if p.returncode or not out:
            return 'run:' + name, 'exit %s %s' % (p.returncode, out[-1500:]), None
        return None, '', dict(l[6:].rsplit('=', 1) for l in out.splitlines() if l.startswith('VALUE '))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(res, prop, tier, seed):
    od, flags, incs, jobs = C.library('opt')
    C.compile_all(jobs)
    lib = [j[1] for j in jobs]
    incs = incs[:2]
    if res is None:
        return
    rnd = random.Random(seed)
    hs = [h for h in sorted(USE) if h == 'catima.h' or os.path.exists(os.path.join(C.REPO, 'include/catima', h))]
    jobs = [('alone-' + h, [[h], [h]], 'c++17') for h in hs] + [('alone20-' + h, [[h], [h]], 'c++20') for h in hs]
    pairs = [(a, b) for a in hs for b in hs if a != b]
    rnd.shuffle(pairs)
    for i, (a, b) in enumerate(pairs[:{'quick': 48, 'thorough': len(pairs)}[tier]]):
        jobs.append(('pair-%d' % i, [[a, b]], 'c++17'))
    for i in range({'quick': 32, 'thorough': 400}[tier]):
        units = []
        for k in range(rnd.randint(2, 4)):
            u = rnd.sample(hs, rnd.randint(1, len(hs)) if rnd.random() < 0.7 else len(hs))
            if rnd.random() < 0.3:
                u.append(rnd.choice(u))
            units.append(u)
        jobs.append(('random-%d' % i, units, rnd.choice(['c++17', 'c++17', 'c++20'])))
    wd = os.path.join(C.OUT, prop, 'src-%d' % os.getpid())
    shutil.rmtree(wd, ignore_errors=True)
    values = {}
    os.makedirs(wd, exist_ok=True)
    with open(os.path.join(wd, 'unit.c'), 'w') as fh:
        fh.write(C_UNIT)
    single = [('C99', os.path.join(wd, 'unit.c'), ['gcc', '-std=c99']), ('C11', os.path.join(wd, 'unit.c'), ['gcc', '-std=c11'])]
    single += [('example ' + os.path.basename(f), f, [C.CXX, '-std=c++17']) for f in sorted(glob.glob(C.REPO + '/examples/*.cpp'))]
    for name, src, compiler in single:
        key, detail, got = other_program(lib, incs, wd, name, src, compiler)
        res.counters['C programs and examples'] = res.counters.get('C programs and examples', 0) + 1
        res.evaluations += 1
        res.hashes.add(int(C.sha(name), 16))
        for n, v in (got or {}).items():
            if values.setdefault(n, v) != v:
                key, detail = 'different', '%s is %s and %s' % (n, v, values[n])
        if key:
            res.viol.append(dict(key=key, case=None, detail=name + ' ' + detail, prog='headers', flavor='opt', seed=seed, extra=[], tier=tier))
    with cf.ThreadPoolExecutor(C.NPROC) as ex:
        for (name, units, std), (key, detail, got) in zip(jobs, ex.map(lambda j: program(lib, incs, wd, *j), jobs)):
            res.counters['programs'] = res.counters.get('programs', 0) + 1
            res.counters['source files'] = res.counters.get('source files', 0) + len(units)
            res.evaluations += 1
            res.hashes.add(int(C.sha(*['|'.join(u) for u in units], std), 16))
            if key is None:
                for n, v in got.items():
                    res.evaluations += 1
                    if values.setdefault(n, v) != v:
                        key, detail = 'different', '%s is %s, in other programs %s: %s' % (n, v, values[n], units)
            if key:
                res.viol.append(dict(key=key, case=None, detail=name + ' ' + detail, prog='headers', flavor='opt', seed=seed, extra=[], tier=tier))
            elif len(res.samples) < 6 and name.startswith('random'):
                res.samples.append(dict(std=std, units=units, values=len(got)))
    shutil.rmtree(wd, ignore_errors=True)
