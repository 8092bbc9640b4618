"""C35: configure, build and install the library with its own build files, use the installation from other projects, compare with a direct build"""
import concurrent.futures as cf, os, random, shutil, subprocess
import check as C
import headers

# values that show which build options are in force
EXTRA = [('thin layer', 'catima::energy_out(catima::Projectile(12,6,0,300),catima::Material(12,6,2,1e-6))'),
         ('thick layer', 'catima::energy_out(catima::Projectile(238,92,0,700),catima::Material(208,82,11.3,2))'),
         ('survival', 'catima::calculate(catima::Projectile(12,6,0,300),catima::Material(12,6,2,1)).sp'),
         ('angular spread', 'catima::calculate(catima::Projectile(12,6,0,300),catima::Material(12,6,2,1)).sigma_a'),
         ('straggling', 'catima::calculate(catima::Projectile(12,6,0,300),catima::Material(12,6,2,1)).sigma_E')]
OPTS = ['STORE_SPLINES', 'REACTIONS', 'THIN_TARGET_APPROXIMATION', 'ET_CALCULATED_INDEX']
MAIN = headers.MAIN.replace('@@DECL@@', 'void unit0();\n').replace('@@CALL@@', '    unit0();\n')
JSON_DIR = '''add_library(nlohmann_json_standin INTERFACE)
add_library(nlohmann_json::nlohmann_json ALIAS nlohmann_json_standin)
'''
INPUT = '{"projectile":[12,6],"energy":[300,400],"material":[{"A":12,"Z":6,"density":2,"thickness":0.5},{"Z":13,"thickness":0.2}],"config":"default"}'


class Step(Exception):
    pass


def sh(what, cmd, cwd, env=None, ok=(0,), timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode(errors='replace')
    if p.returncode not in ok:
        raise Step(what, 'exit %s: %s' % (p.returncode, out[-1500:]))
    return out


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fh:
        fh.write(text)


def values(out):
    return {n: float.fromhex(v) for n, v in (l[6:].rsplit('=', 1) for l in out.splitlines() if l.startswith('VALUE '))}


def unit():
    hs = [h for h in sorted(headers.USE) if os.path.exists(os.path.join(C.REPO, 'include/catima', h))]
    return headers.unit(hs, 0)[:-2] + ''.join('%s    note("%s", (double)(%s));\n%s' % (('#ifdef REACTIONS\n',) + e + ('#endif\n',) if e[0] == 'survival' else ('',) + e + ('',)) for e in EXTRA) + '}\n'


def direct(wd, on):  # not in parallel: builds share files
    """the values of a build without the build files of the repository"""
    od, flags, incs, jobs = C.library('opt', on)
    C.compile_all(jobs)
    exe = os.path.join(wd, 'direct')
    C.run_cmd([C.CXX, '-std=c++17', '-w', '-O1'] + incs[:2] + [os.path.join(wd, 'src', f) for f in ('main.cpp', 'u0.cpp')] + [j[1] for j in jobs] + ['-o', exe])
    v = values(C.run_cmd([exe]).decode())
    calc = C.build({'catima_calculator': [C.REPO + '/bin/catima_calculator.cpp']}, 'opt', on)['catima_calculator']
    return v, sh('calculator', [calc, os.path.join(wd, 'src', 'input.json')], wd, ok=(0, 1))


def options(seed, i):
    rnd = random.Random('%d/%d' % (seed, i))
    return set(o for o in OPTS if rnd.random() < 0.7), rnd


def configuration(wd, i, seed, known):
    """one random configuration: returns (name, list of (key, detail), evaluations)"""
    on, rnd = options(seed, i)
    shared, debug = bool(i & 1), bool(i & 2)
    apps, gen, examples = rnd.random() < 0.6, rnd.random() < 0.3, rnd.random() < 0.5
    name = ' '.join(sorted(on) + ['shared' if shared else 'static', 'Debug' if debug else 'Release'] + ['APPS'] * apps + ['GENERATE_DATA'] * gen + ['EXAMPLES'] * examples)
    d = os.path.join(wd, 'c%d' % i)
    src, bld, pre, con = os.path.join(wd, 'src'), d + '/build', d + '/prefix', d + '/consumer'
    os.makedirs(d)
    for f in ('main.cpp', 'u0.cpp', 'input.json'):
        os.makedirs(d + '/src', exist_ok=True)
        shutil.copy(os.path.join(src, f), d + '/src/' + f)
    bad, n = [], 0

    def same(what, got, want):
        nonlocal n
        for k in want:
            n += 1
            if k not in got or not abs(got[k] - want[k]) <= 1e-9 * abs(want[k]) + 1e-15:
                bad.append(('different:' + what, '%s is %s, direct build %s (%s)' % (k, got.get(k), want[k], name)))
    want, text = known[tuple(sorted(on))]
    yes = lambda b: 'ON' if b else 'OFF'
    defs = ['-D%s=%s' % (o, yes(o in on)) for o in OPTS] + ['-DBUILD_SHARED_LIBS=' + yes(shared), '-DCMAKE_BUILD_TYPE=' + ('Debug' if debug else 'Release'), '-DTESTS=OFF',
            '-DAPPS=' + yes(apps), '-DGENERATE_DATA=' + yes(gen), '-DEXAMPLES=' + yes(examples), '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DFETCHCONTENT_SOURCE_DIR_NLOHMANN_JSON=' + wd + '/json']
    std = ['-DCMAKE_CXX_STANDARD=17', '-DCMAKE_BUILD_TYPE=Release']
    try:
        sh('configure', ['cmake', '-G', 'Ninja', '-S', C.REPO, '-B', bld, '-DCMAKE_INSTALL_PREFIX=' + pre] + defs, d)
        sh('build', ['ninja', '-j', '2', '-C', bld], d)
        sh('install', ['cmake', '--install', bld], d)
        if i % 3 == 2:  # an installation may be moved
            os.rename(pre, d + '/moved')
            pre = d + '/moved'
        shutil.rmtree(bld)
        libdir = next((os.path.join(pre, l) for l in ('lib', 'lib64') if os.path.isdir(os.path.join(pre, l))), pre + '/lib')
        env = dict(os.environ, LD_LIBRARY_PATH=libdir)
        put(con + '/CMakeLists.txt', 'cmake_minimum_required(VERSION 3.14)\nproject(consumer CXX)\nfind_package(catima REQUIRED)\nadd_executable(prog ../src/main.cpp ../src/u0.cpp)\ntarget_link_libraries(prog catima::catima)\n')
        sh('find_package', ['cmake', '-G', 'Ninja', '-S', con, '-B', con + '/b', '-DCMAKE_PREFIX_PATH=' + pre] + std, d)
        sh('consumer build', ['ninja', '-j', '2', '-C', con + '/b'], d)
        same('find_package', values(sh('consumer run', [con + '/b/prog'], d)), want)
        # by hand, as the makefile of the examples does
        sh('plain build', [C.CXX, '-std=c++17', '-w', d + '/src/main.cpp', d + '/src/u0.cpp', '-I' + pre + '/include', '-L' + libdir, '-lcatima', '-o', d + '/plain'], d)
        same('plain', values(sh('plain run', [d + '/plain'], d, env)), want)
        if apps:
            n += 1
            out = sh('calculator', [pre + '/bin/catima_calculator', d + '/src/input.json'], d, env, (0, 1))
            if out != text and not close(out, text):
                bad.append(('different:calculator', '%s: %s\n%s' % (name, out[:700], text[:700])))
        if examples:
            for f in sorted(os.listdir(C.REPO + '/examples')):
                n += 1
                g = os.path.join(pre, 'share/catima/examples', f)
                if not os.path.exists(g):
                    bad.append(('missing:examples', f))
        # as a part of another project
        put(con + '/CMakeLists.txt', 'cmake_minimum_required(VERSION 3.14)\nproject(outer CXX)\nadd_subdirectory(%s inner)\nadd_executable(prog ../src/main.cpp ../src/u0.cpp)\ntarget_link_libraries(prog catima::catima)\n' % C.REPO)
        if i % 2 == 0:
            sh('subproject', ['cmake', '-G', 'Ninja', '-S', con, '-B', con + '/s', '-DCMAKE_CXX_STANDARD=17'] + defs, d)
            sh('subproject build', ['ninja', '-j', '2', '-C', con + '/s', 'prog'], d)
            same('subproject', values(sh('subproject run', [con + '/s/prog'], d)), want)
    except Step as e:
        bad.append(('%s' % e.args[0], '%s: %s' % (name, e.args[1])))
    shutil.rmtree(d, ignore_errors=True)
    return name, bad, n


def close(a, b):
    """the same text up to the last digits of numbers"""
    a, b = a.split(), b.split()
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            try:
                if not abs(float(x.strip(',')) - float(y.strip(','))) <= 1e-5 * abs(float(y.strip(','))):
                    return False
            except ValueError:
                return False
    return True


def run(res, prop, tier, seed):
    if res is None:
        return
    wd = os.path.join(C.OUT, prop, 'inst-%d' % os.getpid())
    shutil.rmtree(wd, ignore_errors=True)
    put(wd + '/src/main.cpp', MAIN)
    put(wd + '/src/u0.cpp', unit())
    put(wd + '/src/input.json', INPUT)
    put(wd + '/json/CMakeLists.txt', JSON_DIR)
    count = {'quick': 8, 'thorough': 48}[tier]
    known = {}
    for i in range(count):
        on = options(seed, i)[0]
        if tuple(sorted(on)) not in known:
            try:
                known[tuple(sorted(on))] = direct(wd, on)
            except (C.BuildError, Step) as e:
                if on == C.DEFAULT_OPTS:
                    raise C.BuildError(str(e))
                known[tuple(sorted(on))] = None
                res.viol.append(dict(key='direct build', case=None, detail='%s: %s' % (' '.join(sorted(on)), str(e)[-1500:]), prog='install', flavor='opt', seed=seed, extra=[], tier=tier))
    with cf.ThreadPoolExecutor(4) as ex:
        for name, bad, n in ex.map(lambda i: configuration(wd, i, seed, known), [i for i in range(count) if known[tuple(sorted(options(seed, i)[0]))]]):
            res.counters['configurations'] = res.counters.get('configurations', 0) + 1
            res.evaluations += n
            res.hashes.add(int(C.sha(name), 16))
            for key, detail in bad:
                res.viol.append(dict(key=key, case=None, detail=detail, prog='install', flavor='opt', seed=seed, extra=[], tier=tier))
            if len(res.samples) < 6:
                res.samples.append(dict(configuration=name, values=n))
    shutil.rmtree(wd, ignore_errors=True)
