"""What each property's check runs: monitor programs, builds and case counts."""
import os, sys
import check as C
import headers, install

# property -> list of runs; each run: program, harness sources, flavor, cases per tier
SPEC = {}
EXT = os.path.join(C.ROOT, 'harness', 'ext')  # stand-ins for the external libraries of the optional builds


def spec(prop, runs, rule, assumptions=(), level='exploration', custom=None, min_eval=50):
    SPEC[prop] = dict(runs=runs, rule=rule, assumptions=list(assumptions), level=level, custom=custom, min_eval=min_eval)


def R(prog, flavor, quick, thorough, srcs=None, needs=(), options=(), without=(), **kw):
    """needs: (option, flavor, source) of programs of the repository the monitor starts; options, without: build options added to and removed from the usual ones"""
    opts = (C.DEFAULT_OPTS | set(options)) - set(without)
    if opts != C.DEFAULT_OPTS and 'prefix' not in kw:
        kw['prefix'] = ' ' + ' '.join(list(options) + ['-' + o for o in without]) + ' '
    return dict(prog=prog, srcs=(srcs or [prog + '.cpp']) + ['ref.cpp'], flavor=flavor, quick=quick, thorough=thorough, needs=needs, opts=opts, kw=kw)


def prebuild(runs):
    """build what the runs need, all programs of one kind of build together"""
    groups = {}
    for r in runs:
        groups.setdefault((r['flavor'], tuple(sorted(r['opts']))), {})[r['prog']] = r['srcs']
    for (flavor, opts), progs in groups.items():
        C.build(progs, flavor, opts, ['-I' + EXT] if set(opts) - C.DEFAULT_OPTS else [])


def prepare(r):
    """build the monitor program and what it needs; returns its path and extra arguments"""
    extra = list(r['kw'].get('extra', ()))
    for opt, flavor, src in r['needs']:
        extra += [opt, C.build({os.path.basename(src)[:-4]: [src]}, flavor)[os.path.basename(src)[:-4]]]
    defs = ['-I' + EXT] if r['opts'] - C.DEFAULT_OPTS else []
    return C.build({r['prog']: r['srcs']}, r['flavor'], r['opts'], defs)[r['prog']], extra


spec('C05', [R('c05', 'opt', 1000, 12000), R('c05', 'asan', 24, 160)],
     'random projectile, material, configuration and energies; a case is non-trivial when a range was compared with the quadrature of the stopping power')
spec('C06', [R('c06', 'opt', 16000, 100000), R('c06', 'asan', 1600, 12000)],
     'cases 0..9603 enumerate every projectile/target element pair, later ones random materials; distinct pair or distinct (projectile, material, configuration, energy)')
spec('C07', [R('c07', 'opt', 20000, 300000), R('c07', 'asan', 800, 8000)],
     'random projectile, target, ionisation potential, all 16 switch combinations for several effective-charge models; distinct projectile/material/configuration')
spec('C08', [R('c08', 'opt', 9604, 96040), R('c08', 'asan', 980, 9604)],
     'every projectile/target element pair, all models, random energies; distinct (pair, energy)')
spec('C09', [R('c09', 'opt', 500, 6000), R('c09', 'asan', 16, 120)],
     'random projectile, material, configuration; distinct combination whose range variance was compared with the quadrature')
spec('C23', [R('c23', 'opt', 4000, 40000), R('c23', 'asan', 120, 1200)],
     'random physical inputs with layers from sub-rounding thickness to many ranges; distinct (projectile, layer, configuration, energy)')
spec('C04', [R('c04', 'opt', 1600, 20000), R('c04', 'asan', 48, 500)],
     'random combination, energy and thickness (thin, near the range, beyond); distinct layers the projectile passed')
spec('C10', [R('c10', 'opt', 400, 5000), R('c10', 'asan', 12, 120)],
     'random combination, all scattering models in turn; distinct layers whose three depth moments were compared')
spec('C11', [R('c11', 'opt', 400, 6000), R('c11', 'asan', 16, 160)],
     'random stacks of up to 60 layers with initial phase space; distinct stacks compared with the composition of single layers')
spec('C12', [R('c12', 'opt', 400, 10000), R('c12', 'asan', 24, 240)],
     'random combination, energy and thickness; distinct layers passed by the projectile whose time of flight was compared')
spec('C13', [R('c13', 'opt', 800, 10000), R('c13', 'asan', 24, 240)],
     'random combination, energy and thickness; distinct layers whose survival probability was compared with the integrated cross section')
spec('C01', [R('c01', 'opt', 96, 1200), R('c01', 'asan', 8, 64)],
     'random histories over pools of combinations and near-copies of them; every call of a history is compared bit by bit with the same call in a fresh process')
spec('C02', [R('c02', 'opt', 40, 640), R('c02', 'asan', 4, 48)],
     'random request sequences on the store, whole store compared with a model after each; distinct (sequence, position, combination)')
VALGRIND = ('valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--child-silent-after-fork=yes')
spec('C03', [R('c03', 'asan', 1000, 24000), R('c03', 'vg', 96, 3200, wrapper=VALGRIND, extra=('--light', '1'))],
     'hostile arguments of every public function under ASan+UBSan and, in a smaller run, under valgrind; distinct (function, arguments)')
spec('C14', [R('c14', 'opt', 1600, 16000), R('c14', 'asan', 16, 200)],
     'random compositions in six equivalent descriptions, and random programs of setter calls; distinct compositions and programs')
spec('C15', [R('c15', 'opt', 2000, 20000), R('c15', 'asan', 1000, 4000)],
     'cases 0..699 are the ids and proton numbers -50..649, later ones extreme and random integers; distinct ids')
spec('C16', [R('c16', 'opt', 400, 5000), R('c16', 'asan', 8, 96)],
     'random sequences of C calls and default changes; distinct (arguments, function) compared')
spec('C17', [R('c17', 'opt', 2000, 24000), R('c17', 'asan', 16, 240)],
     'random combination, layer and energy list; distinct combinations all overloads of which were compared')
spec('C18', [R('c18', 'opt', 4000, 100000), R('c18', 'asan', 200, 4000), R('c18', 'opt', 1000, 20000, without=('ET_CALCULATED_INDEX',)), R('c18', 'asan', 50, 1000, without=('ET_CALCULATED_INDEX',))],
     'random, spiky, straight and smooth data on every table type, arguments on, next to, between and outside table points; distinct (data, argument)')
spec('C19', [R('c19', 'opt', 60000, 2000000), R('c19', 'asan', 2000, 20000)],
     'random polynomials and analytic integrands on random intervals for every order; distinct (order, interval, integrand)')
spec('C20', [R('c20', 'opt', 1200, 21600), R('c20', 'asan', 24, 240)],
     'cases 0..107 are the projectile charges in turn, later ones random; distinct (charge, mass, energy)')
OPTIONS = ('THIN_TARGET_APPROXIMATION', 'STORE_SPLINES', 'REACTIONS', 'ET_CALCULATED_INDEX')


def option_builds(res, prop, tier, seed):
    """the default build writes its numbers to files, the builds with the 15 other option combinations compare theirs"""
    combos = [[o for i, o in enumerate(OPTIONS) if n >> i & 1] for n in range(15, -1, -1)]
    cases = {'quick': 120, 'thorough': 2400, 'setup': 0}[tier]
    dump = os.path.join(C.OUT, prop, 'numbers')
    os.makedirs(os.path.dirname(dump), exist_ok=True)
    for n, opts in enumerate(combos):
        name = '+'.join(o.split('_')[0] for o in opts) or 'none'
        try:
            exe = C.build({'c21': ['c21.cpp']}, 'opt', opts)['c21']
        except C.BuildError as e:
            if n == 0 or res is None:
                raise
            res.viol.append(dict(key='build:' + name, case=None, detail=str(e)[-1500:], prog='c21', flavor='opt', seed=seed, extra=[], tier=tier))
            continue
        if cases:
            C.shard_run(res, prop, exe, 'c21', 'opt', seed, cases, tier=tier, prefix=' ' + name + ' ', extra=('--ref' if n else '--dump', dump))
            res.counters['option combinations'] = res.counters.get('option combinations', 0) + 1
    for i in range(C.NPROC):
        f = '%s.%d' % (dump, i)
        if os.path.exists(f):
            os.unlink(f)


spec('C21', [], 'the same random calculations, stacks and histories in builds of all 16 option combinations; distinct combinations of projectile, material and configuration',
     custom=option_builds)


def other_builds(res, prop, tier, seed):
    """C31: other optimisation levels against the usual one up to rounding, other memory contents bit by bit"""
    def go(name, prog, flags, cases, mode, dump, extra=(), env=None):
        try:
            exe = C.build({prog: [prog + '.cpp']}, 'opt', None, flags)[prog]
        except C.BuildError as e:
            if mode == '--dump' or res is None:
                raise
            res.viol.append(dict(key='build:' + name, case=None, detail=str(e)[-1500:], prog=prog, flavor='opt', seed=seed, extra=[], tier=tier))
            return
        if cases:
            C.shard_run(res, prop, exe, prog, 'opt', seed, cases, tier=tier, prefix=' ' + name + ' ', extra=(mode, dump) + tuple(extra), env=env)
            res.counters['builds and runs'] = res.counters.get('builds and runs', 0) + 1
    dump = os.path.join(C.OUT, prop, 'numbers')
    os.makedirs(os.path.dirname(dump), exist_ok=True)
    n = {'quick': 160, 'thorough': 3200, 'setup': 0}[tier]
    levels = [('O2', []), ('O0', ['-O0']), ('O3', ['-O3']), ('Os', ['-Os']), ('asserts', ['-UNDEBUG'])]
    for i, (name, flags) in enumerate(levels):
        go(name, 'c21', flags, n, '--ref' if i else '--dump', dump, ('--loose', '1000'))
    n = {'quick': 720, 'thorough': 14400, 'setup': 0}[tier]
    zero, pattern = ['-O1', '-ftrivial-auto-var-init=zero'], ['-O1', '-ftrivial-auto-var-init=pattern']
    go('zeroed', 'c31', zero, n, '--dump', dump, ('--fill', '0'))
    go('pattern', 'c31', pattern, n, '--ref', dump, ('--fill', '0xa5'), {'MALLOC_PERTURB_': '85'})
    go('pattern 2', 'c31', pattern, n, '--ref', dump, ('--fill', '0x3f'), {'MALLOC_PERTURB_': '192'})
    for i in range(C.NPROC):
        f = '%s.%d' % (dump, i)
        if os.path.exists(f):
            os.unlink(f)


GENERATOR = '/repo/utils/generator.cpp'


def generated_tables(res, prop, tier, seed):
    """C29: run the generator on a stand-in for the direct sums, build the library with its output, compare"""
    wd = os.path.join(C.OUT, prop, 'inc')
    for flavor in ('opt', 'asan'):
        gen = C.build({'generator': [GENERATOR, 'c29_standin.cpp']}, flavor, None, ['-Wl,-z,muldefs'])['generator']
        out = os.path.join(wd, 'catima')
        os.makedirs(out, exist_ok=True)
        f = os.path.join(out, 'generated_LS_coeff.h')
        if os.path.exists(f):
            os.unlink(f)
        e = dict(os.environ)
        e.update(C.SAN_ENV)
        p = C.subprocess.run([gen], cwd=out, env=e, stdout=C.subprocess.PIPE, stderr=C.subprocess.PIPE, timeout=600)
        text = C.read(f) if os.path.exists(f) else b''
        bad = None
        if p.returncode != 0:
            bad = ('generator:' + flavor, 'exit %s %s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:]))
        elif not text:
            bad = ('generator:no output', '')
        else:
            try:
                exe = C.build({'c29': ['c29.cpp', 'ref.cpp']}, 'opt', None, ['-I' + os.path.dirname(out), '-DTABLES=0x' + C.sha(text)[:8]])['c29']
            except C.BuildError as x:
                bad = ('build with generated tables', str(x)[-1500:])
        if res is None:
            continue
        if bad:
            res.viol.append(dict(key=bad[0], case=None, detail=bad[1], prog='c29', flavor=flavor, seed=seed, extra=[], tier=tier))
            continue
        C.shard_run(res, prop, exe, 'c29', 'opt', seed, {'quick': 108, 'thorough': 1080}[tier], tier=tier, prefix=' tables of the %s build ' % flavor)
    C.shutil.rmtree(wd, ignore_errors=True)


CALC = '/repo/bin/catima_calculator.cpp'
spec('C22', [R('c22', 'opt', 800, 12000, needs=[('--calc', 'opt', CALC)], extra=('--mode', 'valid')),
             R('c22', 'opt', 800, 12000, needs=[('--calc', 'asan', CALC)], extra=('--mode', 'bad'), prefix=' bad')],
     'random valid input files of every form, compared number by number, and malformed or damaged ones given to an ASan+UBSan build; distinct files')
spec('C24', [R('c24', 'tsan', 320, 4000, nshards=16), R('c24', 'opt', 320, 8000)],
     '2 to 6 threads with random or equal orders of cached and cache-free calls, results compared bit by bit with a serial run; distinct (combination, call, threads)',
     assumptions=['races are looked for in the executions that occurred; ThreadSanitizer does not see inside libm'])
spec('C25', [R('c25', 'opt', 8000, 100000), R('c25', 'asan', 800, 8000)],
     'cases 0..148 export each predefined material, others random stacks of elements and predefined materials; distinct (stack, energy)')
spec('C26', [R('c26', 'opt', 1200, 16000), R('c26', 'asan', 24, 240)],
     'random pairs of configurations and default configurations on a random layer, with an emptied store each time; distinct (projectile, material, configuration)')
spec('C27', [R('c27', 'opt', 60000, 1000000), R('c27', 'asan', 8000, 40000)],
     'random programs of stack and material operations against a model, and pairs of materials or projectiles that differ in up to two fields; distinct programs and pairs')
spec('C28', [R('c28', 'opt', 240, 4800), R('c28', 'asan', 24, 360)],
     'every allocation of a random call or value operation made to fail in turn; distinct (call, arguments, failing allocation)', level='fault_enumeration')
spec('C29', [], 'all 108 charges, all 200 energies and both masses of all four tables, and random points between; distinct table positions', custom=generated_tables)
spec('C30', [R('c30', 'opt', 4000, 40000, srcs=['c30.cpp', 'c30_lib.cpp']), R('c30', 'asan', 160, 1600, srcs=['c30.cpp', 'c30_lib.cpp'])],
     'random energies and masses; random layers with three neighbouring energies; distinct energies and layers')
spec('C31', [], 'random calls in builds of several optimisation levels and with several fillings of fresh stack and heap memory; distinct calls', custom=other_builds)

spec('C32', [R('c32', 'opt', 9604, 96040, srcs=['c32.cpp', 'c32_config.cpp'], options=('GLOBAL',)), R('c32', 'asan', 480, 4800, srcs=['c32.cpp', 'c32_config.cpp'], options=('GLOBAL',))],
     'every projectile/target element pair, energies on, next to and between the joints of the models; distinct (pair, energy)',
     assumptions=['the external charge-state library is replaced by a smooth stand-in that records what it is asked'])
GSL1, GSL2 = ('GSL_INTEGRATION',), ('GSL_INTERPOLATION',)


def external_builds():
    runs = []
    for opts, without, flavor, progs in [
            (GSL1, (), 'opt', dict(c01=6, c02=2, c04=400, c05=80, c09=80, c10=60, c11=48, c12=24, c13=160, c17=160, c23=160, c26=40)),
            (GSL1, (), 'asan', dict(c04=24, c12=4, c17=24, c23=24)),
            (GSL2, (), 'opt', dict(c01=8, c02=4, c04=400, c05=160, c09=120, c10=80, c11=80, c12=64, c13=160, c17=320, c23=640, c26=80)),
            (GSL2, (), 'asan', dict(c01=2, c02=2, c04=24, c12=8, c17=24, c23=48)),
            (GSL1 + GSL2, ('STORE_SPLINES',), 'opt', dict(c01=4, c04=160, c05=80, c09=80, c11=48, c12=24, c17=160, c23=160)),
            (GSL1 + GSL2, ('STORE_SPLINES',), 'asan', dict(c04=16, c17=16, c23=24)),
            (('NUREX',), (), 'opt', dict(c13=800, c16=60, c17=320, c23=400)),
            (('NUREX',), (), 'asan', dict(c13=24, c17=16))]:
        runs += [R(p, flavor, n, 10 * n, options=opts, without=without) for p, n in progs.items()]
    return runs


spec('C34', external_builds(), 'the workloads of the monitors of ranges, layers, stacks, straggling, time of flight, survival, overloads, bounds, store and histories in builds that use external integration, interpolation or cross sections; distinct as there',
     assumptions=['the external libraries are replaced by stand-ins with the documented interface that end the program when misused'])
spec('C33', [], 'programs of one to four source files that include public headers alone, in pairs or in random order and number, C++17 and C++20; distinct (header lists, standard)', custom=headers.run)
spec('C35', [], 'random build options, shared or static, Release or Debug, with and without programs and examples; distinct configurations whose installation other projects used', custom=install.run)


def run(prop, tier, seed, replay=None):
    s = SPEC[prop]
    res = C.Result()
    if replay:
        return run_replay(prop, s, replay)
    first = 0
    prebuild(s['runs'])
    for r in s['runs']:
        cases = r[tier]
        if not cases:
            continue
        exe, extra = prepare(r)
        C.shard_run(res, prop, exe, r['prog'], r['flavor'], seed, cases, first=first, tier=tier, **dict(r['kw'], extra=extra))
        first += cases
    if s['custom']:
        s['custom'](res, prop, tier, seed)
    return C.finish(prop, res, tier, seed, s['level'], s['rule'], s['assumptions'], s['min_eval'])


def run_replay(prop, s, rp):
    if s['custom'] and not s['runs']:  # the whole comparison again
        return run(prop, rp['tier'], rp['seed'])
    for r in s['runs']:
        if r['prog'] == rp['prog'] and r['flavor'] == rp['flavor'] and r['kw'].get('prefix', '') == rp.get('prefix', '') and all(a in rp.get('extra', []) for a in r['kw'].get('extra', ())):
            exe, extra = prepare(r)
            rc, out, err, _ = C.run_prog(exe, ['--seed', rp['seed'], '--only', rp['case'], '--cases', 0, '--tier', rp['tier'],
                                               '--scratch', C.OUT] + extra, r['kw'].get('wrapper', ()))
            print(out[-8000:])
            print(err[-8000:])
            if rc != 0 or 'VIOL ' in out:
                print('VIOLATION property=%s replay=%s' % (prop, sys.argv[-1]))
                return 1
            return 0
    print('ERROR no such program in this check')
    return 2


def setup():
    """build the parts that do not depend on /repo and warm the common builds"""
    C.os.makedirs(C.BUILD, exist_ok=True)
    C.os.makedirs(C.OUT, exist_ok=True)
    prebuild([r for s in SPEC.values() for r in s['runs']])
    for prop, s in sorted(SPEC.items()):
        for r in s['runs']:
            prepare(r)
        if s['custom']:
            s['custom'](None, prop, 'setup', 0)
    print('setup done')
    return 0
