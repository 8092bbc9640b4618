#!/usr/bin/env python3
"""Driver of the runtime checks: build the library from /repo, run a monitor program over a
generated workload, judge, write evidence.   usage: check.py <property> [--replay FILE]"""
import array, concurrent.futures as cf, fcntl, fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
OUT = os.path.join(ROOT, 'out')
EVID = os.path.join(ROOT, 'evidence')
CXX = 'g++'
NPROC = min(8, os.cpu_count() or 1)
T0 = time.time()

DEFAULT_OPTS = {'THIN_TARGET_APPROXIMATION', 'STORE_SPLINES', 'REACTIONS', 'ET_CALCULATED_INDEX'}
FLAVORS = {
    'opt': ['-O2', '-g1', '-DNDEBUG'],
    'asan': ['-O1', '-g', '-DNDEBUG', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow',
             '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-g', '-DNDEBUG', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    'vg': ['-O1', '-g', '-DNDEBUG', '-fno-omit-frame-pointer'],
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:16]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_files():
    fs = []
    for d in ('src', 'include', 'bin', 'utils'):
        for base, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            fs += [os.path.join(base, f) for f in sorted(files)]
    fs.append(os.path.join(REPO, 'build_config.in'))
    return fs


_rh = None


def repo_hash():
    global _rh
    if _rh is None:
        _rh = sha(*[x for f in repo_files() for x in (f, read(f))])
    return _rh


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout


def build_dir(opts):
    d = os.path.join(BUILD, repo_hash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    key = '+'.join(sorted(opts)) or 'none'
    g = os.path.join(d, 'cfg-' + sha(key))
    inc = os.path.join(g, 'catima')
    os.makedirs(inc, exist_ok=True)
    txt = read(os.path.join(REPO, 'build_config.in')).decode()
    out = []
    for line in txt.splitlines():
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)$', line)
        if m:
            out.append('#define %s%s' % (m.group(1), m.group(2)) if m.group(1) in opts else '/* #undef %s */' % m.group(1))
        else:
            out.append(line)
    body = '\n'.join(out) + '\n'
    f = os.path.join(inc, 'build_config.h')
    if not os.path.exists(f) or read(f).decode() != body:
        with open(f, 'w') as fh:
            fh.write(body)
    return d, g


def prune_builds(keep=4):
    try:
        ds = sorted(glob.glob(BUILD + '/*'), key=os.path.getmtime)
        ds = [d for d in ds if os.path.basename(d) not in ('own', '.lock')]
        for d in ds[:-keep]:
            if os.path.basename(d) != repo_hash():
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def compile_obj(src, obj, flags, incs):
    if os.path.exists(obj):
        return
    tmp = obj + '.tmp%d' % os.getpid()
    run_cmd([CXX, '-std=c++17', '-w', '-pthread'] + flags + incs + ['-c', src, '-o', tmp])
    os.rename(tmp, obj)


def library(flavor='opt', opts=None, defs=()):
    """where a flavor is built, how, and what compiles the library's objects"""
    opts = DEFAULT_OPTS if opts is None else set(opts)
    d, g = build_dir(opts)
    flags = FLAVORS[flavor] + list(defs)
    tag = sha(flavor, *sorted(opts), *flags)
    od = os.path.join(d, flavor + '-' + tag)
    os.makedirs(od, exist_ok=True)
    incs = ['-I' + g, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'harness')]
    jobs = [(s, os.path.join(od, 'lib_' + os.path.basename(s) + '.o'), flags, incs) for s in sorted(glob.glob(REPO + '/src/*.cpp'))]
    return od, flags, incs, jobs


def compile_all(jobs):
    uniq = {}
    for j in jobs:
        uniq[j[1]] = j
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(compile_obj, *j) for j in uniq.values()]:
            f.result()


def build(programs, flavor='opt', opts=None, defs=()):
    """build monitor programs (name -> list of harness sources) for a flavor; returns name -> path"""
    od, flags, incs, jobs = library(flavor, opts, defs)
    lib, links = [j[1] for j in jobs], {}
    hh = sha(*[x for f in sorted(glob.glob(ROOT + '/harness/*.h') + glob.glob(ROOT + '/harness/ext/**/*.h', recursive=True)) for x in (f, read(f))])
    own = os.path.join(BUILD, 'own')
    os.makedirs(own, exist_ok=True)
    for name, srcs in programs.items():
        objs = []
        for s in srcs:
            if s.startswith('/'):
                o = os.path.join(od, 'ext_' + os.path.basename(s) + '.o')
                jobs.append((s, o, flags, incs))
            else:
                p = os.path.join(ROOT, 'harness', s)
                if s.startswith('ref'):  # independent of /repo
                    o = os.path.join(own, s + '-' + sha(read(p), hh, *flags) + '.o')
                else:
                    o = os.path.join(od, s + '-' + sha(read(p), hh) + '.o')
                jobs.append((p, o, flags, incs))
            objs.append(o)
        links[name] = objs
    compile_all(jobs)
    res = {}

    def link(name, objs):
        exe = os.path.join(od, name + '-' + sha(*objs, *lib))
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            run_cmd([CXX, '-std=c++17', '-pthread'] + flags + objs + lib + ['-o', tmp])
            os.rename(tmp, exe)
        return name, exe
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(link, n, o) for n, o in links.items()]:
            n, e = f.result()
            res[n] = e
    return res


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:strict_string_checks=1:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=99:halt_on_error=0:second_deadlock_stack=1:report_thread_leaks=1',
}


def san_key(text):
    """stable key of a sanitizer report: kind and innermost library frame"""
    kind = None
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', text)
    if m:
        kind = m.group(2)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', text)
    if m and not kind:
        kind = 'tsan ' + m.group(1).strip()
    m = re.search(r'runtime error: ([^\n]+)', text)
    if m and not kind:
        kind = 'ub ' + re.sub(r"-?[0-9][0-9.e+x]*|'[^']*'|nan|inf", 'N', m.group(1))[:60].strip()
    if not kind and 'uninitialised' in text:
        kind = 'uninitialised'
    if not kind and re.search(r'Invalid (read|write|free)', text):
        kind = 'invalid access'
    fn = re.search(r'(?:in|at|by) (?:0x[0-9A-F]+: )?(?:[\w<>: ,*&]*?)((?:catima|integrators|abundance)::[\w:~<>]+|catima_\w+|save_mocadi|materialdb_id)', text)
    return 'sanitizer:%s:%s' % (kind or 'unknown', fn.group(1) if fn else '?')


class Result:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.samples = []
        self.viol = []      # dicts key, detail, replay
        self.counters = {}
        self.maxima = {}
        self.maxwhere = {}
        self.errors = []
        self.runs = []

    def add_stat(self, st, prefix=''):
        self.evaluations += st['evaluations']
        self.skipped += st.get('skipped', 0)
        for k, v in st['counters'].items():
            self.counters[prefix + k] = self.counters.get(prefix + k, 0) + v
        for k, v in st['maxima'].items():
            if v > self.maxima.get(prefix + k, float('-inf')):
                self.maxima[prefix + k] = v
                if k in st.get('maxwhere', {}):
                    self.maxwhere[prefix + k] = st['maxwhere'][k]


def limit_mem(gb):
    def f():
        import resource
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_prog(exe, args, wrapper=(), timeout=800, mem=0, env=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    t = time.time()
    p = subprocess.Popen(list(wrapper) + [exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, preexec_fn=limit_mem(mem), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        rc = 'timeout'
    return rc, out.decode(errors='replace'), err.decode(errors='replace'), time.time() - t


def shard_run(res, prop, exe, name, flavor, seed, cases, first=0, extra=(), wrapper=(), tier='quick', nshards=None,
              timeout=780, prefix='', env=None, crash_prop=True, resume=True, count_hashes=True):
    """run one monitor program over its cases in several processes and collect what it observed"""
    nshards = min(nshards or NPROC, max(1, cases))
    wd = os.path.join(OUT, prop)
    os.makedirs(wd, exist_ok=True)
    label = '%s-%s%s' % (name, flavor, prefix)

    def one(i):
        hf = os.path.join(wd, '%s.%d.h' % (label, i))
        pf = os.path.join(wd, '%s.%d.p' % (label, i))
        for f in (hf, pf):
            if os.path.exists(f):
                os.unlink(f)
        args = ['--seed', seed, '--cases', cases, '--first', first, '--shard', i, '--nshards', nshards, '--hashfile', hf,
                '--progress', pf, '--tier', tier, '--scratch', wd] + list(extra)
        return i, hf, pf, args, run_prog(exe, args, wrapper, timeout, env=env)
    with cf.ThreadPoolExecutor(nshards) as ex:
        rs = list(ex.map(one, range(nshards)))
    for i, hf, pf, args, (rc, out, err, wall) in rs:
        stat = None
        for line in out.splitlines():
            if line.startswith('VIOL '):
                v = json.loads(line[5:])
                v.update(prog=name, flavor=flavor, seed=seed, extra=list(extra), tier=tier, prefix=prefix)
                res.viol.append(v)
            elif line.startswith('SAMPLE '):
                if len(res.samples) < 6:
                    res.samples.append(line[7:])
            elif line.startswith('STAT '):
                stat = json.loads(line[5:])
        case = None
        if os.path.exists(pf):
            try:
                case = int(read(pf).split()[0])
            except (ValueError, IndexError):
                pass
        if rc == 0 and stat is not None:
            res.add_stat(stat, prefix)
            if count_hashes and os.path.exists(hf):
                a = array.array('Q')
                a.frombytes(read(hf))
                res.hashes.update(a)
        elif rc == 3:
            res.errors.append('%s shard %d: harness failure: %s' % (label, i, err[-600:]))
        elif rc == 'timeout':
            res.errors.append('%s shard %d: timeout at case %s (inconclusive)' % (label, i, case))
        else:
            # crash, sanitizer report or CPU limit: confirm by running that case alone
            txt = err + out
            if 'CPULIMIT' in out:
                rc2, out2, err2, _ = run_prog(exe, ['--seed', seed, '--cases', cases, '--first', first, '--only', case, '--tier', tier,
                                                    '--scratch', wd] + list(extra), wrapper, timeout, env=env)
                if 'CPULIMIT' in out2:
                    key = 'hang:%s' % name
                else:
                    res.errors.append('%s shard %d: CPU limit at case %s not reproduced alone (inconclusive)' % (label, i, case))
                    continue
            elif 'Sanitizer' in txt or 'runtime error' in txt:
                key = san_key(txt)
            elif rc == 99 and re.search(r'uninitialised|Invalid (read|write|free)', txt):
                key = san_key(txt)
            elif isinstance(rc, int) and rc < 0:
                key = 'signal:%s:%s' % (signal.Signals(-rc).name, name)
            elif 'terminate called' in txt:
                key = 'abort:%s' % name
            else:
                res.errors.append('%s shard %d: exit %s: %s' % (label, i, rc, txt[-1500:]))
                continue
            log = os.path.join(wd, '%s.%d.log' % (label, i))
            with open(log, 'w') as fh:
                fh.write(txt[-200000:])
            res.viol.append(dict(key=key, case=case, detail=(err.strip() or out.strip())[-1800:], log=log, prog=name, flavor=flavor,
                                 seed=seed, extra=list(extra), tier=tier, prefix=prefix))
        for f in (hf, pf):
            if os.path.exists(f):
                os.unlink(f)
    res.runs.append(dict(program=name, build=flavor + prefix, cases=cases, processes=nshards, wall_s=round(max(r[4][3] for r in rs), 2)))


def load_known(prop):
    known = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in read(p).decode().splitlines():
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def finish(prop, res, tier, seed, level, rule, assumptions, min_eval=1):
    known = load_known(prop)
    new, old = [], {}
    for v in res.viol:
        k = v['key'].replace(' ', '_')
        if k in known:
            old.setdefault(k, 0)
            old[k] += 1
        else:
            new.append(v)
    for k, n in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s (%d observations in this run)' % (prop, known[k], n))
    os.makedirs(EVID, exist_ok=True)
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=len(res.hashes), rule=rule, samples=res.samples[:6],
               observed=dict(sorted(res.counters.items())), runs=res.runs, exhaustive=False)
    if res.skipped:
        cov['skipped'] = res.skipped
    if res.maxima:
        cov['largest_deviation'] = {k: res.maxima[k] for k in sorted(res.maxima)}
    if res.maxwhere:
        cov['largest_deviation_at'] = {k: res.maxwhere[k] for k in sorted(res.maxwhere)}
    if old:
        cov['known_findings_observed'] = old
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - T0, 2),
              violations=len(new))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in new:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            path = os.path.join(rdir, '%s-%s.json' % (prop, sha(v['key'], v.get('case'), v['seed'])))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, **v), f, indent=1)
            print('  %s case %s: %s' % (v['key'], v.get('case'), v['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.stdout.flush()
        return 1
    if res.errors:
        for e in res.errors:
            print('ERROR', e)
        return 2
    if res.evaluations < min_eval or not res.hashes:
        print('ERROR the workload observed too little: %d evaluations, %d distinct' % (res.evaluations, len(res.hashes)))
        return 2
    print('HELD property=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, res.evaluations, len(res.hashes), time.time() - T0))
    return 0


def main():
    sys.path.insert(0, ROOT)
    import checks
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        return checks.setup()
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(sha(os.environ['VERIF_SEED']), 16) & 0x7fffffff
    replay = None
    if '--replay' in args:
        replay = json.loads(read(args[args.index('--replay') + 1]))
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    try:
        with open(os.path.join(BUILD, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_SH)
            prune_builds()
            return checks.run(prop, tier, seed, replay)
    except BuildError as e:
        print('ERROR build failed:\n' + str(e))
        return 2


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
