"""Shared machinery of the checks: building /repo's working tree against the
stand-ins, running drivers, running TLC, writing evidence and verdicts."""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = 'clang++-18'
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'

_scratch = None


class CheckError(Exception):
    """The check itself could not run (not a verdict about the code)."""


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vp-')
        os.chmod(_scratch, 0o755)
        if not os.environ.get('VP_KEEP'):
            atexit.register(lambda d=_scratch: shutil.rmtree(d, ignore_errors=True))
    return _scratch


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
BASE_FLAGS = ['-std=c++20', '-O1', '-g1', '-w', '-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS',
              '-DCL_HPP_TARGET_OPENCL_VERSION=300', '-DVERIF_BOUNDS', '-DLOGURU_WITH_STREAMS=0']


def incs():
    return ['-I' + os.path.join(VERIF, 'shims'), '-I' + os.path.join(REPO, 'src'),
            '-I' + os.path.join(REPO, 'other/loguru/include'), '-I' + os.path.join(REPO, 'other/argparse/include'),
            '-I' + os.path.join(VERIF, 'drivers')]


def _cache_dir():
    # only for development: object files keyed by the hash of the preprocessed text
    return os.environ.get('VP_CACHE')


def _compile(src, obj, flags):
    cmd = [CXX, *flags, *incs(), '-c', src, '-o', obj]
    cd = _cache_dir()
    key = None
    if cd:
        pp = subprocess.run([CXX, *flags, *incs(), '-E', '-P', src], capture_output=True)
        if pp.returncode == 0:
            key = os.path.join(cd, hashlib.sha1(pp.stdout + ' '.join(flags).encode()).hexdigest() + '.o')
            if os.path.exists(key):
                shutil.copy(key, obj)
                return None
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return f'{src}:\n{r.stderr[-3000:]}'
    if key:
        os.makedirs(cd, exist_ok=True)
        shutil.copy(obj, key + f'.{os.getpid()}.tmp')
        os.replace(key + f'.{os.getpid()}.tmp', key)
    return None


def build(drivers, extra_flags=(), libs=('-lcrypto', '-lpng', '-ljpeg'), tag='d', only=None, link_fake_cl=True, src_flags=()):
    """Compile every source file of /repo except main.cpp (or those matching
    `only`) and link each driver against them. Returns {driver: executable}."""
    t0 = time.time()
    d = os.path.join(scratch(), 'build-' + tag)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True))
    srcs = [s for s in srcs if os.path.relpath(s, os.path.join(REPO, 'src')) != 'main.cpp']
    if only:
        srcs = [s for s in srcs if only(os.path.relpath(s, os.path.join(REPO, 'src')))]
    flags = BASE_FLAGS + list(extra_flags)
    jobs = []
    for s in srcs:
        o = os.path.join(d, re.sub(r'[^A-Za-z0-9_]', '_', os.path.relpath(s, REPO)) + '.o')
        jobs.append((s, o, flags + list(src_flags)))
    log_o = os.path.join(d, 'loguru.o')
    jobs.append((os.path.join(REPO, 'other/loguru/src/loguru.cpp'), log_o, flags))
    if link_fake_cl:
        jobs.append((os.path.join(VERIF, 'drivers/fake_opencl.cpp'), os.path.join(d, 'fake_opencl.o'), flags))
    lib_objs = [o for _, o, _ in jobs]
    drv = {}
    for name in drivers:
        o = os.path.join(d, 'drv_' + name + '.o')
        jobs.append((os.path.join(VERIF, 'drivers', name + '.cpp'), o, flags))
        drv[name] = o
    # the slow ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(lambda j: _compile(*j), jobs) if e]
    if errs:
        raise CheckError('build failed:\n' + '\n'.join(errs))
    lib = os.path.join(d, 'libhz.a')
    if os.path.exists(lib):
        os.unlink(lib)
    subprocess.check_call(['ar', 'qcs', lib, *lib_objs])
    out = {}

    def link(it):
        name, o = it
        exe = os.path.join(d, name)
        # whole-archive: the repository relies on static registration objects
        cmd = [CXX, *[f for f in extra_flags if f.startswith('-fsanitize')], o, '-Wl,--whole-archive', lib,
               '-Wl,--no-whole-archive', *libs, '-lpthread', '-ldl', '-lrt', '-rdynamic', '-o', exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('link failed:\n' + r.stderr[-3000:])
        out[name] = exe

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(link, drv.items()))
    log(f'[build {tag}] {time.time() - t0:.1f}s')
    return out


def run_driver(exe, args, timeout=300, env=None, ok=(0,)):
    e = dict(os.environ)
    e.pop('HZIP_CACHE_FILE', None)
    if env:
        e.update(env)
    try:
        r = subprocess.run([exe, *map(str, args)], capture_output=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError(f'driver {os.path.basename(exe)} {args} timed out')
    if ok is not None and r.returncode not in ok:
        raise CheckError(f'driver {os.path.basename(exe)} {args} ended with {r.returncode}\n'
                         + r.stderr.decode('utf8', 'replace')[-2000:])
    return r


def par(fn, items, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.states = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        if not m:
            m2 = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m2:
                self.states = int(m2[-1].replace(',', ''))
        v = re.search(r'Error: Invariant (\S+) is violated', out) or \
            re.search(r'Error: Action property (\S+) is violated', out) or \
            re.search(r'Error: Temporal properties were violated', out)
        self.violated = None
        if v:
            self.violated = v.group(1) if v.groups() else 'temporal'
        elif 'Error: Deadlock reached' in out:
            self.violated = 'deadlock'
        elif re.search(r'Error: (POSTCONDITION|Postcondition)', out) or 'PostCondition' in out and 'violated' in out:
            self.violated = 'postcondition'
        self.ok = 'Model checking completed. No error has been found' in out or \
                  ('Finished in' in out and 'Error:' not in out)


def tlc(module, cfg=None, env=None, workers=1, heap='2g', args=(), timeout=800, consts=None, spec_dir=None):
    """Run TLC on specs/<module>.tla in a private copy of the specs directory."""
    d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    sd = spec_dir or SPECS
    for f in glob.glob(os.path.join(sd, '*.tla')):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    cfgp = os.path.join(d, 'run.cfg')
    if cfg is None:
        text = open(os.path.join(sd, module + '.cfg')).read()
    elif '\n' in cfg:
        text = cfg
    else:
        text = open(os.path.join(sd, cfg)).read()
    if consts:
        for k, v in consts.items():
            text, n = re.subn(rf'(?m)^(\s*{k}\s*=).*$', lambda m: f'{m.group(1)} {v}', text)
            if n == 0:
                text += f'\nCONSTANT {k} = {v}\n'
    open(cfgp, 'w').write(text)
    e = dict(os.environ)
    e.update(env or {})
    gc = '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC'
    cmd = ['java', gc, '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4', '-cp', TLA_CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cfgp,
           *args, os.path.join(d, module + '.tla')]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as ex:
        out = ((ex.stdout or b'').decode('utf8', 'replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')) + '\nTLC-TIMEOUT'
        rc = 124
    res = TlcResult(out, rc, time.time() - t0)
    res.dir = d
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    return res


def _unescape(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


class TraceVerdict:
    def __init__(self):
        self.events = 0       # trace lines accepted by the specification
        self.states = 0
        self.violations = []  # (trace file, line number, clause, event)
        self.lost = 0         # lines after a divergence that another property owns
        self.counts = {}      # clause/ action coverage measured by TLC


def validate_traces(module, traces, prop, consts=None, heap='3g', timeout=800, env=None, cfg=None, jobs=NCPU):
    """Each trace file (ndjson) is checked against specs/<module>.tla, whose
    state has `i` (next line), `bad` (<<>> or the violated clauses) and which
    prints one line  RESULT {json}  when it is done."""
    v = TraceVerdict()

    def one(t):
        n = sum(1 for _ in open(t))
        e = {'TRACE': t, 'PROP': prop}
        e.update(env or {})
        r = tlc(module, cfg=cfg, env=e, workers=1, heap=heap, timeout=timeout, consts=consts, args=('-deadlock',))
        return t, n, r

    for t, n, r in par(one, traces, jobs):
        v.states += r.distinct
        m = re.search(r'"RESULT", "((?:[^"\\]|\\.)*)"', r.out)
        if r.violated:
            line, clause = None, r.violated
            mm = re.findall(r'(?m)^/\\ i = (\d+)', r.out)
            if mm:
                line = int(mm[-1])
            mb = re.findall(r'(?m)^/\\ bad = (.*)$', r.out)
            if mb:
                clause = mb[-1]
            ev = ''
            # `i` has moved past the offending line
            if line is not None and line >= 2:
                with open(t) as f:
                    for k, l in enumerate(f, 1):
                        if k == line - 1:
                            ev = l.strip()
                            break
            v.violations.append(dict(trace=t, line=(line or 0) - 1, clause=clause, event=ev, tlc=r.out[-6000:]))
            if line:
                v.events += line
        elif r.ok and m:
            d = json.loads(_unescape(m.group(1)))
            if d.get('n') != n:
                raise CheckError(f'{module}: {d} but the trace has {n} lines')
            if not d.get('complete', True):
                raise CheckError(f'{t}: the recording stops before its end')
            v.events += d['n'] - d.get('lost', 0)
            v.lost += d.get('lost', 0)
            for k, c in (d.get('cov') or {}).items():
                v.counts[k] = v.counts.get(k, 0) + c
        else:
            raise CheckError(f'TLC failed on {module} {t}:\n' + r.out[-5000:])
    return v


def model_check(module, cfg, workers=NCPU, heap='8g', timeout=800, consts=None, env=None, args=()):
    r = tlc(module, cfg=cfg, workers=workers, heap=heap, timeout=timeout, consts=consts, env=env, args=args)
    if not r.ok:
        raise CheckError(f'model checking {module}/{cfg} failed ({r.violated}):\n' + r.out[-6000:])
    return r


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        # filled by the model checker and the trace validation of this run
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.assumptions = []
        self.violations = []
        self.samples = []
        self.known = []
        self.rng = random.Random((SEED << 8) ^ int(prop[1:]))

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.cov.get(k), (int, float)):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def model(self, mod, cfg=None, **kw):
        r = model_check(mod, cfg or mod + '.cfg', **kw)
        self.add(states=r.distinct, transitions=r.states)
        self.add(**{'model_states_' + mod: r.distinct})
        return r

    def traces(self, module, traces, count=None, **kw):
        kw.setdefault('cfg', 'Trace.cfg')
        v = validate_traces(module, traces, self.prop, **kw)
        self.from_verdict(v, module)
        self.add(states=v.states, transitions=v.events, traces_validated_against_impl=count or len(traces),
                 lines_not_compared=v.lost)
        for k, n in sorted(v.counts.items()):
            if k != 'end':
                self.add(**{'events_' + k: n})
        for t in traces[:2]:
            with open(t) as f:
                self.samples.append(f.readline().strip()[:400])
        return v

    def from_verdict(self, v, what):
        for x in v.violations:
            self.violation(f"{what}: clause {x['clause']} at line {x['line']}", x)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.cov.setdefault('samples', self.samples[:5] or ['(none)'])
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level, coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f'KNOWN-FINDING: property={self.prop} {k}', flush=True)
        if self.violations:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f'{self.prop}-{SEED}.json')
            keep = []
            for what, det in self.violations[:10]:
                d = det
                if isinstance(det, dict):
                    d = dict(det)
                    t = d.get('trace')
                    if t and os.path.exists(str(t)):
                        dst = os.path.join(rd, f'{self.prop}-{SEED}-' + os.path.basename(t))
                        try:
                            shutil.copy(t, dst)
                            d['trace'] = dst
                        except OSError:
                            pass
                keep.append(dict(what=what, detail=d))
            with open(rp, 'w') as f:
                json.dump(keep, f, indent=1, default=str)
            for what, det in self.violations[:3]:
                log('  ' + str(what)[:600])
                if isinstance(det, dict) and det.get('event'):
                    log('    event: ' + str(det['event'])[:600])
            print(f'VIOLATION property={self.prop} replay={rp}', flush=True)
            return 1
        log(f'[{self.prop}] ok in {time.time() - self.t0:.1f}s: ' +
            json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))}))
        return 0
