"""Shared machinery: builds from /repo's working tree into a scratch directory, runs sharded monitors, aggregates what they observed."""
import atexit, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(EVID, 'replay')
JOBS = os.cpu_count() or 8
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
T0 = time.time()

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='verif-', dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    return _scratch

class HarnessError(Exception):
    """The machinery could not run: no verdict (exit 2)."""

def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

COMMON = '-m64 -ffast-math -w -mxsave -D_CRT_SECURE_NO_WARNINGS -DSSE2'.split()
FLAVOURS = {
    # name: (compiler, flags for the code under test, flags for link)
    'gcc': ('gcc', '-O3 -g -fomit-frame-pointer -fno-stack-protector -DNDEBUG'.split(), []),
    'gcc1': ('gcc', '-O2 -DNDEBUG'.split(), []),
    'clang': ('clang-18', '-O2 -DNDEBUG'.split(), []),
    'clang1': ('clang-18', '-O1 -DNDEBUG'.split(), []),
    'clangpic': ('clang-18', '-O2 -DNDEBUG -fPIC'.split(), []),
    'gccpic': ('gcc', '-O2 -DNDEBUG -fPIC'.split(), []),
    'asan': ('clang-18', '-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address -mllvm -asan-instrumentation-with-call-threshold=200'.split(), ['-fsanitize=address']),
    'aubsan': ('clang-18', '-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,vptr,shift-base,pointer-overflow -fno-sanitize-recover=undefined -mllvm -asan-instrumentation-with-call-threshold=200'.split(), ['-fsanitize=address,undefined']),
    'tsan': ('clang-18', '-O1 -gline-tables-only -fsanitize=thread'.split(), ['-fsanitize=thread']),
    'msan': ('clang-18', '-O1 -gline-tables-only -fsanitize=memory -fno-omit-frame-pointer'.split(), ['-fsanitize=memory']),
}

def compiler(name):
    for c in ([name, 'clang'] if name.startswith('clang') else [name]):
        if shutil.which(c):
            return c
    raise HarnessError('compiler %s not found' % name)

def lib_sources(exclude=('main.c', 'rle_fuzz.c'), repo=REPO):
    s = sorted(glob.glob(os.path.join(repo, 'src', '*.c')))
    s += sorted(glob.glob(os.path.join(repo, 'src', '*', '*.c')))
    s = [f for f in s if os.path.basename(f) not in exclude]
    if not s:
        raise HarnessError('no sources in %s/src' % REPO)
    return sorted(s, key=lambda f: (-prio(f), f))

def prio(f):
    b = os.path.basename(f)
    return 3 if 'short' in b and 'Xsl' in b else 2 if 'Xsl' in b else 1 if 'rleX' in b else 0

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

def compile_many(jobs):
    """jobs: list of (cmd, out). Runs in parallel; raises HarnessError on failure."""
    def one(j):
        p = run(j[0], timeout=800)
        if p.returncode != 0:
            raise HarnessError('compile failed: %s\n%s' % (' '.join(j[0]), p.stderr.decode(errors='replace')[-3000:]))
        return j[1]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))

_objects = {}   # command without output -> object file of this process
def build(flavour, harness_files=('h.c', 'eng.c', 'gen.c', 'common.c'), out=None, extra_flags=(), harness_flags=('-O1', '-g', '-w'), link=(), exclude=('main.c', 'rle_fuzz.c'), shared=False, extra_sources=(), repo=REPO, lib_flags=(), inc=()):
    cc, fl, lf = FLAVOURS[flavour]
    cc = compiler(cc)
    d = os.path.join(scratch(), 'b-' + flavour + ('-so' if shared else '') + '-' + (out or 'h'))
    os.makedirs(d, exist_ok=True)
    jobs = []; have = []
    for f in lib_sources(exclude, repo):
        o = os.path.join(d, os.path.basename(f) + '.o')
        cmd = [cc] + COMMON + fl + list(extra_flags) + list(lib_flags) + ['-I' + os.path.join(repo, 'src'), '-c', f, '-o']
        if tuple(cmd) in _objects: have.append(_objects[tuple(cmd)]); continue
        jobs.append((cmd + [o], o)); _objects[tuple(cmd)] = o
    san = [x for x in fl if x.startswith('-fsanitize') or x == '-fPIC' or x.startswith('-fno-sanitize')]
    for f in list(harness_files) + list(extra_sources):
        p = f if os.path.isabs(f) else os.path.join(HARN, f)
        o = os.path.join(d, 'H_' + os.path.basename(f) + '.o')
        jobs.append(([cc] + COMMON + list(harness_flags) + san + list(extra_flags) + ['-I' + d for d in inc] + ['-I' + os.path.join(repo, 'src'), '-I' + HARN, '-c', p, '-o', o], o))
    t = time.time()
    objs = have + compile_many(jobs)
    exe = os.path.join(d, out or 'h')
    cmd = [cc] + lf + (['-shared', '-Wl,-Bsymbolic'] if shared else []) + objs + ['-o', exe, '-lm', '-ldl', '-lpthread'] + list(link)
    p = run(cmd, timeout=300)
    if p.returncode != 0:
        raise HarnessError('link failed: %s' % p.stderr.decode(errors='replace')[-3000:])
    log('built %s (%s) in %.1fs' % (os.path.basename(exe), flavour, time.time() - t))
    return exe

class Result:
    def __init__(self):
        self.ev = {}; self.distinct = 0; self.samples = []; self.viol = []; self.cut = 0; self.notes = []
    def add_ev(self, k, v): self.ev[k] = self.ev.get(k, 0) + v
    def merge(self, o):
        for k, v in o.ev.items(): self.add_ev(k, v)
        self.distinct += o.distinct; self.samples += o.samples; self.viol += o.viol; self.cut += o.cut; self.notes += o.notes

def parse(stdout, res):
    done = None
    for line in stdout.splitlines():
        if line.startswith('EV '):
            k, v = line[3:].rsplit(' ', 1); res.add_ev(k, int(v))
        elif line.startswith('DISTINCT '): res.distinct += int(line.split()[1])
        elif line.startswith('SAMPLE '): res.samples.append(line[7:])
        elif line.startswith('V '):
            try: res.viol.append(json.loads(line[2:]))
            except ValueError: res.viol.append({'kind': 'unparsed', 'detail': line[2:600]})
        elif line.startswith('CUT'): res.cut += 1
        elif line.startswith('DONE '): done = int(line.split()[1])
    return done

def run_shards(exe, prop, mode, args=(), shards=None, timeout=800, env=None, wrapper=(), san=None, tag=''):
    """Runs `shards` processes of a harness. `san`: function(stderr, rc) -> violation dict or None for sanitizer flavours."""
    shards = shards or JOBS
    out = os.path.join(scratch(), 'out'); os.makedirs(out, exist_ok=True)
    res = Result()
    e = dict(os.environ); e.update(env or {})
    def one(i, attempt=0):
        cmd = list(wrapper) + [exe, '--mode', mode, '--prop', prop, '--seed', str(SEED), '--shard', '%d/%d' % (i, shards), '--out', out] + [str(a) for a in args]
        try:
            p = run(cmd, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            return i, cmd, None, '', 'timeout'
        return i, cmd, p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    with cf.ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(one, range(shards)))
    for i, cmd, rc, so, se in rs:
        if rc is None or rc == -9:
            log('shard %d: %s, running it again' % (i, 'timeout' if rc is None else 'killed'))
            i, cmd, rc, so, se = one(i, 1)
            if rc is None or rc == -9:
                raise HarnessError('%s shard %d did not finish (rc %s)' % (mode, i, rc))
        r = Result(); done = parse(so, r)
        if done is None:
            v = san(se, rc) if san else None
            if v is None and rc == 70:
                raise HarnessError('%s shard %d: %s' % (mode, i, se[-2000:]))
            if v is None:
                i2, cmd2, rc2, so2, se2 = one(i, 1)  # a crash of the monitor process itself: has to be reproducible
                r2 = Result(); d2 = parse(so2, r2)
                if d2 is not None:
                    raise HarnessError('%s shard %d crashed (rc %s) and did not crash again: %s' % (mode, i, rc, se[-500:]))
                v = {'kind': 'process-crash', 'codec': '-', 'detail': 'monitored process ended with %s twice; last output: %s' % (rc, (so[-200:] + se[-600:]))}
            v.setdefault('cmd', cmd); r.viol.append(v)
        for v in r.viol: v.setdefault('cmd', cmd); v['flavour'] = tag or os.path.basename(os.path.dirname(exe))
        res.merge(r)
    return res

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['known'] if os.path.exists(p) else []

def matches(k, prop, v):
    if k['property'] != prop: return False
    for f in ('kind', 'codec', 'inhash'):
        if f in k and k[f] != v.get(f): return False
    if 'detail_re' in k and not re.search(k['detail_re'], v.get('detail', '') + ' ' + v.get('what', '')): return False
    return any(f in k for f in ('kind', 'codec', 'inhash', 'detail_re'))

def save_replay(prop, n, v):
    os.makedirs(REPLAY, exist_ok=True)
    v = dict(v); v['property'] = prop
    src = v.get('input')
    if src and os.path.exists(src):
        dst = os.path.join(REPLAY, '%s-%d.bin' % (prop, n)); shutil.copyfile(src, dst); v['input'] = dst
    path = os.path.join(REPLAY, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f: json.dump(v, f, indent=1)
    return path

def finish(prop, tier, res, rule, evaluations, level='exploration', extra=None, assumptions=(), floors=None):
    """Writes the evidence and returns the exit code."""
    os.makedirs(EVID, exist_ok=True)
    fresh, known = [], []
    for v in res.viol:
        k = next((k for k in known_findings() if matches(k, prop, v)), None)
        (known if k else fresh).append((v, k))
    cov = {'evaluations': int(evaluations), 'distinct_nontrivial': int(res.distinct), 'rule': rule, 'samples': res.samples[:6] or ['-'], 'observed': {k: v for k, v in sorted(res.ev.items())}, 'workload_cut_short_by_deadline': res.cut}
    if res.notes: cov['notes'] = res.notes
    if extra: cov.update(extra)
    doc = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': list(assumptions), 'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(doc, f, indent=1)
    for k in {json.dumps(k, sort_keys=True) for _, k in known}:
        print('KNOWN-FINDING: property=%s %s' % (prop, json.loads(k).get('what', '')))
    shutil.rmtree(os.path.join(REPLAY), ignore_errors=True) if False else None
    for n, (v, _) in enumerate(fresh[:20]):
        path = save_replay(prop, n, v)
        print('  %s %s: %s [%s]' % (v.get('kind'), v.get('codec', ''), v.get('detail', '')[:300], v.get('what', '')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if fresh:
        sys.stdout.flush(); return 1
    # A monitor that observed (nearly) nothing decides nothing.
    for name, minimum in (floors or {}).items():
        got = evaluations if name == 'evaluations' else res.distinct if name == 'distinct' else res.ev.get(name, 0)
        if got < minimum:
            print('ERROR: %s observed only %d of at least %d %s' % (prop, got, minimum, name), file=sys.stderr); return 2
    print('%s: held on %d evaluations, %d distinct (%.1fs)' % (prop, evaluations, res.distinct, time.time() - T0))
    return 0
