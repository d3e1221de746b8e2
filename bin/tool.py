"""Checks of the command line tool: the real main.c / rle_fuzz.c with codec calls and clock interposed (harness/tool.c), judged by models written here."""
import concurrent.futures as cf, hashlib, itertools, math, os, queue, random, re, shutil, signal, subprocess, threading
from vlib import *

ROW = re.compile(r'\{ "([^"]+)", "([^"]+)", "([^"]+)"')
def codec_rows():
    """(name as reported, encoder, decoder), in the order of the harness' own table."""
    return [m.groups() for m in map(ROW.search, open(os.path.join(HARN, 'codec_table.inc'))) if m]

CLOCKS = ['clock_gettime', 'usleep', 'nanosleep', 'sleep', 'gettimeofday']

ALLOCS = ['malloc', 'calloc', 'realloc', 'aligned_alloc', 'posix_memalign', 'free', 'fopen', 'fclose', 'fread', 'ftell']
def build_tool(flavour='clang', account=False):
    enc = sorted({r[1] for r in codec_rows()}); dec = sorted({r[2] for r in codec_rows()})
    d = os.path.join(scratch(), 'wrap'); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'wrap_list.inc'), 'w') as f:
        f.write(''.join('X(%s, 1)\n' % e for e in enc) + ''.join('X(%s, 0)\n' % e for e in dec))
    return build(flavour, harness_files=('tool.c',), out='tool', exclude=(), lib_flags=['-Dmain=tool_main'], inc=[d], harness_flags=['-O1', '-g', '-w'] + (['-DACCOUNT'] if account else []), link=['-no-pie'] * account + ['-Wl,--wrap=%s' % s for s in enc + dec + CLOCKS + ['_DetectCPUFeatures'] + (ALLOCS if account else [])])

class Run:
    def __init__(self, status, timeout, out, trace):
        self.timeout = timeout; self.sig = status & 127; self.rc = None if self.sig else status >> 8
        self.out = out; self.trace = []; self.injected = False; self.missed = False; self.stopped = False; self.leaks = []; self.allocs = None; self.denied = False; self.after = []
        for l in trace.splitlines():
            if l == 'INJ': self.injected = True
            elif l == 'DENIED': self.denied = True
            elif l == 'MISSED': self.missed = True
            elif l == 'STOP': self.stopped = True
            elif l.startswith('ALLOC '): self.allocs = tuple(map(int, l.split()[1:]))
            elif l.startswith('LEAK '): self.leaks.append(l.split()[1:])
            elif l:
                self.trace.append(l.split())
                if self.denied: self.after.append(l.split())
    def encodes(self): return [t for t in self.trace if t[0] == 'C']
    def how(self): return 'timeout' if self.timeout else 'signal %d' % self.sig if self.sig else 'exit %s' % self.rc

class Servers:
    """One tool server per core; requests are handed out in order, results are returned in order."""
    def __init__(self, exe, n=JOBS, env=None, hangs=True): self.exe = exe; self.n = n; self.hangs = hangs; self.env = dict(os.environ, **env) if env else None
    def map(self, reqs, fn):
        """reqs: list of (fault, clock, timeout, args). Calls fn(index, req, Run) from worker threads (collects return values)."""
        it = iter(enumerate(reqs)); lock = threading.Lock(); out = []; hung = []
        def work(k):
            wd = os.path.join(scratch(), 'wd%d' % k); os.makedirs(wd, exist_ok=True)
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env)
            try:
                while True:
                    with lock: nx = None if hung else next(it, None)
                    if nx is None: return
                    i, (fault, clock, timeout, args) = nx
                    for attempt in range(2):
                        p.stdin.write(('\x1f'.join([fault, clock, wd, str(timeout)] + list(args)) + '\n').encode()); p.stdin.flush()
                        h = p.stdout.readline().split()
                        if len(h) != 5: raise HarnessError('tool server ended unexpectedly')
                        o = p.stdout.read(int(h[3])); t = p.stdout.read(int(h[4]))
                        r = Run(int(h[1]), h[2] != b'0', o.decode('latin1'), t.decode('latin1'))
                        if not self.hangs or h[2] != b'2': break
                    else:   # twice out of time, and busy computing all along: an endless loop
                        with lock: hung.append(i); out.append(('v', viol('hang', '-', 'the tool did not end within %s s of computing, twice; it usually takes a fraction of a second' % timeout, nx[1])))
                        return
                    if r.rc == 70: raise HarnessError('tool server rejected %r' % (nx,))
                    v = fn(i, nx[1], r)
                    if v is not None:
                        with lock: out.append(v)
            finally:
                p.stdin.close(); p.wait()
        with cf.ThreadPoolExecutor(self.n) as ex:
            for f in [ex.submit(work, k) for k in range(self.n)]: f.result()
        return out

def fnv(b):
    h = 1469598103934665603
    for x in b: h = ((h ^ x) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return '%016x' % h

def mkdata(rng, size, kind):
    """File contents without zero bytes (the tool clears its buffers with zeros, so that only non-zero bytes show what was never written)."""
    out = bytearray()
    while len(out) < size:
        k = rng.randrange(4) if kind == 'mix' else kind
        if k == 0: out += bytes([rng.randrange(1, 256)]) * rng.randrange(1, 300)
        elif k == 1: out += bytes(rng.randrange(1, 256) for _ in range(rng.randrange(1, 200)))
        elif k == 2:
            s = bytes(rng.randrange(1, 256) for _ in range(rng.choice([2, 3, 4, 6, 8, 16]))); out += s * rng.randrange(1, 60)
        else:
            a = [rng.randrange(1, 256) for _ in range(3)]; out += bytes(rng.choice(a) for _ in range(rng.randrange(1, 120)))
    return bytes(out[:size])

class Files:
    def __init__(self): self.d = os.path.join(scratch(), 'files'); os.makedirs(self.d, exist_ok=True); self.n = 0; self.data = {}
    def add(self, b):
        self.n += 1; p = os.path.join(self.d, 'f%d.bin' % self.n); open(p, 'wb').write(b); self.data[p] = b; return p

BASE = ['--min-time', '0', '--runs', '0']
LEVELS = ['none', 'sse2', 'sse3', 'ssse3', 'sse4.1', 'sse4.2', 'avx', 'avx2', 'avx512f']
FLAG = {'sse2': 0, 'sse3': 1, 'ssse3': 2, 'sse4.1': 3, 'sse4.2': 4, 'avx': 5, 'avx2': 6, 'avx512f': 7}

def viol(kind, codec, detail, req, data=None, what=''):
    v = {'kind': kind, 'codec': codec, 'detail': detail, 'what': what, 'fault': req[0], 'args': list(req[3])}
    if data: v['input'] = data
    return v

# ------------------------------------------------------------------------------------------------ C17
NO_MMTF = {'mmtf128_encode', 'mmtf128_decode', 'mmtf256_encode', 'mmtf256_decode'}

def c17(prop, tier):
    deep = tier == 'thorough'; rng = random.Random(SEED * 7919 + 17)
    srv = Servers(build_tool()); files = Files(); res = Result()
    rows = codec_rows()
    enc = sorted({r[1] for r in rows}); dec = sorted({r[2] for r in rows})
    small = [files.add(mkdata(rng, n, 'mix')) for n in (1, 2, 3, 17, 31, 32, 33, 64, 127, 300, 1000, 4096, 9973)]
    mid = [files.add(mkdata(rng, n, 'mix')) for n in (65536, 65537, 70001)]
    big = files.add(mkdata(rng, 65536, 'mix') * 48 + b'\x07\x01\x09')
    reqs = []   # (fault, clock, timeout, args, expectation)
    def add(fault, args, expect, timeout=60): reqs.append((fault, '-', timeout, args, expect))
    seenk = set()
    def variants():
        a = list(BASE) if rng.random() < 0.7 else ['--min-time', '0', '--runs', str(rng.choice([1, 2, 3]))]
        if rng.random() < 0.2: a += ['--sd']
        a.insert(rng.choice([0, 2, len(a)]), '--test')
        return a
    # 1. correct codecs pass, at every level, with every kind of file
    for f in small + mid + [big]:
        for lv in [None] + (LEVELS if f != big else ['avx2', 'sse2']):
            add('-', [f] + variants() + (['--max-simd', lv] if lv else []), 'pass')
    # 2. every codec x every kind of fault
    for fn in enc:
        for f in rng.sample(small, 3 if not deep else len(small)): add('enc0,%s,0,0' % fn, [f] + variants(), 'fail')
    for fn in dec:
        for kind in ('ret0', 'short', 'long', 'double', 'nothing', 'leftover'):
            for f in rng.sample(small, 2 if not deep else 8) + ([rng.choice(mid)] if rng.random() < .3 or deep else []): add('%s,%s,0,%d' % (kind, fn, rng.randrange(1001)), [f] + variants(), 'fail')
        for pos in [0, 1000] + [rng.randrange(1001) for _ in range(4 if not deep else 40)]:
            f = rng.choice(small + mid)
            add('flip,%s,0,%d' % (fn, pos), [f] + variants(), 'fail')
            add('unwritten,%s,0,%d' % (fn, pos), [rng.choice(small + mid)] + variants(), 'fail')
    # 3. the same at lower SIMD levels and with codec selections
    for lv in LEVELS:
        for fn in rng.sample(dec, 16 if not deep else len(dec)):
            if fn in NO_MMTF: continue   # these are skipped where the platform doesn't support them
            add('%s,%s,0,%d' % (rng.choice(['flip', 'unwritten', 'ret0', 'short']), fn, rng.randrange(1001)), [rng.choice(small)] + variants() + ['--max-simd', lv], 'fail')
    sel = {'rle8_sh': ['--sh'], 'rle8_mmtf128': ['--rle-mmtf'], 'rle8_low_entropy': ['--low-entropy', '--single'], 'rle8_low_entropy_short': ['--low-entropy-short'], 'rle128_sym_packed': ['--extreme', '--x-size', '128', '--symbol-aligned', '--packed'], 'rle24_byte': ['--x-size', '24', '--byte-aligned', '--not-short', '--lut-size', '0'], 'rle64_7symlut_byte_short': ['--greedy', '--lut-size', '7', '--x-size', '64'], 'rle8_7symlut': ['--x-size', '8', '--lut-size', '7', '--not-short']}
    for base, opt in sel.items():
        for f in [big] + mid + [rng.choice(small)]:
            for kind, pos in [('flip', 0), ('flip', 1000), ('flip', rng.randrange(1001)), ('flip', rng.randrange(900, 1001)), ('unwritten', rng.randrange(1001)), ('unwritten', 1000), ('short', 0), ('ret0', 0), ('leftover', 500)]:
                add('%s,%s_decompress,0,%d' % (kind, base, pos), [f, '--test'] + BASE + opt, 'fail')
            add('-', [f, '--test'] + BASE + opt, 'pass')
    # 3b. one wrong bit in files of every small size, at the beginning, the end and anywhere
    for n in (range(1, 330) if not deep else range(1, 2400)):
        f = files.add(mkdata(rng, n, 'mix')); opt = rng.choice(list(sel.items()))
        for kind, pos in (('flip', rng.choice([0, 1000])), ('flip', rng.randrange(1001)), (rng.choice(['short', 'long']), 0)): add('%s,%s_decompress,0,%d' % (kind, opt[0], pos), [f, '--test'] + BASE + opt[1], 'fail')
        if n % 4 == 0: add('-', [f, '--test'] + BASE + opt[1], 'pass')
    # 4. files that cannot be tested
    d = files.d
    empty = os.path.join(d, 'empty'); open(empty, 'wb').close()
    huge = os.path.join(d, 'huge'); open(huge, 'wb').truncate((1 << 32) + 100)
    for a in ([os.path.join(d, 'missing')], [empty], [d], [huge]):
        for v in (['--test'] + BASE, BASE + ['--test', '--max-simd', 'sse2'], ['--test', '--sh'] + BASE): add('-', a + v, 'unreadable')
    # 5. fuzzing modes
    it_faults = 150 if not deep else 1500
    for mode in ('--fuzz-iterative', '--fuzz-random'):
        for k in range(3 if not deep else 8): add('stop,-,%d,0' % (60000 if mode == '--fuzz-iterative' else 12000), ['x', mode], 'fuzz-pass', 240)
        n = it_faults if mode == '--fuzz-iterative' else it_faults // 2
        for k in range(n):
            fn = rng.choice(dec) if k % 8 else rng.choice(enc)
            kind = rng.choice(['flip', 'flip', 'flip', 'flip', 'unwritten', 'nothing', 'ret0', 'short', 'long']) if fn in dec else 'enc0'
            nth = rng.randrange(1, 380) if mode == '--fuzz-iterative' else rng.randrange(1, 40)
            add('%s,%s,%d,%d' % (kind, fn, nth, rng.choice([0, 1000, rng.randrange(1001), rng.randrange(1001)])), ['x', mode], 'fuzz-fail', 240)
    stats = {}
    hashes = {p: fnv(b) for p, b in files.data.items() if len(b) < 200000}
    def judge(i, r4, run):
        req = reqs[i]; exp = req[4]; f = req[3][0]; fault = req[0]; kind = fault.split(',')[0]
        if run.timeout:
            return ('inconclusive', i)
        if exp in ('fuzz-pass', 'fuzz-fail') and not run.sig and run.rc == 1 and not run.trace: raise HarnessError('fuzzing modes cannot run here: %s' % run.out[-200:])
        if exp == 'pass':
            bad = [t for t in run.trace if t[0] == 'D' and (int(t[4]) != len(files.data[f]) or (f in hashes and t[6] != hashes[f]))]
            if bad: return ('v', viol('codec-faulty', bad[0][1], 'codec itself failed: %s' % ' '.join(bad[0]), req, f))  # seen by the monitor on the way
            if run.rc != 0: return ('v', viol('false-failure', '-', 'every codec reproduced the file, yet the tool ended with %s' % run.how(), req, f))
            return ('ok', 'pass', len(run.trace))
        if exp == 'unreadable':
            if run.sig or run.rc == 0: return ('v', viol('unreadable-accepted', '-', 'file %s: %s' % (os.path.basename(f), run.how()), req))
            return ('ok', 'unreadable', 1)
        if exp == 'fail':
            if not run.injected:
                return ('ok', 'not-injected', 0)
            if run.sig: return ('v', viol('crash', fault.split(',')[1], 'tool ended with %s' % run.how(), req, f))
            if run.rc == 0: return ('v', viol('fault-missed', fault.split(',')[1], 'fault "%s" was injected, but the tool exited with 0' % fault, req, f))
            return ('ok', kind, 1)
        if exp == 'fuzz-pass':
            if not run.stopped: return ('v', viol('false-failure', '-', '%s: correct codecs, yet the fuzzer ended with %s: %s' % (req[3][1], run.how(), run.out[-200:]), req))
            sizes = {t[2] for t in run.encodes()}
            return ('ok', 'fuzz-pass', len(sizes))
        if exp == 'fuzz-fail':
            if run.missed or (run.rc == 0): return ('v', viol('fault-missed', fault.split(',')[1], '%s: fault "%s" was injected and not noticed' % (req[3][1], fault), req))
            if not run.injected: return ('v', viol('false-failure', '-', '%s: ended with %s before the fault "%s" was injected: %s' % (req[3][1], run.how(), fault, run.out[-200:]), req))
            return ('ok', 'fuzz-' + kind, 1)
    again = list(range(len(reqs)))
    for attempt in range(2):
        sub = again; again = []
        for v in srv.map([reqs[i][:4] for i in sub], lambda k, q, run: judge(sub[k], q, run)):
            if v[0] == 'inconclusive': again.append(v[1])
            elif v[0] == 'v': res.viol.append(v[1])
            else:
                res.add_ev('tool runs: ' + v[1], 1)
                if v[1] in ('pass', 'fuzz-pass'): res.add_ev('codec calls or inputs observed in ' + v[1], v[2])
        if not again: break
        again = sorted(again)
    if again: raise HarnessError('%d tool runs did not finish: %r' % (len(again), reqs[again[0]]))
    inj = sum(v for k, v in res.ev.items() if k.startswith('tool runs: ') and k.split(': ')[1] not in ('pass', 'fuzz-pass', 'unreadable', 'not-injected'))
    res.distinct = len({(r[0], tuple(r[3])) for r in reqs}); res.samples = ['%s <- %s' % (' '.join(os.path.basename(a) for a in reqs[i][3]), reqs[i][0]) for i in rng.sample(range(len(reqs)), 6)]
    import fuzzers
    swept = fuzzers.sweep(res, deep)
    log(res.ev)
    return finish(prop, tier, res, 'The real tool run with every codec function interposed: correct codecs have to pass, each injected fault (no size, wrong size, single flipped bit, unwritten range, nothing written, dependence on bytes behind the stream, failing encoder) in each codec has to fail, for the test option and both fuzzing modes; unreadable, missing, empty and oversized files have to fail. Within the fuzzers, a fault at a time in forked processes, each of which has to end with a failure before the next codec is called. Non-trivial: a distinct (fault, file, options).', len(reqs) + swept, level='fault_enumeration', extra={'faults_injected': inj + swept}, floors={'evaluations': 1000, 'sweep-faults': 5000})

# ------------------------------------------------------------------------------------------------ C18
def attrs():
    """Attributes of every codec, derived from its public name."""
    out = []
    for name, e, d in codec_rows():
        a = {'name': name, 'enc': e, 'dec': d, 'mode': 'extreme', 'align': None, 'packed': 'Packed' in name, 'short': 'Short' in name, 'greedy': 'Grdy' in name, 'single': 'Single' in name, 'lut': 0, 'multi': 'Single' not in name}
        m = re.match(r'(\d+) Bit', name); a['bits'] = int(m.group(1)) if m else 8
        if '(Symbol)' in name: a['align'] = 'symbol'
        elif '(Byte)' in name: a['align'] = 'byte'
        m = re.search(r'(\d)LUT', name)
        if m: a['lut'] = int(m.group(1))
        elif a['packed']: a['lut'] = 1
        if 'Huffman' in name: a.update(mode='sh', bits=8, multi=False)
        elif name.startswith('8 Bit MMTF'): a.update(mode='rle-mmtf', bits=128, multi=False)
        elif 'Low Entropy' in name: a.update(mode='low-entropy', bits=8)
        elif 'Multi MTF' in name: a.update(mode='mmtf', bits=int(re.search(r'(\d+) Bit', name).group(1)), multi=False, align=None)
        elif 'Bit MMTF' in name: a.update(mode='mmtf', bits=int(re.search(r'MMTF (\d+)', name).group(1)), multi=None, align=None)
        out.append(a)
    return out

DIM = {
    'mode': [None, '--extreme', '--rle-mmtf', '--mmtf', '--low-entropy', '--low-entropy-short', '--sh'],
    'align': [None, '--byte-aligned', '--symbol-aligned'], 'packed': [None, '--packed', '--not-packed'], 'greedy': [None, '--greedy', '--not-greedy'],
    'single': [None, '--single', '--multi'], 'short': [None, '--short', '--not-short'], 'lut': [None, 0, 1, 3, 7], 'bits': [None, 8, 16, 24, 32, 48, 64, 128, 256],
}

def expected(sel, table):
    """(must, may) run; None if the combination is documented to be refused."""
    m = sel.get('mode'); short = sel.get('short')
    if m == '--low-entropy-short':
        if short: return 'skip'
        m, short = '--low-entropy', '--short'
    b = sel.get('bits')
    if m == '--extreme' and sel.get('single') == '--single' and b not in (None, 8): return None
    if m == '--extreme' and b == 256: return None
    if m in ('--mmtf', '--rle-mmtf') and b not in (None, 8, 16, 128, 256): return None
    must, may = [], []
    for a in table:
        if m and a['mode'] != m[2:]: continue
        if sel.get('align') and a['align'] != {'--byte-aligned': 'byte', '--symbol-aligned': 'symbol'}[sel['align']]: continue
        if sel.get('packed') and a['packed'] != (sel['packed'] == '--packed'): continue
        if sel.get('greedy') and a['greedy'] != (sel['greedy'] == '--greedy'): continue
        if short and a['short'] != (short == '--short'): continue
        if sel.get('lut') is not None and a['lut'] != sel['lut']: continue
        if b is not None and a['bits'] != b: continue
        if sel.get('single') == '--single' and not a['single']: continue
        if sel.get('single') == '--multi':
            if a['multi'] is False: continue
            if a['multi'] is None: may.append(a); continue   # neither applies to the bit-wise transforms
        must.append(a)
    return must, may

def args_of(sel, rng=None):
    a = []
    for k, v in sel.items():
        if v is None: continue
        a.append([v] if isinstance(v, str) else [{'lut': '--lut-size', 'bits': '--x-size'}[k], str(v)])
    if rng: rng.shuffle(a)
    return [x for y in a for x in y]

def lines(out):
    for l in out.split('\n'):
        yield l.rsplit('\r', 1)[-1]

REPORT = re.compile(r'^(.{30})\| *([0-9.]+) % \|(.*)$')

def report(out):
    """[(name, ratio, figures)] of the finished codec lines; failures as (name, None, text)."""
    r = []
    for l in lines(out):
        m = REPORT.match(l)
        if m: r.append((m.group(1).strip(), float(m.group(2)), m.group(3)))
        else:
            m = re.match(r'^(.{30})\| <FAILED', l)
            if m: r.append((m.group(1).strip(), None, l))
    return r

def c18(prop, tier):
    deep = tier == 'thorough'; rng = random.Random(SEED * 104729 + 18)
    srv = Servers(build_tool()); files = Files(); res = Result(); table = attrs()
    fs = [files.add(mkdata(rng, n, 'mix')) for n in (700, 4096, 1234)] + [files.add(mkdata(rng, 5000, 0)), files.add(bytes(rng.randrange(256) for _ in range(900)))]
    hashes = {p: fnv(b) for p, b in files.data.items()}
    combos = []
    keys = list(DIM)
    full = list(itertools.product(*[DIM[k] for k in keys]))
    single = [c for c in full if sum(x is not None for x in c) <= 2]
    rest = [c for c in full if sum(x is not None for x in c) > 2]
    cpu = None
    reqs = []
    for c in single * (8 if deep else 3) + rest * (4 if deep else 1):
        sel = dict(zip(keys, c)); e = expected(sel, table)
        if e == 'skip': continue
        lv = rng.choice([None, None, None] + LEVELS)
        a = args_of(sel, rng); o = list(BASE)
        if rng.random() < .5: o += ['--test']
        if rng.random() < .15: o += ['--sd']
        if lv: o += ['--max-simd', lv]
        args = [rng.choice(fs)] + (a + o if rng.random() < .5 else o + a)
        reqs.append(('cpu,%d' % rng.randrange(9) if rng.random() < .3 else '-', '-', 60, args, e, lv))
    # every level on every machine
    for m in range(9):
        for lv in LEVELS + [None]:
            sel = dict(zip(keys, rng.choice(single))); e = expected(sel, table)
            if e == 'skip': sel = dict.fromkeys(keys); e = expected(sel, table)
            reqs.append(('cpu,%d' % m, '-', 60, [fs[0]] + BASE + args_of(sel, rng) + (['--max-simd', lv] if lv else []), e, lv))
    # refused: duplicates, unknown options, unknown values, missing values
    for k in ('align', 'packed', 'greedy', 'single', 'short'):
        for x, y in itertools.product(DIM[k][1:], repeat=2): reqs.append(('-', '-', 60, [fs[0], x, y] + BASE, None, None))
    for a in (['--lut-size', '3', '--lut-size', '7'], ['--x-size', '8', '--x-size', '16'], ['--lut-size', '5'], ['--lut-size', '2'], ['--x-size', '7'], ['--x-size', '17'], ['--x-size', '99'], ['--x-size', '21'], ['--max-simd', 'avx3'], ['--max-simd', 'sse'], ['--max-simd', 'sse4'], ['--max-simd', ' avx'], ['--max-simd'], ['--lut-size'], ['--x-size'], ['--nonsense'], ['--Packed'], ['--packe'], ['--packedx'], ['-h'], ['--runs', '-1'], ['--min-time', '-2'], ['--test', 'x']):
        reqs.append(('-', '-', 60, [fs[0]] + BASE + a, None, None)); reqs.append(('-', '-', 60, [fs[0]] + a[:1] + a[1:] + (BASE if len(a) > 1 or a[0] not in ('--max-simd', '--lut-size', '--x-size') else []), None, None))
    probe = srv.map([('-', '-', 60, [fs[0]] + BASE)], lambda i, q, r: r)[0]
    cpuflags = int(probe.encodes()[0][7])
    NAMES = {}
    for a in table: NAMES.setdefault(a['name'], a)
    def upto(lv):
        if lv is None or lv == 'avx512f': return -1
        keep = 0
        for l in LEVELS[1:LEVELS.index(lv) + 1]: keep |= 1 << FLAG[l]
        if lv == 'avx2': keep |= 1 << 9
        return keep
    def machine(fault): return cpuflags & upto(LEVELS[int(fault[4:])]) if fault != '-' else cpuflags    # (emulated lesser machines)
    def judge(i, r4, run):
        fault, clock, to, args, e, lv = reqs[i]; f = args[0]; req = reqs[i]; size = len(files.data[f])
        if run.timeout: return ('inconclusive', i)
        have = machine(fault); low = LEVELS[max(i for i, l in enumerate(LEVELS) if i == 0 or have >> FLAG[l] & 1)]
        if lv and lv != 'none' and not have >> FLAG[lv] & 1: e = None    # refused: not supported by the machine
        if e is None:
            if run.sig or run.rc == 0 or run.trace or report(run.out): return ('v', viol('not-refused', '-', 'options have to be refused, but: %s, %d codec calls' % (run.how(), len(run.trace)), req))
            return ('ok', 'refused', 1)
        if run.sig or run.rc != 0: return ('v', viol('failed', '-', 'tool ended with %s: %s' % (run.how(), run.out[-300:]), req, f))
        must, may = e
        enc = run.encodes()
        got = [t[1] for t in enc]
        want = [a['enc'] for a in must]; allow = want + [a['enc'] for a in may]
        miss = [x for x in want if x not in got]; extra = [x for x in got if x not in allow]; dup = [x for x in set(got) if got.count(x) > 1]
        if miss or extra or dup: return ('v', viol('wrong-selection', (miss + extra + dup)[0], 'not run: %s; run without being selected: %s; run twice: %s' % (miss[:4], extra[:4], dup[:4]), req, f))
        # calls
        pend = None; fl = have & upto(lv); byname = {}
        for t in run.trace:
            if int(t[7]) != fl if lv else int(t[7]) & ~have: return ('v', viol('simd-level', t[1], 'CPU feature flags are %#x instead of %#x with --max-simd %s on a machine with %#x' % (int(t[7]), fl, lv, have), req, f))
            if t[0] == 'C':
                if int(t[2]) != size or t[5] != hashes[f]: return ('v', viol('wrong-input', t[1], 'encoder was not given the file', req, f))
                pend = t
            else:
                a = next((a for a in table if a['enc'] == pend[1]), None)
                if t[1] != a['dec']: return ('v', viol('wrong-decoder', pend[1], 'stream of %s was given to %s' % (pend[1], t[1]), req, f))
                if int(t[2]) != int(pend[4]) or t[5] != pend[6]: return ('v', viol('wrong-stream', t[1], 'decoder was not given the stream of the encoder', req, f))
        # report
        rep = [x for x in report(run.out) if x[0] != 'memcpy']
        names = [x[0] for x in rep]
        wantnames = [next(a['name'] for a in table if a['enc'] == t[1]) for t in enc]
        if sorted(names) != sorted(wantnames): return ('v', viol('wrong-report', '-', 'reported %s, ran %s' % ([x for x in names if x not in wantnames][:4], [x for x in wantnames if x not in names][:4]), req, f))
        ratios = {n: (r, rest) for n, r, rest in rep}
        for t, n in zip(enc, wantnames):
            r, rest = ratios[n]
            if int(t[4]) == 0:
                if r is not None: return ('v', viol('wrong-report', n, 'encoder failed, but a ratio is reported', req, f))
                if not (n.startswith('Multi MTF') and (lv or low) in LEVELS[:LEVELS.index('avx')] or n.startswith('Multi MTF') and low in LEVELS[:LEVELS.index('avx')]): return ('v', viol('failed', n, 'encoder failed', req, f))
                continue
            if r is None or abs(r - int(t[4]) * 100.0 / size) > 0.0051: return ('v', viol('wrong-ratio', n, 'reported %s %%, compressed %s bytes of %d' % (r, t[4], size), req, f))
            ent = float(t[8]); m = re.search(r'\| *([0-9.]+) %$', rest)
            if ent >= 0 and m:
                w = ent * int(t[4]) / size * 100
                if abs(float(m.group(1)) - w) > 1e-4 + 1e-5 * w: return ('v', viol('wrong-entropy', n, 'reported R*H/log2(|S|) %s %%, expected %.7f %%' % (m.group(1), w), req, f))
            elif not m: return ('v', viol('wrong-report', n, 'line is incomplete: %s' % rest[:200], req, f))
        return ('ok', 'lines judged', len(enc))
    again = []
    def collect(vs, sub):
        for v in vs:
            if v[0] == 'inconclusive': again.append(v[1])
            elif v[0] == 'v': res.viol.append(v[1])
            else: res.add_ev('tool runs (%s)' % ('refused' if v[1] == 'refused' else 'selected'), 1); res.add_ev(v[1], v[2])
    collect(srv.map([r[:4] for r in reqs], judge), None)
    if again: raise HarnessError('%d tool runs did not finish' % len(again))
    res.distinct = len({tuple(r[3]) for r in reqs}); res.samples = [' '.join(r[3][1:]) for r in rng.sample(reqs, 6)]
    log(res.ev, 'violations', len(res.viol))
    return finish(prop, tier, res, 'The real tool run with combinations of selection options (all %d combinations); traced codec calls, the bytes they were given, CPU feature flags at each call and every report line compared with a model of the options. Non-trivial: a distinct command line.' % len(full), len(reqs), floors={'evaluations': 50000, 'lines judged': 5000})

# ------------------------------------------------------------------------------------------------ C23
FIG = re.compile(r'^ *([0-9.]+|inf|nan|-nan) MiB/s \( *([0-9.]+|inf) MiB/s\) \|(?: *(-?[0-9.]+|-?nan|-?inf) ~ *(-?[0-9.]+|-?nan|-?inf) MiB/s \|)? *([0-9.]+) MiB/s \( *([0-9.]+) MiB/s\) \|(?: *(-?[0-9.]+|-?nan|-?inf) ~ *(-?[0-9.]+|-?nan|-?inf) MiB/s \|)? *[-0-9.naif]+ %$')

def c23(prop, tier):
    deep = tier == 'thorough'; rng = random.Random(SEED * 15485863 + 23)
    srv = Servers(build_tool()); files = Files(); res = Result(); table = attrs()
    fs = [files.add(mkdata(rng, n, 'mix')) for n in (65536, 100003, 262144)]
    sels = [[], ['--sh'], ['--low-entropy'], ['--rle-mmtf'], ['--mmtf'], ['--packed'], ['--single'], ['--x-size', '24'], ['--x-size', '128'], ['--lut-size', '7', '--short'], ['--greedy'], ['--extreme', '--x-size', '8'], ['--extreme', '--not-packed', '--x-size', '48']]
    reqs = []
    for k in range(220 if not deep else 4000):
        sel = rng.choice(sels if k % 20 else [[]]); runs = rng.choice([0, 1, 2, 3, 5, 8, 17, 30]) if sel else rng.choice([0, 1, 2, 4])
        mt = 0
        if sel and '--not-packed' not in sel and rng.random() < .4: mt = rng.choice([1, 1, 2, 3])   # (the selection must not contain memcpy, which takes no time here)
        first = rng.randrange(1000000, 9000000); step = rng.choice([0, 0, rng.randrange(100000, 2000000)])
        if mt: first *= 20; step *= 20
        dry = first + 4 * step + rng.randrange(5000000, 50000000)
        a = [rng.choice(fs), '--runs', str(runs), '--min-time', str(mt)] + sel
        if rng.random() < .4: a += ['--sd']
        if rng.random() < .2: a += ['--test']
        reqs.append(('-', '%d,%d,%d' % (dry, first, step), 120, a, (runs, mt, dry, first, step)))
    def near(x, w, rel, ab): return abs(x - w) <= ab + rel * w
    def judge(i, r4, run):
        req = reqs[i]; f = req[3][0]; size = len(files.data[f]); runs, mt, dry, first, step = req[4]; sd = '--sd' in req[3]; nodelay = '--test' in req[3] or runs == 0
        if run.timeout: return ('inconclusive', i)
        if run.rc != 0: return ('v', viol('failed', '-', 'tool ended with %s: %s' % (run.how(), run.out[-200:]), req, f))
        m = re.search(r"Benchmarking File '([^']*)' \((\d+) Bytes\)", run.out)
        if not m or m.group(1) != f or int(m.group(2)) != size: return ('v', viol('wrong-file', '-', 'header does not name the file and its size', req, f))
        rep = {n: (r, rest) for n, r, rest in report(run.out)}; judged = 0
        series = []
        for t in run.trace:
            if series and series[-1][0] == t[1] and series[-1][2] == t[0]: series[-1][1] += 1
            else: series.append([t[1], 1, t[0]])
        pairs = list(zip(series[0::2], series[1::2]))
        for (e, ne, _), (d, nd, _) in pairs:
            n = next(a['name'] for a in table if a['enc'] == e)
            if n not in rep: return ('v', viol('no-report', n, 'no line for %s' % e, req, f))
            g = FIG.match(rep[n][1])
            if not g: return ('v', viol('no-report', n, 'unreadable line: %s' % rep[n][1], req, f))
            for what, calls, mean, peak, hi, lo in (('encoder', ne, g.group(1), g.group(2), g.group(3), g.group(4)), ('decoder', nd, g.group(5), g.group(6), g.group(7), g.group(8))):
                D = [dry] + [first + (k % 5) * step for k in range(calls - 1)]
                timed = D if nodelay else D[1:]
                want = max(1, runs)
                if len(timed) < want: return ('v', viol('runs', n, '%s ran %d times, %d were requested' % (what, len(timed), want), req, f))
                if mt == 0 and len(timed) != want: return ('v', viol('runs', n, '%s ran %d times instead of %d' % (what, len(timed), want), req, f))
                if mt and len(timed) > want and sum(D[:-1]) > mt * 1e9: return ('v', viol('min-time', n, '%s kept running after %.2f s' % (what, sum(D[:-1]) / 1e9), req, f))
                if mt and nodelay and sum(D) < mt * 1e9 * 0.99: return ('v', viol('min-time', n, '%s stopped after %.2f s instead of %d s' % (what, sum(D) / 1e9, mt), req, f))
                mib = size / 1048576.0; T = sum(timed) / 1e9
                w = mib * len(timed) / T
                if not near(float(mean), w, 0.01, 0.06): return ('v', viol('throughput', n, '%s: reported %s MiB/s, took %.4f s for %d runs of %d bytes, i.e. %.1f MiB/s' % (what, mean, T, len(timed), size, w), req, f))
                w = mib / (min(timed) / 1e9)
                if not near(float(peak), w, 0.01, 0.06): return ('v', viol('maximum', n, '%s: reported maximum %s MiB/s instead of %.1f MiB/s' % (what, peak, w), req, f))
                if sd and len(timed) >= 8 and not nodelay:
                    mu = sum(timed) / len(timed); s = math.sqrt(sum((x - mu) ** 2 for x in timed) / (len(timed) - 1)); s2 = math.sqrt(sum((x - mu) ** 2 for x in timed[1:]) / (len(timed) - 2))
                    for got, sign in ((hi, 1), (lo, -1)):
                        ws = [mib / ((mu + sign * x) / 1e9) for x in (s, s2)]
                        if not (min(ws) * 0.98 - 1 <= float(got) <= max(ws) * 1.02 + 1): return ('v', viol('deviation', n, '%s: reported %s MiB/s for the mean %+d standard deviation, expected about %.1f' % (what, got, sign, ws[0]), req, f))
                    judged += 1
                judged += 2
        if not pairs: return ('v', viol('no-report', '-', 'nothing was run', req, f))
        return ('ok', judged, len(run.trace))
    for v in srv.map([r[:4] for r in reqs], judge):
        if v[0] == 'inconclusive': raise HarnessError('a tool run did not finish: %r' % (reqs[v[1]],))
        if v[0] == 'v': res.viol.append(v[1])
        else: res.add_ev('tool runs', 1); res.add_ev('figures judged', v[1]); res.add_ev('timed codec calls', v[2])
    res.distinct = len({(r[1], tuple(r[3])) for r in reqs}); res.samples = ['%s, clock %s' % (' '.join(r[3][1:]), r[1]) for r in rng.sample(reqs, 6)]
    log(res.ev, 'violations', len(res.viol))
    return finish(prop, tier, res, 'The real tool on a virtual clock that only codec calls (and sleeping) advance by known amounts: number of runs, mean and maximum throughput and deviations of every report line compared with the durations. Non-trivial: a distinct (clock, command line).', res.ev.get('figures judged', 0), floors={'figures judged': 1000})

# ------------------------------------------------------------------------------------------------ C22
def bit(n): return n.bit_length() - 1

def segments(flags):
    """[(match, count, first position index)] of maximal runs of equal flags."""
    out = []
    for k, f in enumerate(flags):
        if out and out[-1][0] == f: out[-1][1] += 1
        else: out.append([f, 1, k])
    return out

def cl(v, lo, hi): return max(lo, min(hi, v))

def analyse(data, w):
    n = len(data); res = {}
    for aligned in (False, True):
        pos = [i for i in range(w, n - w + 1) if not aligned or i % w == 0]
        seg = segments([data[i:i + w] == data[i - w:i] for i in pos])
        r = {'count': 0, 'rep': 0, 'dist': 0, 'repBits': [0] * 64, 'distBits': [0] * 64, 'repExact': [0] * 64, 'distExact': [0] * 64, 'refs': [0] * 16, 'syms': [0] * 256, 'open': 0}
        recent = [bytes(w)] * 16; lit = prevLit = prevRun = 0; r['pairs'] = {}; r['moves'] = ({}, {})
        for x, (match, cnt, first) in enumerate(seg):
            L = (cnt if aligned else w + cnt - 1) if match else cnt
            k = 'rep' if match else 'dist'
            r[k] += L; r[k + 'Bits'][bit(L)] += 1
            if L <= 64: r[k + 'Exact'][L - 1] += 1
            if match:
                r['count'] += 1; s = data[pos[first]:pos[first] + w]
                if w == 1: r['syms'][s[0]] += 1
                if s in recent: ix = recent.index(s); r['refs'][ix] += 1; recent.pop(ix)
                else: recent.pop()
                recent.insert(0, s)
                if x + 1 < len(seg):   # what a run that ends the file contributes to the tables is not specified
                    k = (cl(bit(lit | 1) - 1, 0, 15), cl(bit(L) - 1, 0, 15)); r['pairs'][k] = r['pairs'].get(k, 0) + 1
                    for q, ref in enumerate((prevRun, prevLit)):
                        k = (cl((lit - ref if lit else 0) + 15, 0, 31), cl(L - prevRun + 15, 0, 31)); r['moves'][q][k] = r['moves'][q].get(k, 0) + 1
                else: r['open'] = 1
                prevRun = L; prevLit = lit
            else: lit = L
        res['aligned' if aligned else 'any'] = r
    return res

def c22(prop, tier):
    deep = tier == 'thorough'; rng = random.Random(SEED * 32452843 + 22)
    srv = Servers(build_tool()); files = Files(); res = Result()
    reqs = []
    def shape(k):
        if k < 60: n = k + 1
        else: n = rng.choice([rng.randrange(60, 600), rng.randrange(600, 5000), rng.randrange(60, 600)])
        c = rng.randrange(7)
        if c == 0: return bytes(rng.randrange(256) for _ in range(n))
        if c == 1: return bytes([rng.randrange(256)]) * n
        w = rng.randrange(1, 17); pool = [bytes(rng.randrange(256) for _ in range(w)) for _ in range(rng.choice([1, 2, 3, 8, 16, 17, 20]))] + ([bytes(w)] if rng.random() < .5 else [])
        out = bytearray()
        while len(out) < n:
            out += rng.choice(pool) * (rng.randrange(1, 12) if c < 5 else rng.choice([1, 2, 3, 40, 130, 1100]))
            if c in (2, 3, 5): out += bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 5, 16, 40])))
            if c == 4: out += bytes(-len(out) % w)
        return bytes(out[:n])
    for k in range(400 if not deep else 6000):
        f = files.add(shape(k)); reqs.append(('-', '-', 60, [f, '--analyze', '--sh'] + BASE))
    big = []
    for k in range(2 if not deep else 10):   # lengths beyond 2^16
        w = rng.choice([1, 2, 4, 16]); f = files.add(bytes(rng.randrange(256) for _ in range(70000)) + bytes(rng.randrange(256) for _ in range(w)) * (80000 // w) + bytes(rng.randrange(256) for _ in range(500))); reqs.append(('-', '-', 60, [f, '--analyze', '--sh'] + BASE))
    num = r' *(\d+)'
    def pct(text, want): return text.strip() in ('nan', '-nan', 'inf', '-inf') if want is None else abs(float(text) - want) <= 0.0051
    def judge(i, r4, run):
        req = reqs[i]; f = req[3][0]; data = files.data[f]; n = len(data)
        if run.timeout: return ('inconclusive', i)
        if run.rc != 0: return ('v', viol('failed', '-', 'tool ended with %s: %s' % (run.how(), run.out[-200:]), req, f))
        out = run.out; judged = 0
        def bad(kind, w, got, want): return ('v', viol(kind, 'width %s' % w, 'reported %s, the file has %s' % (got, want), req, f))
        m = re.search(r'Analysis Complete\.' + num + ' Bytes Total', out)
        if not m or int(m.group(1)) != n: return bad('size', '-', m and m.group(1), n)
        parts = re.split(r'RLE Length +(\d+)\n=+\n', out)
        if len(parts) != 33: return bad('sections', '-', len(parts), 33)
        for w in range(1, 17):
            if int(parts[2 * w - 1]) != w: return bad('sections', w, parts[2 * w - 1], w)
            sec = parts[2 * w]; model = analyse(data, w)
            for lab, key, mul in (('Non-Aligned', 'any', 1), ('Aligned', 'aligned', w)):
                g = re.search(r'^%s: +Repeating:' % lab + num + r' \(' + num + r' Bytes, *([0-9.]+) %,' + num + ' Bytes Distinct', sec, re.M)
                if not g: return bad('summary', w, 'nothing', lab)
                r = model[key]
                if (int(g.group(1)), int(g.group(2)), int(g.group(4))) != (r['count'], r['rep'] * mul, r['dist'] * mul): return bad('summary ' + lab, w, g.groups(), (r['count'], r['rep'] * mul, r['dist'] * mul))
                if not pct(g.group(3), r['rep'] * mul * 100.0 / n): return bad('summary percent', w, g.group(3), r['rep'] * mul * 100.0 / n)
                judged += 4
            rows = re.findall(r'^ ?(\d+) Bit: \|' + num + r' \|' + num + r' \|\| +(\d+) Bytes: \|' + num + r' \|' + num + r' \|\| +(\d+) Bit: \|' + num + r' \|' + num + r' \|\| +(\d+) Symbols: \|' + num + r' \|' + num, sec, re.M)
            if len(rows) != 64: return bad('rows', w, len(rows), 64)
            a, b = model['any'], model['aligned']
            for k, g in enumerate(rows):
                g = list(map(int, g)); want = [k + 1, a['repBits'][k], a['distBits'][k], k + 1, a['repExact'][k], a['distExact'][k], k + 1, b['repBits'][k], b['distBits'][k], k + 1, b['repExact'][k], b['distExact'][k]]
                if g != want: return bad('lengths row %d' % (k + 1), w, g, want)
                judged += 8
            refs = re.findall(r'^ ?(\d+) \|' + num + r' \( *(\S+) %\) \|' + num + r' \( *(\S+) %\)', sec, re.M)
            if len(refs) != 16: return bad('references', w, len(refs), 16)
            for k, g in enumerate(refs):
                if int(g[1]) != a['refs'][k] or int(g[3]) != b['refs'][k]: return bad('references row %d' % (k + 1), w, g, (a['refs'][k], b['refs'][k]))
                for t, r in ((g[2], a), (g[4], b)):
                    if r['count'] and abs(float(t) - r['refs'][k] * 100.0 / r['count']) > 0.00051: return bad('references percent', w, t, r['refs'][k] * 100.0 / r['count'])
                judged += 4
            # the tables: one entry per run, by the lengths of the run and of the literals before it, and by how both differ from those before
            def table(rows, want, total, slack):
                # slack: a run that ends the file may or may not be in there (one entry)
                used = 0
                for y, row in enumerate(rows):
                    for x, t in enumerate(row):
                        v = want.get((y, x), 0)
                        if abs(float(t) - v * 100.0 / total) <= 0.0501: continue
                        if slack and not used and abs(float(t) - (v + 1) * 100.0 / total) <= 0.0501: used = 1; continue
                        return (y, x, t, '%.2f' % (v * 100.0 / total))
            rows = [g.split('|') for g in re.findall(r'^(?: ?\d+|> ) \| ((?:\s*[^\s|]+ ){16}\| (?:\s*[^\s|]+ ){16})$', sec, re.M)]
            if len(rows) != 16: return bad('length table', w, len(rows), 16)
            for q, r in ((0, a), (1, b)):
                if not r['count']: continue
                e = table([x[q].split() for x in rows], r['pairs'], r['count'], r['open'])
                if e: return bad('length table (%s) row %d column %d' % (('non-aligned', 'aligned')[q], e[0], e[1]), w, e[2], e[3])
                judged += 256
            rows = re.findall(r'^(?:-? *-?\d+| < | > ) +\| ((?:\s*[^\s|]+ ){32})$', sec, re.M)
            if len(rows) != 64: return bad('difference tables', w, len(rows), 64)
            for q, r in ((0, a), (1, b)):
                if not r['count']: continue
                e = [table([x.split() for x in rows[32 * q:32 * q + 32]], r['moves'][d], r['count'], r['open']) for d in (0, 1)]
                if all(e): return bad('difference table (%s) row %d column %d' % (('non-aligned', 'aligned')[q], e[0][0], e[0][1]), w, e[0][2], e[0][3])
                judged += 1024
        def histogram(title, counts, total):
            k = out.index(title) if title in out else -1
            rows = re.findall(r'^([0-9A-F]) \| ((?:\s*\S+ \| ){16})', out[k:], re.M)[:16] if k >= 0 else []
            if len(rows) != 16: return bad(title, '-', len(rows), 16)
            for lo, (d, r) in enumerate(rows):
                for hi, t in enumerate(r.split('|')[:16]):
                    if total and not pct(t, counts[hi << 4 | lo] * 100.0 / total): return bad('%s symbol %02X' % (title, hi << 4 | lo), '-', t, counts[hi << 4 | lo] * 100.0 / total)
        m1 = analyse(data, 1)['any']; h = [0] * 256
        for x in data: h[x] += 1
        v = histogram('RLE-Symbol Histogram:', m1['syms'], m1['count']) or histogram('\nHistogram:', h, n)
        if v: return v
        return ('ok', judged + 512, m1['count'])
    for v in srv.map([r[:4] for r in reqs], judge):
        if v[0] == 'inconclusive': raise HarnessError('a tool run did not finish: %r' % (reqs[v[1]],))
        if v[0] == 'v': res.viol.append(v[1])
        else: res.add_ev('reports', 1); res.add_ev('figures judged', v[1]); res.add_ev('runs of single bytes in the files', v[2])
    res.distinct = len({files.data[r[3][0]] for r in reqs}); res.samples = ['%d bytes, sha1 %s' % (len(files.data[r[3][0]]), hashlib.sha1(files.data[r[3][0]]).hexdigest()[:12]) for r in rng.sample(reqs, 6)]
    log(res.ev, 'violations', len(res.viol))
    return finish(prop, tier, res, 'The real tool\'s analysis report of generated files (every size 1..60, runs of symbols of 1..16 bytes, noise, more recurring symbols than the report tracks) compared figure by figure with an independent model. Non-trivial: distinct file contents.', res.ev.get('figures judged', 0), floors={'figures judged': 100000})

# ------------------------------------------------------------------------------------------------ C28
def c28(prop, tier):
    deep = tier == 'thorough'; rng = random.Random(SEED * 7919 + 28)
    srv = Servers(build_tool(account=True)); files = Files(); res = Result()
    fs = [files.add(mkdata(rng, n, 'mix')) for n in (1, 40, 5000, 66000)]
    reqs = []
    modes = [['--test', '--sh'] + BASE, ['--sh'] + BASE, ['--test'] + BASE, ['--low-entropy', '--sd'] + BASE, ['--analyze', '--sh'] + BASE, ['--test', '--max-simd', 'sse2', '--extreme', '--x-size', '24'] + BASE]
    for f in fs:
        for m in modes:
            for n in range(1, 9): reqs.append(('nomem,-,%d,0' % n, '-', 120, [f] + m))
            reqs.append(('noopen,-,1,0', '-', 120, [f] + m))
            for pos in [0, 1000] + [rng.randrange(1001) for _ in range(20 if deep else 3)]: reqs.append(('noread,-,%d,%d' % (rng.choice([1, 1, 1, 2]), pos), '-', 120, [f] + m))
            for pos in (0, 500, 900): reqs.append(('nosize,-,1,%d' % pos, '-', 120, [f] + m))
    # growing lists of measurements (more than a thousand runs)
    for runs in (1100, 2100, 4200):
        for n in range(4, 10): reqs.append(('nomem,-,%d,0' % n, '-', 200, [fs[1], '--sd', '--sh', '--runs', str(runs), '--min-time', '0']))
    for mode in ('--fuzz-iterative', '--fuzz-random'):
        for n in range(1, 6): reqs.append(('nomem,-,%d,0' % n, '-', 120, ['x', mode]))
    def judge(i, q, run):
        req = reqs[i]; f = req[3][0]; data = f if f in files.data else None
        if run.timeout: return ('inconclusive', i)
        kind = req[0].split(',')[0]
        if run.sig: return ('v', viol('crash', '-', '%s (number %s): the tool ended with %s%s' % (kind, req[0].split(',')[2], run.how(), '' if run.denied else ', without a failure being injected'), req, data))
        if not run.denied:
            if run.rc != 0 and not run.stopped: return ('v', viol('false-failure', '-', 'nothing failed, yet the tool ended with %s' % run.how(), req, data))
            return ('ok', 'not reached', 0)
        if run.rc == 0: return ('v', viol('ignored', '-', '%s (number %s) was injected, but the tool exited with 0' % (kind, req[0].split(',')[2]), req, data))
        if run.after: return ('v', viol('ignored', '-', '%s (number %s) was injected, but codecs were run afterwards: %s' % (kind, req[0].split(',')[2], ' '.join(run.after[0][:4])), req, data))
        return ('ok', kind, 1)
    again = list(range(len(reqs)))
    for attempt in range(2):
        sub = again; again = []
        for v in srv.map([reqs[i][:4] for i in sub], lambda k, q, run: judge(sub[k], q, run)):
            if v[0] == 'inconclusive': again.append(v[1])
            elif v[0] == 'v': res.viol.append(v[1])
            else: res.add_ev('tool runs: ' + v[1], 1)
        if not again: break
        again = sorted(again)
    if again: raise HarnessError('%d tool runs did not finish: %r' % (len(again), reqs[again[0]]))
    res.distinct = len({(r[0], tuple(r[3])) for r in reqs}); res.samples = ['%s <- %s' % (' '.join(os.path.basename(a) for a in reqs[i][3]), reqs[i][0]) for i in rng.sample(range(len(reqs)), 6)]
    log(res.ev)
    return finish(prop, tier, res, 'Runs of the real tool in which one allocation, the opening, the size query or the reading of the file fails: it has to end with a failure status, without a crash and without running codecs on the incomplete data. Non-trivial: a different failure point or command line.', len(reqs), assumptions=['failures of allocations inside of the C library and of writing to the terminal are not injected'])
