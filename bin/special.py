"""The checks that need more than one plain run of the native monitors."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
from vlib import *

CHECKS = {}
def check(p):
    def d(f): CHECKS[p] = f; return f
    return d

# ------------------------------------------------------------------------------------------------ C10
ARCH = {  # what `--max-simd <level>` promises, in terms of the assembler's feature names
    'none': ['sse', 'sse2'], 'sse2': ['sse', 'sse2'], 'sse3': ['sse3'], 'ssse3': ['ssse3'], 'sse4.1': ['sse4.1'], 'sse4.2': ['sse4.2', 'popcnt'],
    'avx': ['sse4.2', 'popcnt', 'avx', 'aes', 'pclmul'], 'avx2': ['sse4.2', 'popcnt', 'avx', 'aes', 'pclmul', 'avx2', 'fma', 'bmi', 'bmi2', 'lzcnt', 'movbe', 'f16c'],
    'avx512f': ['sse4.2', 'popcnt', 'avx', 'aes', 'pclmul', 'avx2', 'fma', 'bmi', 'bmi2', 'lzcnt', 'movbe', 'f16c', 'avx512f', 'avx512cd'] }
SKIP = re.compile(r'^(j\w+|call\w*|ret\w*|nop\w*|endbr64|leave\w*|xgetbv|cpuid|pause|int3|data16|cs|notrack|bnd|rep|repz|repnz|lock|addr32|hlt|ud2|loop\w*|push\w*|pop\w*|tzcnt\w*)$')  # (rep bsf == tzcnt is emitted for baseline CPUs on purpose)

def disassemble(exe):
    p = run(['objdump', '-d', '--no-show-raw-insn', '-w', exe])
    if p.returncode: raise HarnessError('objdump failed')
    ins, fn, cur = {}, {}, '?'
    for l in p.stdout.decode(errors='replace').splitlines():
        m = re.match(r'^([0-9a-f]+) <(.+)>:$', l)
        if m: cur = m.group(2); continue
        m = re.match(r'^\s*([0-9a-f]+):\t(.*)$', l)
        if m:
            a = int(m.group(1), 16); ins[a] = re.sub(r'\s*(#.*|<[^>]*>)', '', m.group(2)).strip(); fn[a] = cur
    return ins, fn

def reject(insts, level):
    """Instructions (text) the assembler refuses for this level."""
    d = scratch(); src = os.path.join(d, 'isa-%s.s' % level)
    good = sorted(insts)
    with open(src, 'w') as f:
        f.write('.arch generic64\n' + ''.join('.arch .%s\n' % a for a in ARCH[level]))
        base = 1 + len(ARCH[level])
        for t in good: f.write(t + '\n')
    p = run(['as', '--64', '-o', '/dev/null', src])
    bad = {}
    for m in re.finditer(r':(\d+): Error: (.*)', p.stderr.decode(errors='replace')):
        i = int(m.group(1)) - base - 1
        if 0 <= i < len(good): bad[good[i]] = m.group(2)
        else: raise HarnessError('assembler: %s' % m.group(0))
    return bad

def executed(out, tag, elfbase):
    hit = {}
    for f in glob.glob(os.path.join(out, tag + '-*.txt')):
        lv = None
        for l in open(f):
            if l.startswith('L '): lv = hit.setdefault(l[2:].strip(), set())
            else: lv.add(int(l, 16) + elfbase)
    return hit

def judge_isa(r, notes, hit, ins, fn, fl):
    for lv, addrs in sorted(hit.items()):
        texts = {}
        for a in addrs:
            t = ins.get(a)
            if t is None: continue
            w = t.split()
            if not w or SKIP.match(w[0]): continue
            if w[0] in ('rep', 'repz', 'repnz', 'lock', 'cs', 'data16', 'notrack', 'bnd'): continue
            texts.setdefault(t, a)
        known = len([a for a in addrs if a in ins])
        if known < 1000: raise HarnessError('only %d executed instructions identified at level %s' % (known, lv))
        bad = reject(texts, lv)
        r.add_ev('distinct-instructions-beyond-sse2@%s' % lv, len(reject(texts, 'none')))
        real = {}
        for t, e in bad.items():
            if re.search(r'not supported|unsupported', e): real[t] = e       # the assembler knows the instruction, but not for this feature set
            else: notes.append('%s/%s: not classified: %s (%s)' % (fl, lv, t, e))
        r.add_ev('executed-instruction-addresses@%s' % lv, len(addrs)); r.add_ev('distinct-instructions@%s' % lv, len(texts))
        by = {}
        for t in real: by.setdefault(fn[texts[t]], []).append(t)
        for name, ts in sorted(by.items())[:10]:
            r.viol.append({'kind': 'isa', 'codec': name, 'what': 'level %s, %s build' % (lv, fl), 'detail': 'executes %d instruction(s) beyond %s, e.g. `%s` (%s)' % (len(ts), lv, ts[0], real[ts[0]]), 'flavour': fl})

def in_blocks(hit, ins):
    """The instructions that are executed whenever a block is entered behind its marker: up to the first branch or the next marker."""
    order = sorted(ins); idx = {a: i for i, a in enumerate(order)}; memo = {}
    def walk(a):
        if a not in memo:
            m = memo[a] = []
            i = idx.get(a)
            while i is not None and i < len(order) and len(m) < 4000:
                t = ins[order[i]].split()
                if not t or (t[0].startswith('call') and order[i] in MARK) or re.match(r'^(j\w+|ret\w*|loop\w*|ud2|hlt|int3|\(bad\)|bnd|notrack)$', t[0]): break
                m.append(order[i]); i += 1
        return memo[a]
    return {lv: {x for a in addrs for x in walk(a)} for lv, addrs in hit.items()}

MARK = set()
def marker_calls(exe):
    p = run(['objdump', '-d', '--no-show-raw-insn', '-w', exe])
    return {int(m.group(1), 16) for m in re.finditer(r'^\s*([0-9a-f]+):\t(?:call|jmp)q?\s.*<__sanitizer_cov_trace_pc>', p.stdout.decode(errors='replace'), re.M)}

@check('C10')
def c10(prop, tier):
    deep = tier == 'thorough'
    res = Result(); notes = []
    for fl in ['gcc', 'clang']:
        out = os.path.join(scratch(), 'out'); shutil.rmtree(out, ignore_errors=True)
        if deep or fl == 'gcc':
            exe = build(fl, harness_files=('step.c', 'eng.c', 'gen.c', 'common.c'), out='step', link=['-no-pie'])
            r = run_shards(exe, prop, 'step', ['--count', 16 if deep else 1, '--depth', int(deep), '--deadline', 1200 if deep else 200], timeout=2000 if deep else 400, tag=fl)
            ins, fn = disassemble(exe)
            elfbase = min((int(x.split()[2], 16) for x in run(['readelf', '-lW', exe]).stdout.decode().splitlines() if x.strip().startswith('LOAD')), default=0)
            judge_isa(r, notes, executed(out, 'step', elfbase), ins, fn, fl)
            log('%s: %s, violations %d' % (fl, {k: v for k, v in r.ev.items() if 'stepped' in k}, len(r.viol)))
            res.merge(r)
        exe = build(fl, harness_files=('blocks.c', 'eng.c', 'gen.c', 'common.c'), out='blocks', lib_flags=['-fsanitize-coverage=trace-pc' + (',no-prune' if fl == 'clang' else '')], link=['-no-pie'])
        r = run_shards(exe, prop, 'blocks', ['--count', 24000 if deep else 3000, '--depth', int(deep), '--deadline', 900 if deep else 120], timeout=2000 if deep else 400, tag=fl)
        ins, fn = disassemble(exe)
        elfbase = min((int(x.split()[2], 16) for x in run(['readelf', '-lW', exe]).stdout.decode().splitlines() if x.strip().startswith('LOAD')), default=0)
        MARK.clear(); MARK.update(marker_calls(exe))
        hit = executed(out, 'blk', elfbase); full = in_blocks(hit, ins)
        for lv in hit: r.add_ev('distinct-blocks@%s' % lv, len(hit[lv]))
        judge_isa(r, notes, full, ins, fn, fl + ' blocks')
        log('%s blocks: %s, violations %d' % (fl, {k: v for k, v in r.ev.items() if 'blocks' in k}, len(r.viol)))
        res.merge(r)
    exe = build('clang', harness_files=('detect.c', 'eng.c', 'gen.c', 'common.c'), out='detect', extra_flags=['-D_GNU_SOURCE', '-include', os.path.join(HARN, 'fake_cpu.h')])
    r = run_shards(exe, prop, 'detect', ['--count', 60000 if deep else 6000], timeout=900)
    log('detection: %s' % r.ev); res.merge(r)
    res.notes += notes[:20]
    n = res.ev.get('instructions-stepped-in-codecs', 0) + res.ev.get('machines', 0) + res.ev.get('block-calls', 0)
    return finish(prop, tier, res, 'Every codec x SIMD level single-stepped on generated inputs (2 compilers); executed instructions judged by the assembler for the feature set of the level; in builds that report every basic block, the blocks entered at each level on the whole workload are judged likewise. Detection on emulated CPUs (CPUID/XCR0 words of real machines and random mutations). Non-trivial: (codec, level, stream) resp. machine not seen before.', n, floors={'evaluations': 1000000, 'stepped-calls': 1000, 'block-calls': 100000})

# ------------------------------------------------------------------------------------------------ C09
@check('C09')
def c09(prop, tier):
    deep = tier == 'thorough'
    exe = build('gcc')
    so = build('clangpic', harness_files=('common.c',), out='alt.so', shared=True)
    r = run_shards(exe, prop, 'levels', ['--count', 60000 if deep else 5000, '--depth', int(deep), '--deadline', 1500 if deep else 200, '--extra', so], timeout=3000 if deep else 500, tag='gcc')
    log({k: v for k, v in r.ev.items() if '@' in k or 'stream' in k or k == 'pairs'})
    return finish(prop, tier, r, 'Every input encoded at every available SIMD level by a gcc and a clang build; every distinct stream decoded at every level by both builds. Non-trivial: a (codec, stream) pair not seen before.', r.ev.get('pairs', 0), floors={'pairs': 100000, 'distinct': 10000})

# ------------------------------------------------------------------------------------------------ C12
def tsan_report(se, rc):
    m = re.search(r'WARNING: ThreadSanitizer: ([^\n]*)\n(.{0,2500})', se, re.S)
    if not m: return None
    fns = re.findall(r'#\d+ (\w+) [^\n]*/src/([\w.]+:\d+)', m.group(2))
    return {'kind': 'race', 'codec': fns[0][0] if fns else '-', 'detail': 'ThreadSanitizer: %s; %s' % (m.group(1), ', '.join('%s (%s)' % f for f in fns[:6]))}

@check('C12')
def c12(prop, tier):
    deep = tier == 'thorough'
    res = Result()
    hf = ('threads.c', 'eng.c', 'gen.c', 'common.c')
    exe = build('tsan', harness_files=hf, out='threads')
    env = {'TSAN_OPTIONS': 'exitcode=66 halt_on_error=1 report_signal_unsafe=0 history_size=2'}
    wrapper = []
    p = run([exe, '--mode', 'first', '--count', '1', '--prop', prop, '--out', scratch()], timeout=120, env=dict(os.environ, **env))
    if b'unexpected memory mapping' in p.stderr:
        wrapper = ['setarch', '-R']
    for mode, n in (('first', 960 if deep else 240), ('stress', 3000 if deep else 240)):
        r = run_shards(exe, prop, mode, ['--count', n, '--deadline', 900 if deep else 150], timeout=2000 if deep else 400, env=env, wrapper=wrapper, san=tsan_report, shards=4 if mode == 'stress' else 8, tag='tsan')
        log('tsan %s: %s' % (mode, r.ev)); res.add_ev('tsan-%s' % mode, sum(v for k, v in r.ev.items() if k == 'concurrent-calls')); res.merge(r)
    exe = build('clang', harness_files=hf, out='threads')
    for mode, n in (('first', 20000 if deep else 2400), ('stress', 40000 if deep else 3600)):
        r = run_shards(exe, prop, mode, ['--count', n, '--deadline', 900 if deep else 150], timeout=2000 if deep else 400, shards=4, tag='clang')
        log('native %s: %s' % (mode, r.ev)); res.merge(r)
    return finish(prop, tier, res, 'Race detector on (a) fresh processes whose 8 threads make the first calls into the library at once, (b) 8 threads encoding and decoding at a fixed SIMD level; the same workloads, larger, without it, compared with single threaded results. Non-trivial: a distinct combination of codecs, inputs, perturbation and core confinement.', res.ev.get('concurrent-calls', 0), floors={'evaluations': 10000, 'tsan-first': 100, 'tsan-stress': 500})

# ------------------------------------------------------------------------------------------------ C15
@check('C15')
def c15(prop, tier):
    deep = tier == 'thorough'
    exe = build('clang')
    so = build('clangpic', harness_files=('common.c',), out='ref.so', shared=True, repo=os.path.join(VERIF, 'ref'))
    r = run_shards(exe, prop, 'compat', ['--count', 250000 if deep else 22000, '--depth', int(deep), '--deadline', 1500 if deep else 200, '--extra', so], timeout=3000 if deep else 500, tag='clang')
    log({k: v for k, v in r.ev.items() if 'stream' in k})
    n = r.ev.get('new-streams-read-by-archived-decoder', 0) + r.ev.get('archived-streams-read-by-new-decoder', 0)
    return finish(prop, tier, r, 'Every input encoded by the archived build and decoded by the current one and vice versa, at random SIMD levels, incl. sub-section streams. Non-trivial: a (codec, stream) pair not seen before.', n, assumptions=['/verif/ref/src is a snapshot of the codecs and represents the decoders and streams in use'], floors={'evaluations': 100000, 'distinct': 10000})

# ------------------------------------------------------------------------------------------------ C29
@check('C29')
def c29(prop, tier):
    deep = tier == 'thorough'
    exe = build('clang')
    so = build('clangpic', harness_files=('common.c',), out='ref.so', shared=True, repo=os.path.join(VERIF, 'ref'))
    r = run_shards(exe, prop, 'ratio', ['--count', 250000 if deep else 26000, '--depth', int(deep), '--deadline', 1500 if deep else 200, '--extra', so], timeout=3000 if deep else 500, tag='clang')
    sums = {}
    for k in [k for k in r.ev if k.startswith('R|')]:
        _, codec, level, shape, what = k.split('|'); v = r.ev.pop(k)
        for g in ((codec, level, shape), (codec, level, 'all data'), (codec, 'all levels', shape), (codec, 'all levels', 'all data')): d = sums.setdefault(g, {'cur': 0, 'ref': 0, 'n': 0}); d[what] += v
    worst = 0.0; judged = 0; done = set()
    for (codec, level, shape), d in sorted(sums.items(), key=lambda x: (x[0][1] != 'all levels', x[0][2] != 'all data')):
        if d['n'] < 100: continue
        judged += 1; q = d['cur'] / d['ref']; worst = max(worst, q)
        if q > 1.005 and codec not in done:
            done.add(codec); r.viol.append({'kind': 'less-efficient', 'codec': codec, 'detail': '%d inputs (%s, %s): %d bytes in total, %d by the archived encoder' % (d['n'], shape, level, d['cur'], d['ref']), 'cmd': [exe, '--mode', 'ratio', '--seed', str(SEED)]})
    r.add_ev('groups (codec, level, kind of data) judged', judged)
    log(r.ev, 'largest quotient %.4f' % worst)
    return finish(prop, tier, r, 'Every input encoded by the archived and by the current encoder at the same SIMD level; the sizes are compared one by one and in total for every codec, level and kind of data. Non-trivial: a (codec, stream) pair not seen before.', r.ev.get('sizes-compared', 0), assumptions=['/verif/ref/src stands for the released encoders'], floors={'evaluations': 100000, 'distinct': 10000})

# ------------------------------------------------------------------------------------------------ C30
def speed_counts(out, exe):
    """(codec, level, direction, kind of data) -> bytes, executed instructions, executed vector instructions of class >= 0 .. 4"""
    ins, fn = disassemble(exe); order = sorted(ins); idx = {a: i for i, a in enumerate(order)}; mark = marker_calls(exe)
    elfbase = min((int(x.split()[2], 16) for x in run(['readelf', '-lW', exe]).stdout.decode().splitlines() if x.strip().startswith('LOAD')), default=0)
    rows, blocks = [], {}
    for f in glob.glob(os.path.join(out, 'speed-*.txt')):
        for l in open(f):
            p = l.rstrip('\n').split('|'); b = [(int(a, 16) + elfbase, int(n)) for a, n in (x.split(':') for x in p[6].split())]
            rows.append((tuple(p[:4]), int(p[4]), int(p[5]), b))
            for a, _ in b: blocks.setdefault(a, [])
    texts = set()
    for a, m in blocks.items():
        i = idx.get(a)
        while i is not None and i < len(order) and len(m) < 4000:
            t = ins[order[i]]; w = t.split()
            if not w or order[i] in mark: break
            m.append(t)
            if re.search(r'%([xyz]mm|k[0-7])', t): texts.add(t)
            if re.match(r'^(j\w+|ret\w*|loop\w*|ud2|hlt|int3|\(bad\)|bnd|notrack)$', w[0]): break
            i += 1
    no = {lv: reject(texts, lv) for lv in ('sse3', 'sse4.2', 'avx', 'avx2')}
    cls = {t: 4 if t in no['avx2'] else 3 if t in no['avx'] else 2 if t in no['sse4.2'] else 1 if t in no['sse3'] else 0 for t in texts}
    size = {}
    for a, m in blocks.items():
        v = [len(m), 0, 0, 0, 0, 0]
        for t in m:
            for c in range(cls.get(t, -1) + 1): v[c + 1] += 1
        size[a] = v
    got = {}
    for k, b, mem, l in rows:
        v = [mem, 0, 0, 0, 0, 0]
        for a, n in l:
            z = size[a]
            for c in range(6): v[c] += n * z[c]
        got[k] = (b, v)
    return got

@check('C30')
def c30(prop, tier):
    deep = tier == 'thorough'
    res = Result()
    NAMES = ['SSE2', 'SSSE3 or SSE4', 'AVX', 'AVX2', 'AVX-512']
    for fl in (['gcc', 'clang'] if deep else ['gcc']):
        got = {}
        out = os.path.join(scratch(), 'out')
        for which, repo in (('ref', os.path.join(VERIF, 'ref')), ('cur', REPO)):
            shutil.rmtree(out, ignore_errors=True)
            exe = build(fl, harness_files=('speed.c', 'eng.c', 'gen.c', 'common.c'), out='speed-' + which, lib_flags=['-fsanitize-coverage=trace-pc' + (',no-prune' if fl == 'clang' else '')], link=['-no-pie', '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp'], repo=repo)
            r = run_shards(exe, prop, 'speed', ['--count', 12 if deep else 1, '--depth', int(deep)], timeout=2000 if deep else 400, tag=fl)
            got[which] = speed_counts(out, exe)
            log(which, r.ev)
            if which == 'cur': res.merge(r)
            elif r.viol: raise HarnessError('the archived build misbehaves')
            else: res.add_ev('blocks-entered-in-archived-build', r.ev.get('blocks-entered', 0))
        worst = {}; seenv = set(); vecs = {}
        for k, (b, v) in sorted(got['cur'].items()):
            rb, w = got['ref'].get(k, (0, None))
            if not b or b != rb: continue
            res.add_ev('groups (codec, level, direction, kind of data) compared', 1)
            q = v[0] / (w[0] + 1500.0); worst[k[2]] = max(worst.get(k[2], (0,)), (q, k, v[0], w[0]))
            if q > LIMIT_SPEED and (k[0], k[2]) not in seenv:
                seenv.add((k[0], k[2])); res.viol.append({'kind': 'slower', 'codec': k[0], 'what': '%s at %s, %s build' % (k[2], k[1], fl), 'detail': '%d bytes (%s): %d instructions executed, %d by the archived version' % (b, k[3], v[0], w[0]), 'flavour': fl})
            for c in (4, 3, 2, 1):
                if w[c + 1] < 500 or w[c + 1] < 0.05 * w[0]: continue
                res.add_ev('uses of %s instructions compared' % NAMES[c], 1)
                s = v[c + 1] / w[c + 1]; vecs[c] = min(vecs.get(c, (9,)), (s, k, v, w))
                if s < LIMIT_VEC and (k[0], k[2], 0) not in seenv:
                    seenv.add((k[0], k[2], 0)); res.viol.append({'kind': 'not-vectorised', 'codec': k[0], 'what': '%s at %s, %s build' % (k[2], k[1], fl), 'detail': '%d bytes (%s): %d %s instructions executed, %d by the archived version' % (b, k[3], v[c + 1], NAMES[c], w[c + 1]), 'flavour': fl})
        for d, x in sorted(worst.items()): log('%s: largest quotient %s' % (d, x)); res.notes.append('%s, %s build: at most %.2f times the instructions of the archived version (%s)' % (d, fl, x[0], ' '.join(x[1])))
        for c, x in sorted(vecs.items()): log('class %d: smallest quotient %s' % (c, x))
    return finish(prop, tier, res, 'The blocks entered by every codec at every SIMD level in either direction, on eight kinds of data with aligned and unaligned buffers, multiplied by their contents: the instructions executed in all, and those of every vector extension, are compared with the archived version built the same way. Non-trivial: a (codec, level, stream) triple not seen before.', res.ev.get('groups (codec, level, direction, kind of data) compared', 0) + sum(v for k, v in res.ev.items() if k.startswith('uses of')), assumptions=['/verif/ref/src stands for the released implementation'], floors={'evaluations': 5000, 'counted-calls': 5000})
LIMIT_SPEED = 2.0; LIMIT_VEC = 0.1

import tool
CHECKS['C17'] = tool.c17; CHECKS['C22'] = tool.c22; CHECKS['C23'] = tool.c23; CHECKS['C18'] = tool.c18; CHECKS['C28'] = tool.c28
import sanit
CHECKS['C19'] = sanit.c19

# ------------------------------------------------------------------------------------------------ C20
@check('C20')
def c20(prop, tier):
    deep = tier == 'thorough'
    inc = os.path.join(REPO, '3rdParty/OpenCL/include')
    exe = build('aubsan', harness_files=('ocl.c', 'eng.c', 'gen.c', 'common.c'), out='ocl', extra_flags=['-DBUILD_WITH_OPENCL', '-I' + inc], link=['-rdynamic'] + ['-Wl,--wrap=%s' % s for s in ('malloc', 'calloc', 'realloc', 'free')])
    r = run_shards(exe, prop, 'ocl', ['--count', 60000 if deep else 2400, '--deadline', 1500 if deep else 200, '--extra', compiler('clang-18')], timeout=3000 if deep else 500, env=sanit.ENV, san=sanit.report, tag='aubsan')
    log(r.ev)
    n = r.ev.get('histories', 0) + r.ev.get('faulty-histories', 0)
    return finish(prop, tier, r, 'Random histories of init / decompress / destroy of the OpenCL decoder on an emulated OpenCL runtime (kernels compiled by clang, run with AddressSanitizer, work groups in random order, non-blocking commands executed at once or as late as possible), each repeated with every single OpenCL call or allocation failing once, and failing from then on. Non-trivial: a distinct stream.', n, level='fault_enumeration', extra={'faults_injected': r.ev.get('faulty-histories', 0)}, assumptions=['the emulated runtime executes commands in order and a failing call has no effect', 'kernels behave on a GPU as when compiled by clang for the CPU'], floors={'evaluations': 5000, 'decodes': 2000, 'distinct': 300})

# ------------------------------------------------------------------------------------------------ C21
@check('C21')
def c21(prop, tier):
    deep = tier == 'thorough'; res = Result()
    exe = build('clang', harness_files=('big.c', 'eng.c', 'gen.c', 'common.c'), out='big')
    free = 0
    for l in open('/proc/meminfo'):
        if l.startswith('MemAvailable'): free = int(l.split()[1]) >> 20
    def go(mode, shards, each, gb):
        shards = max(1, min(shards, (gb - 2) // each))     # `each`: gigabytes per process
        if gb < each + 2: res.notes.append('%s: not enough memory' % mode); return
        r = run_shards(exe, prop, mode, ['--count', 70 if deep else 7, '--depth', int(deep), '--deadline', 2400 if deep else 200], shards=shards, timeout=4000 if deep else 400, tag='clang')
        log('%s (%d processes): %s' % (mode, shards, r.ev)); return r
    rs = [go('mid', 8, 1, free)]
    with cf.ThreadPoolExecutor(2) as ex: rs += [f.result() for f in [ex.submit(go, 'wide', 2 if deep else 3, 9 if deep else 5, free * 5 // 8), ex.submit(go, 'huge', 5, 3, free * 3 // 8 + 4)]]
    for r in rs:
        if r: res.merge(r)
    return finish(prop, tier, res, 'Single runs, single literals and combinations of both of 8 MiB to 1 GiB (the largest supported input of most codecs) for every codec, and beyond 2 GiB for the codecs that support it, encoded and decoded at random SIMD levels into buffers that end at an unmapped page. Non-trivial: a distinct (codec, shape, sizes).', res.ev.get('large-inputs', 0), floors={'evaluations': 500, 'round-trips': 500})

# ------------------------------------------------------------------------------------------------ C24
@check('C24')
def c24(prop, tier):
    deep = tier == 'thorough'; res = Result()
    for fl in ('gcc', 'clang'):
        exe = build(fl, harness_files=('bitpack.c', 'eng.c', 'gen.c', 'common.c'), out='bitpack', harness_flags=['-O2', '-g', '-w', '-fgnu89-inline'], link=['-Wl,--allow-multiple-definition'])   # (the helpers are `inline`: whether or not the library's objects define them externally)
        r = run_shards(exe, prop, 'bitpack', ['--count', 40000 if deep else 3000], timeout=1500 if deep else 300, tag=fl)
        log('%s: %s' % (fl, r.ev)); res.merge(r)
    return finish(prop, tier, res, 'Every bit packing encoder with every decoder of its format: every number of blocks 0..399 (three contents each) and random ones, buffers of exactly the documented sizes that end or start at an unmapped page, two compilers. Non-trivial: a packed block not seen before.', res.ev.get('encodes', 0) + res.ev.get('decodes', 0), floors={'evaluations': 50000, 'distinct': 5000, 'round-trips, 1 bit': 1000, 'round-trips, 2 bit': 1000, 'round-trips, 3 bit': 1000, 'round-trips, 4 bit': 1000})

# ------------------------------------------------------------------------------------------------ C25
@check('C25')
def c25(prop, tier):
    deep = tier == 'thorough'; res = Result()
    exe = build('clang1', harness_files=('work.c', 'eng.c', 'gen.c', 'common.c'), out='work', lib_flags=['-fsanitize-coverage=trace-pc-guard'], link=['-Wl,' + ','.join('--wrap=' + s for s in ('memcpy', 'memmove', 'memset', 'memcmp'))])
    for mode, n in (('work', 60000 if deep else 5000), ('scaling', 600 if deep else 40)):
        r = run_shards(exe, prop, mode, ['--count', n, '--depth', int(deep), '--deadline', 900 if deep else 150], timeout=2000 if deep else 400, tag='clang1')
        log('%s: %s' % (mode, {k: v for k, v in r.ev.items() if k in ('measured-calls', 'scaling-pairs') or 'growth' in k or 'failed' in k})); res.merge(r)
    n = res.ev.get('measured-calls', 0) + res.ev.get('scaling-pairs', 0)
    return finish(prop, tier, res, 'Work of encoder and decoder calls (control flow edges passed + bytes handled by memory functions / 16), on the shapes of C01-C04 (limit per byte) and on data repeated 4 and 64 times (growth of at most 2 x 16). Non-trivial: a (codec, compressed stream) pair not seen before.', n, floors={'measured-calls': 10000, 'scaling-pairs': 1000})

# ------------------------------------------------------------------------------------------------ C26
@check('C26')
def c26(prop, tier):
    deep = tier == 'thorough'; res = Result()
    for fl in ('clang', 'gcc') if deep else ('clang',):
        exe = build(fl, harness_files=('pure.c', 'eng.c', 'gen.c', 'common.c'), out='pure', link=['-rdynamic'])
        so = build(fl + 'pic', harness_files=('common.c',), out='lib.so', shared=True, link=['-Wl,-z,now'] + ['-Wl,--wrap=%s' % s for s in ('malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign')])
        for mode, n in (('effects', 60000 if deep else 5000), ('sys', 400 if deep else 24)):
            r = run_shards(exe, prop, mode, ['--count', n, '--depth', int(deep), '--deadline', 900 if deep else 150, '--extra', so], timeout=2000 if deep else 400, tag=fl)
            log('%s: %s' % (mode, {k: v for k, v in r.ev.items() if 'calls' in k or 'rejec' in k or 'init' in k or 'stack' in k or 'fail' in k or 'variables' in k or 'filter' in k})); res.merge(r)
    if res.ev.get('filter-not-available'): res.notes.append('system call filters are not available here: system calls were not observed')
    n = res.ev.get('observed-calls', 0) + res.ev.get('calls-without-system-calls', 0)
    return finish(prop, tier, res, 'Encoder and decoder calls on the shapes of C01-C04 and rejected calls, each on a painted stack with a snapshot of the library\'s variables, counted allocator calls and recorded FPU state; and in processes without system calls and time stamp counter. Non-trivial: a (codec, compressed stream) pair not seen before.', n, floors={'observed-calls': 10000})

import fuzzers
CHECKS['C27'] = fuzzers.c27
