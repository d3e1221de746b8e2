"""C27: the inputs the fuzzing modes make and what they leave behind when a codec fails (harness/fz.c: real rle_fuzz.c, codecs replaced by stand-ins)."""
import collections, concurrent.futures as cf, os, random, re, shutil, subprocess
from vlib import *
import tool

def build_fz(few=False):
    rows = tool.codec_rows()
    enc = collections.Counter(r[1] for r in rows); dec = collections.Counter(r[2] for r in rows)
    d = os.path.join(scratch(), 'fzwrap'); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'wrap_list.inc'), 'w') as f:
        f.write(''.join('X(%s, 1, %d)\n' % e for e in sorted(enc.items())) + ''.join('X(%s, 0, %d)\n' % e for e in sorted(dec.items())))
    with open(os.path.join(d, 'few.h'), 'w') as f: f.write('#include "rle.h"\n#include "codec_funcs.h"\n#define MemCopy ((codec_t)2)\n')   # (only the first two codecs: the fuzzers spend their time on making inputs)
    return build('clang', harness_files=('fz.c',), out='fzfew' if few else 'fz', exclude=(), lib_flags=['-Dmain=tool_main', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-free'] + few * ['-include', os.path.join(d, 'few.h')], inc=[d], harness_flags=['-O2', '-g', '-w'], link=['-Wl,--wrap=%s' % s for s in list(enc) + list(dec) + ['malloc', 'calloc', 'realloc', 'aligned_alloc', 'free', 'fopen', 'fclose']])

def sweep(res, deep):
    """Thousands of single faults in the codecs the real fuzzers call: each in a forked process that has to end with a failure before the next codec is called (part of C17)."""
    exe = build_fz()
    n = 20 if deep else 1
    jobs = [(1, 1, 12000, 10), (1, 1, 12000, 10), (2, 1, 8000, 5), (6, 1, 12000, 2), (6, 1, 8000, 60), (8, 0, 4000, 2), (8, 0, 4000, 2), (3, 0, 6000, 2)]
    def one(k, attempt=0):
        s, it, faults, stride = jobs[k]; wd = os.path.join(scratch(), 'sw%d' % k); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        try: p = subprocess.run([exe, str(s), str(it), '0', 'sweep', str(SEED * 131 + k), str(faults * n), str(stride)], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=4000 if deep else 200)
        except subprocess.TimeoutExpired:
            if attempt: raise HarnessError('the fault sweep of fuzz(%d, %d) did not finish' % (s, it))
            return one(k, 1)
        r = Result(); done = parse(p.stdout.decode('latin1'), r)
        if done is None:
            if p.returncode == 70: raise HarnessError(p.stderr.decode(errors='replace')[-300:])
            if attempt == 0: return one(k, 1)
            r.viol.append({'kind': 'false-failure', 'codec': '-', 'what': 'fuzz(%d, %s)' % (s, 'iterative' if it else 'random'), 'detail': 'the fuzzer ended with %s although no codec was faulty in its process' % p.returncode})
        shutil.rmtree(wd, ignore_errors=True)
        return r
    with cf.ThreadPoolExecutor(NPROC if 'NPROC' in globals() else 8) as ex:
        for r in ex.map(one, range(len(jobs))):
            for k, v in r.ev.items():
                if k.startswith('sweep'): res.add_ev(k, v)
            res.viol += r.viol
    return res.ev.get('sweep-faults', 0)

def c27(prop, tier):
    deep = tier == 'thorough'; res = Result(); rng = random.Random(SEED * 7919 + 27)
    exe = build_fz(); fewExe = build_fz(True)
    rows = tool.codec_rows(); byDec = collections.defaultdict(list)
    for r in rows: byDec[r[2]].append(r)
    jobs = [(1, 1, 0), (2, 1, 0 if deep else 490000), (2, 1, 40000), (3, 1, 20000000 if deep else 600000), (3, 1, 200000 if deep else 25000), (6, 1, 400000 if deep else 40000), (8, 0, 60000 if deep else 3000), (8, 0, 60000 if deep else 3000), (3, 0, 60000 if deep else 4000)]
    for k in range(400 if deep else 60):
        r = rng.choice(rows); it = rng.randrange(2)
        jobs.append((6 if it else 8, it, 0, r[2], rng.randrange(1, 330 if it else 30), rng.choice([0, 1000, rng.randrange(1001)])))
    def one(k, attempt=0):
        j = jobs[k]; wd = os.path.join(scratch(), 'fz%d' % k); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        try: p = subprocess.run([fewExe if k in (1, 3) else exe] + [str(a) for a in j], cwd=wd, env=dict(os.environ, FZ_FEW='1') if k in (1, 3) else None, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=5000 if deep else 300)
        except subprocess.TimeoutExpired:
            if attempt: raise HarnessError('fuzz(%d, %d) did not finish' % j[:2])
            return one(k, 1)
        r = Result(); so = p.stdout.decode('latin1'); done = parse(so, r)
        what = 'fuzz(%d, %s)' % (j[0], 'iterative' if j[1] else 'random')
        def V(kind, codec, detail): r.viol.append({'kind': kind, 'codec': codec, 'detail': detail, 'what': what})
        out = open(os.path.join(wd, 'fuzz.out'), 'rb').read().decode('latin1') if os.path.exists(os.path.join(wd, 'fuzz.out')) else ''
        if len(j) == 3:
            if done is None:
                if p.returncode == 70: raise HarnessError(p.stderr.decode(errors='replace')[-300:])
                if attempt == 0: return one(k, 1)
                V('crash', '-', 'ended with %s although no codec is faulty: %s' % (p.returncode, out[-200:]))
        elif done is None:
            m = re.search(r'^FAULT (\d+) (\d+) (\w+) (\w+)$', so, re.M)
            if not m:
                if attempt == 0: return one(k, 1)
                V('crash', '-', 'ended with %s before a codec was faulty: %s' % (p.returncode, out[-200:]))
            else:
                r.add_ev('reported faults', 1)
                want = open(os.path.join(wd, 'expected.bin'), 'rb').read(); fn = os.path.join(wd, 'fuzz-failure.bin'); got = open(fn, 'rb').read() if os.path.exists(fn) else None
                what += ', %s, wrong byte at %s of %s' % (j[3], m.group(1), m.group(2))
                if p.returncode >= 0: V('status', j[3], 'the fuzzer ended with %d after a failure' % p.returncode)
                if got is None: V('artefact', j[3], 'no fuzz-failure.bin')
                elif got != want: V('artefact', j[3], 'fuzz-failure.bin is not the input that failed (%d bytes instead of %d)' % (len(got), len(want)))
                if out:   # (lost if the process is stopped before its output is flushed)
                    r.add_ev('reports read', 1)
                extra = sorted(set(os.listdir(wd)) - {'fuzz.out', 'expected.bin', 'fuzz-failure.bin'})
                if extra: V('artefact', j[3], 'unexpected files: %s' % extra[:3])
                # the report names the codec and the position
                if out and 'First invalid char' in out:
                    f = re.search(r'First invalid char at (\d+) \[0x([0-9A-F]+)\] \(0x([0-9A-F]+) != 0x([0-9A-F]+)\)', out); n = re.search(r"codec '([^']*)'", out)
                    if not f or int(f.group(1)) != int(m.group(1)) or int(f.group(2), 16) != int(m.group(1)): V('report', j[3], 'reported position %s' % (f.group(0) if f else 'missing'))
                    elif (int(f.group(3), 16), int(f.group(4), 16)) != (int(m.group(3), 16), int(m.group(4), 16)): V('report', j[3], 'reported bytes %s, actually %s != %s' % (f.group(0), m.group(3), m.group(4)))
                    if not n or n.group(1).strip() not in [q[0] for q in byDec[j[3]]]: V('report', j[3], 'reported codec %s' % (n.group(0) if n else 'missing'))
        shutil.rmtree(wd, ignore_errors=True)
        return r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, range(len(jobs))): res.merge(r)
    log(res.ev)
    return finish(prop, tier, res, 'Inputs of the real fuzzers, observed by stand-ins in place of all codecs: the complete iterative enumeration for one section and the beginning of it for 2, 3 and 6 sections compared with a model of the space, statistics of the random mode, and what is reported and stored when a decoder delivers a wrong byte. Non-trivial: an input.', res.ev.get('inputs', 0) + res.ev.get('reported faults', 0),
        assumptions=['the number of sections the tool uses (6 and 8) is too large to see its enumeration end: it is observed with one section', 'AVX2 and AES are available (the fuzzers require them)'])
