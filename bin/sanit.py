"""C19: sanitizer builds of the library (harness/san.c) and of the whole tool (harness/tool.c)."""
import os, random, re
from vlib import *
import tool

ENV = {'ASAN_OPTIONS': 'exitcode=66:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:handle_segv=1', 'UBSAN_OPTIONS': 'exitcode=66:print_stacktrace=1', 'MSAN_OPTIONS': 'exitcode=66:halt_on_error=1:abort_on_error=0'}

def report(text, rc=None):
    """The finding of a sanitizer report, or None."""
    m = re.search(r'ERROR: (AddressSanitizer|MemorySanitizer|LeakSanitizer|UndefinedBehaviorSanitizer)?:? ?([^\n]*)', text) or re.search(r'(WARNING: MemorySanitizer): ([^\n]*)', text)
    u = re.search(r'^([^\n]*/src/[\w.]+:\d+)(?::\d+)?: runtime error: ([^\n]*)', text, re.M)
    if not m and not u: return None
    fns = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/([\w.]+:\d+)', text)
    head = u.group(2) if u else '%s: %s' % (m.group(1) or 'sanitizer', re.sub(r'0x[0-9a-f]+', '..', m.group(2))[:120])
    case = re.search(r'SAN-CASE (.*)', text)
    name = re.search(r'name=(.*?) stage=', case.group(1)).group(1) if case else (fns[0][0] if fns else '-')
    return {'kind': 'sanitizer', 'codec': name, 'detail': '%s; %s' % (head, ', '.join('%s (%s)' % f for f in fns[:5]) or (u.group(1) if u else '')), 'what': case.group(1) if case else ''}

def c19(prop, tier):
    deep = tier == 'thorough'; rng = random.Random(SEED * 49979687 + 19); res = Result()
    # 1. the library
    for fl in ('aubsan', 'msan'):
        exe = build(fl, harness_files=('san.c', 'eng.c', 'gen.c', 'common.c'), out='san')
        r = run_shards(exe, prop, 'san', ['--count', 400000 if deep else 25000, '--depth', int(deep), '--deadline', 1500 if deep else 150], timeout=3000 if deep else 500, env=ENV, san=report, tag=fl)
        log('%s: %s' % (fl, {k: v for k, v in r.ev.items() if k.startswith('sanitized')}))
        for k in [k for k in r.ev if k.startswith('sanitized')]: res.add_ev(fl + ': ' + k, r.ev[k])
        r.ev = {}; res.merge(r)
    # 2. the tool, in all of its modes
    files = tool.Files()
    fs = [files.add(tool.mkdata(rng, n, 'mix')) for n in list(range(1, 34)) + [63, 64, 65, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 9973]]
    fs += [files.add(bytes(rng.randrange(256) for _ in range(n))) for n in (7, 500, 3001)] + [files.add(bytes([rng.randrange(256)]) * n) for n in (1, 40, 5000)] + [files.add(tool.mkdata(rng, 70001, 'mix'))]
    empty = os.path.join(files.d, 'empty'); open(empty, 'wb').close()
    reqs = []
    def add(kind, args, fault='-', timeout=200): reqs.append((fault, '-', timeout, args, kind))
    for f in fs:
        small = len(files.data[f]) < 10000
        for k in range(2 if not deep else 8):
            o = ['--min-time', rng.choice(['0', '0', '0.0001']), '--runs', str(rng.choice([0, 1, 2, 5]))] + rng.choice([[], ['--test'], ['--sd'], ['--test', '--sd']])
            lv = rng.choice([None, None] + tool.LEVELS)
            if not small: o += ['--x-size', '24']
            add('benchmark', [f] + o + (['--max-simd', lv] if lv else []))
        add('analysis', [f, '--analyze', '--sh'] + tool.BASE)
    for f in fs[::6]: add('sd', [f, '--sd', '--sh', '--min-time', '0', '--runs', str(rng.randrange(100, 3000))])
    for a in ([''], ['--help'], [empty, '--test'], [empty, '--analyze'], [os.path.join(files.d, 'missing'), '--test'], [files.d, '--test'], [fs[0], '--nonsense'], [fs[0], '--x-size'], [fs[0], '--lut-size'], [fs[0], '--max-simd'], [fs[0], '--runs'], [fs[0], '--min-time'], [fs[0], '--cpu-core'], [fs[0], '--cpu-core', '0'] + tool.BASE, [fs[0], '--x-size', '']): add('refused', a)
    for k in range(3 if not deep else 12): add('fuzz', ['x', '--fuzz-iterative'], 'stop,-,%d,0' % (12000 if not deep else 100000), 600); add('fuzz', ['x', '--fuzz-random'], 'stop,-,%d,0' % (3000 if not deep else 30000), 600)
    for fl in ('aubsan', 'msan'):
        exe = tool.build_tool(fl, account=True)
        srv = tool.Servers(exe, env=ENV, hangs=False)
        def judge(i, r4, run):
            req = reqs[i]; kind = req[4]
            if run.timeout: return ('inconclusive', i)
            v = report(run.out)
            if v is None and (run.sig or run.rc == 66): v = {'kind': 'crash', 'codec': kind, 'detail': 'tool ended with %s' % run.how()}
            if v is None and run.leaks and run.rc == 0: v = {'kind': 'leak', 'codec': kind, 'detail': '%d of %d allocations or files were not released: %s' % (len(run.leaks), run.allocs[0], run.leaks[:4])}
            if v:
                v.update(args=list(req[3]), fault=req[0], what='%s build, tool %s' % (fl, ' '.join(os.path.basename(x) for x in req[3])))
                if req[3] and req[3][0] in files.data: v['input'] = req[3][0]
                return ('v', v)
            return ('ok', kind, len(run.trace), run.allocs[0] if run.allocs else 0)
        todo = list(range(len(reqs)))
        for attempt in range(2):
            sub, todo = todo, []
            for v in srv.map([reqs[i][:4] for i in sub], lambda k, q, run: judge(sub[k], q, run)):
                if v[0] == 'inconclusive': todo.append(v[1])
                elif v[0] == 'v': res.viol.append(v[1])
                else: res.add_ev('%s: tool runs, %s' % (fl, v[1]), 1); res.add_ev('%s: codec calls in the tool' % fl, v[2]); res.add_ev('%s: allocations of the tool accounted for' % fl, v[3])
            if not todo: break
        if todo: raise HarnessError('a tool run did not finish: %r' % (reqs[todo[0]],))
        res.distinct += len({(r[0], tuple(r[3])) for r in reqs})
        log('tool/%s: %d runs, violations %d' % (fl, len(reqs), len(res.viol)))
    n = sum(v for k, v in res.ev.items() if 'allocations' not in k)
    return finish(prop, tier, res, 'Every codec, the info API, sub-sections and rejected arguments under AddressSanitizer + UndefinedBehaviorSanitizer and under MemorySanitizer, on heap buffers of the documented sizes at random SIMD levels; the whole tool in the same builds in all of its modes (benchmark, test, standard deviation, analysis, both fuzzing modes), its allocations and files accounted for. Non-trivial: a (codec, stream) pair or tool invocation not seen before.', n,
        assumptions=['unaligned accesses, unsigned pointer offsets that wrap and shifts into the sign bit, on which the sources and their supported compilers rely, are not counted as undefined', 'leaks are judged on runs that end successfully; the endless fuzzing modes are stopped from outside'], floors={'evaluations': 50000, 'distinct': 5000})
