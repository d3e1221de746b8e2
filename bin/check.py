#!/usr/bin/env python3
"""check.py <property> quick|thorough  -- decides one property on /repo's working tree.  check.py replay <file> -- runs a recorded violation again."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *

# ---------------------------------------------------------------- native monitors
# property: (mode, families, flavours, random cases per codec quick / thorough, rule, floors)
NATIVE = {
    'C01': ('rt', 'base', ['gcc'], 150000, 3000000, 'Cases: run-length grids (every length 1..640/1100 as run and as literal), lengths around 2^12, 2^15, 2^16 in bytes and symbols, random run/literal/symbol-table/image/noise shapes; random SIMD level per call, random alignment. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C02': ('rt', 'lut', ['gcc'], 60000, 1200000, 'As C01, with symbol pools of 1..12 symbols and five reuse policies that keep the recently-used symbol tables moving. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C03': ('le', 'lowentropy', ['gcc'], 300000, 4000000, 'Histogram-, alphabet- and run-shaped inputs for the four low entropy codecs, the split info API (1..3 parts) and the sub-section API (1..n sections). Non-trivial: a stream not seen before.'),
    'C04': ('rt', 'sh,mmtf,transform', ['gcc'], 150000, 2500000, 'Rank-, column-, run- and noise-shaped inputs for the SH codec, the RLE-MTF codec and the move-to-front transforms, at random SIMD levels and alignments. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C05': ('bounds', '', ['clang'], 10000, 100000, 'Every size 1..1500 with noise, constant and minimal-run data, random shapes, and hill climbing towards the largest expansion; the buffer has exactly the promised size and ends at an unmapped page. Non-trivial: a compressed stream not seen before.'),
    'C06': ('args', '', ['clang'], 1, 1, 'Every codec x every SIMD level x NULL, undersized output and shortened stream for the decoders, NULL / zero / undersized / unsupported-size arguments. Non-trivial: a distinct (codec, input) used for the undersized calls.'),
    'C07': ('mem', '', ['gcc'], 40000, 600000, 'Buffers of exactly the documented sizes that end (or start) at an unmapped page, canaries on the other side. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C08': ('src', '', ['clang'], 25000, 400000, 'Sources mapped read-only while the codec runs, compared afterwards, decoded a second time. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C11': ('det', '', ['clang'], 12000, 200000, 'Every input encoded three times and decoded twice under different garbage in the output, behind and in front of the input, on the stack and in the vector registers, at different alignments and after different call histories. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C13': ('hdr', '', ['clang'], 15000, 250000, 'Valid streams decoded with exact, larger and smaller declared sizes. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C16': ('runs', '', ['clang'], 14000, 250000, 'One to twelve runs (64 bytes to 90 kB, any symbol of the codec\'s width at supported alignments, from pools of 1..10 symbols), separated and surrounded by run-free literals, at random SIMD levels; the compressed size is compared with what literals plus one token per run can take. Non-trivial: a (codec, compressed stream) pair not seen before.'),
    'C14': ('trail', '', ['clang'], 20000, 300000, 'Valid streams decoded with four different continuations (zeros, ones, noise, more tokens) behind them. Non-trivial: a (codec, compressed stream) pair not seen before.'),
}
EVALS = {'rt': ['round-trips'], 'le': ['round-trips', 'info-parts', 'rle8m-round-trips'], 'bounds': ['encodes', 'encodes-rle8m'], 'args': ['calls'], 'mem': ['guarded-pairs', 'guarded-pairs-rle8m'], 'src': ['encodes-from-read-only', 'decodes-from-read-only'], 'det': ['encodes', 'decodes'], 'hdr': ['self-described', 'truncated-rejected', 'undersized-rejected'], 'runs': ['encodes'], 'trail': ['decodes-with-tail']}

def native(prop, tier):
    mode, fams, flavours, cq, ct, rule = NATIVE[prop]
    deep = tier == 'thorough'
    res = Result()
    for fl in flavours + (['clang'] if deep and 'clang' not in flavours else []) + (['gcc'] if deep and 'gcc' not in flavours else []):
        exe = build(fl)
        args = ['--count', ct if deep else cq, '--depth', 1 if deep else 0, '--deadline', 1500 if deep else 240]
        if fams: args += ['--fams', fams]
        r = run_shards(exe, prop, mode, args, timeout=3000 if deep else 500, tag=fl)
        res.merge(r)
        if prop == 'C05':   # repeated tokens that cost more than they save
            t = run_shards(exe, prop, 'tokens', ['--count', 400 if deep else 16, '--depth', 1 if deep else 0, '--deadline', 1200 if deep else 200], timeout=2500 if deep else 500, tag=fl)
            log('tokens: %s' % t.ev); res.merge(t)
        if prop in ('C01', 'C02', 'C03', 'C04'):   # inputs of 0.6 .. 20 MiB
            big = build(fl, harness_files=('big.c', 'eng.c', 'gen.c', 'common.c'), out='big')
            b = run_shards(big, prop, 'some', ['--count', 70 if deep else 7, '--fams', fams, '--deadline', 600 if deep else 120], timeout=1500 if deep else 400, tag=fl)
            log('large: %s' % b.ev); res.merge(b)
        log('%s: %s' % (fl, {k: v for k, v in r.ev.items() if '@' not in k and 'expansion' not in k}))
    n = sum(res.ev.get(k, 0) for k in EVALS[mode])
    return finish(prop, tier, res, rule, n, floors={'evaluations': 1000, 'distinct': 100})

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        v = json.load(open(sys.argv[2])); print(json.dumps(v, indent=1))
        return replay(v)
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if prop in NATIVE: return native(prop, tier)
    import special
    return special.CHECKS[prop](prop, tier)

def replay(v):
    prop = v['property']
    if prop in NATIVE and 'stage' in v and v.get('codec', '-') != '-':
        large = os.path.basename(v['cmd'][0]) == 'big'; fl = v.get('flavour') if v.get('flavour') in FLAVOURS else 'gcc'
        exe = build(fl, harness_files=('big.c', 'eng.c', 'gen.c', 'common.c'), out='big') if large else build(fl)
        names = [l.split('"')[1] for l in open(os.path.join(HARN, 'codec_table.inc')) if '"' in l]
        cmd = [exe] + v['cmd'][1:]
        if large: i = cmd.index('--shard'); cmd[i + 1] = '0/1'; cmd += ['--index', str(v['index'])]
        elif v['stage'] < 4: cmd += ['--codec', str(names.index(v['codec'])), '--stage', str(v['stage']), '--index', str(v['index'])]
        i = cmd.index('--out'); cmd[i + 1] = scratch()
        p = run(cmd); print(p.stdout.decode(errors='replace')[:3000])
        return 1 if b'\nV ' in b'\n' + p.stdout else 0
    print('recorded command: ' + ' '.join(map(str, v.get('cmd', [])))); return 0

if __name__ == '__main__':
    try:
        rc = main()
    except HarnessError as e:
        print('ERROR: %s' % e, file=sys.stderr); rc = 2
    sys.exit(rc)
