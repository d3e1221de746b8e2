#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand; the file is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('runtime oracle: round-trip monitor under generated workloads', 'exploration'),
 'C02': ('runtime oracle: round-trip monitor under generated workloads', 'exploration'),
 'C03': ('runtime oracle: round-trip monitor under generated workloads', 'exploration'),
 'C04': ('runtime oracle: round-trip monitor under generated workloads', 'exploration'),
 'C05': ('guard-page monitor with adversarial (hill climbing) workloads', 'exploration'),
 'C06': ('runtime oracle over enumerated invalid arguments, untouched-output monitor', 'exploration'),
 'C07': ('guard-page and canary memory monitor', 'exploration'),
 'C08': ('read-only page monitor', 'exploration'),
 'C09': ('differential runtime oracle across SIMD levels and compilers', 'exploration'),
 'C10': ('instruction-level monitor (single stepping) with an assembler as ISA oracle; emulated CPUID', 'exploration'),
 'C11': ('repeat-execution monitor under perturbed environments (buffers, registers, stack, history)', 'exploration'),
 'C12': ('ThreadSanitizer and result monitor under concurrent stress', 'exploration'),
 'C13': ('runtime oracle over stream headers and declared sizes', 'exploration'),
 'C14': ('runtime oracle with perturbed continuations', 'exploration'),
 'C15': ('differential runtime oracle against an archived build, both directions', 'exploration'),
 'C16': ('runtime oracle on compressed sizes of run workloads', 'exploration'),
 'C17': ('fault injection into the codecs under the real tool, exit code oracle', 'fault_enumeration'),
 'C18': ('call-trace monitor of the real tool against an option model', 'exploration'),
 'C19': ('AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, MemorySanitizer', 'exploration'),
 'C20': ('emulated OpenCL runtime with fault injection, resource monitor, differential oracle', 'fault_enumeration'),
 'C21': ('runtime oracle: round-trip monitor on large inputs', 'exploration'),
 'C24': ('runtime oracle: round-trip and guard-page monitor of all encoder / decoder pairs', 'exploration'),
 'C25': ('edge-count monitor of the instrumented library (sanitizer coverage callbacks), per-byte and growth limits', 'exploration'),
 'C26': ('side effect monitor: system call filter, interposed allocator, segment snapshots, painted stack, FPU state', 'exploration'),
 'C27': ('input monitor of the real fuzzers with stand-in codecs, compared with a model of the space; fault injection', 'exploration'),
 'C28': ('fault injection into allocations and file operations of the real tool', 'exploration'),
 'C29': ('differential runtime monitor of compressed sizes against an archived build', 'exploration'),
 'C30': ('differential instruction-count monitor (block counters) against an archived build', 'exploration'),
 'C23': ('virtual-clock monitor of the real tool: report against recorded call durations', 'exploration'),
 'C22': ('runtime oracle: report of the analysis mode against an independent model', 'exploration'),
}
NOTE = {
 'C17': 'Each fault of the catalogue injected into every codec, one at a time; assumes faults are visible at the codec interface.',
 'C20': 'Every OpenCL call of the host code fails once per scenario; the kernel is compiled as C for the CPU, so a real driver\'s compiler is trusted.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
import sys; sys.path.insert(0, os.path.join(V, 'bin'))
import check, special
have = set(check.NATIVE) | set(special.CHECKS)
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        t, l = T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i, 'technique': t, 'level': l, 'level_note': NOTE.get(i, 'Held on every execution observed (counts and workload in the evidence file); nothing is claimed about inputs, levels or schedules that were not run. Trusts the compiler, the kernel and the generator in harness/gen.c.')})
    else: na.append({'property': i, 'reason': 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na, 'notes': 'No hooks are needed: all checks observe the unmodified sources through public functions, interposed libraries, page protections, the trap flag and sanitizers.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
