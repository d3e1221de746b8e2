// Runs the real fuzzers (`fuzz` of rle_fuzz.c) with every codec replaced by a stand-in that keeps a copy, and watches the inputs they make.
//   fz SECTIONS ITERATIVE LIMIT sweep SEED FAULTS STRIDE      (every STRIDE-th input or so: a codec is faulty in a forked process, which has to end by a signal or with a failure before the next codec is called)
//   fz SECTIONS ITERATIVE LIMIT [FUNCTION INPUT POSITION]     (LIMIT: inputs to watch, 0 = until the fuzzer ends by itself; a fault: the decoder FUNCTION flips the byte at permille POSITION of input number INPUT)
// Reports on the original stdout (lines "EV", "SAMPLE", "V", "DONE"); what the fuzzer prints goes to `fuzz.out` in the working directory.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>

bool fuzz(const size_t sectionCount, const bool iterative);

static FILE *rep;
static size_t SECTIONS; static bool ITER; static uint64_t LIMIT;
static const char *FFN; static uint64_t FIN; static uint32_t FPOS; static bool fault;

enum { MAXFN = 512 };
static const char *names[MAXFN]; static bool isEncoder[MAXFN]; static uint32_t times[MAXFN], expected[MAXFN]; static int fns;
static const uint8_t *cur; static uint32_t curSize; static uint64_t curHash; static uint64_t inputs, calls, bytes; static int firstFn = -1; static int pendingFn = -1;
static uint64_t viols; static bool sweep;

static void V(const char *kind, const char *codec, const char *fmt, ...)
{
  if (viols++ > 5) return;
  char b[700]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
  fprintf(rep, "V {\"kind\": \"%s\", \"codec\": \"%s\", \"detail\": \"%s\", \"what\": \"fuzz(%zu, %s), input %llu of %u bytes\"}\n", kind, codec, b, SECTIONS, ITER ? "iterative" : "random", (unsigned long long)inputs, curSize);
  fflush(rep);
}

static uint64_t hash(const uint8_t *p, size_t n) { uint64_t h = 1469598103934665603ULL; for (; n >= 8; n -= 8, p += 8) { uint64_t v; memcpy(&v, p, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; } while (n--) h = (h ^ *p++) * 1099511628211ULL; return h ^ (h >> 32); }

// ---- the space of the iterative mode
static uint32_t lens[512]; static uint32_t nLens;
static struct { uint32_t width, aligned, start; uint32_t at[16]; bool over; } M;
static void model_init(void)
{
  for (uint32_t l = 1; l <= 280; l++) lens[nLens++] = l;
  for (uint32_t l = 768; l <= 8192; l = l * 17 / 16) lens[nLens++] = l;
  for (uint32_t l = 65528; l <= 65560; l++) lens[nLens++] = l;
  M.width = 1;
}
static void model_next(void)
{
  for (int i = (int)SECTIONS - 1; i >= 0; i--) { if (++M.at[i] < nLens) return; M.at[i] = 0; }
  if (++M.start < 2) return;
  M.start = 0;
  if (M.width > 1 && !M.aligned) { M.aligned = 1; return; }
  M.aligned = 0;
  if (++M.width <= 16) return;
  M.over = true;
}

static uint64_t randBytes, randEqual[17], randSections, runSections; static uint64_t lastRand;
static uint64_t combos[17][2][2];
static void random_part(const uint8_t *p, uint32_t n)
{
  randSections++;
  if (n < 64) return;
  if (randBytes < 100000000) for (uint32_t i = 16; i < n; i++) for (uint32_t d = 1; d <= 16; d++) randEqual[d] += p[i] == p[i - d];
  if (randBytes < 100000000) randBytes += n - 16;
  const uint64_t h = hash(p, n < 64 ? n : 64);
  if (h == lastRand) V("random-data", "-", "two consecutive random sections begin with the same bytes");
  lastRand = h;
}
static void judge_random(void)
{
  if (randBytes < 100000) return;
  for (uint32_t d = 1; d <= 16; d++)
    if (randEqual[d] > randBytes / 50) { V("random-data", "-", "in sections of random data %.1f %% of the bytes equal the one %u before (0.4 %% are expected)", randEqual[d] * 100.0 / randBytes, d); return; }
}

static void iterative_input(void)
{
  if (M.over) { V("too-many", "-", "every input of the space has been visited, yet there is another one"); return; }
  uint64_t want = 0;
  for (size_t i = 0; i < SECTIONS; i++) want += (i + M.start) % 2 ? (uint64_t)lens[M.at[i]] * (M.aligned ? M.width : 1) : lens[M.at[i]];
  if (want != curSize) { char s[200]; int n = 0; for (size_t i = 0; i < SECTIONS; i++) n += sprintf(s + n, " %s%u", (i + M.start) % 2 ? "run " : "random ", lens[M.at[i]]); V("enumeration", "-", "sections%s of %ssymbols of %u bytes make up %llu bytes", s, M.aligned ? "whole " : "", M.width, (unsigned long long)want); model_next(); return; }
  const uint8_t *p = cur;
  for (size_t i = 0; i < SECTIONS; i++)
  {
    if ((i + M.start) % 2)
    {
      const uint32_t n = lens[M.at[i]] * (M.aligned ? M.width : 1);
      if (n > M.width && memcmp(p, p + M.width, n - M.width)) for (uint32_t j = M.width; j < n; j++) if (p[j] != p[j - M.width]) { V("run", "-", "section %zu is not a repeated symbol of %u bytes at its byte %u of %u", i, M.width, j, n); break; }
      if (M.width > 1 && n >= M.width) { bool same = true; for (uint32_t j = 1; j < M.width; j++) same &= p[j] == p[0]; if (same) V("run", "-", "section %zu repeats a single byte instead of a symbol of %u bytes", i, M.width); }
      runSections++; p += n;
    }
    else { const uint32_t n = lens[M.at[i]]; random_part(p, n); p += n; }
  }
  combos[M.width][M.aligned][M.start]++;
  model_next();
}

// ---- random mode: runs are found by their period, everything in between is random data
static uint64_t periods[17], wholeSyms[17], classes[3], startRun, runsHist[17], bigDup, literalInputs; static uint64_t symHash[64]; static uint32_t nSym;
enum { HS = 1 << 17 };
static uint64_t *hs; static bool seen_hash(uint64_t h) { if (!hs) hs = calloc(HS, 8); h |= 1; for (uint32_t i = (uint32_t)(h >> 20) % HS;; i = (i + 1) % HS) { if (hs[i] == h) return true; if (!hs[i]) { hs[i] = h; return false; } } }
static void random_input(void)
{
  uint32_t i = 0, litStart = 0, runs = 0; uint64_t lits = 0;
  const uint8_t *x = cur; const uint32_t n = curSize;
  while (i < n)
  {
    uint32_t period = 0, len = 0;
    for (uint32_t p = 1; p <= 16 && !period; p++)
    {
      uint32_t j = i + p; while (j < n && x[j] == x[j - p]) j++;
      if (j - i >= 2 * p + 8) { period = p; len = j - i; }
    }
    if (!period) { i++; continue; }
    if (i > litStart) { lits += i - litStart; if (i - litStart >= 1000) random_part(x + litStart, i - litStart); }
    if (i == 0) startRun++;
    runs++; periods[period]++; wholeSyms[period] += len % period == 0; classes[len <= 281 * period ? 0 : len < 65000 ? 1 : 2]++;
    if (period >= 4) { uint64_t h = hash(x + i, 4); uint32_t k = 0; while (k < nSym && symHash[k] != h) k++; if (k == nSym && nSym < 64) symHash[nSym++] = h; }
    i += len; litStart = i;
  }
  if (n > litStart) { lits += n - litStart; if (n - litStart >= 1000) random_part(x + litStart, n - litStart); }
  runsHist[runs > 16 ? 16 : runs]++;
  if (lits >= 256) { literalInputs++; bigDup += seen_hash(hash(x, n)); }
}
static void judge_random_mode(void)
{
  if (inputs < 1500) return;
  for (uint32_t p = 1; p <= 16; p++) if (!periods[p]) V("reach", "-", "no run of symbols of %u bytes in %llu inputs", p, (unsigned long long)inputs);
  for (uint32_t p = 2; p <= 16; p++) if (periods[p] > 200) { if (wholeSyms[p] < periods[p] / 20) V("reach", "-", "hardly any run of whole symbols of %u bytes: %llu of %llu", p, (unsigned long long)wholeSyms[p], (unsigned long long)periods[p]); if (periods[p] - wholeSyms[p] < periods[p] / 20) V("reach", "-", "hardly any run that ends within a symbol of %u bytes: %llu of %llu", p, (unsigned long long)(periods[p] - wholeSyms[p]), (unsigned long long)periods[p]); }
  for (int c = 0; c < 3; c++) if (!classes[c]) V("reach", "-", "no run of %s length in %llu inputs", c == 0 ? "small" : c == 1 ? "medium" : "about 64 Ki", (unsigned long long)inputs);
  if (startRun < inputs / 20 || startRun > inputs - inputs / 20) V("reach", "-", "%llu of %llu inputs begin with a run", (unsigned long long)startRun, (unsigned long long)inputs);
  if (SECTIONS >= 6 && !(runsHist[3] + runsHist[4])) V("reach", "-", "no input with three or more runs");
  if (nSym < 4) V("reach", "-", "only %u different symbols in %llu inputs", nSym, (unsigned long long)inputs);
  if (bigDup > literalInputs / 100) V("repetition", "-", "%llu of %llu inputs had been used before", (unsigned long long)bigDup, (unsigned long long)literalInputs);
}

static void sweep_report(void);
static void finish(bool ended, bool result)
{
  sweep_report();
  if (!fault)
  {
    if (ended && !result) V("failed", "-", "the fuzzer reported a failure with faultless codecs");
    if (ended && !ITER) V("ended", "-", "random fuzzing ended by itself");
    if (ended && result && ITER && !M.over) V("incomplete", "-", "the fuzzer ended after %llu inputs, the next one would have been: symbols of %u bytes, %s, starting with %s", (unsigned long long)inputs, M.width, M.aligned ? "aligned" : "unaligned", M.start ? "a run" : "random data");
    judge_random();
    if (!ITER) judge_random_mode();
  }
  else if (!sweep) V("undetected", FFN, "a wrong byte in the output of a decoder was not reported");
  fprintf(rep, "EV inputs %llu\nEV codec-calls %llu\nEV bytes %llu\nEV random-sections %llu\n", (unsigned long long)inputs, (unsigned long long)calls, (unsigned long long)bytes, (unsigned long long)randSections);
  if (ITER) { fprintf(rep, "EV run-sections %llu\nEV completed-enumerations %d\n", (unsigned long long)runSections, ended); uint32_t c = 0; for (int w = 1; w <= 16; w++) for (int a = 0; a < 2; a++) for (int s = 0; s < 2; s++) c += combos[w][a][s] > 0; fprintf(rep, "EV combinations-of-width-alignment-start %u\n", c); }
  else { uint64_t r = 0; for (int p = 1; p <= 16; p++) r += periods[p]; fprintf(rep, "EV runs-of-random-mode %llu\n", (unsigned long long)r); fprintf(rep, "SAMPLE fuzz(%zu, random): %llu inputs, runs of period 1: %llu, 2: %llu, 5: %llu, 16: %llu; small/medium/64 Ki runs %llu/%llu/%llu; %u symbols; %llu begin with a run\n", SECTIONS, (unsigned long long)inputs, (unsigned long long)periods[1], (unsigned long long)periods[2], (unsigned long long)periods[5], (unsigned long long)periods[16], (unsigned long long)classes[0], (unsigned long long)classes[1], (unsigned long long)classes[2], nSym, (unsigned long long)startRun); }
  if (ITER) fprintf(rep, "SAMPLE fuzz(%zu, iterative): %llu inputs, now at symbols of %u bytes, %s, starting with %s%s\n", SECTIONS, (unsigned long long)inputs, M.width, M.aligned ? "aligned" : "unaligned", M.start ? "a run" : "random data", ended ? ", ended by itself" : "");
  fprintf(rep, "DISTINCT %llu\nDONE 0\n", (unsigned long long)inputs);
  fflush(rep);
  _exit(0);
}

static bool few; // built with most codecs left out
static void close_input(void)
{
  if (few) return;
  for (int i = 0; i < fns; i++) if (times[i] != expected[i]) { V("codecs", names[i], "called %u times for one input instead of %u", times[i], expected[i]); break; }
  memset(times, 0, sizeof(times));
}

// sweep
static bool child; static uint64_t SW, budget, stride, forks, detected, slow, kindCount[8], sizesSeen[9]; static int target = -1;
static uint64_t rnd(void) { SW ^= SW << 13; SW ^= SW >> 7; SW ^= SW << 17; return SW * 0x2545F4914F6CDD1DULL >> 11; }
static bool forked(int f, const char *what, uint32_t pos)
{
  if (forks >= budget) return false;
  forks++; sizesSeen[curSize < 33 ? 0 : curSize < 65 ? 1 : curSize < 129 ? 2 : curSize < 257 ? 3 : curSize < 1025 ? 4 : curSize < 8193 ? 5 : curSize < 65537 ? 6 : curSize < 262145 ? 7 : 8]++;
  fflush(rep);
  const pid_t p = fork();
  if (p < 0) _exit(70);
  if (p == 0) { child = true; const int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); alarm(60); return true; }
  int st = 0; if (waitpid(p, &st, 0) != p) _exit(70);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) slow++;
  else if (WIFSIGNALED(st) || (WEXITSTATUS(st) && WEXITSTATUS(st) != 77)) detected++;
  else V("fault-missed", names[f], "%s %u was not noticed", what, pos);
  return false;
}

static int fn_of(const char *name) { for (int i = 0; i < fns; i++) if (names[i] == name) return i; return -1; }
static uint32_t hook(int f, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize)
{
  calls++;
  if (child) _exit(77); // the fault before went unnoticed
  if (isEncoder[f])
  {
    if (firstFn < 0) firstFn = f;
    if (f == firstFn)
    {
      if (inputs) close_input();
      if (LIMIT && inputs == LIMIT) finish(false, true);
      inputs++; cur = pIn; curSize = inSize; bytes += inSize;
      if (sweep) { if (forks >= budget) finish(false, true); target = rnd() % stride ? -1 : (int)(rnd() % (uint64_t)fns); }
      else if (inSize) { if (fault) curHash = inputs == FIN ? hash(pIn, inSize) : 0; else if (ITER) iterative_input(); else random_input(); }
      else V("empty", "-", "an empty input");
    }
    times[f]++;
    if (inSize != curSize || (pIn != cur && memcmp(pIn, cur, inSize))) V("codecs", names[f], "was not given the same input as the codec before");
    pendingFn = f;
    if (outSize < 1) V("codecs", names[f], "no room for output");
    pOut[0] = 1;
    if (f == target) { target = -1; kindCount[0]++; if (forked(f, "an encoder that fails, input of bytes:", curSize)) return 0; }
    return 1; // (a stream of one byte)
  }
  if (pendingFn < 0) V("codecs", names[f], "decoder called without an encoder before");
  pendingFn = -1; times[f]++;
  if (inSize != 1 || pIn[0] != 1) V("codecs", names[f], "was not given the stream that the encoder made");
  memcpy(pOut, cur, curSize);
  if (f == target)
  {
    target = -1;
    const uint32_t ps[6] = { 0, curSize - 1, (uint32_t)(rnd() % curSize), (uint32_t)(rnd() % curSize), (uint32_t)(curSize - 1 - rnd() % (curSize < 160 ? curSize : 160)), (uint32_t)(rnd() % (curSize < 160 ? curSize : 160)) };
    for (int i = 0; i < 6; i++) { const uint8_t x = (uint8_t)(1u << rnd() % 8); kindCount[1]++; if (forked(f, "one wrong bit at", ps[i])) { pOut[ps[i]] ^= x; return curSize; } }
    kindCount[2]++; if (forked(f, "a size one too small, correct content, size", curSize)) return curSize - 1;
    kindCount[3]++; if (forked(f, "a size one too large, correct content, size", curSize)) return curSize + 1;
    kindCount[4]++; if (forked(f, "a reported failure, correct content, size", curSize)) return 0;
  }
  if (fault && inputs == FIN && !strcmp(names[f], FFN))
  {
    const uint32_t pos = (uint32_t)((uint64_t)(curSize - 1) * FPOS / 1000);
    FILE *e = fopen("expected.bin", "wb"); fwrite(cur, 1, curSize, e); fclose(e);
    fprintf(rep, "FAULT %u %u %02X %02X\n", pos, curSize, cur[pos], (uint8_t)(cur[pos] ^ 0x21)); fflush(rep);
    pOut[pos] ^= 0x21;
  }
  if (fault && !sweep && inputs > FIN) finish(false, true);
  return curSize;
}

#define X(name, isEnc, times) uint32_t __wrap_##name(const uint8_t *a, uint32_t b, uint8_t *c, uint32_t d) { static int f = -1; if (f < 0) f = fn_of(#name); return hook(f, a, b, c, d); }
#include "wrap_list.inc"
#undef X
static void reg(const char *n, bool e, uint32_t t) { names[fns] = n; isEncoder[fns] = e; expected[fns++] = t; }

// what fuzz() acquires has to be given back when it returns
static bool inFuzz; static uint64_t acquired; static struct { void *p; const char *what; size_t n; } held[4096]; static int helds;
static void *hold(void *p, const char *what, size_t n) { if (inFuzz && p && helds < 4096) { held[helds].p = p; held[helds].what = what; held[helds++].n = n; acquired++; } return p; }
static void drop(void *p) { for (int i = helds - 1; i >= 0; i--) if (held[i].p == p) { held[i] = held[--helds]; return; } }
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t), *__real_aligned_alloc(size_t, size_t); void __real_free(void *); FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
void *__wrap_malloc(size_t n) { return hold(__real_malloc(n), "memory", n); }
void *__wrap_calloc(size_t a, size_t b) { return hold(__real_calloc(a, b), "memory", a * b); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return hold(__real_aligned_alloc(a, n), "memory", n); }
void *__wrap_realloc(void *p, size_t n) { void *q = __real_realloc(p, n); if (q) { drop(p); hold(q, "memory", n); } return q; }
void __wrap_free(void *p) { drop(p); __real_free(p); }
FILE *__wrap_fopen(const char *n, const char *m) { return hold(__real_fopen(n, m), "file", 0); }
int __wrap_fclose(FILE *f) { drop(f); return __real_fclose(f); }

static void sweep_report(void)
{
  if (!sweep) return;
  const char *k[] = { "encoder-fails", "wrong-bit", "size-too-small", "size-too-large", "decoder-fails" }, *z[] = { "1..32", "33..64", "65..128", "129..256", "257..1024", "1025..8192", "8193..65536", "65537..262144", "larger" };
  for (int i = 0; i < 5; i++) fprintf(rep, "EV sweep:%s %llu\n", k[i], (unsigned long long)kindCount[i]);
  for (int i = 0; i < 9; i++) fprintf(rep, "EV sweep-input-of-%s-bytes %llu\n", z[i], (unsigned long long)sizesSeen[i]);
  fprintf(rep, "EV sweep-faults %llu\nEV sweep-faults-noticed %llu\nEV sweep-inconclusive %llu\n", (unsigned long long)forks, (unsigned long long)detected, (unsigned long long)slow);
}

int main(int argc, char **argv)
{
  rep = fdopen(dup(1), "w");
  SECTIONS = strtoul(argv[1], 0, 10); ITER = atoi(argv[2]); LIMIT = strtoull(argv[3], 0, 10);
  if (argc > 7 && !strcmp(argv[4], "sweep")) { sweep = fault = true; FFN = ""; SW = strtoull(argv[5], 0, 10) * 0x9E3779B97F4A7C15ULL | 1; budget = strtoull(argv[6], 0, 10); stride = strtoull(argv[7], 0, 10); for (int i = 0; i < 9; i++) rnd(); }
  else if (argc > 6) { fault = true; FFN = argv[4]; FIN = strtoull(argv[5], 0, 10); FPOS = (uint32_t)atoi(argv[6]); }
#define X(name, isEnc, times) reg(#name, isEnc, times);
#include "wrap_list.inc"
  few = getenv("FZ_FEW") != NULL;
  model_init();
  if (!freopen("fuzz.out", "w", stdout)) return 70;
  setvbuf(stdout, NULL, _IONBF, 0);
  seen_hash(12345); // (allocates)
  inFuzz = true;
  const bool r = fuzz(SECTIONS, ITER);
  inFuzz = false;
  if (child) _exit(r ? 77 : 1);
  fprintf(rep, "EV resources-acquired-by-completed-fuzzers %llu\n", (unsigned long long)acquired);
  for (int i = 0; i < helds && !fault; i++) { V("leak", "-", "%d resource(s) not given back, e.g. %s (%zu bytes)", helds, held[i].what, held[i].n); break; }
  if (inputs) close_input();
  finish(true, r);
}
