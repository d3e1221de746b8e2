// Runs the real command line tool (main.c with its `main` renamed to `tool_main`) in forked children, with every codec call and the clock interposed.
// Requests on stdin: fields separated by \x1f, terminated by \n: FAULT \x1f CLOCK \x1f WORKDIR \x1f TIMEOUT \x1f argv...
//   FAULT  "-" or kind,function,n,position   (n: applies from the n-th call of that function on, 0 = all calls; position: permille of the size)
//   CLOCK  "-" or dry,first,step  (virtual nanoseconds of the calls of every codec; reading the clock takes 1000)
// Responses on stdout: "R <wait status> <timed out (2: while computing)> <output bytes> <trace bytes>\n" followed by both.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <math.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/resource.h>
#include "simd_platform.h"

#ifdef ACCOUNT // every allocation of the sources under test is tracked; the harness itself uses the real functions
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); void __real_free(void *); FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
enum { MAXLIVE = 4096 };
static struct { void *p; size_t n; char kind; void *by; } LIVE[MAXLIVE]; static uint64_t nAlloc, nFree, nOpen;
static int denyKind; static uint64_t denyN, denySeen; static uint32_t denyPos; static bool denied; static void deny_report(void); // 1 memory, 2 open, 3 read, 4 size, 5 seek
static bool deny(int kind) { if (denyKind != kind || ++denySeen != denyN) return false; denied = true; deny_report(); return true; }
static void *live(void *p, size_t n, char kind, void *by) { if (p) { nAlloc++; for (int i = 0; i < MAXLIVE; i++) if (!LIVE[i].p) { LIVE[i].p = p; LIVE[i].n = n; LIVE[i].kind = kind; LIVE[i].by = by; break; } } return p; }
static void gone(void *p) { if (p) { nFree++; for (int i = 0; i < MAXLIVE; i++) if (LIVE[i].p == p) { LIVE[i].p = NULL; break; } } }
#define BY __builtin_return_address(0)
void *__wrap_malloc(size_t n) { if (deny(1)) return NULL; return live(__real_malloc(n), n, 'm', BY); }
void *__wrap_calloc(size_t a, size_t b) { if (deny(1)) return NULL; return live(__real_calloc(a, b), a * b, 'm', BY); }
void *__wrap_realloc(void *p, size_t n) { if (deny(1)) return NULL; void *q = __real_realloc(p, n); if (q || !n) gone(p); return live(q, n, 'm', BY); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (deny(1)) return NULL; void *p = NULL; return __real_posix_memalign(&p, a, n) ? NULL : live(p, n, 'm', BY); } // (like glibc: the size needn't be a multiple of the alignment)
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (deny(1)) return ENOMEM; int r = __real_posix_memalign(p, a, n); if (!r) live(*p, n, 'm', BY); return r; }
void __wrap_free(void *p) { gone(p); __real_free(p); }
FILE *__wrap_fopen(const char *a, const char *b) { if (deny(2)) { errno = EMFILE; return NULL; } FILE *f = __real_fopen(a, b); live(f, 0, 'f', BY); return f; }
int __wrap_fclose(FILE *f) { gone(f); return __real_fclose(f); }
size_t __real_fread(void *, size_t, size_t, FILE *); long __real_ftell(FILE *); int __real_fseek(FILE *, long, int);
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) { if (deny(3)) { size_t n = __real_fread(p, a, b, f), part = (size_t)((double)n * denyPos / 1001); errno = EIO; return part < n ? part : n ? n - 1 : 0; } return __real_fread(p, a, b, f); }
long __wrap_ftell(FILE *f) { if (deny(4)) { errno = ESPIPE; return denyPos < 400 ? -1 : denyPos < 800 ? 0 : (long)0x100000000LL + denyPos; } return __real_ftell(f); }
#define malloc __real_malloc
#define free __real_free
#endif

int tool_main(int argc, char **argv);
typedef uint32_t (*fn_t)(const uint8_t *, uint32_t, uint8_t *, uint32_t);

enum { K_NONE, K_RET0, K_SHORT, K_LONG, K_FLIP, K_UNWRITTEN, K_NOTHING, K_ENC0, K_LEFTOVER, K_DOUBLE, K_STOP };
static const char *kinds[] = { "-", "ret0", "short", "long", "flip", "unwritten", "nothing", "enc0", "leftover", "double", "stop" };
static struct { int kind; char fn[128]; uint64_t n; uint32_t pos; bool done, reported; uint64_t after; } F;
static struct { bool on; uint64_t now, dry, first, step; uint64_t calls; char last[128]; char lastKind; uint64_t slept; } T;
static int tfd = -1;
static uint64_t seen, total; static uint32_t lastIn;
static uint8_t *leftover; static size_t leftoverSize; static uint8_t *leftoverAt;

static uint64_t hash(const uint8_t *p, size_t n) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL; return h; }
static char tbuf[1 << 16]; static size_t tn;
static void tflush(void) { size_t o = 0; while (o < tn) { ssize_t w = write(tfd, tbuf + o, tn - o); if (w <= 0) break; o += w; } tn = 0; }
static unsigned flags(void) { return sse2Supported | sse3Supported << 1 | ssse3Supported << 2 | sse41Supported << 3 | sse42Supported << 4 | avxSupported << 5 | avx2Supported << 6 | avx512FSupported << 7 |
  (avx512PFSupported || avx512ERSupported || avx512CDSupported || avx512BWSupported || avx512DQSupported || avx512VLSupported || avx512IFMASupported || avx512VBMISupported || avx512VNNISupported || avx512VBMI2Supported || avx512POPCNTDQSupported || avx512BITALGSupported || avx5124VNNIWSupported || avx5124FMAPSSupported) << 8 | fma3Supported << 9; }

// a machine that only has the features up to a level
static int cpuLimit = -1;
void __real__DetectCPUFeatures(void) __attribute__((weak));
void __wrap__DetectCPUFeatures(void)
{
  static bool done; if (__real__DetectCPUFeatures) __real__DetectCPUFeatures();
  if (cpuLimit < 0 || done) return;
  done = true;
  bool *f[] = { &sse2Supported, &sse3Supported, &ssse3Supported, &sse41Supported, &sse42Supported, &avxSupported, &avx2Supported, &avx512FSupported };
  for (int i = cpuLimit; i < 8; i++) *f[i] = false;
  if (cpuLimit < 7) fma3Supported = false;
  bool *g[] = { &avx512PFSupported, &avx512ERSupported, &avx512CDSupported, &avx512BWSupported, &avx512DQSupported, &avx512VLSupported, &avx512IFMASupported, &avx512VBMISupported, &avx512VNNISupported, &avx512VBMI2Supported, &avx512POPCNTDQSupported, &avx512BITALGSupported, &avx5124VNNIWSupported, &avx5124FMAPSSupported };
  if (cpuLimit < 8) for (size_t i = 0; i < sizeof(g) / sizeof(g[0]); i++) *g[i] = false;
}

static double entropyRatio(const uint8_t *p, size_t n)
{
  uint64_t h[256] = { 0 }; unsigned s = 0; double e = 0;
  for (size_t i = 0; i < n; i++) h[p[i]]++;
  for (int i = 0; i < 256; i++) if (h[i]) { s++; e -= (double)h[i] / n * (log((double)h[i] / n) / log(2)); }
  return s < 2 ? -1 : e / (log(s) / log(2));
}

static void tick(const char *name, char kind)
{
  if (!T.on) return;
  if (strcmp(T.last, name) || T.lastKind != kind) { snprintf(T.last, sizeof(T.last), "%s", name); T.lastKind = kind; T.calls = 0; }
  // The first call of a series takes `dry`; the following ones `first`, `first + step`, `first + 2 step`, ... (mod 5)
  T.now += T.calls == 0 ? T.dry : T.first + ((T.calls - 1) % 5) * T.step;
  T.calls++;
}

static uint32_t hook(const char *name, bool enc, fn_t real, const uint8_t *pIn, uint32_t inSize, uint8_t *pOut, uint32_t outSize)
{
  bool hit = F.kind != K_NONE && !strcmp(F.fn, name);
  total++;
#ifdef ACCOUNT
  if (denyKind && total > 60000) { tn += sprintf(tbuf + tn, "STOP\n"); tflush(); _exit(77); } // (a fuzzer that is not affected by what was denied)
#endif
  if (F.kind == K_STOP && total > F.n) { tn += sprintf(tbuf + tn, "STOP\n"); tflush(); _exit(77); }
  if (F.done && F.after++ > 4000) { tn += sprintf(tbuf + tn, "MISSED\n"); tflush(); _exit(78); }   // only the endless fuzzing modes get here
  if (hit) hit = ++seen >= F.n;
  uint8_t *before = NULL;
  if (hit && !enc && (F.kind == K_UNWRITTEN || F.kind == K_NOTHING)) { before = malloc(lastIn + 1); memcpy(before, pOut, lastIn); }
  bool stale = false;
  if (hit && !enc && F.kind == K_LEFTOVER && leftover && leftoverAt == pIn && leftoverSize)
  {
    stale = memcmp(leftover, pIn + inSize, leftoverSize) == 0;
    F.done = true;
  }
  const uint64_t ih = hash(pIn, inSize);
  uint32_t r = hit && enc && F.kind == K_ENC0 ? 0 : real(pIn, inSize, pOut, outSize);
  if (hit && enc && F.kind == K_ENC0) F.done = true;
  if (enc)
  {
    lastIn = inSize;
    free(leftover); leftover = NULL; leftoverSize = r && r < outSize ? (outSize - r < 16 ? outSize - r : 16) : 0; leftoverAt = pOut;
    if (leftoverSize) { leftover = malloc(leftoverSize); memcpy(leftover, pOut + r, leftoverSize); }
  }
  if (hit && !enc && r && (F.kind < K_UNWRITTEN || F.kind > K_NOTHING || r <= lastIn))
  {
    const uint32_t p = (uint32_t)((uint64_t)(r - 1) * F.pos / 1000);
    switch (F.kind)
    {
    case K_RET0: r = 0; F.done = true; break;
    case K_SHORT: r--; F.done = true; break;
    case K_LONG: r++; F.done = true; break;
    case K_DOUBLE: r *= 2; F.done = true; break;
    case K_FLIP: pOut[p] ^= 1 << (F.pos % 8); F.done = true; break;
    case K_UNWRITTEN: { uint32_t n = r - p < 24 ? r - p : 24; if (memcmp(pOut + p, before + p, n)) { memcpy(pOut + p, before + p, n); F.done = true; } break; }
    case K_NOTHING: if (memcmp(pOut, before, r)) { memcpy(pOut, before, r); F.done = true; } break;
    case K_LEFTOVER: if (!stale) pOut[p] ^= 0x55; break;
    }
  }
  free(before);
  const bool inj = F.done && !F.reported;
  if (tfd >= 0)
  {
    if (tn > sizeof(tbuf) - 400) tflush();
    if (enc) tn += sprintf(tbuf + tn, "C %s %u %u %u %016llx %016llx %u %.9f\n", name, inSize, outSize, r, (unsigned long long)ih, (unsigned long long)(r ? hash(pOut, r) : 0), flags(), r ? entropyRatio(pOut, r) : 0.0);
    else tn += sprintf(tbuf + tn, "D %s %u %u %u %016llx %016llx %u\n", name, inSize, outSize, r, (unsigned long long)ih, (unsigned long long)(r ? hash(pOut, r) : 0), flags());
  }
  if (inj) { F.reported = true; tn += sprintf(tbuf + tn, "INJ\n"); tflush(); }
  tick(name, enc ? 'C' : 'D');
  return r;
}

#define X(name, isEnc) uint32_t __real_##name(const uint8_t *, uint32_t, uint8_t *, uint32_t); uint32_t __wrap_##name(const uint8_t *a, uint32_t b, uint8_t *c, uint32_t d) { return hook(#name, isEnc, __real_##name, a, b, c, d); }
#include "wrap_list.inc"
#undef X

// ---- clock
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!T.on) return __real_clock_gettime(c, t); T.now += 1000; t->tv_sec = 1000000 + T.now / 1000000000; t->tv_nsec = T.now % 1000000000; return 0; }
int __wrap_usleep(useconds_t us) { if (T.on) T.now += (uint64_t)us * 1000; T.slept += us; return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (T.on) T.now += (uint64_t)a->tv_sec * 1000000000 + a->tv_nsec; return 0; }
unsigned __wrap_sleep(unsigned s) { if (T.on) T.now += (uint64_t)s * 1000000000; return 0; }
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!T.on) return __real_gettimeofday(t, z); T.now += 1000; t->tv_sec = 1000000 + T.now / 1000000000; t->tv_usec = T.now % 1000000000 / 1000; return 0; }

static char *dump(int fd, size_t *n) { off_t e = lseek(fd, 0, SEEK_END); char *b = malloc(e + 1); size_t o = 0; lseek(fd, 0, SEEK_SET); while (o < (size_t)e) { ssize_t r = read(fd, b + o, e - o); if (r <= 0) break; o += r; } *n = o; return b; }

#ifdef ACCOUNT
static void deny_report(void) { tn += sprintf(tbuf + tn, "DENIED\n"); tflush(); }
static const char *denials[] = { "-", "nomem", "noopen", "noread", "nosize" };
#endif

int main(void)
{
  static char line[65536];
  while (fgets(line, sizeof(line), stdin))
  {
    line[strcspn(line, "\n")] = 0;
    char *f[64]; int n = 0; char *s = line;
    while (s && n < 63) { f[n++] = s; s = strchr(s, 0x1f); if (s) *s++ = 0; }
    if (n < 5) return 70;
    int ofd = memfd_create("out", 0), trace = memfd_create("trace", 0);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
      tfd = trace;
      if (strcmp(f[0], "-"))
      {
        char k[32]; unsigned long long nn; unsigned pos;
        if (sscanf(f[0], "cpu,%d", &cpuLimit) == 1) goto parsed;
        if (sscanf(f[0], "%31[^,],%127[^,],%llu,%u", k, F.fn, &nn, &pos) != 4) _exit(70);
        F.n = nn; F.pos = pos;
        for (int i = 1; i <= K_STOP; i++) if (!strcmp(k, kinds[i])) F.kind = i;
#ifdef ACCOUNT
        for (int i = 1; i <= 4; i++) if (!strcmp(k, denials[i])) { denyKind = i; denyN = nn; denyPos = pos; F.kind = K_NONE; }
        if (!F.kind && !denyKind) _exit(70);
#else
        if (!F.kind) _exit(70);
#endif
      }
      parsed:;
      unsigned long long d, a, st;
      if (strcmp(f[1], "-")) { if (sscanf(f[1], "%llu,%llu,%llu", &d, &a, &st) != 3) _exit(70); T.on = true; T.dry = d; T.first = a; T.step = st; }
      if (chdir(f[2])) _exit(70);
      struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
      int nul = open("/dev/null", O_RDONLY); dup2(nul, 0); dup2(ofd, 1); dup2(ofd, 2);
      char *av[64]; int ac = 0; av[ac++] = "hsrlekit"; for (int i = 4; i < n; i++) if (*f[i] || i == 4) av[ac++] = f[i]; av[ac] = NULL;
      if (ac == 2 && !*av[1]) ac = 1;
      int rc = tool_main(ac, av);
#ifdef ACCOUNT
      tn += sprintf(tbuf + tn, "ALLOC %llu %llu\n", (unsigned long long)nAlloc, (unsigned long long)nFree);
      for (int i = 0; i < MAXLIVE && tn < sizeof(tbuf) - 200; i++) if (LIVE[i].p) tn += sprintf(tbuf + tn, "LEAK %c %zu %p\n", LIVE[i].kind, LIVE[i].n, LIVE[i].by);
#endif
      fflush(stdout); tflush();
      _exit(rc & 255);
    }
    // wait, with a timeout
    int status = 0; bool timeout = false, busy = false; double limit = atof(f[3]); struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
    for (unsigned us = 50;; us = us < 2000 ? us * 2 : 2000)
    {
      pid_t w = waitpid(pid, &status, WNOHANG);
      if (w == pid) break;
      if (w < 0 && errno != EINTR) return 70;
      __real_clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > limit) { timeout = true; kill(pid, SIGKILL); struct rusage ru; wait4(pid, &status, 0, &ru); busy = ru.ru_utime.tv_sec + ru.ru_stime.tv_sec > limit * 0.6; break; }
      struct timespec sl = { 0, us * 1000 }; syscall(35, &sl, NULL);
    }
    size_t on, trn; char *o = dump(ofd, &on), *t = dump(trace, &trn);
    close(ofd); close(trace);
    printf("R %d %d %zu %zu\n", status, timeout + busy, on, trn);
    fwrite(o, 1, on, stdout); fwrite(t, 1, trn, stdout); fflush(stdout);
    free(o); free(t);
  }
  return 0;
}
