// Single-steps every codec call (trap flag) and records which instruction addresses of this executable are executed at which SIMD level.
#include "eng.h"
#include <ucontext.h>
#include <unistd.h>

extern char __executable_start, etext;
static uint8_t *bits[LV_COUNT];
static uint8_t *cur;
static uintptr_t base, len;
static uint64_t steps, stepsIn;
static int used[LV_COUNT];

static void on_trap(int sig, siginfo_t *si, void *u)
{
  (void)sig; (void)si;
  const uintptr_t rip = (uintptr_t)((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP] - base;
  steps++;
  if (rip < len) { cur[rip >> 3] |= (uint8_t)(1u << (rip & 7)); stepsIn++; }
}

static __attribute__((noinline)) uint32_t stepped(codec_fn f, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t outN)
{
  __asm__ volatile("pushfq\n orq $0x100, (%%rsp)\n popfq" ::: "memory", "cc");
  const uint32_t r = f(in, n, out, outN);
  __asm__ volatile("pushfq\n andq $~0x100, (%%rsp)\n popfq" ::: "memory", "cc");
  return r;
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  base = (uintptr_t)&__executable_start; len = (uintptr_t)&etext - base;
  for (int i = 0; i < LV_COUNT; i++) bits[i] = calloc(1, len / 8 + 1);
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
  uint8_t *I = A_IN.lo + 256, *C = A_CMP.lo + 256, *D = A_OUT.lo + 256;
  uint64_t unit = 0;
  for (int ci = 0; ci < vcodec_count; ci++)
    for (int lv = 0; lv < LV_COUNT; lv++)
    {
      const vcodec_t *c = &vcodecs[ci];
      if (!vlevel_available(lv)) continue;
      if (lv == LV_NONE && !codec_at_level(c, lv)) continue;
      if ((unit++ * 0x9E3779B97F4A7C15ULL >> 40) % (uint64_t)O.shards != (uint64_t)O.shard) continue;
      for (uint64_t k = 0; k < O.count && !eng_deadline(); k++)
      {
        rng_t r = rng_seed(O.seed * 7001 + (uint64_t)ci, (uint64_t)lv * 100000 + k);
        const char *shape = "";
        uint32_t n = 0;
        // sizes that reach the vectorised main loops, runs and literals of all sorts, but not many steps.
        for (int tries = 0; tries < 30 && (n < 200 || n > 2600); tries++) n = gen_random(&r, c, RAW, O.depth ? 2400 : 700, &shape);
        if (n > (O.depth ? 2600u : 800u)) n = O.depth ? 2600 : 800;
        const bool al = rng_below(&r, 2);
        uint8_t *i = I + (al ? 0 : rng_below(&r, 32)), *o = C + (al ? 0 : rng_below(&r, 32)), *d = D + (al ? 0 : rng_below(&r, 32));
        memcpy(i, RAW, n);
        CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = k; CUR.in = i; CUR.n = n; CUR.shape = shape;
        const uint32_t bound = c->bounds(n);
        vlevel_set(lv);
        cur = bits[lv]; used[lv] = 1;
        const uint32_t cs = stepped(c->comp, i, n, o, bound);
        if (cs) stepped(c->decomp, o, cs, d, n);
        ev("stepped-calls", 1 + !!cs);
        if (cs && !seen(vhash(o, cs) * 31 + (uint64_t)ci * 16 + (uint64_t)lv)) sample("%s at %s: %u bytes (%s), %llu instructions stepped so far", c->name, vlevel_names[lv], n, shape, (unsigned long long)steps);
      }
    }
  ev("instructions-stepped", steps); ev("instructions-stepped-in-codecs", stepsIn);
  char path[700]; snprintf(path, sizeof(path), "%s/step-%d.txt", O.outdir, O.shard);
  FILE *f = fopen(path, "w"); if (!f) exit(70);
  for (int lv = 0; lv < LV_COUNT; lv++)
  {
    if (!used[lv]) continue;
    fprintf(f, "L %s\n", vlevel_names[lv]);
    for (uintptr_t a = 0; a < len; a++) if (bits[lv][a >> 3] >> (a & 7) & 1) fprintf(f, "%lx\n", (unsigned long)a);
  }
  fclose(f);
  return eng_finish();
}
