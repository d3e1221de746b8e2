// Counts the instructions that a codec call executes, per codec, SIMD level, direction and kind of data: the library reports every basic block it enters (trace-pc instrumentation),
// its calls of the memory functions count per 16 bytes. Run on the current and on the archived sources; the script multiplies by the contents of the blocks and compares the two.
#include "eng.h"

extern char __executable_start, etext;
static uint64_t *cnt; static uint32_t *touched; static uint32_t touchedN;
static uintptr_t base, len; static uint64_t mem, all; static bool on;

void __sanitizer_cov_trace_pc(void)
{
  const uintptr_t a = (uintptr_t)__builtin_return_address(0) - base;
  if (on && a < len) { if (!cnt[a]++) touched[touchedN++] = (uint32_t)a; }
}
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on) mem += 8 + n / 16; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on) mem += 8 + n / 16; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on) mem += 8 + n / 16; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *d, const void *s, size_t n) { if (on) mem += 8 + n / 16; return __real_memcmp(d, s, n); }

static call_t counted(codec_fn f, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t outN)
{
  on = true; call_t t = call4(f, in, n, out, outN); on = false; return t;
}

enum { K_RUN, K_NOISE, K_LONGRUNS, K_MEDIUM, K_TINY, K_LITERALS, K_MIXED, K_LARGE, K_COUNT };
static const char *kinds[K_COUNT] = { "one run", "noise", "long runs", "medium runs", "tiny runs", "long literals", "mixed", "a megabyte" };

static uint32_t make(int k, rng_t *r, const vcodec_t *c, uint32_t n)
{
  const uint32_t w = c->width ? (uint32_t)c->width : 1; uint32_t m = 0; uint8_t sym[32]; const char *s;
  uint8_t rec[3][32]; for (int i = 0; i < 3; i++) gen_symbol(r, (int)w, rec[i]);
  if (k == K_NOISE) { for (; m < n; m++) RAW[m] = (uint8_t)rng_next(r); return n; }
  if (k == K_LARGE)
  {
    while (m < n) { const int sub = (int)rng_below(r, K_LARGE); uint32_t l = 1000 + (uint32_t)rng_below(r, sub < 2 ? 120000 : 20000); if (l > n - m) l = n - m; RAW += m; l = make(sub, r, c, l); RAW -= m; m += l; }
    return n;
  }
  if (k == K_MIXED) { while (m < n) m += gen_random(r, c, RAW + m, n - m < 700 ? n - m : 700, &s); return n < m ? n : m; }
  while (m < n)
  {
    uint32_t lit = 0, run = n;
    if (k == K_LONGRUNS) lit = (uint32_t)rng_below(r, 6), run = 150 + (uint32_t)rng_below(r, 300);
    if (k == K_MEDIUM) lit = 1 + (uint32_t)rng_below(r, 40), run = 3 * w + (uint32_t)rng_below(r, 40);
    if (k == K_TINY) lit = (uint32_t)rng_below(r, 3), run = 2 * w + (uint32_t)rng_below(r, 3 * w + 4);
    if (k == K_LITERALS) lit = 300 + (uint32_t)rng_below(r, 300), run = 40 + 3 * w + (uint32_t)rng_below(r, 60);
    for (; lit-- && m < n;) RAW[m++] = (uint8_t)rng_next(r);
    if (rng_below(r, 2)) memcpy(sym, rec[rng_below(r, 3)], w); else gen_symbol(r, (int)w, sym);
    for (uint32_t i = 0; i < run && m < n; i++) RAW[m++] = sym[i % w];
  }
  return n;
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  base = (uintptr_t)&__executable_start; len = (uintptr_t)&etext - base;
  cnt = calloc(len + 1, 8); touched = calloc(len + 1, 4);
  uint8_t *I0 = A_IN.lo + 256, *C0 = A_CMP.lo + 256, *D0 = A_OUT.lo + 256;
  char path[700]; snprintf(path, sizeof(path), "%s/speed-%d.txt", O.outdir, O.shard);
  FILE *f = fopen(path, "w"); if (!f) exit(70);
  uint64_t unit = 0;
  for (int ci = 0; ci < vcodec_count; ci++)
    for (int lv = 0; lv < LV_COUNT; lv++)
    {
      const vcodec_t *c = &vcodecs[ci];
      if (!vlevel_available(lv) || !codec_at_level(c, lv)) continue;
      if ((unit++ * 0x9E3779B97F4A7C15ULL >> 40) % (uint64_t)O.shards != (uint64_t)O.shard) continue;
      for (int dir = 0; dir < 2; dir++)
      {
        for (int k = 0; k < K_COUNT; k++)
          for (int al = 0; al < (k == K_LARGE ? 1 : 2); al++)
          {
            uint8_t *const I = I0 + (al ? 3 : 0), *const C = C0 + (al ? 9 : 0), *const D = D0 + (al ? 5 : 0);
          uint64_t bytes = 0; touchedN = 0; mem = 0;
          for (uint64_t q = 0; q < (k == K_LARGE ? 1 : O.count); q++)
          {
            rng_t r = rng_seed(O.seed * 7603 + (uint64_t)ci, (uint64_t)k * 1000 + q); // the same data at every level
            const uint32_t want = (k == K_LARGE ? 1000000 : 6000 + (uint32_t)rng_below(&r, q % 2 ? 4000 : 40000)), n = make(k, &r, c, want), bound = c->bounds(n), add = rle_decompress_additional_size();
            memcpy(I, RAW, n); CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = q; CUR.in = I; CUR.n = n; CUR.shape = kinds[k];
            vlevel_set(lv);
            call_t e = dir ? call4(c->comp, I, n, C, bound) : counted(c->comp, I, n, C, bound);
            if (!e.ok || !e.ret) { ev("encoder-failed", 1); continue; } // judged elsewhere
            if (dir) { memset(C + e.ret, 0, add); call_t d = counted(c->decomp, C, e.ret, D, n + add); if (!d.ok || !d.ret) { ev("decoder-failed", 1); continue; } }
            bytes += n; ev("counted-calls", 1); ev("counted-bytes", n);
            if (!seen(vhash(C, e.ret) * 31 + (uint64_t)ci * 16 + (uint64_t)lv)) sample("%s at %s: %s %u bytes (%s)", c->name, vlevel_names[lv], dir ? "decoding" : "encoding", n, kinds[k]);
          }
          fprintf(f, "%s|%s|%s|%s%s|%llu|%llu|", c->name, vlevel_names[lv], dir ? "decode" : "encode", kinds[k], al ? ", unaligned buffers" : "", (unsigned long long)bytes, (unsigned long long)mem);
          for (uint32_t i = 0; i < touchedN; i++) { fprintf(f, "%x:%llu ", touched[i], (unsigned long long)cnt[touched[i]]); all += cnt[touched[i]]; cnt[touched[i]] = 0; }
          fprintf(f, "\n");
        }
      }
    }
  ev("blocks-entered", all);
  fclose(f);
  return eng_finish();
}
