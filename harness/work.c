// Work monitor (C25): the library is compiled with a counter on every control flow edge, and its memory functions count the bytes they touch, so that the work of a call is a
// number that does not depend on the machine or its load. The work of every call has to be at most proportional to the number of bytes processed.
#define _GNU_SOURCE
#include "eng.h"

static uint64_t W; static bool on;
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; W++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on) W += 1 + n / 16; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on) W += 1 + n / 16; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on) W += 1 + n / 16; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *d, const void *s, size_t n) { if (on) W += 1 + n / 16; return __real_memcmp(d, s, n); }

static uint64_t measure(codec_fn f, int lv, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t outN, call_t *t)
{
  vlevel_set(lv); W = 0; on = true; *t = call4(f, in, n, out, outN); on = false; return W;
}

// Upper limits of the work per byte, roughly eight times what is observed for the most expensive inputs of each family.
static const double LIM_ENC[FAM_COUNT] = { [FAM_BASE] = 40, [FAM_LUT] = 250, [FAM_LE] = 60, [FAM_SH] = 40, [FAM_MMTF] = 150, [FAM_TRANS] = 150 };
static const double LIM_DEC[FAM_COUNT] = { [FAM_BASE] = 20, [FAM_LUT] = 30, [FAM_LE] = 60, [FAM_SH] = 30, [FAM_MMTF] = 150, [FAM_TRANS] = 150 };
#define FIXED 800000.0

static double mx[2][FAM_COUNT], mfix; static uint32_t mxn[2][FAM_COUNT]; static const char *mxc[2][FAM_COUNT];

static void absolute(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  const int el = rand_level(r), dl = rand_level(r); if (!codec_at_level(c, el) || !codec_at_level(c, dl)) return;
  static call_t t; const uint32_t bound = c->bounds(n), add = rle_decompress_additional_size();
  memcpy(A_IN.lo, in, n);
  uint64_t we = measure(c->comp, el, A_IN.lo, n, A_CMP.lo, bound, &t); if (!t.ok || !t.ret) { ev("encoder-failed", 1); return; }
  const uint32_t cs = t.ret; if (cs > bound) return;
  memset(A_CMP.lo + cs, 0, add);
  uint64_t wd = measure(c->decomp, dl, A_CMP.lo, cs, A_OUT.lo, n + add, &t); if (!t.ok) { ev("decoder-failed", 1); return; }
  seen(vhash(A_CMP.lo, cs) ^ (uint64_t)ci * 1000003); ev("measured-calls", 2); ev("measured-work", we + wd); ev("measured-bytes", 2 * (uint64_t)n);
  sample("%s, %u bytes (%s): %llu units @%s, decoded with %llu units @%s", c->name, n, CUR.shape, (unsigned long long)we, vlevel_names[el], (unsigned long long)wd, vlevel_names[dl]);
  snprintf(CUR.what, sizeof(CUR.what), "encode@%s decode@%s", vlevel_names[el], vlevel_names[dl]);
  if (n > 4000) { double a = (double)we / n, b = (double)wd / n; if (a > mx[0][c->fam]) mx[0][c->fam] = a, mxc[0][c->fam] = c->name, mxn[0][c->fam] = n; if (b > mx[1][c->fam]) mx[1][c->fam] = b, mxc[1][c->fam] = c->name, mxn[1][c->fam] = n; }
  else { if (we > mfix) mfix = we; if (wd > mfix) mfix = wd; }
  if (we > LIM_ENC[c->fam] * n + FIXED) viol("work", "encoding %u bytes took %llu units of work, more than %.0f per byte", n, (unsigned long long)we, LIM_ENC[c->fam]);
  if (wd > LIM_DEC[c->fam] * n + FIXED) viol("work", "decoding %u bytes took %llu units of work, more than %.0f per byte", n, (unsigned long long)wd, LIM_DEC[c->fam]);
}

// The same data four and sixty-four times in a row: sixteen times the work, give or take.
static void scaling(void)
{
  for (int ci = 0; ci < vcodec_count; ci++)
    for (uint64_t k = 0; k < O.count; k++)
    {
      if ((int)((k + (uint64_t)ci) % (uint64_t)O.shards) != O.shard) continue;
      const vcodec_t *c = &vcodecs[ci]; rng_t r = rng_seed(O.seed * 7919 + (uint64_t)ci, k); if (codec_muted(ci) || eng_deadline()) return;
      if (O.only_codec >= 0 && (O.only_codec != ci || (O.only_index >= 0 && (uint64_t)O.only_index != k))) continue;
      const int el = rand_level(&r), dl = rand_level(&r); if (!codec_at_level(c, el) || !codec_at_level(c, dl)) continue;
      uint32_t m = 0; const char *shape = "", *s; const uint32_t want = 2000 + (uint32_t)rng_below(&r, 14000);
      // a tile: several generated inputs; every third one ends in a long run, or is one run or literal as a whole
      const int kind = (int)rng_below(&r, 6);
      if (kind == 0) { uint8_t sym[32]; int w = c->width ? c->width : 1; gen_symbol(&r, w, sym); for (m = 0; m < want; m++) RAW[m] = sym[m % (uint32_t)w]; shape = "one run"; }
      else if (kind == 1) { m = want; for (uint32_t i = 0; i < m; i++) RAW[i] = (uint8_t)rng_next(&r); shape = "noise"; }
      else if (kind == 2) { int w = c->width ? c->width : 1; for (m = 0; m + 64 < want; ) { uint8_t sym[32]; gen_symbol(&r, w, sym); uint32_t l = (uint32_t)w * (1 + (uint32_t)rng_below(&r, 4)); for (uint32_t i = 0; i < l; i++) RAW[m++] = sym[i % (uint32_t)w]; } shape = "many tiny runs"; }
      else while (m < want) { uint32_t l = gen_random(&r, c, RAW + m, want - m < 9000 ? want - m : 9000, &s); if (!m) shape = s; m += l; }
      if (m > 16000) m = 16000;
      CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = k; CUR.in = RAW; CUR.n = m; CUR.shape = shape; CUR.what[0] = 0;
      static call_t t; uint64_t we[2] = { 0, 0 }, wd[2] = { 0, 0 }; const uint32_t add = rle_decompress_additional_size(); bool ok = true;
      for (int p = 0; p < 2 && ok; p++)
      {
        const uint32_t n = m * (p ? 64 : 4), bound = c->bounds(n);
        for (uint32_t i = 0; i < n; i += m) memcpy(A_IN.lo + i, RAW, m);
        we[p] = measure(c->comp, el, A_IN.lo, n, A_CMP.lo, bound, &t); ok = t.ok && t.ret && t.ret <= bound; if (!ok) { if (t.hang) viol("work", "encoding %u bytes (a tile of %u bytes, repeated) did not end within 20 s", n, m); break; }
        const uint32_t cs = t.ret; memset(A_CMP.lo + cs, 0, add);
        wd[p] = measure(c->decomp, dl, A_CMP.lo, cs, A_OUT.lo, n + add, &t); ok = t.ok; if (t.hang) viol("work", "decoding %u bytes (a tile of %u bytes, repeated) did not end within 20 s", n, m);
        if (ok) seen(vhash(A_CMP.lo, cs) ^ (uint64_t)ci * 1000003);
      }
      if (!ok) { ev("call-failed", 1); if (O.extra) printf("F %s k %llu tile %u %s %s->%s we %llu %llu wd %llu %llu %s\n", c->name, (unsigned long long)k, m, shape, vlevel_names[el], vlevel_names[dl], (unsigned long long)we[0], (unsigned long long)we[1], (unsigned long long)wd[0], (unsigned long long)wd[1], fault_str(&t)); continue; }
      snprintf(CUR.what, sizeof(CUR.what), "tile of %u bytes, encode@%s decode@%s", m, vlevel_names[el], vlevel_names[dl]);
      ev("scaling-pairs", 2);
      { static const char *b[] = { "growth<=12x", "growth<=20x", "growth<=32x", "growth<=48x", "growth>48x" }; for (int p = 0; p < 2; p++) { double g = (double)(p ? wd[1] : we[1]) / (double)((p ? wd[0] : we[0]) + 1); ev(b[g <= 12 ? 0 : g <= 20 ? 1 : g <= 32 ? 2 : g <= 48 ? 3 : 4], 1); if (g > 32 && O.extra) printf("G %s %s %s %u %llu %llu\n", c->name, shape, p ? "dec" : "enc", m, (unsigned long long)(p ? wd[0] : we[0]), (unsigned long long)(p ? wd[1] : we[1])); } }
      if (we[1] > 32 * we[0] + 100000) viol("growth", "encoding sixteen times as much data took %.1f times the work (%llu instead of %llu units)", (double)we[1] / we[0], (unsigned long long)we[1], (unsigned long long)we[0]);
      if (wd[1] > 32 * wd[0] + 100000) viol("growth", "decoding sixteen times as much data took %.1f times the work (%llu instead of %llu units)", (double)wd[1] / wd[0], (unsigned long long)wd[1], (unsigned long long)wd[0]);
    }
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  if (!strcmp(O.mode, "work")) eng_cases(absolute, 4, 4);
  else if (!strcmp(O.mode, "scaling")) scaling();
  else return 70;
  if (O.extra) { for (int f = 0; f < FAM_COUNT; f++) for (int k = 0; k < 2; k++) if (mxc[k][f]) printf("MAX %s %s %.1f %s %u\n", vfam_names[f], k ? "dec" : "enc", mx[k][f], mxc[k][f], mxn[k][f]); printf("FIX %.0f\n", mfix); }
  return eng_finish();
}
