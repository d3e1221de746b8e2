// Bit packing helpers (C24): every encoder with every decoder of its format, on buffers of exactly the documented sizes.
#include "eng.h"
#include <sys/mman.h>
#include "bitpack.h"

int nViolations(void);
typedef void (*vfn)(const uint8_t *, uint8_t *, const size_t);
typedef uint8_t *(*pfn)(const uint8_t *, uint8_t *, const size_t);
typedef struct { const char *name; int bits, group, fmt; bool aligned, encoder, returns, original; void *f; } fn_t; // group: symbols per block; fmt: encoders and decoders of equal fmt match; original: the size argument is the unpacked size
static const fn_t F[] = {
  { "encode3_3_sse2_aligned", 3, 48, 0, true, true, false, true, bitpack_encode3_3_sse2_aligned }, { "encode3_3_sse2_unaligned", 3, 48, 0, false, true, false, true, bitpack_encode3_3_sse2_unaligned },
  { "decode3_3_sse2_aligned", 3, 48, 0, true, false, false, false, bitpack_decode3_3_sse2_aligned }, { "decode3_3_sse2_unaligned", 3, 48, 0, false, false, false, false, bitpack_decode3_3_sse2_unaligned },
  { "encode3_6_sse2_aligned", 3, 96, 1, true, true, false, true, bitpack_encode3_6_sse2_aligned }, { "encode3_6_sse2_unaligned", 3, 96, 1, false, true, false, true, bitpack_encode3_6_sse2_unaligned },
  { "decode3_6_sse2_aligned", 3, 96, 1, true, false, false, false, bitpack_decode3_6_sse2_aligned }, { "decode3_6_sse2_unaligned", 3, 96, 1, false, false, false, false, bitpack_decode3_6_sse2_unaligned },
  { "encode3_sse2_unaligned_m128i", 3, 16, 2, false, true, true, true, bitpack_encode3_sse2_unaligned_m128i }, { "decode3_sse2_unaligned_m128i", 3, 16, 2, false, false, true, true, bitpack_decode3_sse2_unaligned_m128i },
  { "encode4_sse2_unaligned", 4, 1, 3, false, true, true, true, bitpack_encode4_sse2_unaligned }, { "encode4_sse2_aligned", 4, 1, 3, true, true, true, true, bitpack_encode4_sse2_aligned },
  { "decode4_sse2_unaligned", 4, 1, 3, false, false, true, true, bitpack_decode4_sse2_unaligned }, { "decode4_sse2_aligned", 4, 1, 3, true, false, true, true, bitpack_decode4_sse2_aligned },
  { "encode4_sse2_unaligned_m128i", 4, 16, 4, false, true, true, true, bitpack_encode4_sse2_unaligned_m128i }, { "decode4_sse2_unaligned_m128i", 4, 16, 4, false, false, true, true, bitpack_decode4_sse2_unaligned_m128i },
  { "encode2_sse2_unaligned", 2, 64, 5, false, true, false, true, bitpack_encode2_sse2_unaligned }, { "encode2_sse2_aligned", 2, 64, 5, true, true, false, true, bitpack_encode2_sse2_aligned },
  { "decode2_sse2_unaligned", 2, 64, 5, false, false, false, false, bitpack_decode2_sse2_unaligned }, { "decode2_sse2_aligned", 2, 64, 5, true, false, false, false, bitpack_decode2_sse2_aligned },
  { "encode2_sse2_unaligned_m128i", 2, 16, 6, false, true, true, true, bitpack_encode2_sse2_unaligned_m128i }, { "decode2_sse2_unaligned_m128i", 2, 16, 6, false, false, true, true, bitpack_decode2_sse2_unaligned_m128i },
  { "encode1_sse2_aligned", 1, 16, 7, true, true, false, true, bitpack_encode1_sse2_aligned }, { "encode1_sse2_unaligned", 1, 16, 7, false, true, false, true, bitpack_encode1_sse2_unaligned },
  { "decode1_sse2_aligned", 1, 16, 7, true, false, false, false, bitpack_decode1_sse2_aligned }, { "decode1_sse2_unaligned", 1, 16, 7, false, false, false, false, bitpack_decode1_sse2_unaligned },
};
enum { NF = sizeof(F) / sizeof(F[0]), CAN = 96 };

static size_t packed(const fn_t *f, size_t n) { return (n * (size_t)f->bits + 7) / 8; }
// A buffer of n bytes that ends at an unmapped page (aligned: as close to it as its alignment permits), or begins at one.
static uint8_t *place(arena_t *a, size_t n, bool aligned, bool front) { if (front) return a->lo; uint8_t *p = a->hi - n; return aligned ? (uint8_t *)((uintptr_t)p & ~(uintptr_t)15) : p; }

static call_t invoke(const fn_t *f, const uint8_t *in, uint8_t *out, size_t size, uint8_t *volatile *ret)
{
  static call_t t;
  if (f->returns) GUARDED(*ret = ((pfn)f->f)(in, out, size), t); else GUARDED(((vfn)f->f)(in, out, size), t);
  return t;
}

static void one(const fn_t *e, const fn_t *d, size_t n, uint64_t index)
{
  rng_t r = rng_seed(O.seed * 15485863 + 24, index * 1000003 + (uint64_t)(e - F) * 131 + (uint64_t)(d - F));
  const size_t m = packed(e, n); const bool front = rng_below(&r, 4) == 0; static uint8_t raw[70000], can[4][CAN]; uint8_t *volatile ret = NULL;
  const uint8_t mask = (uint8_t)((1 << e->bits) - 1); const uint64_t kind = rng_below(&r, 5); const uint8_t fixed = (uint8_t)rng_next(&r) & mask;
  for (size_t i = 0; i < n; i++) raw[i] = (kind == 0 ? fixed : kind == 1 ? (uint8_t)i : kind == 2 ? (rng_below(&r, 40) ? 0 : 0xFF) : kind == 3 ? (rng_below(&r, 40) ? 0xFF : 0) : (uint8_t)rng_next(&r)) & mask;
  CUR.codec = -1; CUR.stage = ST_OTHER; CUR.index = index; CUR.in = raw; CUR.n = (uint32_t)n; CUR.shape = "bit packing";
  snprintf(CUR.what, sizeof(CUR.what), "bitpack_%s, %s, %zu symbols, %s buffers", e->name, d->name, n, front ? "front-guarded" : "end-guarded");
  uint8_t *I = place(&A_IN, n, e->aligned, front), *C = place(&A_CMP, m, e->aligned || d->aligned, front), *D = place(&A_OUT, n, d->aligned, front);
  memcpy(I, raw, n); memset(C, (int)rng_next(&r), m);
  uint8_t *ends[2] = { C + m, D + n }; arena_t *ar[2] = { &A_CMP, &A_OUT }; size_t endn[2], fronts[2] = { CAN, CAN };
  for (int k = 0; k < 2; k++) { endn[k] = (size_t)(ar[k]->hi - ends[k]); if (endn[k] > CAN) endn[k] = CAN; uint8_t *b = k ? D : C; if ((size_t)(b - ar[k]->lo) < CAN) fronts[k] = (size_t)(b - ar[k]->lo); for (size_t i = 0; i < endn[k]; i++) ends[k][i] = can[k][i] = (uint8_t)rng_next(&r); for (size_t i = 0; i < fronts[k]; i++) b[(ptrdiff_t)i - (ptrdiff_t)fronts[k]] = can[2 + k][i] = (uint8_t)rng_next(&r); }
  call_t t = invoke(e, I, C, n, &ret);
  if (!t.ok) { viol("crash", "bitpack_%s: %s", e->name, fault_str(&t)); return; }
  if (e->returns && ret != C + m) { viol("end", "bitpack_%s returned an end at %ld instead of %zu", e->name, (long)(ret - C), m); return; }
  if (memcmp(I, raw, n)) { viol("source", "bitpack_%s modified its input", e->name); return; }
  if (memcmp(C + m, can[0], endn[0]) || memcmp(C - fronts[0], can[2], fronts[0])) { viol("overrun", "bitpack_%s wrote outside of its output of %zu bytes", e->name, m); return; }
  ev("encodes", 1);
  if (!seen(vhash(C, (uint32_t)m) * 31 + (uint64_t)(e - F) * 64 + (uint64_t)(d - F))) sample("%s -> %zu bytes", CUR.what, m);
  memcpy(A_TMP.lo, C, m);
  for (size_t i = 0; i < n; i++) D[i] = (uint8_t)~raw[i];
  t = invoke(d, C, D, d->original ? n : m, &ret);
  if (!t.ok) { viol("crash", "bitpack_%s: %s", d->name, fault_str(&t)); return; }
  if (d->returns && ret != C + m) { viol("end", "bitpack_%s returned an end at %ld instead of %zu", d->name, (long)(ret - C), m); return; }
  if (memcmp(A_TMP.lo, C, m)) { viol("source", "bitpack_%s modified its input", d->name); return; }
  if (memcmp(D, raw, n)) { size_t i = 0; while (D[i] == raw[i]) i++; viol("mismatch", "symbol %zu of %zu is %u instead of %u after bitpack_%s and bitpack_%s", i, n, D[i], raw[i], e->name, d->name); return; }
  if (memcmp(D + n, can[1], endn[1]) || memcmp(D - fronts[1], can[3], fronts[1])) { viol("overrun", "bitpack_%s wrote outside of its output of %zu bytes", d->name, n); return; }
  ev("decodes", 1); ev(e->bits == 1 ? "round-trips, 1 bit" : e->bits == 2 ? "round-trips, 2 bit" : e->bits == 3 ? "round-trips, 3 bit" : "round-trips, 4 bit", 1);
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  uint64_t index = 0;
  for (int e = 0; e < NF; e++)
    for (int d = 0; d < NF; d++)
    {
      if (!F[e].encoder || F[d].encoder || F[e].fmt != F[d].fmt) continue;
      uint64_t reported = 0;
      for (uint64_t k = 0; k < O.count + 1200; k++, index++)
      {
        if (index % (uint64_t)O.shards != (uint64_t)O.shard) continue;
        rng_t r = rng_seed(O.seed * 99991 + 24, index);
        const size_t blocks = k < 1200 ? k % 400 : rng_below(&r, 65536 / (uint64_t)F[e].group);
        const int before = nViolations();
        if (reported < 3) one(&F[e], &F[d], blocks * (size_t)F[e].group, index);
        reported += (uint64_t)(nViolations() - before);
      }
    }
  return eng_finish();
}
