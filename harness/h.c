// Functional and memory monitors, native flavour. One mode per property.
#include "eng.h"
#include <sys/mman.h>
#include <unistd.h>

static const char *lvEnc[LV_COUNT] = { "enc@avx512f", "enc@avx2", "enc@avx", "enc@sse4.2", "enc@sse4.1", "enc@ssse3", "enc@sse3", "enc@sse2", "enc@none" };
static const char *lvDec[LV_COUNT] = { "dec@avx512f", "dec@avx2", "dec@avx", "dec@sse4.2", "dec@sse4.1", "dec@ssse3", "dec@sse3", "dec@sse2", "dec@none" };

#define WHAT(...) snprintf(CUR.what, sizeof(CUR.what), __VA_ARGS__)

static void fill(uint8_t *p, size_t n, uint64_t k) { memset(p, (int)(k & 0xFF), n); }

// Fills the output with a pattern that differs from the expected bytes everywhere.
static void fill_inverse(uint8_t *p, const uint8_t *in, uint32_t n, uint32_t extra) { for (uint32_t i = 0; i < n; i++) p[i] = (uint8_t)~in[i]; memset(p + n, 0xC7, extra); }

static bool nontrivial(const vcodec_t *c, const uint8_t *cmp, uint32_t cs) { (void)c; return !seen(vhash(cmp, cs) * 31 + (uint64_t)CUR.codec); }

// a place for n bytes: a random alignment, every other time across the 2 / 4 GiB address boundary of the arena (see arena_make)
static uint8_t *spot(arena_t *a, rng_t *r, uint32_t n)
{
  if (rng_below(r, 2)) return a->lo + 256 + rng_below(r, 64);
  ev("across-2GiB-boundary", 1); return a->lo + 4096 - rng_below(r, (n < 3700 ? n : 3700) + 1);
}

// ----------------------------------------------------------------------------------------------------------- round trip
// Layout: input / compressed / output placed at a random alignment, with slack around (a stray access is judged by C07, not here).

static void case_rt(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  int el = rand_level(r);
  uint8_t *I = spot(&A_IN, r, n), *C = spot(&A_CMP, r, n), *D = spot(&A_OUT, r, n);
  memcpy(I, in, n);
  memset(I + n, (int)(rng_next(r) & 0xFF), 64); memset(I - 16, (int)(rng_next(r) & 0xFF), 16);
  if (n && rng_below(r, 3) == 0) for (int i = 0; i < 64; i++) I[n + i] = in[n - 1 - (n > (uint32_t)c->width ? (uint32_t)(c->width - 1) - (uint32_t)i % (uint32_t)c->width : 0)]; // bytes behind the input continue its last symbol
  const uint32_t bound = c->bounds(n);
  fill(C, bound + 64, rng_next(r));
  vlevel_set(el);
  WHAT("encode@%s", vlevel_names[el]);
  call_t e = call4(c->comp, I, n, C, bound);
  ev(lvEnc[el], 1);
  if (!codec_at_level(c, el)) { if (!e.ok) viol("crash", "encoder at level none: %s", fault_str(&e)); ev("level-none-unsupported", 1); if (e.ok && e.ret == 0) { el = LV_SSE2; vlevel_set(el); e = call4(c->comp, I, n, C, bound); } }
  if (!e.ok) { viol("crash", "encoder: %s", fault_str(&e)); return; }
  if (e.ret == 0 || e.ret > bound) { viol("encode", "encoder returned %u for %u bytes (bounds %u)", e.ret, n, bound); return; }
  ev("round-trips", 0);
  if (nontrivial(c, C, e.ret)) sample("%s: %s input of %u bytes encoded at %s to %u bytes", c->name, CUR.shape, n, vlevel_names[el], e.ret);
  const int decs = O.depth ? 3 : 2;
  for (int k = 0; k < decs; k++)
  {
    int dl = rand_level(r);
    if (!codec_at_level(c, dl)) dl = LV_SSE2;
    vlevel_set(dl);
    memset(C + e.ret, (int)(rng_next(r) & 0xFF), bound + 64 - e.ret);
    fill_inverse(D, in, n, 128);
    WHAT("encode@%s decode@%s", vlevel_names[el], vlevel_names[dl]);
    call_t d = call4(c->decomp, C, e.ret, D, n);
    ev(lvDec[dl], 1);
    if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
    if (d.ret != n) { viol("decode-size", "decoder returned %u, expected %u (compressed %u)", d.ret, n, e.ret); return; }
    if (memcmp(D, in, n)) { uint32_t i = 0; while (D[i] == in[i]) i++; viol("mismatch", "first wrong byte at %u of %u: 0x%02X instead of 0x%02X (compressed %u)", i, n, D[i], in[i], e.ret); return; }
    ev("round-trips", 1);
  }
}

// ------------------------------------------------------------------------------- low entropy info API and sub-sections (C03)

static void case_info(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  if (c->fam != FAM_LE) return;
  (void)ci;
  if (n > 9000) return;
  const bool isShort = strstr(c->cname, "short") != NULL, only = strstr(c->cname, "only_max") != NULL;
  uint8_t *I = spot(&A_IN, r, n), *C = spot(&A_CMP, r, n), *D = spot(&A_OUT, r, n);
  memcpy(I, in, n);
  memset(I + n, (int)(rng_next(r) & 0xFF), 64);
  static rle8_low_entropy_compress_info_t info; static rle8_low_entropy_decompress_info_t dinfo;
  memset(&info, 0xEE, sizeof(info)); memset(&dinfo, 0xEE, sizeof(dinfo));
  int el = rand_level(r), dl = rand_level(r);
  vlevel_set(el);
  WHAT("info API encode@%s decode@%s", vlevel_names[el], vlevel_names[dl]);
  call_t t = { 0 };
  volatile bool got = false;
  // symbol statistics of the whole data; the data itself is encoded in 1..3 independent parts.
  GUARDED(got = only ? rle8_low_entropy_get_compress_info_only_max_frequency(I, n, &info) : rle8_low_entropy_get_compress_info(I, n, &info), t);
  if (!t.ok) { viol("crash", "get_compress_info: %s", fault_str(&t)); return; }
  if (!got) { viol("info", "get_compress_info failed for %u bytes", n); return; }
  fill(C, 2 * (size_t)n + 2048, rng_next(r));
  volatile uint32_t hs = 0, rs = 0;
  GUARDED(hs = rle8_low_entropy_write_compress_info(&info, C, 2048), t);
  if (!t.ok) { viol("crash", "write_compress_info: %s", fault_str(&t)); return; }
  if (hs == 0 || hs > 32 + 1 + 256) { viol("info", "write_compress_info returned %u", hs); return; }
  GUARDED(rs = rle8_low_entropy_read_decompress_info(C, hs, &dinfo), t);
  if (!t.ok) { viol("crash", "read_decompress_info: %s", fault_str(&t)); return; }
  if (rs != hs) { viol("info", "read_decompress_info consumed %u of %u bytes", rs, hs); return; }
  const uint32_t parts = n >= 3 ? 1 + (uint32_t)rng_below(r, 3) : 1;
  uint32_t begin = 0, off = hs;
  fill_inverse(D, in, n, 128);
  for (uint32_t p = 0; p < parts; p++)
  {
    const uint32_t left = n - begin, len = p + 1 == parts ? left : 1 + (uint32_t)rng_below(r, left - (parts - p - 1));
    volatile uint32_t cs = 0, ds = 0;
    vlevel_set(el);
    GUARDED(cs = isShort ? rle8_low_entropy_short_compress_with_info(I + begin, len, &info, C + off, 2 * n + 1024) : rle8_low_entropy_compress_with_info(I + begin, len, &info, C + off, 2 * n + 1024), t);
    if (!t.ok) { viol("crash", "compress_with_info: %s", fault_str(&t)); return; }
    if (cs == 0 || cs > 2 * len) { viol("info", "compress_with_info returned %u for %u bytes", cs, len); return; }
    vlevel_set(dl);
    fill(C + off + cs, 64, rng_next(r));
    GUARDED(ds = isShort ? rle8_low_entropy_short_decompress_with_info(C + off, C + off + cs, &dinfo, D + begin, len) : rle8_low_entropy_decompress_with_info(C + off, C + off + cs, &dinfo, D + begin, len), t);
    if (!t.ok) { viol("crash", "decompress_with_info: %s", fault_str(&t)); return; }
    if (ds != len) { viol("info", "decompress_with_info returned %u instead of %u", ds, len); return; }
    if (memcmp(D + begin, in + begin, len)) { viol("mismatch", "info API: part %u (%u bytes at %u) decoded differently", p, len, begin); return; }
    ev("info-parts", 1);
    begin += len;
  }
}

static void case_rle8m(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  if (c->fam != FAM_LE) return;
  (void)ci;
  uint32_t k;
  switch (rng_below(r, 6)) { case 0: k = 1; break; case 1: k = 2; break; case 2: k = n; break; case 3: k = n / 2 + 1; break; case 4: k = 1 + (uint32_t)rng_below(r, 40); break; default: k = 1 + (uint32_t)rng_below(r, n); break; }
  if (k > n) k = n;
  if (k > 3000) k = 3000;
  uint8_t *I = spot(&A_IN, r, n), *D = spot(&A_OUT, r, n);
  memcpy(I, in, n); memset(I + n, (int)(rng_next(r) & 0xFF), 64);
  const uint32_t bound = rle8m_compress_bounds(k, n);
  if (bound < n || bound + 512 > A_CMP.usable) { if (bound < n) viol("rle8m", "bounds(%u sections, %u) = %u", k, n, bound); return; }
  uint8_t *C = A_CMP.lo + 256;
  fill(C, bound + 64, rng_next(r));
  int el = rand_level(r), dl = rand_level(r);
  vlevel_set(el);
  WHAT("rle8m, %u sub-sections encode@%s decode@%s", k, vlevel_names[el], vlevel_names[dl]);
  volatile uint32_t cs = 0, ds = 0; call_t t = { 0 };
  GUARDED(cs = rle8m_compress(k, I, n, C, bound), t);
  if (!t.ok) { viol("crash", "rle8m_compress: %s", fault_str(&t)); return; }
  if (cs == 0 || cs > bound) { viol("rle8m", "rle8m_compress(%u sections) returned %u (bounds %u)", k, cs, bound); return; }
  fill_inverse(D, in, n, 128);
  const uint32_t extra = rng_below(r, 2) ? 0 : (uint32_t)rng_below(r, bound - cs + 1);
  fill(C + cs, bound + 64 - cs, rng_next(r));
  vlevel_set(dl);
  GUARDED(ds = rle8m_decompress(C, cs + extra, D, n), t);
  if (!t.ok) { viol("crash", "rle8m_decompress: %s", fault_str(&t)); return; }
  if (ds != n) { viol("rle8m", "rle8m_decompress(%u sections) returned %u instead of %u", k, ds, n); return; }
  if (memcmp(D, in, n)) { uint32_t i = 0; while (D[i] == in[i]) i++; viol("mismatch", "rle8m with %u sections: first wrong byte %u of %u", k, i, n); return; }
  ev("rle8m-round-trips", 1); ev("rle8m-sections", k);
  if (!seen(vhash(C, cs) + 77)) sample("rle8m: %u bytes, %u sub-sections -> %u bytes", n, k, cs);
}

static void case_c03(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  case_rt(c, ci, r, in, n);
  if (codec_muted(ci)) return;
  if (CUR.stage != ST_EDGE && CUR.stage != ST_LONG && CUR.stage != ST_COMBO && rng_below(r, 2)) case_info(c, ci, r, in, n);
  if (CUR.stage != ST_EDGE || rng_below(r, 4) == 0) if (rng_below(r, 2)) case_rle8m(c, ci, r, in, n);
}

// ----------------------------------------------------------------------------------------------------------- memory containment (C07)
// Every buffer is as small as documented and ends exactly at an unmapped page; the bytes in front are canaries.

enum { CANARY = 192 };
static void set_canary(uint8_t *p, rng_t *r, uint8_t *copy) { for (int i = 0; i < CANARY; i++) p[i - CANARY] = copy[i] = (uint8_t)rng_next(r); }

static void case_mem(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  const uint32_t bound = c->bounds(n), add = rle_decompress_additional_size();
  int el = rand_level(r); if (!codec_at_level(c, el)) el = LV_SSE2;
  const bool front = rng_below(r, 5) == 0; // buffers that *start* right behind an unmapped page
  uint8_t *I = front ? A_IN.lo : A_IN.hi - n, *C = front ? A_CMP.lo : A_CMP.hi - bound, *D = front ? A_OUT.lo : A_OUT.hi - n - add;
  static uint8_t can[3][CANARY];
  if (!front) { set_canary(I, r, can[0]); set_canary(C, r, can[1]); set_canary(D, r, can[2]); }
  memcpy(I, in, n);
  fill(C, bound, rng_next(r));
  static uint8_t backC[CANARY], backD[CANARY];
  if (front) { for (int i = 0; i < CANARY; i++) { C[bound + i] = backC[i] = (uint8_t)rng_next(r); D[n + add + i] = backD[i] = (uint8_t)rng_next(r); } }
  vlevel_set(el);
  WHAT("%s buffers, encode@%s", front ? "front-guarded" : "end-guarded", vlevel_names[el]);
  ev(lvEnc[el], 1);
  call_t e = call4(c->comp, I, n, C, bound);
  if (!e.ok) { viol("encode-access", "encoder touched memory outside of its buffers: %s", fault_str(&e)); return; }
  if (e.ret == 0 || e.ret > bound) return; // judged elsewhere
  if (front) { if (memcmp(C + bound, backC, CANARY)) { viol("encode-write", "encoder wrote behind the compressed buffer"); return; } }
  else { if (memcmp(C - CANARY, can[1], CANARY)) { viol("encode-write", "encoder wrote in front of the compressed buffer"); return; }
         if (memcmp(I - CANARY, can[0], CANARY)) { viol("encode-write", "encoder wrote in front of the input buffer"); return; } }
  int dl = rand_level(r); if (!codec_at_level(c, dl)) dl = LV_SSE2;
  if (rng_below(r, 2)) fill(C + e.ret, bound - e.ret, rng_next(r));
  fill(D, n + add, rng_next(r));
  vlevel_set(dl);
  WHAT("%s buffers, encode@%s decode@%s", front ? "front-guarded" : "end-guarded", vlevel_names[el], vlevel_names[dl]);
  ev(lvDec[dl], 1);
  // The stream lies in a buffer of the advertised size, or (as when it was received from elsewhere) in one that ends additional-size bytes behind the stream.
  const uint8_t *S = C;
  if (!front && e.ret + add < bound && rng_below(r, 2)) { S = A_CMP.hi - e.ret - add; memmove((void *)S, C, e.ret); ev("tight-streams", 1); WHAT("tight stream, encode@%s decode@%s", vlevel_names[el], vlevel_names[dl]); }
  call_t d = call4(c->decomp, S, e.ret, D, n);
  if (!d.ok) { viol("decode-access", "decoder touched memory outside of its buffers: %s", fault_str(&d)); return; }
  if (front) { if (memcmp(D + n + add, backD, CANARY)) { viol("decode-write", "decoder wrote behind output + additional size"); return; } }
  else { if (memcmp(D - CANARY, can[2], CANARY)) { viol("decode-write", "decoder wrote in front of the output buffer"); return; }
         if (memcmp(C - CANARY, can[1], CANARY)) { viol("decode-write", "decoder wrote in front of the compressed buffer"); return; } }
  ev("guarded-pairs", 1);
  if (nontrivial(c, C, e.ret)) sample("%s: %u bytes, input/compressed(%u)/output(%u) buffers %s", c->name, n, bound, n + add, front ? "start at a guard page" : "end at a guard page");
}

static void case_mem_le(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  case_mem(c, ci, r, in, n);
  if (c->fam != FAM_LE || n > 20000) return;
  // rle8m with exactly sized buffers.
  uint32_t k = 1 + (uint32_t)rng_below(r, n < 64 ? n : 64); const uint32_t bound = rle8m_compress_bounds(k, n), add = rle_decompress_additional_size();
  uint8_t *I = A_IN.hi - n, *C = A_CMP.hi - bound, *D = A_OUT.hi - n - add;
  memcpy(I, in, n); fill(C, bound, rng_next(r));
  int el = rand_level(r), dl = rand_level(r); vlevel_set(el);
  WHAT("rle8m %u sections encode@%s decode@%s", k, vlevel_names[el], vlevel_names[dl]);
  volatile uint32_t cs = 0, ds = 0; call_t t = { 0 };
  GUARDED(cs = rle8m_compress(k, I, n, C, bound), t);
  if (!t.ok) { viol("encode-access", "rle8m_compress: %s", fault_str(&t)); return; }
  if (cs == 0) return;
  vlevel_set(dl);
  const uint32_t extra = rng_below(r, 2) ? (uint32_t)rng_below(r, bound - cs + 1) : 0;
  GUARDED(ds = rle8m_decompress(C, cs + extra, D, n), t);
  if (!t.ok) { viol("decode-access", "rle8m_decompress: %s", fault_str(&t)); return; }
  (void)ds;
  ev("guarded-pairs-rle8m", 1);
  // the encoder for pre-computed symbol statistics: any output size has to be respected.
  static rle8_low_entropy_compress_info_t info;
  const bool sh = strstr(c->cname, "short") != NULL;
  const uint32_t part = 1 + (uint32_t)rng_below(r, n), at = (uint32_t)rng_below(r, n - part + 1);
  if (!rle8_low_entropy_get_compress_info(I, n, &info)) return;
  uint8_t *F = A_CMP.lo + 64;
  const uint32_t full = sh ? rle8_low_entropy_short_compress_with_info(I + at, part, &info, F, 2 * part) : rle8_low_entropy_compress_with_info(I + at, part, &info, F, 2 * part);
  if (full == 0 || full > 2 * part) { viol("info-size", "compress_with_info needs %u bytes for %u", full, part); return; }
  const uint32_t room = rng_below(r, 3) ? (uint32_t)rng_below(r, full) : rng_below(r, 2) ? full : full - 1 + (uint32_t)rng_below(r, 40);
  if (room == 0) return;
  uint8_t *S = A_CMP.hi - room;
  WHAT("compress_with_info%s, %u of %u bytes into %u bytes", sh ? " (short)" : "", part, n, room);
  GUARDED(cs = sh ? rle8_low_entropy_short_compress_with_info(I + at, part, &info, S, room) : rle8_low_entropy_compress_with_info(I + at, part, &info, S, room), t);
  if (!t.ok) { viol("encode-access", "compress_with_info: %s", fault_str(&t)); return; }
  if (room < full ? cs != 0 : cs != full) { viol("info-size", "compress_with_info returned %u with room for %u of %u bytes", cs, room, full); return; }
  ev("guarded-info-encodes", 1);
}

// ----------------------------------------------------------------------------------------------------------- sources are read only (C08)

static void case_src(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  const uint32_t bound = c->bounds(n);
  int el = rand_level(r), dl = rand_level(r); if (!codec_at_level(c, el)) el = LV_SSE2; if (!codec_at_level(c, dl)) dl = LV_SSE2;
  uint8_t *I = spot(&A_IN, r, n), *C = spot(&A_CMP, r, n), *D = A_OUT.lo + 256;
  memcpy(I, in, n); memset(I + n, 0x3C, 64);
  fill(C, bound + 64, 0);
  mprotect(A_IN.lo, A_IN.usable, PROT_READ);
  vlevel_set(el); WHAT("read-only input, encode@%s", vlevel_names[el]);
  call_t e = call4(c->comp, I, n, C, bound);
  mprotect(A_IN.lo, A_IN.usable, PROT_READ | PROT_WRITE);
  ev("encodes-from-read-only", 1);
  if (!e.ok) { if (e.wr && (uint8_t *)e.addr >= A_IN.base && (uint8_t *)e.addr < A_IN.base + A_IN.map) viol("source-write", "encoder wrote to its input at offset %ld of %u", (long)((uint8_t *)e.addr - I), n); else viol("crash", "encoder: %s", fault_str(&e)); return; }
  if (memcmp(I, in, n)) { viol("source-write", "encoder modified its input"); return; }
  if (e.ret == 0 || e.ret > bound) return;
  memcpy(A_TMP.lo, C, e.ret);
  mprotect(A_CMP.lo, A_CMP.usable, PROT_READ);
  vlevel_set(dl); WHAT("read-only compressed data, decode@%s", vlevel_names[dl]);
  call_t d = call4(c->decomp, C, e.ret, D, n);
  mprotect(A_CMP.lo, A_CMP.usable, PROT_READ | PROT_WRITE);
  ev("decodes-from-read-only", 1);
  if (!d.ok) { if (d.wr && (uint8_t *)d.addr >= A_CMP.base && (uint8_t *)d.addr < A_CMP.base + A_CMP.map) viol("source-write", "decoder wrote to the compressed data at offset %ld of %u", (long)((uint8_t *)d.addr - C), e.ret); else viol("crash", "decoder: %s", fault_str(&d)); return; }
  // the same stream has to be decodable again (at another level)
  int dl2 = rand_level(r); if (!codec_at_level(c, dl2)) dl2 = LV_SSE2;
  vlevel_set(dl2); WHAT("second decode@%s", vlevel_names[dl2]);
  fill_inverse(D, in, n, 128);
  d = call4(c->decomp, C, e.ret, D, n);
  if (!d.ok || d.ret != n || memcmp(D, in, n)) { viol("source-write", "second decode of the same stream failed (returned %u of %u)", d.ret, n); return; }
  if (memcmp(A_TMP.lo, C, e.ret)) { viol("source-write", "decoder modified the compressed data"); return; }
  if (nontrivial(c, C, e.ret)) sample("%s: %u bytes, encoded from and decoded from read-only mappings", c->name, n);
  // nothing but the return value and the first bytes of the output are written when there is nothing to decode into
}

static void case_src_le(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  case_src(c, ci, r, in, n);
  if (c->fam != FAM_LE || n > 9000) return;
  const uint32_t k = 1 + (uint32_t)rng_below(r, n < 20 ? n : 20), bound = rle8m_compress_bounds(k, n);
  uint8_t *I = A_IN.lo + 256, *C = A_CMP.lo + 256, *D = A_OUT.lo + 256;
  memcpy(I, in, n); memset(I + n, 0x3C, 64);
  call_t t = { 0 }; volatile uint32_t cs = 0;
  mprotect(A_IN.lo, A_IN.usable, PROT_READ);
  vlevel_set(rand_level(r)); WHAT("rle8m from read-only input");
  GUARDED(cs = rle8m_compress(k, I, n, C, bound), t);
  mprotect(A_IN.lo, A_IN.usable, PROT_READ | PROT_WRITE);
  if (!t.ok) { viol(t.wr ? "source-write" : "crash", "rle8m_compress: %s", fault_str(&t)); return; }
  if (!cs) return;
  mprotect(A_CMP.lo, A_CMP.usable, PROT_READ);
  vlevel_set(rand_level(r)); WHAT("rle8m from read-only compressed data");
  GUARDED(rle8m_decompress(C, cs, D, n), t);
  mprotect(A_CMP.lo, A_CMP.usable, PROT_READ | PROT_WRITE);
  if (!t.ok) { viol(t.wr ? "source-write" : "crash", "rle8m_decompress: %s", fault_str(&t)); return; }
  ev("rle8m-read-only", 1);
}

// ----------------------------------------------------------------------------------------------------------- truncated / undersized (C13)

static bool untouched(const uint8_t *p, size_t n, uint8_t v) { for (size_t i = 0; i < n; i++) if (p[i] != v) return false; return true; }

static void hdr_check(const vcodec_t *c, codec_fn dec, const uint8_t *C, uint32_t cs, uint32_t n, rng_t *r, const char *nm)
{
  uint8_t *D = A_OUT.lo + 256;
  const uint32_t view = n + 160 < 4096 ? n + 160 : 4096;
  (void)c;
  const int tries = cs < 60 ? 12 : 8;
  for (int t = 0; t < tries; t++)
  {
    uint32_t cut = t == 0 ? cs - 1 : t == 1 ? cs / 2 : t == 2 ? (cs > 8 ? 8 : 1) : t == 3 ? (cs > 9 ? 9 : 1) : t == 4 ? (cs > 12 ? cs - 12 : 1) : t == 5 ? 1 : 1 + (uint32_t)rng_below(r, cs - 1);
    if (cut == 0 || cut >= cs) continue;
    const uint32_t outSize = rng_below(r, 2) ? n : n + (uint32_t)rng_below(r, 1000);
    const uint8_t v = (uint8_t)rng_next(r); memset(D - 64, v, view + 64);
    const int dl = rand_level(r); vlevel_set(dl);
    WHAT("%s truncated stream %u of %u, outSize %u, decode@%s", nm, cut, cs, outSize, vlevel_names[dl]);
    call_t d = call4(dec, C, cut, D, outSize);
    if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
    if (d.ret != 0) { viol("truncated-accepted", "decoder returned %u for a stream cut to %u of %u bytes", d.ret, cut, cs); return; }
    if (!untouched(D - 64, view + 64, v)) { viol("rejected-but-written", "output was modified although the truncated stream was rejected"); return; }
    ev("truncated-rejected", 1);
  }
  for (int t = 0; t < 5; t++)
  {
    uint32_t os = t == 0 ? n - 1 : t == 1 ? 1 : t == 2 ? n / 2 : (uint32_t)rng_below(r, n);
    if (os == 0 || os >= n) continue;
    const uint8_t v = (uint8_t)rng_next(r); memset(D - 64, v, view + 64);
    const int dl = rand_level(r); vlevel_set(dl);
    WHAT("%s output size %u of %u, decode@%s", nm, os, n, vlevel_names[dl]);
    call_t d = call4(dec, C, cs, D, os);
    if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
    if (d.ret != 0) { viol("undersized-accepted", "decoder returned %u although only %u of %u bytes of output were offered", d.ret, os, n); return; }
    if (!untouched(D - 64, view + 64, v)) { viol("rejected-but-written", "output was modified although the output size was rejected"); return; }
    ev("undersized-rejected", 1);
  }
}

static void case_hdr(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  const uint32_t bound = c->bounds(n);
  int el = rand_level(r); if (!codec_at_level(c, el)) el = LV_SSE2;
  uint8_t *I = A_IN.lo + 256, *C = A_CMP.lo + 256 + rng_below(r, 64);
  memcpy(I, in, n); memset(I + n, 0x3C, 64);
  fill(C, bound + 64, 0);
  vlevel_set(el); WHAT("encode@%s", vlevel_names[el]);
  call_t e = call4(c->comp, I, n, C, bound);
  if (!e.ok || e.ret == 0 || e.ret > bound) { viol("encode", "encoder failed (%u)", e.ret); return; }
  if (!nontrivial(c, C, e.ret)) { }
  if (!has_header(c)) // transforms: the size is the size of the data
  {
    if (e.ret != n) { viol("size", "transform returned %u for %u bytes", e.ret, n); return; }
    uint8_t *D = A_OUT.lo + 256;
    for (int t = 0; t < 3; t++)
    {
      uint32_t os = t == 0 ? n - 1 : (uint32_t)rng_below(r, n); if (os == 0 || os >= n) continue;
      const uint8_t v = (uint8_t)rng_next(r); const uint32_t view = n + 128 < 4096 ? n + 128 : 4096; memset(D - 64, v, view + 64);
      int dl = rand_level(r); if (!codec_at_level(c, dl)) dl = LV_SSE2; vlevel_set(dl);
      WHAT("transform, output size %u of %u, decode@%s", os, n, vlevel_names[dl]);
      call_t d = call4(c->decomp, C, n, D, os);
      if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
      if (d.ret != 0) { viol("undersized-accepted", "decoder returned %u although only %u of %u bytes of output were offered", d.ret, os, n); return; }
      if (!untouched(D - 64, view + 64, v)) { viol("rejected-but-written", "output was modified although the output size was rejected"); return; }
      ev("undersized-rejected", 1);
    }
    return;
  }
  // self description: exact sizes are enough and bigger ones don't change anything
  {
    uint8_t *D = A_OUT.lo + 256;
    for (int t = 0; t < 3; t++)
    {
      int dl = rand_level(r); if (!codec_at_level(c, dl)) dl = LV_SSE2; vlevel_set(dl);
      const uint32_t is = t == 0 ? e.ret : t == 1 ? bound : rng_below(r, 2) ? e.ret + (uint32_t)rng_below(r, 3000) : 0xFFFFFFFFu - (uint32_t)rng_below(r, 3), os = t == 0 ? n : t == 1 ? n + (uint32_t)rng_below(r, 5000) : 0xFFFFFFFFu - (uint32_t)rng_below(r, 3);
      fill_inverse(D, in, n, 128);
      WHAT("inSize %u (stream %u), outSize %u (data %u), decode@%s", is, e.ret, os, n, vlevel_names[dl]);
      call_t d = call4(c->decomp, C, is, D, os);
      if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
      if (d.ret != n || memcmp(D, in, n)) { viol("size", "decoder returned %u instead of %u", d.ret, n); return; }
      ev("self-described", 1);
    }
  }
  if (c->fam == FAM_LE)
  {
    volatile uint32_t ds = 0; call_t t = { 0 };
    GUARDED(ds = rle8_low_entropy_decompressed_size(C, e.ret), t);
    if (!t.ok || ds != n) { viol("size", "decompressed_size returned %u instead of %u", ds, n); return; }
    ev("decompressed-size", 1);
  }
  if (!codec_at_level(c, LV_NONE)) { /* level none returns 0 for another reason; still a rejection */ }
  hdr_check(c, c->decomp, C, e.ret, n, r, "");
  sample("%s: stream of %u bytes for %u: every shorter input size and smaller output size is rejected", c->name, e.ret, n);
  if (c->fam == FAM_LE && n < 9000)
  {
    const uint32_t k = 1 + (uint32_t)rng_below(r, n < 30 ? n : 30), b = rle8m_compress_bounds(k, n);
    volatile uint32_t cs = 0; call_t t = { 0 };
    C = A_CMP.lo + 256;
    GUARDED(cs = rle8m_compress(k, I, n, C, b), t);
    if (!t.ok || cs == 0) { viol("encode", "rle8m_compress failed"); return; }
    if (rle8_low_entropy_decompressed_size(C, cs) != n) { viol("size", "decompressed_size of a rle8m stream returned %u instead of %u", rle8_low_entropy_decompressed_size(C, cs), n); return; }
    hdr_check(c, rle8m_decompress, C, cs, n, r, "rle8m");
  }
}

// ----------------------------------------------------------------------------------------------------------- trailing bytes (C14)

static void trail_check(codec_fn dec, const uint8_t *C0, uint32_t cs, uint32_t room, const uint8_t *in, uint32_t n, rng_t *r, bool needsSSE2, const char *nm)
{
  uint8_t *D = A_OUT.lo + 256;
  for (int t = 0; t < 4; t++)
  {
    uint8_t *C = A_TMP.lo + 256 + rng_below(r, 64);
    memcpy(C, C0, cs);
    const uint32_t extra = t == 0 ? 0 : t == 1 ? room - cs : (uint32_t)rng_below(r, 4000);
    const uint32_t tail = (extra > room - cs ? extra : room - cs) + 128;
    const uint64_t kind = rng_below(r, 4);
    if (kind == 0) memset(C + cs, 0, tail); else if (kind == 1) memset(C + cs, 0xFF, tail);
    else if (kind == 2) { for (uint32_t i = 0; i < tail; i++) C[cs + i] = (uint8_t)rng_next(r); }
    else { for (uint32_t i = 0; i < tail; i++) C[cs + i] = C0[8 + i % (cs > 8 ? cs - 8 : 1)]; } // looks like more tokens
    int dl = rand_level(r); if (needsSSE2 && dl == LV_NONE) dl = LV_SSE2; vlevel_set(dl);
    WHAT("%s %u bytes of tail kind %d behind a stream of %u, inSize %u, decode@%s", nm, tail, (int)kind, cs, cs + extra, vlevel_names[dl]);
    fill_inverse(D, in, n, 128);
    uint8_t can[64]; for (int i = 0; i < 64; i++) D[n + 128 + i] = can[i] = (uint8_t)rng_next(r);
    call_t d = call4(dec, C, cs + extra, D, n);
    if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
    if (d.ret != n) { viol("tail-size", "decoder returned %u instead of %u", d.ret, n); return; }
    if (memcmp(D, in, n)) { uint32_t i = 0; while (D[i] == in[i]) i++; viol("tail-mismatch", "first wrong byte at %u of %u", i, n); return; }
    if (memcmp(D + n + 128, can, 64)) { viol("tail-write", "decoder wrote behind the output because of the bytes behind the stream"); return; }
    ev("decodes-with-tail", 1);
  }
}

static void case_trail(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  if (!has_header(c)) return;
  const uint32_t bound = c->bounds(n);
  int el = rand_level(r); if (!codec_at_level(c, el)) el = LV_SSE2;
  uint8_t *I = A_IN.lo + 256, *C = A_CMP.lo + 256;
  memcpy(I, in, n); memset(I + n, 0x3C, 64);
  vlevel_set(el); WHAT("encode@%s", vlevel_names[el]);
  call_t e = call4(c->comp, I, n, C, bound);
  if (!e.ok || e.ret == 0 || e.ret > bound) { viol("encode", "encoder failed (%u)", e.ret); return; }
  if (nontrivial(c, C, e.ret)) sample("%s: stream of %u bytes decoded with 4 different tails", c->name, e.ret);
  trail_check(c->decomp, C, e.ret, bound, in, n, r, !codec_at_level(c, LV_NONE), "");
  if (c->fam == FAM_LE && n < 9000)
  {
    const uint32_t k = 1 + (uint32_t)rng_below(r, n < 30 ? n : 30), b = rle8m_compress_bounds(k, n);
    volatile uint32_t cs = 0; call_t t = { 0 };
    GUARDED(cs = rle8m_compress(k, I, n, C, b), t);
    if (!t.ok || cs == 0) { viol("encode", "rle8m_compress failed"); return; }
    trail_check(rle8m_decompress, C, cs, b, in, n, r, false, "rle8m");
  }
}

// ----------------------------------------------------------------------------------------------------------- argument validation (C06)

static void args_one(const vcodec_t *c, codec_fn f, bool comp, const uint8_t *in, uint32_t n, uint32_t outSize, bool nullIn, bool nullOut, const char *what)
{
  uint8_t *D = A_OUT.lo + 256;
  const uint32_t view = 3000;
  memset(D - 64, 0x6B, view + 64);
  for (int lv = 0; lv < LV_COUNT; lv++)
  {
    if (!vlevel_available(lv)) continue;
    vlevel_set(lv);
    WHAT("%s %s @%s", comp ? c->cname : c->dname, what, vlevel_names[lv]);
    call_t e = call4(f, nullIn ? NULL : in, n, nullOut ? NULL : D, outSize);
    ev("calls", 1);
    if (!e.ok) { viol("crash", "%s: %s", what, fault_str(&e)); return; }
    if (e.ret != 0) { viol("accepted", "%s: returned %u", what, e.ret); return; }
    if (!untouched(D - 64, view + 64, 0x6B)) { viol("rejected-but-written", "%s: output modified although the call was rejected", what); return; }
    ev("rejections", 1);
  }
}

static void mode_args(void)
{
  rng_t r = rng_seed(O.seed, 99);
  for (int ci = O.shard; ci < vcodec_count; ci += O.shards)
  {
    const vcodec_t *c = &vcodecs[ci];
    CUR.codec = ci; CUR.stage = ST_OTHER; CUR.shape = "arguments";
    const uint32_t reps = O.depth ? 400 : 60;
    for (uint32_t k = 0; k < reps && !codec_muted(ci); k++)
    {
      const char *shape; uint32_t n = gen_random(&r, c, RAW, k < 20 ? 40 : 2000, &shape);
      CUR.in = RAW; CUR.n = n; CUR.index = k;
      memcpy(A_IN.lo + 256, RAW, n); memset(A_IN.lo + 256 + n, 0x11, 64);
      const uint8_t *I = A_IN.lo + 256;
      const uint32_t bound = c->bounds(n);
      seen(vhash(RAW, n) + (uint64_t)ci);
      if (k < 3)
      {
        args_one(c, c->comp, true, I, n, bound, true, false, "NULL input");
        args_one(c, c->comp, true, I, n, bound, false, true, "NULL output");
        args_one(c, c->comp, true, I, n, bound, true, true, "NULL input and output");
        args_one(c, c->comp, true, I, 0, bound, false, false, "input of 0 bytes");
        args_one(c, c->comp, true, I, 0, 0, false, false, "input and output of 0 bytes");
        args_one(c, c->comp, true, NULL, 0, 0, true, true, "NULL and 0 everywhere");
        args_one(c, c->decomp, false, I, n, n, true, false, "NULL input");
        args_one(c, c->decomp, false, I, n, n, true, true, "NULL input and output");
        args_one(c, c->decomp, false, I, 0, n, false, false, "input of 0 bytes");
        args_one(c, c->decomp, false, NULL, 0, 0, true, true, "NULL and 0 everywhere");
        args_one(c, c->comp, true, I, n, 0, false, false, "output of 0 bytes");
      }
      // valid stream, bad arguments for the decoder
      vlevel_set(LV_SSE2);
      WHAT("encode@sse2");
      call_t e = call4(c->comp, I, n, A_CMP.lo + 256, bound);
      if (!e.ok || e.ret == 0) { viol("valid-rejected", "valid call returned %u", e.ret); break; }
      if (k < 10)
      {
        args_one(c, c->decomp, false, A_CMP.lo + 256, e.ret, n, false, true, "NULL output with a valid stream");
        args_one(c, c->decomp, false, A_CMP.lo + 256, e.ret, 0, false, false, "output of 0 bytes with a valid stream");
        args_one(c, c->decomp, false, A_CMP.lo + 256, 0, n, false, false, "0 bytes of a valid stream");
      }
      // decoder: every output smaller than the data, every stream shorter than its stored size
      {
        const uint32_t cs = e.ret;
        uint32_t ds[5] = { n - 1, n / 2, 1, (uint32_t)rng_below(&r, n), n > 16 ? n - 1 - (uint32_t)rng_below(&r, 16) : 0 };
        for (int t = 0; t < 5; t++) if (ds[t] > 0 && ds[t] < n) { char w[80]; snprintf(w, sizeof(w), "output of %u bytes for a stream of %u", ds[t], n); args_one(c, c->decomp, false, A_CMP.lo + 256, cs, ds[t], false, false, w); ev("undersized-decodes", 1); }
        uint32_t ss[5] = { cs - 1, cs / 2, 1, (uint32_t)rng_below(&r, cs), cs > 16 ? cs - 1 - (uint32_t)rng_below(&r, 16) : 0 };
        if (has_header(c)) for (int t = 0; t < 5; t++) if (ss[t] > 0 && ss[t] < cs) { char w[80]; snprintf(w, sizeof(w), "%u bytes of a stream of %u", ss[t], cs); args_one(c, c->decomp, false, A_CMP.lo + 256, ss[t], n, false, false, w); ev("truncated-decodes", 1); }
      }
      // encoder: every output size below the bound (below the data size for the transforms)
      const uint32_t need = has_header(c) ? bound : n;
      uint32_t os[6] = { need - 1, need / 2, 1, e.ret < need ? e.ret : need - 1, (uint32_t)rng_below(&r, need), n < need ? n : need - 1 };
      for (int t = 0; t < 6; t++) if (os[t] < need) { char w[80]; snprintf(w, sizeof(w), "output of %u bytes for %u (needs %u)", os[t], n, need); args_one(c, c->comp, true, I, n, os[t], false, false, w); }
      // exactly the bound and more is accepted
      for (int t = 0; t < 2; t++)
      {
        int lv = rand_level(&r); if (!codec_at_level(c, lv)) lv = LV_SSE2; vlevel_set(lv);
        const uint32_t sz = t ? bound + (uint32_t)rng_below(&r, 100000) : bound;
        WHAT("encode@%s with output size %u (bounds %u)", vlevel_names[lv], sz, bound);
        e = call4(c->comp, I, n, A_CMP.lo + 256, sz);
        if (!e.ok) { viol("crash", "encoder: %s", fault_str(&e)); break; }
        if (e.ret == 0) { viol("valid-rejected", "rejected an output of %u bytes for %u bytes of input (bounds %u)", sz, n, bound); break; }
        ev("accepted", 1);
      }
    }
    // sizes that aren't supported: bounds of 0 means that the encoder has to refuse.
    {
      const uint64_t tops[] = { (1ull << 30) + 1, (1ull << 30) + 4096, 1ull << 31, (1ull << 31) + 1, 3ull << 30, 0xFFFFFFFFull, 0xFFFFFFF0ull, 0xFFFFFF00ull, 0xFFFFFE00ull, 0xFFFFF000ull };
      for (unsigned t = 0; t < sizeof(tops) / sizeof(tops[0]); t++)
      {
        const uint32_t n = (uint32_t)tops[t];
        CUR.in = NULL; CUR.n = n;
        WHAT("bounds(%u)", n);
        const uint32_t b = c->bounds(n);
        ev("huge-bounds", 1);
        if (b != 0 && b < n) { viol("bounds-wrap", "bounds(%u) = %u", n, b); break; }
        if (b == 0)
        {
          memcpy(A_IN.lo + 256, RAW, 64);
          char w[80]; snprintf(w, sizeof(w), "unsupported size %u", n);
          args_one(c, c->comp, true, A_IN.lo + 256, n, 1000, false, false, w);
          args_one(c, c->comp, true, A_IN.lo + 256, n, 0xFFFFFFFFu, false, false, w);
          ev("unsupported-size-rejected", 1);
        }
      }
    }
  }
  // the functions with other signatures
  if (O.shard == 0)
  {
    CUR.codec = -1; CUR.in = NULL; CUR.n = 0; CUR.shape = "arguments";
    uint8_t *I = A_IN.lo + 256, *D = A_OUT.lo + 256; uint32_t v;
    for (int i = 0; i < 500; i++) I[i] = (uint8_t)(i / 7);
    static rle8_low_entropy_compress_info_t ci; static rle8_low_entropy_decompress_info_t di;
    rle8_low_entropy_get_compress_info(I, 500, &ci);
    uint8_t hb[400]; uint32_t hs = rle8_low_entropy_write_compress_info(&ci, hb, 400); rle8_low_entropy_read_decompress_info(hb, hs, &di);
    memset(D - 64, 0x6B, 3000);
    const uint32_t b = rle8m_compress_bounds(4, 500);
#define REJ(expr) do { call_t t = { 0 }; v = 1; WHAT("%s", #expr); volatile uint32_t vv = 1; GUARDED(vv = (uint32_t)(expr), t); v = vv; ev("calls", 1); if (!t.ok) viol("crash", "%s", fault_str(&t)); else if (v != 0) viol("accepted", "returned %u", v); else if (!untouched(D - 64, 3000, 0x6B)) viol("rejected-but-written", "output modified although the call was rejected"); else ev("rejections", 1); } while (0)
    for (int lv = 0; lv < LV_COUNT; lv++)
    {
      if (!vlevel_available(lv)) continue;
      vlevel_set(lv);
      REJ(rle8m_compress(0, I, 500, D, b));
      REJ(rle8m_compress(4, NULL, 500, D, b)); REJ(rle8m_compress(4, I, 0, D, b)); REJ(rle8m_compress(4, I, 500, NULL, b)); REJ(rle8m_compress(4, I, 500, D, b - 1)); REJ(rle8m_compress(4, I, 500, D, 0));
      { uint8_t *S = A_CMP.lo + 256; const uint32_t ms = rle8m_compress(4, I, 500, S, b); if (!ms) viol("valid-rejected", "rle8m_compress failed"); const uint32_t cut[] = { 1, 8, 12, ms / 2, ms - 13, ms - 1 }, os[] = { 1, 124, 125, 250, 375, 484, 499 }; for (int q = 0; q < 6; q++) REJ(rle8m_decompress(S, cut[q], D, 500)); for (int q = 0; q < 7; q++) REJ(rle8m_decompress(S, ms, D, os[q])); }
      REJ(rle8m_decompress(NULL, 500, D, 500)); REJ(rle8m_decompress(I, 0, D, 500)); REJ(rle8m_decompress(I, 500, NULL, 500)); REJ(rle8m_decompress(I, 500, D, 0));
      REJ(rle8_low_entropy_get_compress_info(NULL, 500, &ci)); REJ(rle8_low_entropy_get_compress_info(I, 0, &ci)); REJ(rle8_low_entropy_get_compress_info(I, 500, NULL));
      REJ(rle8_low_entropy_get_compress_info_only_max_frequency(NULL, 500, &ci)); REJ(rle8_low_entropy_get_compress_info_only_max_frequency(I, 0, &ci)); REJ(rle8_low_entropy_get_compress_info_only_max_frequency(I, 500, NULL));
      REJ(rle8_low_entropy_write_compress_info(NULL, D, 400)); REJ(rle8_low_entropy_write_compress_info(&ci, NULL, 400)); REJ(rle8_low_entropy_write_compress_info(&ci, D, 16));
      REJ(rle8_low_entropy_compress_with_info(NULL, 500, &ci, D, 1000)); REJ(rle8_low_entropy_compress_with_info(I, 0, &ci, D, 1000)); REJ(rle8_low_entropy_compress_with_info(I, 500, NULL, D, 1000)); REJ(rle8_low_entropy_compress_with_info(I, 500, &ci, NULL, 1000)); REJ(rle8_low_entropy_compress_with_info(I, 500, &ci, D, 0));
      REJ(rle8_low_entropy_short_compress_with_info(NULL, 500, &ci, D, 1000)); REJ(rle8_low_entropy_short_compress_with_info(I, 0, &ci, D, 1000)); REJ(rle8_low_entropy_short_compress_with_info(I, 500, NULL, D, 1000)); REJ(rle8_low_entropy_short_compress_with_info(I, 500, &ci, NULL, 1000)); REJ(rle8_low_entropy_short_compress_with_info(I, 500, &ci, D, 0));
      REJ(rle8_low_entropy_read_decompress_info(NULL, 400, &di)); REJ(rle8_low_entropy_read_decompress_info(hb, 0, &di)); REJ(rle8_low_entropy_read_decompress_info(hb, 400, NULL));
      REJ(rle8_low_entropy_decompressed_size(NULL, 500)); REJ(rle8_low_entropy_decompressed_size(I, 0)); REJ(rle8_low_entropy_decompressed_size(I, 7));
    }
  }
}

// ----------------------------------------------------------------------------------------------------------- bounds (C05)
// Adversarial: hill climbing towards the largest expansion, per codec, in a buffer of exactly `bounds` bytes that ends at an unmapped page.

static int64_t bound_try(const vcodec_t *c, const uint8_t *in, uint32_t n, int lv)
{
  const uint32_t bound = c->bounds(n);
  CUR.in = in; CUR.n = n;
  WHAT("encode@%s", vlevel_names[lv]);
  if (bound < n) { viol("bounds-value", "bounds(%u) = %u", n, bound); return INT64_MIN; }
  uint8_t *C = A_CMP.hi - bound, can[64];
  for (int i = 0; i < 64; i++) C[i - 64] = can[i] = (uint8_t)(i * 37 + 11);
  vlevel_set(lv);
  call_t e = call4(c->comp, in, n, C, bound);
  ev("encodes", 1);
  if (!e.ok) { viol("bounds-overflow", "encoder with a buffer of bounds(%u) = %u bytes: %s", n, bound, fault_str(&e)); return INT64_MIN; }
  if (e.ret == 0) { viol("bounds-failed", "encoder failed although the buffer has bounds(%u) = %u bytes", n, bound); return INT64_MIN; }
  if (e.ret > bound) { viol("bounds-exceeded", "compressed size %u of %u bytes exceeds the bounds of %u", e.ret, n, bound); return INT64_MIN; }
  if (memcmp(C - 64, can, 64)) { viol("bounds-overflow", "encoder wrote in front of the buffer"); return INT64_MIN; }
  seen(vhash(C, e.ret) + (uint64_t)CUR.codec);
  return (int64_t)e.ret - (int64_t)n;
}

static void case_bounds(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  int lv = rand_level(r); if (!codec_at_level(c, lv)) lv = LV_SSE2;
  uint8_t *I = A_IN.lo + 256;
  memcpy(I, in, n); memset(I + n, (int)rng_next(r) & 0xFF, 64);
  bound_try(c, I, n, lv);
}

static int64_t maxSlackUsed[512];
static void mode_bounds(void)
{
  eng_cases(case_bounds, 2, 4);
  if (O.only_stage >= 0) return;
  const int restarts = O.depth ? 60 : 6, steps = O.depth ? 3000 : 700;
  for (int ci = 0; ci < vcodec_count; ci++)
  {
    const vcodec_t *c = &vcodecs[ci];
    const int w = c->width > 16 ? 16 : c->width;
    maxSlackUsed[ci] = INT64_MIN;
    // exhaustive over sizes: incompressible and constant data of every size
    for (uint32_t n = 1 + (uint32_t)O.shard; n < (O.depth ? 6000u : 1500u) && !codec_muted(ci); n += (uint32_t)O.shards)
    {
      rng_t r = rng_seed(O.seed * 31 + (uint64_t)ci, n);
      CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = n; CUR.shape = "size-sweep";
      uint8_t *I = A_IN.lo + 256;
      int lv = rand_level(&r); if (!codec_at_level(c, lv)) lv = LV_SSE2;
      for (uint32_t i = 0; i < n + 64; i += 8) { uint64_t v = rng_next(&r); memcpy(I + i, &v, 8); }
      bound_try(c, I, n, lv);
      memset(I, (int)(rng_next(&r) & 0xFF), n); bound_try(c, I, n, lv);
      for (uint32_t i = 0; i < n; i++) I[i] = (uint8_t)((i / 2) * 7); // pairs
      bound_try(c, I, n, lv);
      for (uint32_t i = 0; i < n; i++) I[i] = (uint8_t)((i / 3) * 5);
      bound_try(c, I, n, lv);
    }
    for (int rs = O.shard; rs < restarts * O.shards && !codec_muted(ci) && !eng_deadline(); rs += O.shards)
    {
      rng_t r = rng_seed(O.seed * 77 + (uint64_t)ci, (uint64_t)rs);
      CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = (uint64_t)rs; CUR.shape = "hill-climb";
      uint8_t *I = A_IN.lo + 256;
      const uint32_t n = rng_below(&r, 3) ? (uint32_t)rng_in(&r, 40, 400) : (uint32_t)rng_in(&r, 400, 2500);
      int lv = rand_level(&r); if (!codec_at_level(c, lv)) lv = LV_SSE2;
      const char *shape;
      memset(I, 0, n + 64);
      // start: minimal runs everywhere
      const uint32_t run = (uint32_t)rng_in(&r, 2, 8) * (uint32_t)w + (uint32_t)rng_below(&r, (uint64_t)w + 3), lit = (uint32_t)rng_below(&r, 4) * (uint32_t)w + (uint32_t)rng_below(&r, 3);
      if (rng_below(&r, 5) == 0) gen_random(&r, c, I, n, &shape);
      else for (uint32_t i = 0; i < n;) { uint8_t s[16]; gen_symbol(&r, w, s); for (uint32_t j = 0; j < run && i < n; j++) I[i++] = s[j % (uint32_t)w]; for (uint32_t j = 0; j < lit && i < n; j++) I[i++] = (uint8_t)rng_next(&r); }
      int64_t best = bound_try(c, I, n, lv);
      if (best == INT64_MIN) break;
      static uint8_t save[4096];
      for (int s = 0; s < steps && !codec_muted(ci); s++)
      {
        memcpy(save, I, n);
        const uint32_t at = (uint32_t)rng_below(&r, n);
        switch (rng_below(&r, 5))
        {
        case 0: I[at] = (uint8_t)rng_next(&r); break;
        case 1: { uint32_t l = (uint32_t)rng_in(&r, 1, 4 * (uint64_t)w + 6); for (uint32_t j = 0; j < l && at + j < n; j++) I[at + j] = at + j >= (uint32_t)w ? I[at + j - (uint32_t)w] : I[0]; break; }
        case 2: { uint8_t sy[16]; gen_symbol(&r, w, sy); uint32_t l = (uint32_t)rng_in(&r, 1, 6) * (uint32_t)w; for (uint32_t j = 0; j < l && at + j < n; j++) I[at + j] = sy[j % (uint32_t)w]; break; }
        case 3: { uint32_t l = (uint32_t)rng_in(&r, 1, 40), from = (uint32_t)rng_below(&r, n); for (uint32_t j = 0; j < l && at + j < n && from + j < n; j++) I[at + j] = save[from + j]; break; }
        default: { uint32_t l = (uint32_t)rng_in(&r, 1, 12); for (uint32_t j = 0; j < l && at + j < n; j++) I[at + j] = (uint8_t)rng_next(&r); break; }
        }
        const int64_t v = bound_try(c, I, n, lv);
        if (v == INT64_MIN) break;
        if (v >= best) best = v; else memcpy(I, save, n);
      }
      if (best > maxSlackUsed[ci]) maxSlackUsed[ci] = best;
      ev("hill-climbs", 1);
    }
    // rle8m
    if (c->fam == FAM_LE)
      for (uint32_t k = (uint32_t)O.shard; k < (O.depth ? 20000u : 3000u) && !codec_muted(ci); k += (uint32_t)O.shards)
      {
        rng_t r = rng_seed(O.seed * 91 + (uint64_t)ci, k); const char *shape;
        uint8_t *I = A_IN.lo + 256; uint32_t n = gen_random(&r, c, I, 1500, &shape);
        if (rng_below(&r, 2)) { for (uint32_t i = 0; i < n; i++) I[i] = (uint8_t)(i / (2 + k % 5)); }
        uint32_t ss = rng_below(&r, 2) ? 1 + (uint32_t)rng_below(&r, n) : (n > 2 ? n / 2 : 1); if (ss > n) ss = n;
        const uint32_t b = rle8m_compress_bounds(ss, n); uint8_t *C = A_CMP.hi - b;
        CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = k; CUR.shape = "rle8m"; CUR.in = I; CUR.n = n; WHAT("rle8m %u sections", ss);
        if (b < n) { viol("bounds-value", "rle8m bounds %u for %u", b, n); break; }
        int lv = rand_level(&r); vlevel_set(lv);
        call_t t = { 0 }; volatile uint32_t cs = 0;
        GUARDED(cs = rle8m_compress(ss, I, n, C, b), t);
        ev("encodes-rle8m", 1);
        if (!t.ok) { viol("bounds-overflow", "rle8m_compress with %u sections: %s", ss, fault_str(&t)); break; }
        if (cs == 0 || cs > b) { viol("bounds-failed", "rle8m_compress with %u sections returned %u (bounds %u, input %u)", ss, cs, b, n); break; }
      }
    if (O.shard == 0 && maxSlackUsed[ci] != INT64_MIN) { char nm[160]; snprintf(nm, sizeof(nm), "expansion:%s", c->name); for (char *p = nm; *p; p++) if (*p == ' ') *p = '_'; ev(strdup(nm), (uint64_t)(maxSlackUsed[ci] < 0 ? 0 : maxSlackUsed[ci])); }
  }
  // the bounds functions over the size range
  for (int ci = O.shard; ci < vcodec_count; ci += O.shards)
  {
    const vcodec_t *c = &vcodecs[ci]; CUR.codec = ci; CUR.in = NULL; CUR.shape = "bounds";
    rng_t r = rng_seed(O.seed, 4242);
    for (int k = 0; k < 20000; k++)
    {
      const uint64_t n = k < 31 ? 1ull << k : k < 62 ? (1ull << (k - 31)) - 1 : k < 93 ? (1ull << (k - 62)) + 1 : rng_next(&r) >> (32 + rng_below(&r, 20));
      if (n == 0 || n > (1ull << 30)) continue;
      const uint32_t b = c->bounds((uint32_t)n); CUR.n = (uint32_t)n;
      ev("bounds-values", 1);
      if (b < n) { viol("bounds-value", "bounds(%llu) = %u", (unsigned long long)n, b); break; }
    }
  }
}

// Sequences of tokens, repeated: a literal of L bytes and a run of R bytes, whose symbol is new every time or comes from a pool. What one more repetition adds to the compressed
// size, beyond its own size, must fit into what it adds to the bounds. If the small samples say that it doesn't, the codec gets an input that is long enough to prove it.
typedef struct { uint32_t L[3], R[3]; int tokens, pool; } prog_t;
static size_t prog_emit(const prog_t *p, uint32_t reps, uint64_t seed, int w, uint8_t *dst, size_t cap)
{
  rng_t r = rng_seed(seed, 77); uint8_t pool[9][16], sym[32]; size_t o = 0; uint32_t k = 0;
  for (int i = 0; i < 9; i++) { gen_symbol(&r, w, sym); memcpy(pool[i], sym, 16); }
  for (uint32_t q = 0; q < reps; q++)
    for (int t = 0; t < p->tokens; t++, k++)
    {
      if (o + p->L[t] + p->R[t] > cap) return o;
      uint8_t *s = pool[p->pool ? k % (uint32_t)p->pool : 8]; if (!p->pool) { gen_symbol(&r, w, sym); memcpy(s, sym, 16); if (o && s[0] == dst[o - 1]) s[0] ^= 0x55; }
      for (uint32_t i = 0; i < p->L[t]; i++, o++) { uint8_t b; do b = (uint8_t)rng_next(&r); while ((o && dst[o - 1] == b) || (o >= (size_t)w && dst[o - w] == b) || (i + 1 == p->L[t] && b == s[w - 1])); dst[o] = b; }
      for (uint32_t i = 0; i < p->R[t]; i++) dst[o++] = s[i % (uint32_t)w];
    }
  return o;
}
static double RATE; static prog_t RATE_P; static uint64_t RATE_SEED; static int RATE_LV; // the largest expansion per byte observed
static double prog_excess(const vcodec_t *c, const prog_t *p, uint64_t seed, int w, int lv, uint32_t reps, uint64_t *tile)
{
  uint8_t *I = A_IN.lo + 256; int64_t x[2], out[2]; size_t len[2];
  vlevel_set(lv);
  for (int k = 0; k < 2; k++)
  {
    len[k] = prog_emit(p, reps << k, seed, w, I, GEN_MAX - 4096); const uint32_t bound = c->bounds((uint32_t)len[k]); CUR.in = I; CUR.n = (uint32_t)len[k];
    call_t e = call4(c->comp, I, (uint32_t)len[k], A_CMP.lo, bound); ev("encodes", 1);
    if (!e.ok) { viol("bounds-overflow", "encoder: %s", fault_str(&e)); return -1e9; }
    x[k] = (int64_t)e.ret - (int64_t)bound; out[k] = e.ret;
  }
  if (len[1] > len[0]) { const double rate = (double)(out[1] - out[0]) / (double)(len[1] - len[0]) - 1; if (rate > RATE) { RATE = rate; RATE_P = *p; RATE_SEED = seed; RATE_LV = lv; } }
  *tile = (len[1] - len[0]) / reps;
  return (double)(x[1] - x[0]) / reps;
}
static void prog_prove(const vcodec_t *c, const prog_t *p, uint64_t seed, int w, int lv, double excess, uint64_t tile, double missing)
{
  const double need = missing / excess + 50; const size_t n0 = (size_t)(need * (double)tile) + 4096; ev("token-programs-proved", 1);
  if (n0 > (256u << 20)) { ev("token-programs-too-long", 1); return; }
  arena_t a, b; arena_make(&a, n0 + 4096); const size_t n = prog_emit(p, (uint32_t)need, seed, w, a.lo, n0); const uint32_t bound = c->bounds((uint32_t)n); arena_make(&b, (size_t)bound + 65536);
  vlevel_set(lv); CUR.in = n < (16u << 20) ? a.lo : NULL; CUR.n = (uint32_t)n;
  call_t e = call4(c->comp, a.lo, (uint32_t)n, b.hi - bound, bound);
  if (!e.ok) viol("bounds-overflow", "encoder with a buffer of bounds(%u) = %u bytes: signal %d, %ld bytes behind the buffer", (uint32_t)n, bound, e.sig, (long)((uint8_t *)e.addr - b.hi));
  else if (!e.ret) viol("bounds-failed", "encoder failed although the buffer has bounds(%u) = %u bytes", (uint32_t)n, bound);
  else if (e.ret > bound) viol("bounds-exceeded", "compressed size %u of %u bytes exceeds the bounds of %u", e.ret, (uint32_t)n, bound);
  else if (O.extra) printf("U %s | %s | excess %.3f need %.0f n %zu: %lld\n", c->name, CUR.what, excess, need, n, (long long)e.ret - (long long)bound);
  CUR.in = NULL; arena_free(&a); arena_free(&b);
}
// Sizes at which the bounds function leaves less room than the expansion observed on small inputs needs (or than it leaves for small inputs): the codec gets an input of just that size.
static void prove_at(const vcodec_t *c, int ci, bool noise, uint32_t n, int w)
{
  ev("large-sizes-proved", 1); const int lv = noise ? LV_SSE2 : RATE_LV;
  arena_t a, b; const uint32_t bound = c->bounds(n); arena_make(&a, (size_t)n + 4096); arena_make(&b, (size_t)bound + 65536); size_t m = 0; rng_t r = rng_seed(O.seed, 4711);
  if (!noise) m = prog_emit(&RATE_P, UINT32_MAX, RATE_SEED, w, a.lo, n);
  for (; m < n; m++) a.lo[m] = (uint8_t)rng_next(&r);
  vlevel_set(lv); CUR.codec = ci; CUR.stage = ST_OTHER; CUR.shape = noise ? "noise" : "token-programs"; CUR.in = n < (16u << 20) ? a.lo : NULL; CUR.n = n; WHAT("a size with small bounds, encode@%s", vlevel_names[lv]);
  call_t e = call4(c->comp, a.lo, n, b.hi - bound, bound);
  if (!e.ok && !e.hang) viol("bounds-overflow", "encoder with a buffer of bounds(%u) = %u bytes: signal %d, %ld bytes behind the buffer", n, bound, e.sig, (long)((uint8_t *)e.addr - b.hi));
  else if (e.ok && !e.ret) viol("bounds-failed", "encoder failed although the buffer has bounds(%u) = %u bytes", n, bound);
  else if (e.ok && e.ret > bound) viol("bounds-exceeded", "compressed size %u of %u bytes exceeds the bounds of %u", e.ret, n, bound);
  CUR.in = NULL; arena_free(&a); arena_free(&b);
}
static void large_sizes(const vcodec_t *c, int ci, int w)
{
  rng_t r = rng_seed(O.seed * 5 + 1, (uint64_t)ci); double worst[2] = { 0, 0 }; uint32_t at[2] = { 0, 0 }; const double small = (double)c->bounds(1000) - 1000;
  for (int k = 0; k < 40000; k++)
  {
    const uint64_t n = k < 20 ? 1ull << (k + 11) : k < 40 ? (1ull << (k - 20 + 11)) - 1 : k < 60 ? (1ull << (k - 40 + 11)) + 1 : rng_next(&r) >> (34 + rng_below(&r, 20));
    if (n < 2000 || n > (1u << 30)) continue;
    const uint32_t b = c->bounds((uint32_t)n); if (!b) continue; ev("bounds-compared-with-expansion", 1);
    const double room[2] = { (double)b - (double)n - RATE * (double)n, (double)b - (double)n - small };
    for (int q = 0; q < 2; q++) { if (q == 0 && (RATE <= 1e-5 || room[0] > -200)) continue; if (room[q] < worst[q] || (room[q] < 0 && n < (24u << 20) && at[q] > (24u << 20))) { if (!(at[q] && at[q] < (24u << 20) && n > (24u << 20))) worst[q] = room[q], at[q] = (uint32_t)n; } }
  }
  for (int q = 0; q < 2; q++) if (at[q] && !codec_muted(ci)) prove_at(c, ci, q == 1, at[q], w);
}
static void prog_one(const vcodec_t *c, int ci, const prog_t *p, uint64_t seed, int w, int lv, double *best)
{
  uint64_t tile; uint32_t sum = 0; for (int t = 0; t < p->tokens; t++) sum += p->L[t] + p->R[t];
  if (!sum) return;
  uint32_t reps = sum > 60000 ? 2 : sum > 20000 ? 4 : sum > 2000 ? 8 : 24;
  CUR.codec = ci; CUR.stage = ST_OTHER; CUR.shape = "token-programs";
  WHAT("repeated: %u literal bytes, a run of %u bytes%s; symbols from a pool of %d; encode@%s", p->L[0], p->R[0], p->tokens > 1 ? ", ..." : "", p->pool, vlevel_names[lv]);
  double x = prog_excess(c, p, seed, w, lv, reps, &tile); ev("token-programs", 1);
  if (x > *best) *best = x;
  if (x > 0) { x = prog_excess(c, p, seed + 1, w, lv, reps * 2, &tile); if (x > 0 && O.extra) printf("R %.7f %s | %s\n", x / (double)tile, c->name, CUR.what); if (x > 0) prog_prove(c, p, seed, w, lv, x, tile, (double)c->bounds(1000) + 4096); }
}
static void mode_tokens(void)
{
  static const uint32_t LS[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 17, 18, 24, 29, 30, 31, 32, 33, 34, 48, 60, 61, 62, 63, 64, 65, 66, 67, 70, 96, 124, 125, 126, 127, 128, 129, 130, 131, 140, 200, 252, 253, 254, 255, 256, 257, 258, 260, 270, 300, 400, 508, 510, 511, 512, 513, 516, 600, 1020, 1023, 1024, 1026, 1100, 2040, 2046, 2047, 2048, 2049, 2052, 2100, 4090, 4095, 4096, 4100, 4500, 8180, 8190, 8192, 8200, 16380, 16384, 16390, 32760, 32768, 32780, 65530, 65536, 65550 };
  for (int ci = 0; ci < vcodec_count; ci++)
  {
    const vcodec_t *c = &vcodecs[ci]; if (c->fam == FAM_TRANS || !fam_selected(c) || (O.only_codec >= 0 && O.only_codec != ci)) continue;
    const int w = c->width > 16 ? 16 : c->width ? c->width : 1; double best = -1e9; uint64_t idx = 0;
    for (unsigned li = 0; li < sizeof(LS) / sizeof(LS[0]); li++)
      for (uint32_t R = (uint32_t)w; R <= (uint32_t)(w * 2 + 20 > w * 5 ? w * 2 + 20 : w * 5); R += (c->flags & CF_SYM) ? (uint32_t)w : 1)
        for (int pool = 0; pool < 10; pool += pool < 4 ? 1 : 5, idx++)
        {
          if ((idx * 0x9E3779B97F4A7C15ULL >> 40) % (uint64_t)O.shards != (uint64_t)O.shard) continue;
          if (codec_muted(ci) || eng_deadline()) continue;
          rng_t r = rng_seed(O.seed * 991 + (uint64_t)ci, idx); if (LS[li] > 3000 && !O.depth && rng_below(&r, 8)) continue;
          int lv = rand_level(&r); if (!codec_at_level(c, lv)) lv = LV_SSE2; CUR.index = idx;
          prog_t p = { { LS[li] }, { R }, 1, pool }; if ((c->flags & CF_SYM) && p.L[0] % (uint32_t)w) p.L[0] -= p.L[0] % (uint32_t)w;
          prog_one(c, ci, &p, idx, w, lv, &best);
        }
    for (uint64_t k = 0; k < O.count; k++)
    { // random programs of up to three tokens, with hill climbing
      if ((int)(k % (uint64_t)O.shards) != O.shard) continue;
      if (codec_muted(ci) || eng_deadline()) continue;
      rng_t r = rng_seed(O.seed * 993 + (uint64_t)ci, k); int lv = rand_level(&r); if (!codec_at_level(c, lv)) lv = LV_SSE2; prog_t p; p.tokens = 1 + (int)rng_below(&r, 3); p.pool = (int)rng_below(&r, 10); double cur = -1e9;
      for (int t = 0; t < 3; t++) { p.L[t] = LS[rng_below(&r, 75)]; p.R[t] = 1 + (uint32_t)rng_below(&r, (uint64_t)w * 4 + 16); }
      for (int step = 0; step < 40; step++)
      {
        prog_t q = p; const int t = (int)rng_below(&r, (uint64_t)p.tokens); CUR.index = k; CUR.codec = ci; CUR.stage = ST_OTHER; CUR.shape = "token-programs";
        if (step) switch (rng_below(&r, 6)) { case 0: q.L[t] = LS[rng_below(&r, 75)]; break; case 1: q.R[t] = 1 + (uint32_t)rng_below(&r, (uint64_t)w * 4 + 16); break; case 2: q.L[t] += 1 + (uint32_t)rng_below(&r, 2); break; case 3: if (q.L[t]) q.L[t]--; break; case 4: q.R[t]++; break; default: if (q.R[t] > 1) q.R[t]--; }
        if (c->flags & CF_SYM) { q.L[t] -= q.L[t] % (uint32_t)w; q.R[t] -= q.R[t] % (uint32_t)w; if (!q.R[t]) q.R[t] = (uint32_t)w; }
        double b = -1e9; prog_one(c, ci, &q, k * 64 + (uint64_t)step, w, lv, &b); if (codec_muted(ci)) break;
        if (b >= cur) { cur = b; p = q; } if (b > best) best = b;
      }
    }
    if (O.only_codec < 0 && !codec_muted(ci)) large_sizes(c, ci, w);
    if (O.extra) printf("BEST %s %.3f rate %.6f\n", c->name, best, RATE);
    RATE = 0;
  }
}

// ----------------------------------------------------------------------------------------------------------- determinism (C11)

static __attribute__((noinline)) void poison_stack(uint8_t v)
{
  uint8_t junk[24 << 10];
  memset(junk, v, sizeof(junk));
  if (v & 1) for (size_t i = 0; i < sizeof(junk); i += 61) junk[i] = (uint8_t)(v + i);
  __asm__ volatile("" :: "r"(junk) : "memory");
#if defined(__x86_64__)
  uint64_t q = v * 0x0101010101010101ULL;
  __asm__ volatile("movq %0, %%xmm0\n\tpunpcklqdq %%xmm0, %%xmm0\n\tmovdqa %%xmm0,%%xmm1\n\tmovdqa %%xmm0,%%xmm2\n\tmovdqa %%xmm0,%%xmm3\n\tmovdqa %%xmm0,%%xmm4\n\tmovdqa %%xmm0,%%xmm5\n\tmovdqa %%xmm0,%%xmm6\n\tmovdqa %%xmm0,%%xmm7\n\tmovdqa %%xmm0,%%xmm8\n\tmovdqa %%xmm0,%%xmm9\n\tmovdqa %%xmm0,%%xmm10\n\tmovdqa %%xmm0,%%xmm11\n\tmovdqa %%xmm0,%%xmm12\n\tmovdqa %%xmm0,%%xmm13\n\tmovdqa %%xmm0,%%xmm14\n\tmovdqa %%xmm0,%%xmm15" :: "r"(q) : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
#endif
}

static void case_det(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  const uint32_t bound = c->bounds(n);
  int lv = rand_level(r); if (!codec_at_level(c, lv)) lv = LV_SSE2;
  static uint8_t ref[GEN_MAX + 65536];
  uint32_t refN = 0;
  for (int t = 0; t < 3; t++)
  {
    // other calls in between must not matter: history
    if (t)
      for (uint64_t k = rng_below(r, 3); k; k--)
      {
        const vcodec_t *o = &vcodecs[rng_below(r, (uint64_t)vcodec_count)]; const char *sh;
        const int ol = rand_level(r); vlevel_set(ol);
        uint32_t on = gen_random(r, o, A_TMP.lo + 256, 1500, &sh);
        WHAT("history: %s@%s", o->name, vlevel_names[ol]);
        call_t e = call4(o->comp, A_TMP.lo + 256, on, A_OUT.lo + 256, o->bounds(on));
        if (e.ok && e.ret && rng_below(r, 2)) call4(o->decomp, A_OUT.lo + 256, e.ret, A_TMP.lo + 8192, on);
        ev("history-calls", 1);
      }
    uint8_t *I = spot(&A_IN, r, n), *C = spot(&A_CMP, r, n);
    memcpy(I, in, n);
    if (t == 2) for (uint32_t i = 0; i < 80; i++) I[n + i] = I[n + i - (n >= (uint32_t)c->width ? (uint32_t)c->width : 1)]; // bytes behind the input look like its continuation
    else for (uint32_t i = 0; i < 80; i++) I[n + i] = (uint8_t)rng_next(r);
    for (uint32_t i = 0; i < 32; i++) I[(int)i - 32] = t == 1 ? in[0] : (uint8_t)rng_next(r);
    const uint64_t g = rng_next(r);
    if (t == 0) memset(C, 0, bound + 64); else for (uint32_t i = 0; i < bound + 64; i += 8) memcpy(C + i, &g, 8);
    vlevel_set(lv);
    WHAT("encode@%s, variation %d", vlevel_names[lv], t);
    poison_stack((uint8_t)rng_next(r));
    const uint64_t room = (uint64_t)(A_CMP.hi - C) - bound; // a larger buffer than necessary doesn't matter
    call_t e = call4(c->comp, I, n, C, bound + (t == 1 ? (uint32_t)rng_below(r, rng_below(r, 2) ? 100 : room < 300000 ? room : 300000) : 0));
    if (!e.ok) { viol("crash", "encoder: %s", fault_str(&e)); return; }
    ev("encodes", 1);
    if (t == 0) { refN = e.ret; memcpy(ref, C, refN); if (nontrivial(c, C, e.ret)) sample("%s: %u bytes encoded 3 times under different surroundings to the same %u bytes", c->name, n, refN); }
    else if (e.ret != refN) { viol("size-differs", "encoding the same %u bytes again gave %u instead of %u bytes", n, e.ret, refN); return; }
    else if (memcmp(ref, C, refN)) { uint32_t i = 0; while (ref[i] == C[i]) i++; viol("stream-differs", "encoding the same %u bytes again gave a different stream (byte %u of %u: 0x%02X / 0x%02X)", n, i, refN, ref[i], C[i]); return; }
  }
  if (refN == 0) return;
  int dl = rand_level(r); if (!codec_at_level(c, dl)) dl = LV_SSE2;
  for (int t = 0; t < 2; t++)
  {
    uint8_t *C = spot(&A_CMP, r, refN), *D = spot(&A_OUT, r, n);
    memcpy(C, ref, refN); for (uint32_t i = 0; i < 80; i++) C[refN + i] = (uint8_t)rng_next(r);
    const uint64_t g = rng_next(r); for (uint32_t i = 0; i < n + 128; i += 8) memcpy(D + i, &g, 8);
    for (int i = 0; i < 64; i++) D[i - 64] = t ? (uint8_t)rng_next(r) : 0;
    vlevel_set(dl); WHAT("decode@%s, variation %d", vlevel_names[dl], t);
    poison_stack((uint8_t)rng_next(r));
    call_t d = call4(c->decomp, C, refN, D, n);
    ev("decodes", 1);
    if (!d.ok || d.ret != n || memcmp(D, in, n)) { viol("decode-differs", "decode under variation %d returned %u of %u or different bytes", t, d.ret, n); return; }
  }
  if (c->fam == FAM_LE && n < 4000 && rng_below(r, 3) == 0)
  {
    const uint32_t k = 1 + (uint32_t)rng_below(r, n < 20 ? n : 20), b = rle8m_compress_bounds(k, n); uint32_t s0 = 0;
    for (int t = 0; t < 2; t++)
    {
      uint8_t *I = spot(&A_IN, r, n), *C = spot(&A_CMP, r, n); memcpy(I, in, n);
      for (uint32_t i = 0; i < 80; i++) I[n + i] = (uint8_t)rng_next(r);
      memset(C, (int)rng_next(r) & 0xFF, b); vlevel_set(rand_level(r)); WHAT("rle8m variation %d", t); poison_stack((uint8_t)rng_next(r));
      volatile uint32_t cs = 0; call_t tt = { 0 }; GUARDED(cs = rle8m_compress(k, I, n, C, b), tt);
      if (!tt.ok) { viol("crash", "rle8m: %s", fault_str(&tt)); return; }
      if (t == 0) { s0 = cs; memcpy(ref, C, cs); } else if (cs != s0 || memcmp(ref, C, cs)) { viol("stream-differs", "rle8m gave a different stream"); return; }
      ev("encodes", 1);
    }
  }
}

// ----------------------------------------------------------------------------------------------------------- SIMD level interop (C09)

static codec_fn altDec[512], altEnc[512];
static void (*altLevel)(int);
static bool altLoaded;
static uint32_t (*altM_)(uint32_t, const uint8_t *, uint32_t, uint8_t *, uint32_t), (*altMD_)(const uint8_t *, uint32_t, uint8_t *, uint32_t);
#include <dlfcn.h>
static void alt_load(const char *path)
{
  void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(70); }
  for (int i = 0; i < vcodec_count; i++) { altDec[i] = (codec_fn)dlsym(h, vcodecs[i].dname); altEnc[i] = (codec_fn)dlsym(h, vcodecs[i].cname); if (!altDec[i] || !altEnc[i]) { fprintf(stderr, "missing %s\n", vcodecs[i].dname); exit(70); } }
  *(void **)&altM_ = dlsym(h, "rle8m_compress"); *(void **)&altMD_ = dlsym(h, "rle8m_decompress");
  altLevel = (void (*)(int))dlsym(h, "vlevel_set");
  if (!altLevel) { fprintf(stderr, "missing vlevel_set\n"); exit(70); }
  altLoaded = true;
}

static void case_levels(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  const uint32_t bound = c->bounds(n);
  uint8_t *I = A_IN.lo + 256 + rng_below(r, 64), *D = A_OUT.lo + 256;
  memcpy(I, in, n); memset(I + n, 0x5D, 64);
  uint64_t hs[LV_COUNT * 2]; int nh = 0;
  const bool big = n > 20000;
  for (int k = 0; k < LV_COUNT * (altLoaded ? 2 : 1); k++)
  {
    const int el = k % LV_COUNT; const bool alt = k >= LV_COUNT;
    if (!vlevel_available(el) || !codec_at_level(c, el)) continue;
    if (big && rng_below(r, 3)) continue;
    uint8_t *C = A_CMP.lo + 256 + rng_below(r, 32);
    fill(C, bound, 0);
    if (alt) altLevel(el); else vlevel_set(el);
    WHAT("encode@%s%s", vlevel_names[el], alt ? " (other compiler)" : "");
    call_t e = call4(alt ? altEnc[ci] : c->comp, I, n, C, bound);
    ev(lvEnc[el], 1);
    if (!e.ok) { viol("crash", "encoder: %s", fault_str(&e)); return; }
    if (e.ret == 0 || e.ret > bound) { viol("encode", "encoder returned %u", e.ret); return; }
    const uint64_t h = vhash(C, e.ret); bool dup = false;
    for (int i = 0; i < nh; i++) dup |= hs[i] == h;
    if (dup) { ev("identical-streams", 1); continue; } // decoders are deterministic in the stream (C11): every distinct stream goes through all decoders
    hs[nh++] = h;
    ev("distinct-streams", 1);
    for (int k2 = 0; k2 < LV_COUNT * (altLoaded ? 2 : 1); k2++)
    {
      const int dl = k2 % LV_COUNT; const bool alt2 = k2 >= LV_COUNT;
      if (!vlevel_available(dl) || !codec_at_level(c, dl)) continue;
      if (big && rng_below(r, 3)) continue;
      fill_inverse(D, in, n, 128);
      memset(C + e.ret, (int)(rng_next(r) & 0xFF), bound - e.ret);
      if (alt2) altLevel(dl); else vlevel_set(dl);
      WHAT("encode@%s%s decode@%s%s", vlevel_names[el], alt ? " (other compiler)" : "", vlevel_names[dl], alt2 ? " (other compiler)" : "");
      call_t d = call4(alt2 ? altDec[ci] : c->decomp, C, e.ret, D, n);
      ev(lvDec[dl], 1); ev("pairs", 1);
      if (!d.ok) { viol("crash", "decoder: %s", fault_str(&d)); return; }
      if (d.ret != n) { viol("level-size", "decoder returned %u instead of %u", d.ret, n); return; }
      if (memcmp(D, in, n)) { uint32_t i = 0; while (D[i] == in[i]) i++; viol("level-mismatch", "first wrong byte at %u of %u", i, n); return; }
    }
    if (nontrivial(c, C, e.ret)) sample("%s: stream of %u bytes (from %s) decoded at every level", c->name, e.ret, vlevel_names[el]);
  }
  if (altLoaded) altLevel(LV_SSE2);
}

// ----------------------------------------------------------------------------------------------------------- compatibility with an archived build (C15)
// The archived build (sources in /verif/ref) stands for the decoders and streams that are in use already.

static void case_compat(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  const uint32_t bound = c->bounds(n);
  uint8_t *I = A_IN.lo + 256 + rng_below(r, 64), *D = A_OUT.lo + 256;
  memcpy(I, in, n); memset(I + n, 0x5D, 64);
  static uint64_t oldH; static uint32_t oldS;
  const uint32_t k = c->fam == FAM_LE && n <= 20000 && rng_below(r, 3) == 0 ? 1 + (uint32_t)rng_below(r, n < 40 ? n : 40) : 0; // sub-section streams
  const uint32_t room = k ? rle8m_compress_bounds(k, n) + 4096 : bound;
  for (int dir = 0; dir < 2; dir++)
  {
    int el = rand_level(r), dl = rand_level(r); if (!codec_at_level(c, el)) el = LV_SSE2; if (!codec_at_level(c, dl)) dl = LV_SSE2;
    uint8_t *C = A_CMP.lo + 256 + rng_below(r, 32);
    fill(C, room, rng_next(r));
    altLevel(dir ? dl : el); vlevel_set(dir ? el : dl);
    WHAT("%s%s encoder@%s, %s decoder@%s", k ? "sub-sections, " : "", dir ? "current" : "archived", vlevel_names[el], dir ? "archived" : "current", vlevel_names[dl]);
    call_t e = { 0 }; volatile uint32_t ev_ = 0;
    if (k) { GUARDED(ev_ = dir ? rle8m_compress(k, I, n, C, room) : altM_(k, I, n, C, room), e); e.ret = ev_; }
    else e = call4(dir ? c->comp : altEnc[ci], I, n, C, bound);
    if (!e.ok) { if (dir) viol("crash", "encoder: %s", fault_str(&e)); return; }
    if (e.ret == 0 || e.ret > room) { if (dir) viol("encode", "encoder returned %u", e.ret); return; }
    const uint64_t h = vhash(C, e.ret);
    if (!dir) { oldH = h; oldS = e.ret; } else { const bool same = oldH == h && oldS == e.ret; ev(same ? "streams-identical" : "streams-different", 1); if (!same && getenv("VDEBUG")) fprintf(stderr, "DIFF %s n=%u k=%u %u %u %s\n", c->name, n, k, oldS, e.ret, CUR.what); }
    fill_inverse(D, in, n, 128);
    memset(C + e.ret, (int)(rng_next(r) & 0xFF), room - e.ret);
    call_t d = { 0 }; volatile uint32_t dv = 0;
    if (k) { GUARDED(dv = dir ? altMD_(C, e.ret, D, n) : rle8m_decompress(C, e.ret, D, n), d); d.ret = dv; }
    else d = call4(dir ? altDec[ci] : c->decomp, C, e.ret, D, n);
    ev(dir ? "new-streams-read-by-archived-decoder" : "archived-streams-read-by-new-decoder", 1);
    if (!d.ok) { viol(dir ? "old-reader" : "old-stream", "decoder: %s", fault_str(&d)); return; }
    if (d.ret != n) { viol(dir ? "old-reader" : "old-stream", "decoder returned %u instead of %u", d.ret, n); return; }
    if (memcmp(D, in, n)) { uint32_t i = 0; while (D[i] == in[i]) i++; viol(dir ? "old-reader" : "old-stream", "first wrong byte at %u of %u", i, n); return; }
    if (nontrivial(c, C, e.ret)) sample("%s: %u bytes <-> stream of %u bytes, %s", c->name, n, e.ret, CUR.what);
  }
}

// ----------------------------------------------------------------------------------------------------------- efficiency compared with the archived build (C29)

enum { RS = 48 };
static struct { uint64_t cur, ref; uint32_t n; } ratioSum[512][LV_COUNT][RS]; static const char *ratioShape[RS];
static void case_ratio(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  const uint32_t bound = c->bounds(n); uint8_t *I = A_IN.lo + 256 + rng_below(r, 64), *C = A_CMP.lo + 256;
  memcpy(I, in, n); memset(I + n, 0x5D, 64);
  int s = 0; while (s < RS - 1 && ratioShape[s] && strcmp(ratioShape[s], CUR.shape)) s++;
  if (!ratioShape[s]) ratioShape[s] = CUR.shape;
  for (int k = 0; k < 2; k++)
  {
    int el = rand_level(r); if (!codec_at_level(c, el)) el = LV_SSE2;
    vlevel_set(el); altLevel(el); WHAT("encode@%s", vlevel_names[el]);
    call_t o = call4(altEnc[ci], I, n, C, bound); if (!o.ok || !o.ret) { ev("archived-encoder-failed", 1); return; }
    call_t e = call4(c->comp, I, n, C, bound); if (!e.ok || !e.ret || e.ret > bound) { viol("encode", "encoder returned %u (%s)", e.ret, e.ok ? "no signal" : fault_str(&e)); return; }
    ratioSum[ci][el][s].cur += e.ret; ratioSum[ci][el][s].ref += o.ret; ratioSum[ci][el][s].n++; ev("sizes-compared", 1);
    if (e.ret != o.ret) ev(e.ret < o.ret ? "smaller-than-archived" : "larger-than-archived", 1);
    if ((uint64_t)e.ret > o.ret + o.ret / 8 + 64) { viol("larger", "%u bytes are encoded to %u bytes, by the archived encoder to %u", n, e.ret, o.ret); return; }
    if (!k && nontrivial(c, C, e.ret)) sample("%s: %s input of %u bytes: %u bytes, archived encoder %u", c->name, CUR.shape, n, e.ret, o.ret);
  }
}

static void mode_ratio(void)
{
  eng_cases(case_ratio, 2, 8);
  for (int ci = 0; ci < vcodec_count; ci++) for (int l = 0; l < LV_COUNT; l++) for (int s = 0; s < RS; s++) if (ratioSum[ci][l][s].n)
  {
    const char *id = vcodecs[ci].cname;
    printf("EV R|%s|%s|%s|cur %llu\nEV R|%s|%s|%s|ref %llu\nEV R|%s|%s|%s|n %u\n", id, vlevel_names[l], ratioShape[s], (unsigned long long)ratioSum[ci][l][s].cur, id, vlevel_names[l], ratioShape[s], (unsigned long long)ratioSum[ci][l][s].ref, id, vlevel_names[l], ratioShape[s], ratioSum[ci][l][s].n);
  }
}

// ----------------------------------------------------------------------------------------------------------- runs collapse (C16)

static int64_t worstRun[512];
static void mode_runs(void)
{
  for (int ci = 0; ci < vcodec_count; ci++)
  {
    const vcodec_t *c = &vcodecs[ci];
    if (c->fam == FAM_TRANS || (O.only_codec >= 0 && O.only_codec != ci)) continue;
    worstRun[ci] = INT64_MIN;
    const bool le = c->fam == FAM_LE, leShort = le && strstr(c->cname, "short"), mm = c->fam == FAM_MMTF;
    const bool single = (c->flags & CF_SINGLE) || strstr(c->cname, "only_max");
    const uint32_t w = mm ? 16 : (uint32_t)c->width, align = (c->flags & CF_SYM) || mm ? w : 1;
    for (uint64_t k = 0; k < O.count; k++)
    {
      if (((k * 0x9E3779B97F4A7C15ULL) >> 40) % (uint64_t)O.shards != (uint64_t)O.shard) continue;
      if (O.only_index >= 0 && (uint64_t)O.only_index != k) continue;
      if (codec_muted(ci) || eng_deadline()) break;
      rng_t r = rng_seed(O.seed * 9176 + (uint64_t)ci, k);
      const uint32_t runs = 1 + (uint32_t)(rng_below(&r, 3) ? rng_below(&r, 4) : rng_below(&r, 12));
      uint8_t sym[12][16]; uint32_t n = 0, lits = 0, runBytes = 0, splits = 0;
      const uint8_t step = (uint8_t)(1 + 2 * rng_below(&r, 128)); uint8_t b = (uint8_t)rng_next(&r);
      const uint32_t pool = 1 + (uint32_t)rng_below(&r, 10);
      static const uint32_t gapMax[] = { 1, 20, 70, 300, 1500, 70000 };
      const uint32_t gm = gapMax[!single && rng_below(&r, 16) == 0 ? 5 : rng_below(&r, 5)];
      static const uint32_t runMax[] = { 100, 400, 3000, 20000, 70000 };
      const bool minor = single && rng_below(&r, 2);
      uint8_t *I = A_IN.lo + 256 + rng_below(&r, 64);
      uint32_t lens[12], gaps[13], ids[12];
      for (uint32_t i = 0; i <= runs; i++) { gaps[i] = rng_below(&r, 4) == 0 ? 0 : (uint32_t)rng_below(&r, gm + 1); gaps[i] = (gaps[i] + align - 1) / align * align; }
      if (c->fam == FAM_SH) gaps[runs] += 16; // this codec leaves a run that ends the data as it is
      for (uint32_t i = 0; i < runs; i++)
      {
        const uint32_t minRun = (w < 3 ? 64 : w * 24); // long enough to be worth it with every kind of token (a literal that long has to be interrupted)
        const uint32_t len = minRun + (uint32_t)rng_below(&r, rng_below(&r, 5) ? runMax[rng_below(&r, 3)] : runMax[3 + rng_below(&r, 2)]);
        lens[i] = len / align * align;
        ids[i] = single ? 0 : (uint32_t)rng_below(&r, pool);
        if (i == 0 || !single) gen_symbol(&r, (int)w, sym[i]);
        // a pool of symbols: copies of earlier ones
        if (i && ids[i] < i && !single) memcpy(sym[i], sym[ids[i]], 16);
        if (single && i) memcpy(sym[i], sym[0], 16);
        if (gaps[i] == 0 && i && !memcmp(sym[i], sym[i - 1], w)) { gaps[i] = align; }
      }
      if (single) { uint64_t g = 0, l = 0; for (uint32_t i = 0; i < runs; i++) l += lens[i]; for (uint32_t i = 0; i <= runs; i++) g += gaps[i]; if (g > l / 4) lens[0] += (uint32_t)(g * 4); }
      for (uint32_t i = 0; i <= runs && n + 200000 < GEN_MAX; i++)
      {
        for (uint32_t q = 0; q < gaps[i]; q++)
        {
          b = (uint8_t)(b + step);
          // low entropy and single-symbol codecs: the literals are free of the run symbols (every occurrence is its own run there)
          if (le || single || c->fam == FAM_SH) for (int again = 0; again < 14; again++) { bool hit = false; for (uint32_t s = 0; s < runs; s++) hit |= b == sym[s][0]; if (!hit) break; b = (uint8_t)(b + step); }
          else { if (q == 0 && i) { while (b == sym[i - 1][0]) b = (uint8_t)(b + step); } }
          I[n++] = b;
        }
        // single-symbol codecs: a minor second symbol, in runs that make up a small part of the data, must not be preferred
        if (single && !mm && minor && gaps[i] > 40) { const uint32_t at = n - gaps[i] + 1; uint32_t ml = gaps[i] - 2; if (ml > 1 + runBytes / 8) ml = 1 + runBytes / 8; uint8_t mb = (uint8_t)(sym[0][0] + step); memset(I + at, mb, ml); ev("minor-runs", 1); }
        lits += gaps[i];
        if (i == runs) break;
        const uint32_t phase = align == 1 && !mm ? (uint32_t)rng_below(&r, w) : 0;
        for (uint32_t q = 0; q < lens[i]; q++) I[n++] = sym[i][(q + phase) % w];
        runBytes += lens[i];
        if (le) splits += lens[i] / (leShort ? 31 : 254) + 1;
      }
      memset(I + n, (int)(rng_next(&r) & 0xFF), 64);
      int lv = rand_level(&r); if (!codec_at_level(c, lv)) lv = LV_SSE2;
      const uint32_t bound = c->bounds(n);
      uint8_t *C = A_CMP.lo + 256;
      CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = k; CUR.in = I; CUR.n = n; CUR.shape = "run-cost";
      WHAT("%u runs (%u bytes in runs, %u in literals) encode@%s", runs, runBytes, lits, vlevel_names[lv]);
      vlevel_set(lv);
      call_t e = call4(c->comp, I, n, C, bound);
      ev("encodes", 1); ev("runs", runs); ev(lvEnc[lv], 1);
      if (!e.ok) { viol("crash", "encoder: %s", fault_str(&e)); continue; }
      if (e.ret == 0) { viol("encode", "encoder failed"); continue; }
      // what the format allows: per run a symbol, a run length and a literal length in their longest forms, the run's ends as literals.
      int64_t fixed = le ? 8 + 32 + 1 + 256 + 8 : 32 + (int64_t)w, perRun = le ? 4 : mm ? 3 * 16 + 24 : c->fam == FAM_SH ? 24 : (w == 16 ? 8 : 0) + 2 * (int64_t)w + 12;
      const int64_t allowed = fixed + (int64_t)lits + (int64_t)runs * perRun + 2 * (int64_t)splits;
      const int64_t over = (int64_t)e.ret - allowed;
      if (over > worstRun[ci]) worstRun[ci] = over;
      if (over > 0) { viol("run-cost", "%u bytes (%u in %u runs, %u literals) became %u bytes, more than the %lld that literals and run tokens can take", n, runBytes, runs, lits, e.ret, (long long)allowed); continue; }
      if (!seen(vhash(C, e.ret) * 31 + (uint64_t)ci)) sample("%s: %u runs of %u bytes and %u literal bytes -> %u (allowed %lld)", c->name, runs, runBytes, lits, e.ret, (long long)allowed);
    }
    if (getenv("VDEBUG")) fprintf(stderr, "%-34s worst over %lld\n", c->name, (long long)worstRun[ci]);
  }
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  const char *m = O.mode;
  if (!strcmp(m, "rt")) eng_cases(case_rt, 1, 1);
  else if (!strcmp(m, "le")) eng_cases(case_c03, 1, 1);
  else if (!strcmp(m, "mem")) eng_cases(case_mem_le, 1, 2);
  else if (!strcmp(m, "src")) eng_cases(case_src_le, 2, 8);
  else if (!strcmp(m, "hdr")) eng_cases(case_hdr, 4, 16);
  else if (!strcmp(m, "trail")) eng_cases(case_trail, 2, 8);
  else if (!strcmp(m, "args")) mode_args();
  else if (!strcmp(m, "bounds")) mode_bounds();
  else if (!strcmp(m, "tokens")) mode_tokens();
  else if (!strcmp(m, "det")) eng_cases(case_det, 2, 8);
  else if (!strcmp(m, "levels")) { if (O.extra) alt_load(O.extra); eng_cases(case_levels, 6, 24); }
  else if (!strcmp(m, "ratio")) { alt_load(O.extra); mode_ratio(); }
  else if (!strcmp(m, "compat")) { alt_load(O.extra); eng_cases(case_compat, 2, 8); }
  else if (!strcmp(m, "runs")) mode_runs();
  else { fprintf(stderr, "unknown mode %s\n", m); return 70; }
  return eng_finish();
}
