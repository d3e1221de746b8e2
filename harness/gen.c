#include "gen.h"

static const uint8_t special[] = { 0x00, 0xFF, 0x7F, 0x80, 0x01, 0xFE, 0x7E, 0x81, 0x02, 0x20, 0x40, 0x3F };

static uint8_t rbyte(rng_t *r)
{
  const uint64_t v = rng_next(r);
  return (v & 0x700) == 0 ? special[(v >> 16) % sizeof(special)] : (uint8_t)v;
}

uint32_t gen_len(rng_t *r, int w, uint32_t cap)
{
  uint32_t l;
  const uint64_t k = rng_next(r);
  switch (k % 16)
  {
  case 0: case 1: case 2: l = (uint32_t)rng_in(r, 1, 8); break;
  case 3: case 4: case 5: l = (uint32_t)rng_in(r, 1, 40); break;
  case 6: case 7: l = (uint32_t)rng_in(r, 1, 300); break;
  case 8: l = (uint32_t)rng_in(r, 1, 5) * (uint32_t)w; break;
  case 9: l = (uint32_t)rng_in(r, 1, 40) * (uint32_t)w; break;
  case 10: case 11: // near a power of two, in bytes
    l = (1u << rng_in(r, 2, 11)) + (uint32_t)rng_in(r, 0, 12); l = l > 6 ? l - 6 : 1; break;
  case 12: // near a power of two, in symbols
    l = ((1u << rng_in(r, 2, 9)) + (uint32_t)rng_in(r, 0, 6)); l = l > 3 ? l - 3 : 1; l *= (uint32_t)w; l += (uint32_t)rng_below(r, 2) * (uint32_t)rng_below(r, (uint64_t)w); break;
  case 13: l = (uint32_t)rng_in(r, 200, 600); break;
  case 14: l = (uint32_t)rng_in(r, 1, 2200); break;
  default: // SIMD block sizes
    l = (uint32_t)(16u << rng_below(r, 4)) * (uint32_t)rng_in(r, 1, 6) + (uint32_t)rng_below(r, 5); l = l > 2 ? l - 2 : 1; break;
  }
  if (l > cap) l = 1 + l % cap;
  return l ? l : 1;
}

void gen_symbol(rng_t *r, int w, uint8_t *sym)
{
  const uint64_t k = rng_below(r, 8);
  if (k == 0) memset(sym, special[rng_below(r, sizeof(special))], (size_t)w);
  else if (k == 1) memset(sym, (int)rbyte(r), (size_t)w);
  else if (k == 2 && w % 2 == 0) { for (int i = 0; i < w / 2; i++) sym[i] = sym[i + w / 2] = rbyte(r); }
  else if (k == 3) { memset(sym, (int)rbyte(r), (size_t)w); sym[rng_below(r, (uint64_t)w)] ^= (uint8_t)(1u << rng_below(r, 8)); }
  else for (int i = 0; i < w; i++) sym[i] = rbyte(r);
}

// Bytes that contain no long run. `avoid` (the symbol of an adjacent run, may be NULL) makes sure that the first byte doesn't extend it.
void gen_literal(rng_t *r, uint8_t *dst, uint32_t n, const uint8_t *avoid, int w)
{
  const uint64_t kind = rng_below(r, 8);
  (void)w;
  if (kind < 5) { for (uint32_t i = 0; i < n; i += 8) { uint64_t v = rng_next(r); memcpy(dst + i, &v, n - i < 8 ? n - i : 8); } }
  else if (kind == 5) { uint8_t b = rbyte(r), s = (uint8_t)(1 + 2 * rng_below(r, 100)); for (uint32_t i = 0; i < n; i++, b = (uint8_t)(b + s)) dst[i] = b; }
  else if (kind == 6) { uint8_t a = rbyte(r); uint32_t m = 2 + (uint32_t)rng_below(r, 3); for (uint32_t i = 0; i < n; i++) dst[i] = (uint8_t)(a + rng_below(r, m)); }
  else { for (uint32_t i = 0; i < n; i++) { dst[i] = (i & 1) && (rng_next(r) & 3) == 0 ? dst[i - 1] : rbyte(r); } }
  if (avoid && n && dst[0] == avoid[0]) dst[0] ^= 0x55;
}

static void put_run(uint8_t *dst, uint32_t n, const uint8_t *sym, int w, int phase)
{
  uint32_t i = 0;
  for (; i < n && i < (uint32_t)w; i++) dst[i] = sym[(i + (uint32_t)phase) % (uint32_t)w];
  for (uint32_t have = i; i < n; have = i) { uint32_t l = have < n - i ? have : n - i; memcpy(dst + i, dst, l); i += l; } // (`have` stays a multiple of the width until the end)
}

static uint32_t any_width(rng_t *r)
{
  static const uint8_t ws[] = { 1, 2, 3, 4, 6, 8, 16 };
  return ws[rng_below(r, sizeof(ws))];
}

// literal / run alternation with a pool of symbols and a reuse policy that exercises symbol tables.
static uint32_t shape_runs(rng_t *r, int w, uint8_t *buf, uint32_t cap, const char **shape)
{
  uint8_t pool[12][16];
  const uint32_t poolN = 1 + (uint32_t)rng_below(r, 12);
  for (uint32_t i = 0; i < poolN; i++)
  {
    gen_symbol(r, w, pool[i]);
    if (i && rng_below(r, 6) == 0) { memcpy(pool[i], pool[i - 1], 16); pool[i][rng_below(r, (uint64_t)w)] ^= (uint8_t)(1u << rng_below(r, 8)); } // differs in one bit only
  }
  const uint32_t policy = (uint32_t)rng_below(r, 5);
  const uint32_t segs = 1 + (uint32_t)rng_below(r, rng_below(r, 4) ? 12 : 70);
  const bool shortLits = rng_below(r, 3) == 0, shortRuns = rng_below(r, 3) == 0, symAligned = rng_below(r, 2);
  const uint32_t noLit = (uint32_t)rng_below(r, 4); // adjacent runs
  uint32_t n = 0, last = 0;
  const uint8_t *prev = NULL;
  if (rng_below(r, 2)) { uint32_t l = gen_len(r, w, cap / 2 + 1); if (symAligned) l = (l + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w; if (l > cap) l = cap; gen_literal(r, buf, l, NULL, w); n = l; }
  for (uint32_t s = 0; s < segs && n < cap; s++)
  {
    uint32_t idx;
    switch (policy)
    {
    case 0: idx = (uint32_t)rng_below(r, poolN); break;
    case 1: idx = s % poolN; break;
    case 2: idx = rng_below(r, 3) ? last : (uint32_t)rng_below(r, poolN); break;
    case 3: idx = (uint32_t)(rng_below(r, poolN) * rng_below(r, poolN) / (poolN ? poolN : 1)); break;
    default: idx = poolN - 1 - s % poolN; break;
    }
    last = idx;
    uint32_t l = shortRuns ? (uint32_t)rng_in(r, 1, 4 * (uint64_t)w + 8) : gen_len(r, w, cap);
    if (symAligned && rng_below(r, 8)) l = (l + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w;
    if (l > cap - n) l = cap - n;
    put_run(buf + n, l, pool[idx], w, rng_below(r, 4) ? 0 : (int)rng_below(r, (uint64_t)w));
    n += l; prev = pool[idx];
    if (n >= cap) break;
    if (rng_below(r, 4) < noLit && noLit == 3) continue;
    if (s + 1 == segs && rng_below(r, 2)) break; // end with a run
    l = shortLits ? (uint32_t)rng_in(r, 1, 9) : gen_len(r, w, cap);
    if (symAligned && rng_below(r, 8)) l = (l + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w;
    if (l > cap - n) l = cap - n;
    gen_literal(r, buf + n, l, prev, w);
    n += l;
  }
  *shape = "runs";
  return n ? n : 1;
}

static uint32_t shape_alphabet(rng_t *r, uint8_t *buf, uint32_t cap, const char **shape)
{
  uint32_t n = (uint32_t)rng_in(r, 1, cap < 1200 ? cap : (rng_below(r, 4) ? 300 : 1200));
  const uint32_t k = 1 + (uint32_t)rng_below(r, rng_below(r, 3) ? 4 : 40);
  const uint32_t stay = (uint32_t)rng_below(r, 16);
  uint8_t al[64]; for (uint32_t i = 0; i < k; i++) al[i] = rbyte(r);
  uint8_t cur = al[0];
  for (uint32_t i = 0; i < n; i++) { if (rng_below(r, 16) >= stay) cur = al[rng_below(r, k)]; buf[i] = cur; }
  *shape = "alphabet";
  return n;
}

static uint32_t shape_random(rng_t *r, uint8_t *buf, uint32_t cap, const char **shape)
{
  uint32_t n = gen_len(r, 1, cap);
  gen_literal(r, buf, n, NULL, 1);
  *shape = "literal";
  return n;
}

// histogram-controlled: every one of `k` symbols repeats with its own probability, so that any subset of symbols can become a RLE symbol.
static uint32_t shape_histogram(rng_t *r, uint8_t *buf, uint32_t cap, const char **shape)
{
  const uint32_t ks[] = { 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 64, 127, 128, 129, 200, 254, 255, 256 };
  const uint32_t k = rng_below(r, 4) ? ks[rng_below(r, sizeof(ks) / sizeof(ks[0]))] : 1 + (uint32_t)rng_below(r, 256), other = rng_below(r, 3) ? (uint32_t)rng_below(r, 257 - k) : 256 - k;
  uint8_t perm[256]; for (int i = 0; i < 256; i++) perm[i] = (uint8_t)i;
  for (int i = 255; i > 0; i--) { uint32_t j = (uint32_t)rng_below(r, (uint64_t)i + 1); uint8_t t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  uint32_t n = 0;
  const uint32_t rounds = 1 + (uint32_t)rng_below(r, 3), lenKind = (uint32_t)rng_below(r, 4);
  for (uint32_t round = 0; round < rounds; round++)
    for (uint32_t i = 0; i < k + other && n < cap; i++)
    {
      uint32_t l = 1;
      if (i < k) l = lenKind == 0 ? 2 : lenKind == 1 ? (uint32_t)rng_in(r, 2, 6) : lenKind == 2 ? (uint32_t)rng_in(r, 1, 270) : gen_len(r, 1, 700);
      if (l > cap - n) l = cap - n;
      memset(buf + n, perm[i], l); n += l;
    }
  *shape = "histogram";
  return n ? n : 1;
}

// 16/32 byte columns: what the MTF based codecs transform into runs.
static uint32_t shape_columns(rng_t *r, uint8_t *buf, uint32_t cap, const char **shape)
{
  const uint32_t lanes[] = { 8, 16, 32, 2, 1 };
  const uint32_t ln = lanes[rng_below(r, 5)];
  uint8_t pal[32][8]; const uint32_t pk = 1 + (uint32_t)rng_below(r, 8);
  for (uint32_t i = 0; i < ln; i++) for (uint32_t j = 0; j < pk; j++) pal[i][j] = rbyte(r);
  uint32_t n = 0; const uint32_t segs = 1 + (uint32_t)rng_below(r, 10);
  for (uint32_t s = 0; s < segs && n < cap; s++)
  {
    uint32_t rows = gen_len(r, 1, 320); const uint32_t kind = (uint32_t)rng_below(r, 6), jitter = (uint32_t)rng_below(r, 6);
    for (uint32_t y = 0; y < rows && n < cap; y++)
      for (uint32_t x = 0; x < ln && n < cap; x++)
      {
        uint8_t v;
        switch (kind)
        {
        case 0: v = pal[x][0]; break;                                   // constant columns
        case 1: v = pal[x][y % pk]; break;                              // fixed mtf rank
        case 2: v = pal[x][rng_below(r, pk)]; break;                    // small ranks
        case 3: v = rng_below(r, 32) < jitter ? rbyte(r) : pal[x][0]; break; // sparse noise
        case 4: v = (uint8_t)rng_next(r); break;                        // noise
        default: v = pal[x][(y / (1 + jitter)) % pk]; break;
        }
        buf[n++] = v;
      }
  }
  if (n > 1 && rng_below(r, 2)) { uint32_t cut = (uint32_t)rng_below(r, 33); if (cut < n) n -= cut; } // odd tail
  *shape = "columns";
  return n ? n : 1;
}

// mtf rank blocks: per 16/32 byte block, all lanes below a rank (2^k), so that bit packed block headers get exercised with all counts.
static uint32_t shape_ranks(rng_t *r, uint8_t *buf, uint32_t cap, const char **shape)
{
  const uint32_t ln = rng_below(r, 3) ? 16 : (rng_below(r, 2) ? 32 : 1);
  static __thread uint8_t mtf[32][256];
  for (uint32_t i = 0; i < ln; i++) for (int j = 0; j < 256; j++) mtf[i][j] = (uint8_t)j;
  uint32_t n = 0; const uint32_t segs = 1 + (uint32_t)rng_below(r, 12);
  for (uint32_t s = 0; s < segs && n + ln <= cap; s++)
  {
    const uint32_t limits[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 256 };
    const uint32_t lim = limits[rng_below(r, 12)];
    uint32_t rows = rng_below(r, 3) ? (uint32_t)rng_in(r, 1, 6) : (uint32_t)rng_in(r, 1, 140);
    const bool spike = rng_below(r, 3) == 0; const uint32_t fixed = (uint32_t)rng_below(r, 4) == 0 ? 1 + (uint32_t)rng_below(r, lim) : 0;
    for (uint32_t y = 0; y < rows && n + ln <= cap; y++)
      for (uint32_t x = 0; x < ln; x++)
      {
        uint32_t rank = fixed ? (fixed - 1) : (uint32_t)rng_below(r, lim);
        if (spike && rng_below(r, 16 * ln) == 0) rank = (uint32_t)rng_below(r, 256);
        const uint8_t v = mtf[x][rank]; memmove(&mtf[x][1], &mtf[x][0], rank); mtf[x][0] = v;
        buf[n++] = v;
      }
  }
  if (rng_below(r, 2)) { uint32_t t = (uint32_t)rng_below(r, 40); if (t > cap - n) t = cap - n; gen_literal(r, buf + n, t, NULL, 1); n += t; }
  *shape = "ranks";
  if (n == 0) { buf[0] = rbyte(r); n = 1; }
  return n;
}

static uint32_t shape_tiny(rng_t *r, int w, uint8_t *buf, uint32_t cap, const char **shape)
{
  uint32_t m = 90; if (m > cap) m = cap;
  uint32_t n = (uint32_t)rng_in(r, 1, m);
  const uint32_t kind = (uint32_t)rng_below(r, 4);
  uint8_t sym[16]; gen_symbol(r, w, sym);
  if (kind == 0) put_run(buf, n, sym, w, 0);
  else if (kind == 1) { for (uint32_t i = 0; i < n; i++) buf[i] = sym[rng_below(r, 2) % (uint32_t)w] ^ (uint8_t)(rng_below(r, 8) == 0); }
  else if (kind == 2) { put_run(buf, n, sym, w, 0); for (uint32_t k = 1 + (uint32_t)rng_below(r, 3); k; k--) buf[rng_below(r, n)] ^= (uint8_t)(1 + rng_below(r, 255)); }
  else gen_literal(r, buf, n, NULL, w);
  *shape = "tiny";
  return n;
}

// image like: scanlines with flat regions of w-byte pixels, repeated lines, vertical structure.
static uint32_t shape_image(rng_t *r, int w, uint8_t *buf, uint32_t cap, const char **shape)
{
  const uint32_t width = (uint32_t)rng_in(r, 4, 60) * (uint32_t)w; uint32_t n = 0;
  uint8_t pal[6][16]; for (int i = 0; i < 6; i++) gen_symbol(r, w, pal[i]);
  const uint32_t lines = (uint32_t)rng_in(r, 2, 30);
  for (uint32_t y = 0; y < lines && n + width <= cap; y++)
  {
    if (y && rng_below(r, 3)) { memcpy(buf + n, buf + n - width, width); if (rng_below(r, 2)) buf[n + rng_below(r, width)] ^= (uint8_t)rng_next(r); }
    else for (uint32_t x = 0; x < width;) { uint32_t l = (uint32_t)rng_in(r, 1, 20) * (uint32_t)w; if (l > width - x) l = width - x; put_run(buf + n + x, l, pal[rng_below(r, 6)], w, 0); x += l; }
    n += width;
  }
  *shape = "image";
  if (n == 0) { buf[0] = rbyte(r); n = 1; }
  return n;
}

uint32_t gen_random(rng_t *r, const vcodec_t *c, uint8_t *buf, uint32_t cap, const char **shape)
{
  int w = rng_below(r, 8) ? c->width : (int)any_width(r);
  if (w < 1) w = 1;
  if (w > 16) w = 16;
  const uint64_t k = rng_below(r, 100);
  const bool mm = c->fam == FAM_MMTF || c->fam == FAM_TRANS, le = c->fam == FAM_LE || c->fam == FAM_SH;
  if (rng_below(r, 3)) { const uint32_t s = rng_below(r, 2) ? 700 : 2600; if (cap > s) cap = s; }
  if (mm) { if (k < 35) return shape_ranks(r, buf, cap, shape); if (k < 70) return shape_columns(r, buf, cap, shape); }
  if (le) { if (k < 30) return shape_histogram(r, buf, cap, shape); if (k < 45) return shape_alphabet(r, buf, cap, shape); }
  if (k < 62) return shape_runs(r, w, buf, cap, shape);
  if (k < 70) return shape_tiny(r, w, buf, cap, shape);
  if (k < 78) return shape_alphabet(r, buf, cap, shape);
  if (k < 84) return shape_image(r, w, buf, cap, shape);
  if (k < 88) return shape_random(r, buf, cap, shape);
  if (k < 92) return shape_histogram(r, buf, cap, shape);
  if (k < 96) return shape_columns(r, buf, cap, shape);
  return shape_ranks(r, buf, cap, shape);
}

// ---------------------------------------------------------------------------------------------------------------
// Grid: one run (length = index) between a prefix and a suffix, and one literal (length = index) between two runs.

enum { GRID_A = 6 };
static const uint16_t prefixLen[GRID_A] = { 0, 1, 2, 7, 33, 130 };

uint32_t gen_grid_count(const vcodec_t *c, int depth)
{
  const uint32_t lens = depth ? 2300 : (c->width <= 4 ? 640 : 1100);
  return lens * 4 * 3;
}

uint32_t gen_grid(uint32_t index, rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape)
{
  const uint32_t kind = index % 4; index /= 4;
  const uint32_t sub = index % 3; index /= 3;
  const uint32_t len = index + 1;
  const int w = c->width < 1 ? 1 : c->width > 16 ? 16 : c->width;
  uint8_t s0[16], s1[16]; gen_symbol(r, w, s0); gen_symbol(r, w, s1);
  if (s1[0] == s0[0]) s1[0] ^= 0x5A;
  uint32_t n = 0, a = prefixLen[rng_below(r, GRID_A)];
  if (sub != 1 && w > 1) a = (a + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w;
  const uint32_t runMin = (uint32_t)w * 8 + 40;
  switch (kind)
  {
  case 0: // prefix, run of `len`, suffix
  case 1:
    *shape = "grid-run";
    gen_literal(r, buf, a, NULL, w); n = a;
    if (kind == 1) { put_run(buf + n, runMin, s1, w, 0); n += runMin; if (sub == 2) { gen_literal(r, buf + n, (uint32_t)w * 2, s1, w); n += (uint32_t)w * 2; } }
    put_run(buf + n, len, s0, w, sub == 1 ? (int)rng_below(r, (uint64_t)w) : 0); n += len;
    if (sub) { uint32_t b = (uint32_t)rng_in(r, 1, 45); gen_literal(r, buf + n, b, s0, w); n += b; if (sub == 2) { put_run(buf + n, runMin, s0, w, 0); n += runMin; } }
    break;
  default: // run, literal of `len`, (run)
    *shape = "grid-literal";
    put_run(buf, runMin, s0, w, 0); n = runMin;
    for (uint32_t i = 0; i < len; i += 8) { uint64_t v = rng_next(r); memcpy(buf + n + i, &v, len - i < 8 ? len - i : 8); }
    if (buf[n] == s0[0]) buf[n] ^= 0x55;
    n += len;
    if (kind == 2 || sub) { put_run(buf + n, runMin, sub == 1 ? s1 : s0, w, 0); n += runMin; }
    if (sub == 2) { uint32_t b = (uint32_t)rng_in(r, 1, 45); gen_literal(r, buf + n, b, s0, w); n += b; }
    break;
  }
  return n ? n : 1;
}

// Edge: run / literal lengths (bytes and symbols) around 2^15 .. 2^18.
static const uint32_t edgeBase[] = { 1u << 15, 1u << 16, 1u << 12, 1u << 14, 1u << 17, 1u << 18, 1u << 13 };

uint32_t gen_edge_count(const vcodec_t *c, int depth)
{
  (void)c;
  return depth ? 7 * 2 * 2 * 300 : 3 * 2 * 2 * 44;
}

uint32_t gen_edge(uint32_t index, rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape)
{
  const int w = c->width < 1 ? 1 : c->width > 16 ? 16 : c->width;
  const uint32_t kind = index % 2; index /= 2;
  const uint32_t unit = index % 2; index /= 2;
  const uint32_t span = index < 3 * 44 ? 44 : 300, bi = index < 3 * 44 ? index / 44 : (index / span) % 7;
  const int32_t d = (int32_t)(index % span) - (span == 44 ? 14 : 100);
  uint32_t len = edgeBase[bi];
  if (unit) len = (uint32_t)((int32_t)len + d) * (uint32_t)w + (uint32_t)(rng_below(r, 2) * rng_below(r, (uint64_t)w));
  else len = (uint32_t)((int32_t)len + d);
  if (len > GEN_MAX - 4096) len = GEN_MAX - 4096;
  uint8_t s0[16]; gen_symbol(r, w, s0);
  uint32_t n = 0, a = (uint32_t)rng_below(r, 3) * 20;
  const uint32_t runMin = (uint32_t)w * 8 + 40;
  gen_literal(r, buf, a, NULL, w); n = a;
  if (kind == 0)
  {
    *shape = "edge-run";
    put_run(buf + n, len, s0, w, 0); n += len;
    uint32_t b = (uint32_t)rng_below(r, 40); gen_literal(r, buf + n, b, s0, w); n += b;
  }
  else
  {
    *shape = "edge-literal";
    put_run(buf + n, runMin, s0, w, 0); n += runMin;
    for (uint32_t i = 0; i < len; i += 8) { uint64_t v = rng_next(r); memcpy(buf + n + i, &v, len - i < 8 ? len - i : 8); }
    if (buf[n] == s0[0]) buf[n] ^= 0x55;
    n += len;
    put_run(buf + n, runMin, s0, w, 0); n += runMin;
  }
  return n;
}

uint32_t gen_long(rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape)
{
  const int w = c->width < 1 ? 1 : c->width > 16 ? 16 : c->width;
  const uint32_t target = (1u << 14) << rng_below(r, 6), goal = target + (uint32_t)rng_below(r, 80000); uint32_t n = 0; const char *dummy;
  const uint32_t style = (uint32_t)rng_below(r, 4); uint8_t sym[4][16]; for (int i = 0; i < 4; i++) gen_symbol(r, w, sym[i]);
  while (n < goal)
  {
    uint32_t k = (uint32_t)rng_below(r, 10), l;
    if (style == 3) k = rng_below(r, 400) ? 9 : (uint32_t)rng_below(r, 9); // hardly anything but short pieces: many tokens
    if (k < 2) { l = 1 + (uint32_t)rng_below(r, style == 1 ? 150000 : 20000); put_run(buf + n, l, sym[rng_below(r, 4)], w, 0); }
    else if (k < 4) { l = 1 + (uint32_t)rng_below(r, style == 2 ? 150000 : 20000); for (uint32_t i = 0; i < l; i += 8) { uint64_t v = rng_next(r); memcpy(buf + n + i, &v, l - i < 8 ? l - i : 8); } }
    else if (k < 7 || style == 3) { uint32_t m = style == 3 ? 1 + (uint32_t)rng_below(r, 30) : (uint32_t)w * (1 + (uint32_t)rng_below(r, 40)); l = m; if (rng_below(r, 3)) put_run(buf + n, l, sym[rng_below(r, 4)], w, 0); else gen_literal(r, buf + n, l, NULL, w); }
    else l = gen_random(r, c, buf + n, 9000, &dummy);
    n += l;
    if (rng_below(r, 3) == 0 && w > 1 && n % (uint32_t)w) { uint32_t t = (uint32_t)w - n % (uint32_t)w; gen_literal(r, buf + n, t, NULL, w); n += t; } // back to the symbol grid
  }
  *shape = "long";
  return n;
}

// Combinations: how recently the run's symbol was used x length class of the run x length class of the literal before it, followed by runs that need the table to be right.
enum { COMBO_R = 10, COMBO_C = 8, COMBO_L = 8 };
uint32_t gen_combo_count(const vcodec_t *c, int depth) { (void)c; return COMBO_R * COMBO_C * COMBO_L * (depth ? 12 : 3); }

static uint32_t combo_len(rng_t *r, uint32_t cls)
{
  static const uint32_t lo[8] = { 2, 8, 60, 200, 1000, 9000, 32700, 65530 }, hi[8] = { 8, 60, 200, 300, 9000, 32700, 33200, 67200 };
  return (uint32_t)rng_in(r, lo[cls], hi[cls]);
}

uint32_t gen_combo(uint32_t index, rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape)
{
  const int w = c->width < 1 ? 1 : c->width > 16 ? 16 : c->width;
  uint32_t rank = index % COMBO_R, cc = index / COMBO_R % COMBO_C, lc = index / COMBO_R / COMBO_C % COMBO_L;
  uint8_t sym[COMBO_R][16]; const uint8_t base = (uint8_t)rng_next(r); uint32_t n = 0;
  const bool aligned = w > 1 && rng_below(r, 5); // keeps runs on the symbol grid
  for (int i = 0; i < COMBO_R; i++) { gen_symbol(r, w, sym[i]); sym[i][0] = (uint8_t)(base + i * 23); }
#define COMBO_LIT(len) do { uint32_t l_ = (uint32_t)(len); if (aligned) l_ = (l_ + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w; for (uint32_t i_ = 0; i_ < l_; i_ += 8) { uint64_t v_ = rng_next(r); memcpy(buf + n + i_, &v_, l_ - i_ < 8 ? l_ - i_ : 8); } n += l_; } while (0)
#define COMBO_RUN(s, len) do { uint32_t l_ = (uint32_t)(len); put_run(buf + n, l_, s, w, 0); n += l_; } while (0)
  const uint32_t shortRun = (uint32_t)w * 5 + 12;
  // the table: sym[0] is the most recent one
  if (rng_below(r, 8)) for (int i = COMBO_R - 2; i >= 0; i--) { COMBO_LIT(rng_below(r, 3) ? 1 + rng_below(r, 9) : 0); COMBO_RUN(sym[i], (shortRun + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w); }
  COMBO_LIT(lc == 0 ? rng_below(r, 3) : combo_len(r, lc));
  uint32_t len = combo_len(r, cc) * (rng_below(r, 3) || aligned ? (uint32_t)w : 1) + (aligned ? 0 : (uint32_t)(rng_below(r, 2) * rng_below(r, (uint64_t)w)));
  if (len > GEN_MAX - 90000) len = (GEN_MAX - 90000) / (uint32_t)w * (uint32_t)w;
  COMBO_RUN(sym[rank], len);
  const uint32_t more = (uint32_t)rng_below(r, 7);
  for (uint32_t i = 0; i < more; i++) { COMBO_LIT(rng_below(r, 3) ? 1 + rng_below(r, 40) : 0); COMBO_RUN(sym[rng_below(r, COMBO_R)], (shortRun + (uint32_t)rng_below(r, 60) + (uint32_t)w - 1) / (uint32_t)w * (uint32_t)w); }
  if (rng_below(r, 2)) COMBO_LIT(1 + rng_below(r, 50));
  *shape = "combination";
  return n;
}
