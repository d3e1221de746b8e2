// Large inputs (C21): runs and literals of up to the largest supported input size, as one block or next to each other. The input is a copy-on-write mapping of a repeated
// pattern, so that a gigabyte of it takes next to no memory.
#define _GNU_SOURCE
#include "eng.h"
#include <sys/mman.h>
#include <unistd.h>

enum { P = 3 << 20 };   // bytes per repetition: a multiple of all symbol sizes and of the page size
static int fd = -1;
static uint8_t *pat;    // the same memory, writeable
static uint8_t *INP, *CMP, *OUTP; static size_t INCAP, CMPCAP;

static void *reserve(size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) exit(70); madvise(p, n, MADV_HUGEPAGE); return p; }
static void drop(uint8_t *p, size_t n) { madvise(p, n, MADV_DONTNEED); }

// maps `n` bytes at `at` (page aligned) with the pattern
static void mapPattern(uint8_t *at, size_t n)
{
  for (size_t o = 0; o < n; o += P) { size_t l = n - o < P ? (n - o + 4095) & ~(size_t)4095 : P; if (mmap(at + o, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) exit(70); }
}
static void noise(rng_t *r, uint8_t *p, size_t n, size_t from)
{
  static const int d[] = { 1, 2, 3, 4, 6, 8, 16 };
  for (size_t i = 0; i < n; i++)
    for (;;)
    {
      uint8_t b = (uint8_t)rng_next(r); bool ok = true;
      for (unsigned k = 0; k < sizeof(d) / sizeof(d[0]) && ok; k++) { size_t j = from + i; if (j >= (size_t)d[k] && p[(ptrdiff_t)i - d[k]] == b) ok = false; if (i + d[k] >= P && n == P && p[i + d[k] - P] == b && i + d[k] - P < i) ok = false; }
      if (ok) { p[i] = b; break; }
    }
}

typedef struct { int codec, kind; uint64_t n; uint64_t cut; } item_t;
// kinds: 0 one run, 1 one literal, 2 run then literal, 3 literal then run, 4 one literal and a minimal run at its end, 5 one run and a few literal bytes, 6 mostly runs, many of them
static const char *kn[] = { "one run", "one literal", "run, literal", "literal, run", "literal, short run", "run, few literal bytes", "tiles of runs and literals" };

static uint32_t build(const item_t *it, const vcodec_t *c, rng_t *r, uint64_t *cutOut)
{
  const int w = c->width ? c->width : 1; const uint32_t n = (uint32_t)it->n; uint8_t sym[32]; gen_symbol(r, w, sym);
  bool run = it->kind == 0 || it->kind == 2 || it->kind == 5;
  if (it->kind == 6)
  { // tiles: a stretch of runs and literals of assorted lengths, repeated
    size_t o = 0; while (o < P) { size_t l = 1 + rng_below(r, rng_below(r, 3) ? 300 : 70000); if (l > P - o) l = P - o; if (rng_below(r, 2)) { gen_symbol(r, w, sym); for (size_t i = 0; i < l; i++) pat[o + i] = sym[i % (size_t)w]; } else for (size_t i = 0; i < l; i++) pat[o + i] = (uint8_t)rng_next(r); o += l; }
  }
  else if (run) for (size_t i = 0; i < P; i++) pat[i] = sym[i % (size_t)w];
  else noise(r, pat, P, 0);
  mapPattern(INP, n);
  uint64_t cut = n;
  if (it->kind == 2 || it->kind == 3)
  {
    // The second half is private memory. `cut`: where it starts.
    cut = it->cut; if (cut >= n) cut = n - 1;
    cut -= cut % (uint64_t)w; if (!cut) cut = (uint64_t)w;
    if (it->kind == 3) for (uint64_t i = cut; i < n; i++) INP[i] = sym[i % (uint64_t)w];
    else { static uint8_t *alt; if (!alt) { alt = malloc(P); } noise(r, alt, P, 0); for (uint64_t i = cut; i < n; i += P) memcpy(INP + i, alt, n - i < P ? n - i : P); }
  }
  if (it->kind == 4) { uint32_t l = (uint32_t)w * (4 + (uint32_t)rng_below(r, 40)); uint32_t s = n - l; s -= s % (uint32_t)w; for (uint32_t i = s; i < n; i++) INP[i] = sym[i % (uint32_t)w]; }
  if (it->kind == 5) { uint32_t l = 1 + (uint32_t)rng_below(r, 40); for (uint32_t i = n - l; i < n; i++) INP[i] = (uint8_t)rng_next(r); }
  *cutOut = cut;
  return n;
}

#define PLAIN(stmt, res) do { (res).ok = false; if (VTRY) { stmt; (res).ok = true; } VEND; if (!(res).ok) { (res).sig = vfault_sig; (res).addr = vfault_addr; (res).wr = vfault_write; (res).hang = false; } } while (0)

static void one(const item_t *it, uint64_t index)
{
  const vcodec_t *c = &vcodecs[it->codec]; rng_t r = rng_seed(O.seed * 31337 + 21, index); uint64_t cut;
  CUR.codec = it->codec; CUR.stage = ST_OTHER; CUR.index = index; CUR.shape = kn[it->kind]; CUR.in = NULL; CUR.n = (uint32_t)it->n;
  int el = rand_level(&r), dl = rand_level(&r); if (!codec_at_level(c, el)) el = LV_SSE2; if (!codec_at_level(c, dl)) dl = LV_SSE2;
  const uint32_t n = build(it, c, &r, &cut); const uint32_t bound = c->bounds(n);
  snprintf(CUR.what, sizeof(CUR.what), "%s of %u bytes (second part at %llu), encode@%s decode@%s", kn[it->kind], n, (unsigned long long)cut, vlevel_names[el], vlevel_names[dl]);
  if (bound == 0) { if (it->n <= (1u << 30)) viol("bounds", "%u bytes are not supported", n); ev("unsupported-sizes", 1); return; }
  static call_t t; volatile uint32_t cs = 0, ds = 0;
  // both buffers end at an unmapped page
  const size_t cmap = ((size_t)bound + 4095) & ~(size_t)4095, omap = ((size_t)n + rle_decompress_additional_size() + 4095) & ~(size_t)4095;
  CMP = reserve(cmap + 4096); mprotect(CMP + cmap, 4096, PROT_NONE); OUTP = reserve(omap + 4096); mprotect(OUTP + omap, 4096, PROT_NONE);
  uint8_t *C = CMP + cmap - bound, *D = OUTP + omap - n - rle_decompress_additional_size();
  vlevel_set(el);
  PLAIN(cs = c->comp(INP, n, C, bound), t);
  if (!t.ok) viol("crash", "encoder: signal %d (%s) at offset %lld of the compressed buffer, %lld of the input", t.sig, t.wr ? "write" : "read", (long long)((uint8_t *)t.addr - C), (long long)((uint8_t *)t.addr - INP));
  else if (cs == 0 || cs > bound) viol("encode", "encoder returned %u, bound %u", cs, bound);
  else
  {
    ev("encoded-megabytes", n >> 20); ev("compressed-megabytes", cs >> 20);
    vlevel_set(dl);
    PLAIN(ds = c->decomp(C, cs, D, n), t);
    if (!t.ok) viol("crash", "decoder: signal %d (%s) at offset %lld of the output, %lld of the stream of %u bytes", t.sig, t.wr ? "write" : "read", (long long)((uint8_t *)t.addr - D), (long long)((uint8_t *)t.addr - C), cs);
    else if (ds != n) viol("size", "decoder returned %u instead of %u", ds, n);
    else if (memcmp(INP, D, n)) { uint32_t i = 0; while (INP[i] == D[i]) i++; viol("content", "byte %u of %u is %02X instead of %02X", i, n, D[i], INP[i]); }
    else { ev("round-trips", 1); char k[60]; static char names[64][60]; static int nn; snprintf(k, sizeof(k), "round-trips: %s%s", kn[it->kind], n >= 1u << 30 ? ", 1 GiB and more" : ""); int j = 0; while (j < nn && strcmp(names[j], k)) j++; if (j == nn && nn < 64) strcpy(names[nn++], k); ev(names[j], 1); }
    uint64_t h = n * 0x9E3779B97F4A7C15ULL + it->kind * 977 + (uint64_t)it->codec * 131071 + cut; seen(h); sample("%s: %s, compressed to %u", c->name, CUR.what, cs);
  }
  munmap(CMP, cmap + 4096); munmap(OUTP, omap + 4096);
  mmap(INP, INCAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  fd = memfd_create("pattern", 0); if (fd < 0 || ftruncate(fd, P)) exit(70);
  pat = mmap(NULL, P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  INCAP = ((size_t)1 << 32) + P; INP = reserve(INCAP);
  static item_t items[400000]; uint32_t m = 0;
  rng_t r = rng_seed(O.seed * 9176 + 21, 0);
  static const uint64_t edges[] = { 1 << 23, 1 << 24, (1 << 24) + (1 << 16), 1 << 25, 3 << 23 };
  // the heaviest first, so that the shards are balanced
  for (int pass = 0; pass < 3; pass++)
    for (int ci = 0; ci < vcodec_count; ci++)
    {
      if ((O.only_codec >= 0 && ci != O.only_codec) || !fam_selected(&vcodecs[ci])) continue;
      const bool wide = vcodecs[ci].bounds(0xFFFFF000u) != 0 || vcodecs[ci].bounds(3u << 30) != 0;
      if (pass == 0 && strstr(O.mode, "huge"))
      {
        const int pick = rng_below(&r, 4) ? (int)rng_below(&r, 2) : 2 + (int)rng_below(&r, 4);
        for (int k = 0; k < 6; k++)
        {
          if (O.depth || k == pick) items[m++] = (item_t){ ci, k, 1u << 30, 1 + rng_below(&r, (1u << 30) - 1) };
          if (O.depth || k == (pick ^ 1) || k == 4) items[m++] = (item_t){ ci, k, (1u << 27) + rng_below(&r, 1u << 20), 1 + rng_below(&r, 1u << 27) };
          if (O.depth) items[m++] = (item_t){ ci, k, (1u << 30) - rng_below(&r, 4000), 1 + rng_below(&r, 1u << 30) };
        }
      }
      if (pass == 1 && wide && strstr(O.mode, "wide"))
        for (int k = 0; k < 6; k++)
        {
          if (!O.depth && k != (int)((ci / 2 + O.seed) & 1)) continue;
          if (O.depth) items[m++] = (item_t){ ci, k, vcodecs[ci].fam == FAM_TRANS ? 0xFFFFFFFFull - rng_below(&r, 4096) : 0xFFFFFFFFull - 300 - rng_below(&r, 4096), (1ull << 31) + rng_below(&r, 1u << 30) };
          items[m++] = (item_t){ ci, k, (1ull << 31) + rng_below(&r, 4096) - (O.depth ? 2048 : 0), 1 + rng_below(&r, 1u << 30) };
        }
      if (pass == 2 && strstr(O.mode, "some")) // up to 20 MiB
        for (uint64_t q = 0; q < O.count; q++)
        {
          const uint64_t n = ((uint64_t)600000 << rng_below(&r, 6)) + rng_below(&r, 1000000);
          items[m++] = (item_t){ ci, (int)(q % 7), n, 1 + rng_below(&r, n - 1) };
        }
      if (pass == 2 && strstr(O.mode, "mid"))
        for (uint64_t q = 0; q < O.count; q++)
        {
          const uint64_t e = edges[rng_below(&r, 5)] + rng_below(&r, 80) - 40; const int k = (int)(q % 7);
          const uint64_t other = rng_below(&r, 2) ? 1 + rng_below(&r, 2000) : 1 + rng_below(&r, 1 << 22);
          items[m++] = k == 2 || k == 3 ? (rng_below(&r, 2) ? (item_t){ ci, k, e + other, e } : (item_t){ ci, k, e + other, other }) : (item_t){ ci, k, e, 0 };
        }
    }
  for (uint32_t i = m; i > 1; i--) { uint32_t j = (uint32_t)rng_below(&r, i); item_t t = items[i - 1]; items[i - 1] = items[j]; items[j] = t; }
  for (uint32_t i = 0; i < m; i++)
  {
    if (i % (uint32_t)O.shards != (uint32_t)O.shard || (O.only_index >= 0 && (uint64_t)O.only_index != i)) continue;
    if (codec_muted(items[i].codec) || eng_deadline()) continue;
    one(&items[i], i); ev("large-inputs", 1);
  }
  return eng_finish();
}
