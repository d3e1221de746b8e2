// Records which basic blocks of the library are entered at which SIMD level (trace-pc instrumentation), on the whole workload. A block that is entered is executed up to its first branch.
#include "eng.h"

extern char __executable_start, etext;
static uint8_t *hit[LV_COUNT], *cur;
static uintptr_t base, len;
static uint64_t entered;
static int used[LV_COUNT];

void __sanitizer_cov_trace_pc(void)
{
  const uintptr_t a = (uintptr_t)__builtin_return_address(0) - base;
  if (cur && a < len) { cur[a] = 1; entered++; }
}

#define AT(lv) do { vlevel_set(lv); used[lv] = 1; cur = hit[lv]; } while (0)

static void case_blocks(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  uint8_t *I = A_IN.lo + 256 + rng_below(r, 32), *C = A_CMP.lo + 256 + rng_below(r, 32), *D = A_OUT.lo + 256 + rng_below(r, 32);
  memcpy(I, in, n);
  const uint32_t bound = c->bounds(n);
  int le, ld;
  do le = rand_level(r); while (!vlevel_available(le) || (le == LV_NONE && !codec_at_level(c, le)));
  do ld = rand_level(r); while (!vlevel_available(ld) || (ld == LV_NONE && !codec_at_level(c, ld)));
  AT(le);
  call_t e = call4(c->comp, I, n, C, bound);
  cur = NULL;
  if (!e.ok || !e.ret) { ev("encode-failed", 1); return; } // judged elsewhere
  AT(ld);
  call_t d = call4(c->decomp, C, e.ret, D, n);
  cur = NULL;
  if (!d.ok) ev("decode-failed", 1);
  ev("block-calls", 2);
  seen(vhash(C, e.ret) * 31 + (uint64_t)ci * 256 + (uint64_t)le * 16 + (uint64_t)ld);
  if (c->fam == FAM_LE && n < 20000)
  {
    const uint32_t sec = 1 + (uint32_t)rng_below(r, 9);
    const uint32_t mb = sec <= n ? rle8m_compress_bounds(sec, n) : 0;
    if (!mb || mb > A_CMP.usable - 4096) return;
    AT(le);
    const uint32_t ms = rle8m_compress(sec, I, n, C, mb);
    cur = NULL;
    if (ms) { AT(ld); rle8m_decompress(C, ms, D, n); cur = NULL; ev("block-calls", 2); }
  }
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  base = (uintptr_t)&__executable_start; len = (uintptr_t)&etext - base;
  for (int i = 0; i < LV_COUNT; i++) hit[i] = calloc(1, len + 1);
  eng_cases(case_blocks, 4, 8);
  ev("blocks-entered", entered);
  char path[700]; snprintf(path, sizeof(path), "%s/blk-%d.txt", O.outdir, O.shard);
  FILE *f = fopen(path, "w"); if (!f) exit(70);
  for (int lv = 0; lv < LV_COUNT; lv++)
  {
    if (!used[lv]) continue;
    fprintf(f, "L %s\n", vlevel_names[lv]);
    for (uintptr_t a = 0; a < len; a++) if (hit[lv][a]) fprintf(f, "%lx\n", (unsigned long)a);
  }
  fclose(f);
  return eng_finish();
}
