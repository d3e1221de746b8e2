// Workload for the sanitizer builds: every codec on heap buffers of exactly the documented sizes. A report of the sanitizer ends the process.
#include "eng.h"
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define INITIALISED(p, n) (__msan_test_shadow(p, n))
#endif
#endif
#ifndef INITIALISED
#define INITIALISED(p, n) ((long)-1)
#endif
void __sanitizer_set_death_callback(void (*)(void));

static const char *at; static int lvNow;
static void death(void)
{
  static char b[600];
  int n = snprintf(b, sizeof(b), "\nSAN-CASE codec=%d name=%s stage=%d index=%llu shape=%s n=%u level=%s call=%s\n", CUR.codec, CUR.codec >= 0 ? vcodecs[CUR.codec].name : "-", CUR.stage, (unsigned long long)CUR.index, CUR.shape ? CUR.shape : "-", CUR.n, vlevel_names[lvNow], at ? at : "-");
  if (write(2, b, n)) {}
}
static uint8_t *copy(const uint8_t *p, uint32_t n) { uint8_t *r = malloc(n ? n : 1); memcpy(r, p, n); return r; }
static void checkInit(const char *what, const uint8_t *p, uint32_t n)
{
  long o = INITIALISED(p, n);
  if (o >= 0) viol("uninitialised", "%s: byte %ld of %u was computed from uninitialised memory", what, o, n);
}

static void pair(const vcodec_t *c, rng_t *r, const uint8_t *in, uint32_t n)
{
  int el = rand_level(r), dl = rand_level(r);
  if (!codec_at_level(c, el)) el = LV_SSE2;
  if (!codec_at_level(c, dl)) dl = LV_SSE2;
  const uint32_t bound = c->bounds(n);
  uint8_t *I = copy(in, n), *C = malloc(bound);
  vlevel_set(lvNow = el); at = "encoder";
  const uint32_t cs = c->comp(I, n, C, bound);
  ev("sanitized-encodes", 1);
  if (cs == 0 || cs > bound) { free(I); free(C); return; } // (judged by C01..C05)
  checkInit("compressed stream", C, cs);
  if (!seen(vhash(C, cs) * 31 + (uint64_t)CUR.codec)) sample("%s: %s input of %u bytes, %s / %s", c->name, CUR.shape, n, vlevel_names[el], vlevel_names[dl]);
  // the stream lies in a buffer of the documented size (the bound), nothing behind it is initialised.
  uint8_t *S = malloc(bound < cs + 128 ? bound : cs + 128); memcpy(S, C, cs); free(C);
  const uint32_t extra = rle_decompress_additional_size();
  uint8_t *D = malloc(n + extra);
  vlevel_set(lvNow = dl); at = "decoder";
  const uint32_t ds = c->decomp(S, cs, D, n);
  ev("sanitized-decodes", 1);
  if (ds == n) checkInit("decoded data", D, n);
  free(I); free(S); free(D);
}

static void lowEntropy(const vcodec_t *c, rng_t *r, const uint8_t *in, uint32_t n)
{
  if (n > 9000) return;
  const bool isShort = strstr(c->cname, "short") != NULL, only = strstr(c->cname, "only_max") != NULL;
  rle8_low_entropy_compress_info_t *info = malloc(sizeof(*info)); rle8_low_entropy_decompress_info_t *dinfo = malloc(sizeof(*dinfo));
  uint8_t *I = copy(in, n), *C = malloc(2 * n + 2048), *H = malloc(32 + 1 + 256);
  vlevel_set(lvNow = rand_level(r)); at = "info API";
  if (only ? rle8_low_entropy_get_compress_info_only_max_frequency(I, n, info) : rle8_low_entropy_get_compress_info(I, n, info))
  {
    const uint32_t hs = rle8_low_entropy_write_compress_info(info, H, 32 + 1 + 256);
    if (hs && hs <= 32 + 1 + 256)
    {
      checkInit("stored info", H, hs);
      uint8_t *H2 = copy(H, hs);
      rle8_low_entropy_read_decompress_info(H2, hs, dinfo); free(H2);
      const uint32_t cs = isShort ? rle8_low_entropy_short_compress_with_info(I, n, info, C, 2 * n + 1024) : rle8_low_entropy_compress_with_info(I, n, info, C, 2 * n + 1024);
      if (cs)
      {
        checkInit("stream of the info API", C, cs);
        uint8_t *S = malloc(2 * n + 2048), *D = malloc(n + rle_decompress_additional_size()); memcpy(S, C, cs);
        vlevel_set(lvNow = rand_level(r));
        const uint32_t ds = isShort ? rle8_low_entropy_short_decompress_with_info(S, S + cs, dinfo, D, n) : rle8_low_entropy_decompress_with_info(S, S + cs, dinfo, D, n);
        if (ds == n) checkInit("decoded data of the info API", D, n);
        free(S); free(D); ev("sanitized-info-api", 1);
      }
    }
  }
  free(C); free(H); free(info); free(dinfo);
  // sub-sections
  uint32_t k = rng_below(r, 4) ? 1 + (uint32_t)rng_below(r, n < 40 ? n : 40) : n; if (k > 400) k = 400;
  const uint32_t bound = rle8m_compress_bounds(k, n);
  if (bound >= n)
  {
    at = "sub-sections"; vlevel_set(lvNow = rand_level(r));
    uint8_t *M = malloc(bound); const uint32_t cs = rle8m_compress(k, I, n, M, bound);
    if (cs && cs <= bound)
    {
      checkInit("stream with sub-sections", M, cs);
      uint8_t *S = malloc(bound), *D = malloc(n + rle_decompress_additional_size()); memcpy(S, M, cs);
      vlevel_set(lvNow = rand_level(r));
      if (rle8m_decompress(S, cs, D, n) == n) checkInit("decoded data with sub-sections", D, n);
      free(S); free(D); ev("sanitized-sub-sections", 1);
    }
    free(M);
  }
  free(I);
}

static void reject(const vcodec_t *c, rng_t *r, const uint8_t *in, uint32_t n)
{
  // invalid arguments on tiny heap buffers
  at = "rejected arguments"; vlevel_set(lvNow = rand_level(r));
  const uint32_t bound = c->bounds(n); const uint32_t small = (uint32_t)rng_below(r, bound < 64 ? bound : 64);
  uint8_t *I = copy(in, n), *C = malloc(small ? small : 1);
  if (small < n) { c->comp(I, n, C, small); ev("sanitized-rejections", 1); }
  if (c->fam != FAM_TRANS) { c->comp(NULL, n, C, bound); c->comp(I, 0, C, bound); c->comp(I, n, NULL, bound); c->decomp(NULL, 1, C, 1); ev("sanitized-rejections", 4); }
  free(I); free(C);
}

static void one(const vcodec_t *c, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)ci;
  pair(c, r, in, n);
  if (c->fam == FAM_LE) lowEntropy(c, r, in, n);
  if (rng_below(r, 8) == 0) reject(c, r, in, n);
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  for (int s = 1; s < 32; s++) if (s == SIGSEGV || s == SIGBUS || s == SIGILL || s == SIGFPE || s == SIGABRT || s == SIGTRAP) signal(s, SIG_DFL);
  __sanitizer_set_death_callback(death);
  eng_cases(one, 40, O.depth ? 6 : 40);
  return eng_finish();
}
