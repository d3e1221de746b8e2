// The CPU feature detection on emulated machines: random and real CPUID words and XCR0 states.
#include "eng.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>

typedef struct { uint32_t max, l1c, l1d, l7b, l7c, l7d, l7a; uint64_t xcr0; const char *name; bool exact; } cpu_t;
static cpu_t M; static volatile uint64_t nCpuid, nXget; static volatile bool badXget, badLeaf;

void fake_cpuid(uint32_t leaf, uint32_t sub, uint32_t r[4])
{
  nCpuid++;
  memset(r, 0, 16);
  if (leaf > M.max && leaf < 0x80000000u) { badLeaf = true; r[0] = r[1] = r[2] = r[3] = 0xFFFFFFFFu; return; } // undefined garbage on real machines
  if (leaf == 0) { r[0] = M.max; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; }
  else if (leaf == 1) { r[0] = 0x306A9; r[2] = M.l1c; r[3] = M.l1d; }
  else if (leaf == 7 && sub == 0) { r[0] = M.l7a; r[1] = M.l7b; r[2] = M.l7c; r[3] = M.l7d; }
  else if (leaf == 0x80000000u) r[0] = 0x80000001u;
}
uint64_t fake_xgetbv(uint32_t i) { nXget++; if (!(M.l1c >> 27 & 1)) badXget = true; return i == 0 ? M.xcr0 : 0; }

typedef struct { const char *n; bool *flag; bool may; } f_t;
// flags that no codec uses may vanish: not an error of the harness
#pragma weak avx512PFSupported
#pragma weak avx512ERSupported
#pragma weak avx512IFMASupported
#pragma weak avx512VNNISupported
#pragma weak avx512VBMI2Supported
#pragma weak avx512POPCNTDQSupported
#pragma weak avx512BITALGSupported
#pragma weak avx5124VNNIWSupported
#pragma weak avx5124FMAPSSupported
#pragma weak fma3Supported
#pragma weak aesNiSupported

// features only ever come on top of the ones they build on
static bool consistent(void)
{
  const uint32_t c = M.l1c, b = M.l7b;
  if (M.max < 1 || !(M.l1d >> 25 & 1) || !(M.l1d >> 26 & 1)) return false;
  const int chain[] = { 0, 9, 19, 20, 28 }; // SSE3, SSSE3, SSE4.1, SSE4.2, AVX
  for (int i = 1; i < 5; i++) if ((c >> chain[i] & 1) && !(c >> chain[i - 1] & 1)) return false;
  if ((c >> 28 & 1) && !(c >> 26 & 1)) return false; // AVX without XSAVE
  if ((c >> 27 & 1) && !(c >> 26 & 1)) return false; // OSXSAVE without XSAVE
  if (!(c >> 28 & 1) && (c >> 12 & 1)) return false; // FMA3 without AVX
  if (M.max < 7) return true;
  if (!(c >> 28 & 1) && (b >> 5 & 1)) return false; // AVX2 without AVX
  if (!(b >> 5 & 1) && (b >> 16 & 1)) return false; // AVX512F without AVX2
  if (!(b >> 16 & 1) && ((b & (1u << 17 | 1u << 21 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 30 | 1u << 31)) || (M.l7c & (1u << 1 | 1u << 6 | 1u << 11 | 1u << 12 | 1u << 14)) || (M.l7d & (1u << 2 | 1u << 3)))) return false;
  return (M.xcr0 & 1) && (!(M.xcr0 & 4) || (M.xcr0 & 2));
}

static const char *judge(char *msg, size_t ms)
{
  const bool os = M.l1c >> 27 & 1, l7 = M.max >= 7, l1 = M.max >= 1;
  const bool ymm = l1 && os && (M.xcr0 & 6) == 6, zmm = ymm && (M.xcr0 & 0xE6) == 0xE6, avx = ymm && (M.l1c >> 28 & 1);
#define B7(w, b) (l7 && (M.w >> b & 1))
  f_t fs[] = { { "SSE", &sseSupported, l1 && M.l1d >> 25 & 1 }, { "SSE2", &sse2Supported, l1 && M.l1d >> 26 & 1 }, { "SSE3", &sse3Supported, l1 && M.l1c & 1 }, { "SSSE3", &ssse3Supported, l1 && M.l1c >> 9 & 1 },
    { "SSE4.1", &sse41Supported, l1 && M.l1c >> 19 & 1 }, { "SSE4.2", &sse42Supported, l1 && M.l1c >> 20 & 1 }, { "AES", &aesNiSupported, l1 && M.l1c >> 25 & 1 },
    { "AVX", &avxSupported, avx }, { "FMA3", &fma3Supported, ymm && M.l1c >> 12 & 1 }, { "AVX2", &avx2Supported, ymm && B7(l7b, 5) },
    { "AVX512F", &avx512FSupported, zmm && B7(l7b, 16) }, { "AVX512BW", &avx512BWSupported, zmm && B7(l7b, 30) }, { "AVX512VL", &avx512VLSupported, zmm && B7(l7b, 31) },
    { "AVX512DQ", &avx512DQSupported, zmm && B7(l7b, 17) }, { "AVX512CD", &avx512CDSupported, zmm && B7(l7b, 28) }, { "AVX512VBMI", &avx512VBMISupported, zmm && B7(l7c, 1) },
    { "AVX512PF", &avx512PFSupported, zmm && B7(l7b, 26) }, { "AVX512ER", &avx512ERSupported, zmm && B7(l7b, 27) }, { "AVX512IFMA", &avx512IFMASupported, zmm && B7(l7b, 21) }, { "AVX512VNNI", &avx512VNNISupported, zmm && B7(l7c, 11) },
    { "AVX512VBMI2", &avx512VBMI2Supported, zmm && B7(l7c, 6) }, { "AVX512POPCNTDQ", &avx512POPCNTDQSupported, zmm && B7(l7c, 14) }, { "AVX512BITALG", &avx512BITALGSupported, zmm && B7(l7c, 12) },
    { "AVX5124VNNIW", &avx5124VNNIWSupported, zmm && B7(l7d, 2) }, { "AVX5124FMAPS", &avx5124FMAPSSupported, zmm && B7(l7d, 3) } };
  for (unsigned i = 0; i < sizeof(fs) / sizeof(fs[0]); i++)
  {
    if (fs[i].flag == NULL) continue;
    if (*fs[i].flag && !fs[i].may) { snprintf(msg, ms, "%s reported although %s", fs[i].n, "the CPU or the operating system does not provide it"); return fs[i].n; }
    if (M.exact && !*fs[i].flag && fs[i].may) { snprintf(msg, ms, "%s not reported although CPU and operating system provide it", fs[i].n); return fs[i].n; }
  }
  if (badXget) { snprintf(msg, ms, "XGETBV executed although OSXSAVE is not set"); return "xgetbv"; }
  return NULL;
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  // bits of real machines
  enum { D0 = 1u << 25 | 1u << 26 };
  const uint32_t sse3 = 1, ssse3 = 1u << 9, fma = 1u << 12, s41 = 1u << 19, s42 = 1u << 20, popc = 1u << 23, aes = 1u << 25, xsave = 1u << 26, osx = 1u << 27, avx = 1u << 28;
  const uint32_t nehalem = sse3 | ssse3 | s41 | s42 | popc, sandy = nehalem | aes | xsave | osx | avx, haswell = sandy | fma;
  const uint32_t skx = 1u << 5 | 1u << 16 | 1u << 17 | 1u << 28 | 1u << 30 | 1u << 31, knl = 1u << 5 | 1u << 16 | 1u << 26 | 1u << 27 | 1u << 28;
  const cpu_t real[] = {
    { 1, 0, D0, 0, 0, 0, 0, 0, "Willamette", true }, { 5, sse3, D0, 0, 0, 0, 0, 0, "Prescott", true }, { 10, sse3 | ssse3, D0, 0, 0, 0, 0, 0, "Merom", true }, { 10, sse3 | ssse3 | s41, D0, 0, 0, 0, 0, 0, "Penryn", true },
    { 11, nehalem, D0, 0, 0, 0, 0, 0, "Nehalem", true }, { 13, sandy, D0, 0, 0, 0, 0, 7, "Sandy Bridge", true }, { 13, sandy & ~osx, D0, 0, 0, 0, 0, 0, "Sandy Bridge, OS without XSAVE", true }, { 13, sandy, D0, 0, 0, 0, 0, 3, "Sandy Bridge, OS without YMM state", true },
    { 13, haswell, D0, 1u << 5, 0, 0, 0, 7, "Haswell", true }, { 13, haswell & ~osx, D0, 1u << 5, 0, 0, 0, 0, "Haswell, OS without XSAVE", true }, { 13, haswell, D0, 1u << 5, 0, 0, 0, 3, "Haswell, OS without YMM state", true },
    { 22, haswell, D0, skx, 0, 0, 0, 0xE7, "Skylake-X", true }, { 22, haswell, D0, skx, 0, 0, 0, 7, "Skylake-X, OS without ZMM state", true }, { 22, haswell, D0, skx, 0, 0, 0, 0x67, "Skylake-X, OS without upper ZMM state", true }, { 22, haswell, D0, skx, 0, 0, 0, 0x27, "Skylake-X, OS with opmask state only", true },
    { 13, haswell, D0, knl, 0, 0, 0, 0xE7, "Knights Landing", true }, { 3, haswell, D0, skx, 0, 0, 0, 0xE7, "CPUID limited to leaf 3", true }, { 27, haswell, D0, skx, 1u << 1 | 1u << 6 | 1u << 11 | 1u << 12 | 1u << 14, 0, 0, 0xE7, "Ice Lake", true },
    { 27, haswell, D0, skx | 1u << 21, 1u << 1 | 1u << 6 | 1u << 11 | 1u << 12 | 1u << 14, 0, 0, 0xE7, "Tiger Lake", true }, { 13, haswell, D0, knl, 1u << 14, 1u << 2 | 1u << 3, 0, 0xE7, "Knights Mill", true } };
  enum { NREAL = sizeof(real) / sizeof(real[0]) };
  typedef struct { char msg[300]; uint64_t c, x; int bad; uint32_t flags; } sh_t;
  sh_t *S = mmap(NULL, sizeof(sh_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (uint64_t k = 0; k < NREAL + O.count; k++)
  {
    if (k % (uint64_t)O.shards != (uint64_t)O.shard) continue;
    if (k < NREAL) M = real[k];
    else
    {
      rng_t r = rng_seed(O.seed, k);
      M = real[rng_below(&r, NREAL)]; M.exact = false; M.name = "random";
      const int flips = 1 + (int)rng_below(&r, 6);
      for (int i = 0; i < flips; i++)
        switch (rng_below(&r, 7)) { case 6: M.l7d ^= 1u << rng_below(&r, 8); break; case 0: M.l1c ^= 1u << rng_below(&r, 32); break; case 1: M.l7b ^= 1u << rng_below(&r, 32); break; case 2: M.l7c ^= 1u << rng_below(&r, 32); break; case 3: M.xcr0 ^= 1ull << rng_below(&r, 9); break; case 4: M.l1d ^= 1u << (24 + rng_below(&r, 3)); break; default: M.max = (uint32_t)rng_below(&r, 9); break; }
      if (rng_below(&r, 8) == 0) { M.l1c = (uint32_t)rng_next(&r); M.l7b = (uint32_t)rng_next(&r); M.l7c = (uint32_t)rng_next(&r); M.l7d = (uint32_t)rng_next(&r); M.xcr0 = rng_next(&r) & 0xFF; }
      if (consistent()) { M.exact = true; M.name = "random, consistent"; ev("machines-exact", 1); }
    }
    memset(S, 0, sizeof(*S));
    fflush(stdout);
    const pid_t p = fork();
    if (p == 0)
    {
      _DetectCPUFeatures();
      S->c = nCpuid; S->x = nXget; S->bad = judge(S->msg, sizeof(S->msg)) != NULL;
      S->flags = (uint32_t)(sse2Supported | sse3Supported << 1 | ssse3Supported << 2 | sse41Supported << 3 | sse42Supported << 4 | avxSupported << 5 | avx2Supported << 6 | avx512FSupported << 7);
      _exit(0);
    }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) exit(70);
    CUR.codec = -1; CUR.stage = ST_OTHER; CUR.index = k; CUR.shape = M.name;
    snprintf(CUR.what, sizeof(CUR.what), "%s: max leaf %u, 1.ecx %08x, 1.edx %08x, 7.ebx %08x, xcr0 %llx", M.name, M.max, M.l1c, M.l1d, M.l7b, (unsigned long long)M.xcr0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { viol("detect-crash", "the detection ended with status %x", st); continue; }
    if (S->c == 0) { ev("emulation-not-consulted", 1); continue; } // detection does not go through the emulated instructions: nothing observed
    ev("machines", 1);
    if (S->bad) { viol("detect", "%s", S->msg); continue; }
    if (!seen(vhash(&M, sizeof(uint32_t) * 6) ^ M.xcr0 * 77777)) sample("%s -> flags %02x (%llu CPUID, %llu XGETBV)", CUR.what, S->flags, (unsigned long long)S->c, (unsigned long long)S->x);
  }
  return eng_finish();
}
