#include "common.h"
#include <sys/mman.h>
#include <unistd.h>
#include <ucontext.h>

const vcodec_t vcodecs[] = {
#include "codec_table.inc"
};
const int vcodec_count = sizeof(vcodecs) / sizeof(vcodecs[0]);
const char *vfam_names[FAM_COUNT] = { "base", "lut", "lowentropy", "sh", "mmtf", "transform" };
const char *vlevel_names[LV_COUNT] = { "avx512f", "avx2", "avx", "sse4.2", "sse4.1", "ssse3", "sse3", "sse2", "none" };

static bool captured = false;
static bool cap_512, cap_2, cap_1, cap_42, cap_41, cap_s3, cap_3, cap_sse2, cap_fma;
static bool *const ext512[] = { &avx512PFSupported, &avx512ERSupported, &avx512CDSupported, &avx512BWSupported, &avx512DQSupported, &avx512VLSupported, &avx512IFMASupported, &avx512VBMISupported, &avx512VNNISupported, &avx512VBMI2Supported, &avx512POPCNTDQSupported, &avx512BITALGSupported, &avx5124VNNIWSupported, &avx5124FMAPSSupported };
enum { EXT512 = sizeof(ext512) / sizeof(ext512[0]) };
static bool cap_ext[EXT512];

static void capture(void)
{
  if (captured) return;
  _DetectCPUFeatures();
  cap_512 = avx512FSupported; cap_2 = avx2Supported; cap_1 = avxSupported; cap_42 = sse42Supported;
  cap_41 = sse41Supported; cap_s3 = ssse3Supported; cap_3 = sse3Supported; cap_sse2 = sse2Supported; cap_fma = fma3Supported;
  for (int i = 0; i < EXT512; i++) cap_ext[i] = *ext512[i];
  captured = true;
}

bool vlevel_available(int level)
{
  capture();
  switch (level)
  {
  case LV_AVX512F: return cap_512;
  case LV_AVX2: return cap_2;
  case LV_AVX: return cap_1;
  case LV_SSE42: return cap_42;
  case LV_SSE41: return cap_41;
  case LV_SSSE3: return cap_s3;
  case LV_SSE3: return cap_3;
  case LV_SSE2: return cap_sse2;
  }
  return true;
}

void vlevel_set(int level)
{
  capture();
  avx512FSupported = cap_512 && level <= LV_AVX512F;
  for (int i = 0; i < EXT512; i++) *ext512[i] = cap_ext[i] && level <= LV_AVX512F;
  avx2Supported = cap_2 && level <= LV_AVX2;
  fma3Supported = cap_fma && level <= LV_AVX2;
  avxSupported = cap_1 && level <= LV_AVX;
  sse42Supported = cap_42 && level <= LV_SSE42;
  sse41Supported = cap_41 && level <= LV_SSE41;
  ssse3Supported = cap_s3 && level <= LV_SSSE3;
  sse3Supported = cap_3 && level <= LV_SSE3;
  sse2Supported = cap_sse2 && level <= LV_SSE2;
}

uint64_t vhash(const void *p, size_t n)
{
  const uint8_t *b = p;
  uint64_t h = 0x9E3779B97F4A7C15ULL ^ n;
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0xD6E8FEB86659FD93ULL; h ^= h >> 32; b += 8; n -= 8; }
  uint64_t v = 0; if (n) memcpy(&v, b, n);
  h = (h ^ v) * 0xD6E8FEB86659FD93ULL; h ^= h >> 29;
  return h;
}

int arena_half; // boundary at an odd multiple of 2 GiB
void arena_make(arena_t *a, size_t usable)
{
  const size_t ps = 4096, guard = ps * 16;
  usable = (usable + ps - 1) & ~(ps - 1);
  a->map = usable + 2 * guard;
  // one page into the arena lies an address that is a multiple of 2 GiB (of 4 GiB unless arena_half is set): buffers can be placed across it, so that arithmetic on truncated addresses shows
  static int turn; a->base = MAP_FAILED;
  for (int k = 0; k < 64 && a->base == MAP_FAILED; k++) a->base = mmap((void *)(0x7B0000000000ULL + 0x80000000ULL * (uint64_t)(4 * k + 66 * turn + (arena_half != 0)) - 4096 - guard), a->map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  turn = (turn + 1) & 15;
  if (a->base == MAP_FAILED) a->base = mmap(NULL, a->map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (a->base == MAP_FAILED) { perror("mmap"); exit(70); }
  if (mprotect(a->base + guard, usable, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(70); }
  a->lo = a->base + guard; a->hi = a->lo + usable; a->usable = usable;
}

void arena_free(arena_t *a) { munmap(a->base, a->map); }

sigjmp_buf vjmp;
volatile sig_atomic_t vjmp_armed;
void *volatile vfault_addr;
volatile int vfault_sig, vfault_write;

static void on_fault(int sig, siginfo_t *si, void *uc)
{
  vfault_sig = sig; vfault_addr = si->si_addr;
  vfault_write = sig == SIGSEGV ? (int)((((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] >> 1) & 1) : 0;
  if (vjmp_armed) { vjmp_armed = 0; siglongjmp(vjmp, 1); }
  signal(sig, SIG_DFL); raise(sig);
}

void vfault_install(void)
{
  static uint8_t stk[1 << 17];
  stack_t ss = { .ss_sp = stk, .ss_size = sizeof(stk) };
  sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGTRAP, &sa, NULL);
}
