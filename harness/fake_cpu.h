// Forced into the translation unit of the CPU feature detection: CPUID and XGETBV answer from a table.
#ifndef fake_cpu_h__
#define fake_cpu_h__
#include <cpuid.h>
#include <x86intrin.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void fake_cpuid(uint32_t leaf, uint32_t sub, uint32_t r[4]);
uint64_t fake_xgetbv(uint32_t i);
#ifdef __cplusplus
}
#endif
#undef __cpuid
#undef __cpuid_count
#define __cpuid_count(leaf, sub, a, b, c, d) do { uint32_t fr_[4]; fake_cpuid((uint32_t)(leaf), (uint32_t)(sub), fr_); (a) = fr_[0]; (b) = fr_[1]; (c) = fr_[2]; (d) = fr_[3]; } while (0)
#define __cpuid(leaf, a, b, c, d) __cpuid_count(leaf, 0, a, b, c, d)
static inline int fake_get_cpuid_count(uint32_t leaf, uint32_t sub, void *a, void *b, void *c, void *d) { uint32_t r[4]; fake_cpuid(0, 0, r); if (r[0] < leaf) return 0; fake_cpuid(leaf, sub, r); *(uint32_t *)a = r[0]; *(uint32_t *)b = r[1]; *(uint32_t *)c = r[2]; *(uint32_t *)d = r[3]; return 1; }
#define __get_cpuid_count(leaf, sub, a, b, c, d) fake_get_cpuid_count((uint32_t)(leaf), (uint32_t)(sub), a, b, c, d)
#define __get_cpuid(leaf, a, b, c, d) fake_get_cpuid_count((uint32_t)(leaf), 0, a, b, c, d)
static inline unsigned fake_get_cpuid_max(void) { uint32_t r[4]; fake_cpuid(0, 0, r); return r[0]; }
#define __get_cpuid_max(a, b) fake_get_cpuid_max()
#undef _xgetbv
#define _xgetbv(i) fake_xgetbv((uint32_t)(i))
#endif
