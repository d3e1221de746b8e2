// Shared by every harness: codec table (public API only), SIMD level control, PRNG, guarded buffers, event counters.
#ifndef vcommon_h__
#define vcommon_h__

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rle.h"
#include "simd_platform.h"
#undef min
#undef max
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>

typedef uint32_t (*codec_fn)(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
typedef uint32_t (*bounds_fn)(const uint32_t);

enum { FAM_BASE, FAM_LUT, FAM_LE, FAM_SH, FAM_MMTF, FAM_TRANS, FAM_COUNT };
enum { CF_SINGLE = 1, CF_SYM = 2, CF_BYTE = 4, CF_GREEDY = 8, CF_PACKED = 16, CF_SHORT = 32 };

typedef struct
{
  const char *name, *cname, *dname;
  codec_fn comp, decomp;
  bounds_fn bounds;
  int fam, width, lut, flags;
} vcodec_t;

extern const vcodec_t vcodecs[];
extern const int vcodec_count;
extern const char *vfam_names[FAM_COUNT];

// SIMD levels: what `--max-simd <level>` leaves enabled.
enum { LV_AVX512F, LV_AVX2, LV_AVX, LV_SSE42, LV_SSE41, LV_SSSE3, LV_SSE3, LV_SSE2, LV_NONE, LV_COUNT };
extern const char *vlevel_names[LV_COUNT];
bool vlevel_available(int level); // is this level supported by the machine?
void vlevel_set(int level);       // restrict the library to `level`.

// PRNG (xoshiro-ish splitmix64).
typedef struct { uint64_t s; } rng_t;
static inline uint64_t rng_next(rng_t *r) { uint64_t z = (r->s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static inline uint64_t rng_below(rng_t *r, uint64_t n) { return n ? rng_next(r) % n : 0; }
static inline uint64_t rng_in(rng_t *r, uint64_t lo, uint64_t hi) { return lo + rng_below(r, hi - lo + 1); }
static inline rng_t rng_seed(uint64_t a, uint64_t b) { rng_t r = { a * 0xD1342543DE82EF95ULL + b * 0x2545F4914F6CDD1DULL + 0x1234567 }; rng_next(&r); rng_next(&r); return r; }

uint64_t vhash(const void *p, size_t n);

// Guarded memory: PROT_NONE page(s) on both sides of a usable region.
typedef struct { uint8_t *base; size_t map; uint8_t *lo, *hi; size_t usable; } arena_t; // [lo, hi) usable
extern int arena_half;
void arena_make(arena_t *a, size_t usable);
void arena_free(arena_t *a);

// Fault capture.
#include <setjmp.h>
#include <signal.h>
extern sigjmp_buf vjmp;
extern volatile sig_atomic_t vjmp_armed;
extern void *volatile vfault_addr;
extern volatile int vfault_sig, vfault_write;
void vfault_install(void);
#define VTRY (vjmp_armed = 1, sigsetjmp(vjmp, 1) == 0)
#define VEND (vjmp_armed = 0)

#endif
