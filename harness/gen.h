// Codec-aware workload generator. Deterministic in (seed, codec, stage, index).
#ifndef vgen_h__
#define vgen_h__
#include "common.h"

#define GEN_MAX ((1u << 20) + (1u << 16)) // largest input the generator emits (bigger inputs have their own check).

// Random stage: any shape. `cap` limits the size. Returns the size (>= 1). `shape` receives a static description.
uint32_t gen_random(rng_t *r, const vcodec_t *c, uint8_t *buf, uint32_t cap, const char **shape);

// Systematic stages.
uint32_t gen_grid_count(const vcodec_t *c, int depth);
uint32_t gen_grid(uint32_t index, rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape);

uint32_t gen_edge_count(const vcodec_t *c, int depth); // run / literal lengths around 2^15, 2^16, 2^17, 2^18
uint32_t gen_edge(uint32_t index, rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape);
uint32_t gen_combo_count(const vcodec_t *c, int depth); // recency of the symbol x run length x literal length
uint32_t gen_combo(uint32_t index, rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape);

// Long stage: 16 kB .. 600 kB of everything above, one after the other, with the occasional very long run or literal.
uint32_t gen_long(rng_t *r, const vcodec_t *c, uint8_t *buf, const char **shape);

// building blocks
uint32_t gen_len(rng_t *r, int w, uint32_t cap);
void gen_symbol(rng_t *r, int w, uint8_t *sym);
void gen_literal(rng_t *r, uint8_t *dst, uint32_t n, const uint8_t *avoid, int w);
#endif
