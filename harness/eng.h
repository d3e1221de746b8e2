// Execution engine shared by the monitors: guarded / canaried buffers, fault capture, hang watchdog, violation records, event counters.
#ifndef veng_h__
#define veng_h__
#include "common.h"
#include "gen.h"
#include <stdarg.h>

typedef struct
{
  const char *prop, *outdir, *mode;
  uint64_t seed;
  int shard, shards, depth;
  uint64_t count;      // random cases per codec (all shards together)
  double deadline;     // seconds of wall time after which the workload is cut short (reported as such)
  int only_codec, only_stage; int64_t only_index; // replay
  char fams[64];
  const char *extra;
} opts_t;
extern opts_t O;

enum { ST_GRID, ST_EDGE, ST_RANDOM, ST_LONG, ST_COMBO, ST_OTHER, ST_COUNT };

// current case (for reports)
typedef struct { int codec, stage; uint64_t index; const uint8_t *in; uint32_t n; const char *shape; char what[200]; } cur_t;
extern cur_t CUR;

void eng_init(int argc, char **argv);
int eng_finish(void); // prints the counters, returns the exit code
bool eng_deadline(void);

// counters: name must be a literal / persistent string.
void ev(const char *name, uint64_t add);
bool seen(uint64_t hash);        // true if (approximately) seen before; counts distinct values
void sample(const char *fmt, ...); // keeps the first few samples

// violation: returns after recording.
void viol(const char *kind, const char *fmt, ...);
bool codec_muted(int codec);     // stop exploring a codec that already produced enough violations

typedef struct { bool ok; uint32_t ret; int sig; void *addr; int wr; bool hang; } call_t;
call_t call4(codec_fn f, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t outN);
#define GUARDED(stmt, res) do { (res).ok = false; (res).hang = false; eng_arm(); if (VTRY) { stmt; (res).ok = true; } VEND; eng_disarm(); if (!(res).ok) { (res).sig = vfault_sig; (res).addr = vfault_addr; (res).wr = vfault_write; (res).hang = vfault_sig == SIGVTALRM; } } while (0)
void eng_arm(void);
void eng_disarm(void);
const char *fault_str(const call_t *c);

bool codec_at_level(const vcodec_t *c, int level); // false: documented to fail at this level (needs SSE2)
int rand_level(rng_t *r);
bool fam_selected(const vcodec_t *c);

// arenas (one each for input, compressed, output)
extern arena_t A_IN, A_CMP, A_OUT, A_TMP;
extern uint8_t *RAW; // generator buffer

// for every codec / stage / index that belongs to this shard
typedef void (*case_fn)(const vcodec_t *c, int codec, rng_t *r, const uint8_t *in, uint32_t n);
void eng_cases(case_fn fn, int gridDiv, int edgeDiv);

static inline bool has_header(const vcodec_t *c) { return c->fam != FAM_TRANS; }
static inline uint32_t hdr_u32(const uint8_t *p, int i) { uint32_t v; memcpy(&v, p + 4 * i, 4); return v; }
#endif
