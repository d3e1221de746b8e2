#include "eng.h"
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/stat.h>

opts_t O = { .prop = "C00", .outdir = "/tmp", .mode = "", .seed = 1, .shard = 0, .shards = 1, .count = 1000, .deadline = 300, .only_codec = -1, .only_stage = -1, .only_index = -1 };
cur_t CUR;
arena_t A_IN, A_CMP, A_OUT, A_TMP;
uint8_t *RAW;

static double t0;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

#define MAXEV 400
static struct { const char *n; uint64_t v; } EV[MAXEV];
static int nEV;
void ev(const char *name, uint64_t add)
{
  for (int i = 0; i < nEV; i++) if (EV[i].n == name) { EV[i].v += add; return; }
  for (int i = 0; i < nEV; i++) if (!strcmp(EV[i].n, name)) { EV[i].v += add; return; }
  if (nEV < MAXEV) { EV[nEV].n = name; EV[nEV++].v = add; }
}

static uint8_t *bloom; static uint64_t distinct;
#define BLOOM_BITS (1u << 27)
bool seen(uint64_t h)
{
  if (!bloom) { bloom = mmap(NULL, BLOOM_BITS / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  h ^= h >> 31; h *= 0x9E3779B97F4A7C15ULL; h >>= 37;
  uint8_t *b = bloom + (h >> 3), m = (uint8_t)(1u << (h & 7));
  if (*b & m) return true;
  *b |= m; distinct++;
  return false;
}

static int nSample;
void sample(const char *fmt, ...)
{
  if (nSample >= 3 || O.shard != 0) return;
  nSample++;
  va_list a; va_start(a, fmt); char s[500]; vsnprintf(s, sizeof(s), fmt, a); va_end(a);
  printf("SAMPLE %s\n", s);
}

static int nViol; static int violByCodec[512];
int nViolations(void) { return nViol; }
bool codec_muted(int codec) { return codec >= 0 && codec < 512 && violByCodec[codec] >= 3; }

void viol(const char *kind, const char *fmt, ...)
{
  nViol++;
  if (CUR.codec >= 0 && CUR.codec < 512) violByCodec[CUR.codec]++;
  if (nViol > 60) return;
  va_list a; va_start(a, fmt); char s[900]; vsnprintf(s, sizeof(s), fmt, a); va_end(a);
  for (char *p = s; *p; p++) if (*p == '"' || *p == '\\' || (unsigned char)*p < 32) *p = '\'';
  char path[600] = "";
  if (CUR.in && CUR.n)
  {
    snprintf(path, sizeof(path), "%s/%s-%s-s%d-%d.bin", O.outdir, O.prop, kind, O.shard, nViol);
    FILE *f = fopen(path, "wb"); if (f) { fwrite(CUR.in, 1, CUR.n, f); fclose(f); }
  }
  printf("V {\"kind\":\"%s\",\"codec\":\"%s\",\"stage\":%d,\"index\":%llu,\"shape\":\"%s\",\"n\":%u,\"inhash\":\"%016llx\",\"what\":\"%s\",\"detail\":\"%s\",\"seed\":%llu,\"mode\":\"%s\",\"input\":\"%s\"}\n",
    kind, CUR.codec >= 0 && CUR.codec < vcodec_count ? vcodecs[CUR.codec].name : "-", CUR.stage, (unsigned long long)CUR.index, CUR.shape ? CUR.shape : "-", CUR.n, CUR.in ? (unsigned long long)vhash(CUR.in, CUR.n) : 0ULL, CUR.what, s, (unsigned long long)O.seed, O.mode, path);
  fflush(stdout);
}

// hang watchdog: CPU time of a single call.
static volatile uint32_t ticks, armed;
static void on_tick(int sig)
{
  (void)sig;
  if (!armed) return;
  if (++ticks >= 40) { ticks = 0; vfault_sig = SIGVTALRM; vfault_addr = NULL; vfault_write = 0; if (vjmp_armed) { vjmp_armed = 0; siglongjmp(vjmp, 1); } }
}
void eng_arm(void) { ticks = 0; armed = 1; }
void eng_disarm(void) { armed = 0; }

const char *fault_str(const call_t *c)
{
  static char b[200];
  if (c->hang) return "no return within 20 s of CPU time";
  const char *where = "elsewhere"; long off = 0;
  struct { arena_t *a; const char *n; } as[] = { { &A_IN, "input buffer" }, { &A_CMP, "compressed buffer" }, { &A_OUT, "output buffer" }, { &A_TMP, "scratch buffer" } };
  for (int i = 0; i < 4; i++)
    if ((uint8_t *)c->addr >= as[i].a->base && (uint8_t *)c->addr < as[i].a->base + as[i].a->map) { where = as[i].n; off = (uint8_t *)c->addr >= as[i].a->hi ? (long)((uint8_t *)c->addr - as[i].a->hi) : (long)((uint8_t *)c->addr - as[i].a->lo); }
  snprintf(b, sizeof(b), "signal %d (%s) at the %s guard, offset %ld", c->sig, c->wr ? "write" : "read", where, off);
  return b;
}

call_t call4(codec_fn f, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t outN)
{
  static call_t r;
  r.ret = 0; r.sig = 0;
  volatile uint32_t ret = 0;
  GUARDED(ret = f(in, n, out, outN), r);
  r.ret = ret;
  return r;
}

bool codec_at_level(const vcodec_t *c, int level)
{
  // documented: "If SSE2 is not available, both of these functions will fail and return 0."
  if (level == LV_NONE && (strstr(c->cname, "mmtf128") || strstr(c->cname, "mmtf256"))) return false;
  return true;
}

int rand_level(rng_t *r)
{
  static int lv[16], n = -1;
  if (n < 0) { static const int order[] = { LV_AVX512F, LV_AVX512F, LV_AVX2, LV_AVX2, LV_AVX, LV_SSE42, LV_SSE41, LV_SSSE3, LV_SSE3, LV_SSE2, LV_SSE2, LV_NONE }; n = 0; for (unsigned i = 0; i < sizeof(order) / sizeof(order[0]); i++) if (vlevel_available(order[i])) lv[n++] = order[i]; }
  return lv[rng_below(r, (uint64_t)n)];
}

bool fam_selected(const vcodec_t *c)
{
  if (!O.fams[0]) return true;
  char key[32]; snprintf(key, sizeof(key), ",%s,", vfam_names[c->fam]);
  char all[80]; snprintf(all, sizeof(all), ",%s,", O.fams);
  return strstr(all, key) != NULL;
}

bool eng_deadline(void)
{
  static bool hit;
  if (!hit && now() - t0 > O.deadline) { hit = true; printf("CUT deadline\n"); }
  return hit;
}

void eng_init(int argc, char **argv)
{
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  for (int i = 1; i + 1 < argc; i += 2)
  {
    const char *k = argv[i], *v = argv[i + 1];
    if (!strcmp(k, "--mode")) O.mode = v;
    else if (!strcmp(k, "--prop")) O.prop = v;
    else if (!strcmp(k, "--out")) O.outdir = v;
    else if (!strcmp(k, "--seed")) O.seed = strtoull(v, NULL, 0);
    else if (!strcmp(k, "--shard")) sscanf(v, "%d/%d", &O.shard, &O.shards);
    else if (!strcmp(k, "--depth")) O.depth = atoi(v);
    else if (!strcmp(k, "--count")) O.count = strtoull(v, NULL, 0);
    else if (!strcmp(k, "--deadline")) O.deadline = atof(v);
    else if (!strcmp(k, "--fams")) snprintf(O.fams, sizeof(O.fams), "%s", v);
    else if (!strcmp(k, "--codec")) O.only_codec = atoi(v);
    else if (!strcmp(k, "--stage")) O.only_stage = atoi(v);
    else if (!strcmp(k, "--index")) O.only_index = atoll(v);
    else if (!strcmp(k, "--extra")) O.extra = v;
    else { fprintf(stderr, "unknown option %s\n", k); exit(70); }
  }
  t0 = now();
  CUR.codec = -1;
  vfault_install();
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGVTALRM, &sa, NULL);
  struct itimerval it = { { 0, 500000 }, { 0, 500000 } }; setitimer(ITIMER_VIRTUAL, &it, NULL);
  const size_t sz = GEN_MAX + (1 << 16);
  arena_half = O.shard % 3 == 2;
  arena_make(&A_IN, sz); arena_make(&A_CMP, sz + (1 << 15)); arena_make(&A_OUT, sz + (1 << 15)); arena_make(&A_TMP, sz + (1 << 15));
  RAW = malloc(sz);
}

int eng_finish(void)
{
  for (int i = 0; i < nEV; i++) printf("EV %s %llu\n", EV[i].n, (unsigned long long)EV[i].v);
  printf("DISTINCT %llu\n", (unsigned long long)distinct);
  printf("DONE %d\n", nViol);
  fflush(stdout);
  return nViol ? 1 : 0;
}

void eng_cases(case_fn fn, int gridDiv, int edgeDiv)
{
  static const char *stn[] = { "cases:grid", "cases:edge", "cases:random", "cases:long", "cases:combination" };
  for (int ci = 0; ci < vcodec_count; ci++)
  {
    const vcodec_t *c = &vcodecs[ci];
    if (!fam_selected(c) || (O.only_codec >= 0 && O.only_codec != ci)) continue;
    for (int st = ST_GRID; st <= ST_COMBO; st++)
    {
      if (O.only_stage >= 0 && O.only_stage != st) continue;
      uint64_t total = st == ST_GRID ? (gridDiv ? gen_grid_count(c, O.depth) : 0) : st == ST_EDGE ? (edgeDiv ? gen_edge_count(c, O.depth) : 0) : st == ST_LONG ? (edgeDiv ? (O.depth ? 600 : 64) : 0) : st == ST_COMBO ? (edgeDiv && c->fam != FAM_TRANS ? gen_combo_count(c, O.depth) : 0) : O.count;
      const uint64_t div = st == ST_GRID ? (uint64_t)gridDiv : st == ST_EDGE || st == ST_LONG || st == ST_COMBO ? (uint64_t)edgeDiv : 1;
      if (!total) continue;
      for (uint64_t k = 0; k < total; k++)
      {
        if (((k * 0x9E3779B97F4A7C15ULL) >> 40) % (uint64_t)O.shards != (uint64_t)O.shard) continue;
        if (O.only_index >= 0 && (uint64_t)O.only_index != k) continue;
        rng_t r = rng_seed(O.seed * 1000003ULL + (uint64_t)ci * 977ULL + (uint64_t)st, k);
        if (div > 1 && rng_below(&r, div)) continue;
        if (codec_muted(ci) || eng_deadline()) break;
        const char *shape = "";
        uint32_t n;
        if (st == ST_GRID) n = gen_grid((uint32_t)k, &r, c, RAW, &shape);
        else if (st == ST_EDGE) n = gen_edge((uint32_t)k, &r, c, RAW, &shape);
        else if (st == ST_LONG) n = gen_long(&r, c, RAW, &shape);
        else if (st == ST_COMBO) n = gen_combo((uint32_t)k, &r, c, RAW, &shape);
        else n = gen_random(&r, c, RAW, 9000, &shape);
        CUR.codec = ci; CUR.stage = st; CUR.index = k; CUR.in = RAW; CUR.n = n; CUR.shape = shape; CUR.what[0] = 0;
        ev(stn[st], 1);
        ev(shape, 1);
        fn(c, ci, &r, RAW, n);
      }
    }
  }
}
