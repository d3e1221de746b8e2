// Concurrent use of the codecs: first use (fresh processes) and stress at a fixed SIMD level. Run under a race detector and without.
#include "eng.h"
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <sys/wait.h>
#include <sys/mman.h>

enum { T = 8, CAP = 24000 };
typedef struct { int codec; uint32_t n, bound, rle8m; uint8_t *in; uint64_t hash; uint32_t size; } job_t;
typedef struct { int id; job_t *jobs; int njobs, order; uint8_t *cmp, *dec; uint64_t rng; bool perturb; char msg[300]; int bad, badJob; uint64_t calls; } th_t;
static th_t th[T];
static volatile int gate;

static uint32_t enc(const job_t *j, uint8_t *out) { return j->rle8m ? rle8m_compress(j->rle8m, j->in, j->n, out, j->bound) : vcodecs[j->codec].comp(j->in, j->n, out, j->bound); }
static uint32_t dec(const job_t *j, const uint8_t *c, uint32_t cs, uint8_t *out) { return j->rle8m ? rle8m_decompress(c, cs, out, j->n) : vcodecs[j->codec].decomp(c, cs, out, j->n); }

static void run_job(th_t *t, int k)
{
  const job_t *j = &t->jobs[k];
  const uint32_t cs = enc(j, t->cmp); t->calls++;
  if (t->perturb && (t->rng = t->rng * 6364136223846793005ULL + 1) >> 62 == 0) sched_yield();
  if (cs == 0 || cs > j->bound) { if (!t->bad) { t->bad = 1; t->badJob = k; snprintf(t->msg, sizeof(t->msg), "thread %d: encoder returned %u", t->id, cs); } return; }
  if (j->size && (cs != j->size || vhash(t->cmp, cs) != j->hash)) { if (!t->bad) { t->bad = 1; t->badJob = k; snprintf(t->msg, sizeof(t->msg), "thread %d: stream differs from the single threaded one (%u vs %u bytes)", t->id, cs, j->size); } return; }
  memset(t->dec, 0x3C, j->n + 128);
  const uint32_t ds = dec(j, t->cmp, cs, t->dec); t->calls++;
  if (ds != j->n || memcmp(t->dec, j->in, j->n)) { if (!t->bad) { t->bad = 1; t->badJob = k; snprintf(t->msg, sizeof(t->msg), "thread %d: decoder returned %u of %u bytes%s", t->id, ds, j->n, ds == j->n ? ", with wrong contents" : ""); } }
}

static void *body(void *p)
{
  th_t *t = p;
  __atomic_add_fetch(&gate, 1, __ATOMIC_SEQ_CST);
  while (__atomic_load_n(&gate, __ATOMIC_SEQ_CST) < T) __builtin_ia32_pause();
  if (t->perturb) for (volatile uint32_t w = (uint32_t)(t->rng >> 33) % 3000; w; w--) { }
  for (int k = 0; k < t->njobs && !t->bad; k++) run_job(t, (k + t->order) % t->njobs);
  return NULL;
}

static void go(void)
{
  pthread_t p[T];
  gate = 0;
  for (int i = 0; i < T; i++) if (pthread_create(&p[i], NULL, body, &th[i])) exit(70);
  for (int i = 0; i < T; i++) pthread_join(p[i], NULL);
}

static void make_job(job_t *j, rng_t *r, int codec, uint32_t cap)
{
  const char *shape;
  j->codec = codec; j->rle8m = 0; j->size = 0;
  j->n = gen_random(r, &vcodecs[codec], j->in, cap, &shape);
  if (j->n > CAP) j->n = CAP;
  j->bound = vcodecs[codec].bounds(j->n);
  if (vcodecs[codec].fam == FAM_LE && rng_below(r, 3) == 0) { j->rle8m = 1 + (uint32_t)rng_below(r, j->n < 9 ? j->n : 9); j->bound = rle8m_compress_bounds(j->rle8m, j->n); }
}

static uint8_t *big_in(void) { return malloc(GEN_MAX + 4096); }

// --- first use
typedef struct { char msg[300]; int bad, codec; uint64_t calls; } sh_t;
static void first_use(void)
{
  sh_t *S = mmap(NULL, sizeof(sh_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static job_t jobs[T];
  for (int i = 0; i < T; i++) { jobs[i].in = big_in(); th[i].cmp = malloc(CAP * 2 + 8192); th[i].dec = malloc(CAP + 8192); th[i].jobs = &jobs[i]; th[i].njobs = 1; th[i].id = i; th[i].order = 0; }
  for (uint64_t k = 0; k < O.count && !eng_deadline(); k++)
  {
    if (k % (uint64_t)O.shards != (uint64_t)O.shard) continue;
    rng_t r = rng_seed(O.seed * 31 + 5, k);
    const bool same = rng_below(&r, 2); const int c0 = (int)(k % (uint64_t)vcodec_count);
    for (int i = 0; i < T; i++) { make_job(&jobs[i], &r, same || i == 0 ? c0 : (int)rng_below(&r, (uint64_t)vcodec_count), 600); th[i].rng = rng_next(&r); th[i].perturb = rng_below(&r, 2); th[i].bad = 0; th[i].calls = 0; }
    memset(S, 0, sizeof(*S));
    fflush(stdout);
    const pid_t p = fork();
    if (p == 0)
    {
      go();
      for (int i = 0; i < T; i++) { S->calls += th[i].calls; if (th[i].bad && !S->bad) { S->bad = 1; S->codec = jobs[i].codec; memcpy(S->msg, th[i].msg, sizeof(S->msg)); } }
      exit(0);
    }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) exit(70);
    CUR.codec = S->bad ? S->codec : c0; CUR.stage = ST_OTHER; CUR.index = k; CUR.in = NULL; CUR.shape = "first-use";
    snprintf(CUR.what, sizeof(CUR.what), "first use by %d threads at once, %s", T, same ? "same codec" : "mixed codecs");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { viol("race", "the race detector reported a data race during the first use (its report is in the log)"); continue; }
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { viol("thread-crash", "process ended with status %x", st); continue; }
    if (S->bad) { viol("thread-result", "%s", S->msg); continue; }
    ev("first-use-processes", 1); ev("concurrent-calls", S->calls);
    if (!seen(rng_next(&r))) sample("first use: %s at once on %d threads", vcodecs[c0].name, T);
  }
}

// --- stress
static void stress(void)
{
  enum { J = 6 };
  static job_t jobs[T][J];
  for (int i = 0; i < T; i++) { for (int k = 0; k < J; k++) jobs[i][k].in = big_in(); th[i].cmp = malloc(CAP * 2 + 8192); th[i].dec = malloc(CAP + 8192); th[i].id = i; th[i].jobs = jobs[i]; th[i].njobs = J; }
  for (uint64_t k = 0; k < O.count && !eng_deadline(); k++)
  {
    if (k % (uint64_t)O.shards != (uint64_t)O.shard) continue;
    rng_t r = rng_seed(O.seed * 77 + 9, k);
    const int c0 = (int)(k % (uint64_t)vcodec_count); int lv = rand_level(&r);
    const bool same = rng_below(&r, 3) != 0;
    if (lv == LV_NONE) lv = LV_SSE2;
    for (int i = 0; i < T; i++)
      for (int q = 0; q < J; q++)
        make_job(&jobs[i][q], &r, same ? c0 : (int)rng_below(&r, (uint64_t)vcodec_count), 3000);
    vlevel_set(lv);
    CUR.codec = c0; CUR.stage = ST_OTHER; CUR.index = k; CUR.in = NULL; CUR.shape = "stress";
    snprintf(CUR.what, sizeof(CUR.what), "%d threads x %d jobs, %s at %s", T, J, same ? "same codec" : "mixed codecs", vlevel_names[lv]);
    for (int i = 0; i < T; i++) for (int q = 0; q < J; q++) { job_t *j = &jobs[i][q]; const uint32_t s = enc(j, th[0].cmp); j->size = s; j->hash = vhash(th[0].cmp, s); }
    for (int i = 0; i < T; i++) { th[i].rng = rng_next(&r); th[i].perturb = rng_below(&r, 2); th[i].bad = 0; th[i].calls = 0; th[i].order = (int)rng_below(&r, J); }
    // confine the threads to few cores every now and then: more preemption in the middle of the calls.
    cpu_set_t all, few; sched_getaffinity(0, sizeof(all), &all);
    bool confined = rng_below(&r, 3) == 0;
    if (confined) { CPU_ZERO(&few); int left = 2; for (int c = (int)rng_below(&r, 64), q = 0; q < 1024 && left; q++, c = (c + 1) % 1024) if (CPU_ISSET(c, &all)) { CPU_SET(c, &few); left--; } sched_setaffinity(0, sizeof(few), &few); }
    go();
    if (confined) sched_setaffinity(0, sizeof(all), &all);
    for (int i = 0; i < T; i++)
    {
      ev("concurrent-calls", th[i].calls);
      if (th[i].bad) { job_t *j = &jobs[i][th[i].badJob]; CUR.codec = j->codec; CUR.in = j->in; CUR.n = j->n; viol("thread-result", "%s", th[i].msg); break; }
    }
    ev("stress-rounds", 1); ev(confined ? "rounds-on-two-cores" : "rounds-on-all-cores", 1);
    if (!seen(rng_next(&r))) sample("stress: %s", CUR.what);
  }
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  struct itimerval_dummy { int x; } d; (void)d;
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = SIG_DFL;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGFPE, &sa, NULL);
  sa.sa_handler = SIG_IGN; sigaction(SIGVTALRM, &sa, NULL);
  if (!strcmp(O.mode, "first")) first_use(); else stress();
  return eng_finish();
}
