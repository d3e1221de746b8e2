// Side effect monitor (C26). The library is a shared object of its own, so that its writable memory (data, bss, thread local storage) is known; its calls to the allocator are
// routed to counters; the calls are made on a painted stack, in a process in which every system call and every read of the time stamp counter raises a signal.
#define _GNU_SOURCE
#include "eng.h"
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <stddef.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>

// allocator (the library is linked with --wrap)
static volatile bool active; static volatile uint64_t allocs; static const char *volatile allocFn;
void *__wrap_malloc(size_t n) { if (active) { allocs++; allocFn = "malloc"; } return malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (active) { allocs++; allocFn = "calloc"; } return calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (active) { allocs++; allocFn = "realloc"; } return realloc(p, n); }
void __wrap_free(void *p) { if (active) { allocs++; allocFn = "free"; } free(p); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (active) { allocs++; allocFn = "aligned_alloc"; } return aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (active) { allocs++; allocFn = "posix_memalign"; } return posix_memalign(p, a, n); }

// writable memory of the library
static struct { uint8_t *p, *copy, *init; size_t n; const char *what; } SEG[16]; static int nSEG;
static const char *soPath;
static int onObject(struct dl_phdr_info *i, size_t sz, void *u)
{
  (void)sz; (void)u; if (!i->dlpi_name || strcmp(i->dlpi_name, soPath)) return 0;
  for (int k = 0; k < i->dlpi_phnum && nSEG < 16; k++)
  {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) { SEG[nSEG].p = (uint8_t *)i->dlpi_addr + h->p_vaddr; SEG[nSEG].n = h->p_memsz; SEG[nSEG++].what = "global variables"; }
    if (h->p_type == PT_TLS && i->dlpi_tls_data) { SEG[nSEG].p = i->dlpi_tls_data; SEG[nSEG].n = h->p_memsz; SEG[nSEG++].what = "thread local variables"; }
  }
  return 1;
}
static void snapshot(void) { for (int i = 0; i < nSEG; i++) memcpy(SEG[i].copy, SEG[i].p, SEG[i].n); }

// painted stack
enum { STACK = 1 << 20, LIMIT = 64 << 10 };
static uint8_t *stk; uint64_t args[6]; uint64_t savedSP;
extern uint32_t onStack(void);
asm(".text\n.globl onStack\nonStack:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp, savedSP(%rip)\n mov args+0(%rip), %rdi\n mov args+8(%rip), %rsi\n mov args+16(%rip), %rdx\n mov args+24(%rip), %rcx\n mov args+40(%rip), %rsp\n call *args+32(%rip)\n mov savedSP(%rip), %rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");


typedef struct { uint32_t ret; uint64_t allocs; const char *allocFn; uint32_t mxcsr[2]; uint16_t cw[2], tags; int err; size_t stack; long seg, segOff; bool df; } effect_t;
static uint16_t fpTags(void) { struct { uint16_t w[14]; } e; asm volatile("fnstenv %0\n fldenv %0" : "=m"(e)); return e.w[4]; }
static void effects(codec_fn f, const uint8_t *in, uint32_t n, uint8_t *out, uint32_t outN, effect_t *e)
{
  args[0] = (uint64_t)in; args[1] = n; args[2] = (uint64_t)out; args[3] = outN; args[4] = (uint64_t)f; args[5] = (uint64_t)(stk + STACK - 256);
  snapshot(); allocs = 0; errno = 4711; uint64_t fl;
  asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(e->mxcsr[0]), "=m"(e->cw[0]));
  active = true; e->ret = onStack(); asm volatile("pushfq\n pop %0\n cld" : "=r"(fl)); active = false;
  asm volatile("stmxcsr %0\n fnstcw %1" : "=m"(e->mxcsr[1]), "=m"(e->cw[1]));
  e->df = (fl >> 10) & 1; e->err = errno; e->tags = fpTags(); e->allocs = allocs; e->allocFn = allocFn;
  static uint8_t paint[4096]; if (!paint[0]) memset(paint, 0xA5, sizeof(paint));
  size_t lo = 0; while (lo < STACK && !memcmp(stk + lo, paint, 4096)) lo += 4096;
  while (lo < STACK && *(uint64_t *)(stk + lo) == 0xA5A5A5A5A5A5A5A5ull) lo += 8;
  e->stack = STACK - lo; memset(stk + lo, 0xA5, STACK - lo);
  e->seg = -1; for (int i = 0; i < nSEG && e->seg < 0; i++) if (memcmp(SEG[i].p, SEG[i].copy, SEG[i].n)) for (size_t o = 0; o < SEG[i].n; o++)
    if (SEG[i].p[o] != SEG[i].copy[o]) { if (SEG[i].init[o]) { e->seg = i; e->segOff = (long)o; break; } SEG[i].init[o] = 1; ev("bytes-initialised-on-first-use", 1); } // a variable may be initialised once
}

static const vcodec_t *LC; static void (*lvSet)(int); static uint32_t (*addSize)(void);
static uint64_t maxStack;
static const char *segName(int s, long off, char *b)
{
  Dl_info d; if (s >= 0 && !strcmp(SEG[s].what, "global variables") && dladdr(SEG[s].p + off, &d) && d.dli_sname) { snprintf(b, 120, "'%s'", d.dli_sname); return b; }
  snprintf(b, 120, "%s (offset %ld)", s >= 0 ? SEG[s].what : "?", off); return b;
}
static bool check(const char *what, const effect_t *e)
{
  char b[128];
  if (e->allocs) { viol("heap", "%s called %s (%llu calls)", what, e->allocFn, (unsigned long long)e->allocs); return false; }
  if (e->seg >= 0) { viol("state", "%s changed %s of the library", what, segName((int)e->seg, e->segOff, b)); return false; }
  if ((e->mxcsr[0] ^ e->mxcsr[1]) & 0xFFC0) { viol("fpu", "%s changed MXCSR from %04x to %04x", what, e->mxcsr[0], e->mxcsr[1]); return false; }
  if (e->cw[0] != e->cw[1]) { viol("fpu", "%s changed the x87 control word from %04x to %04x", what, e->cw[0], e->cw[1]); return false; }
  if (e->tags != 0xFFFF) { viol("fpu", "%s left x87 / MMX registers in use (%04x)", what, e->tags); return false; }
  if (e->df) { viol("flags", "%s left the direction flag set", what); return false; }
  if (e->err != 4711) { viol("errno", "%s set errno to %d", what, e->err); return false; }
  if (e->stack > LIMIT) { viol("stack", "%s used %zu bytes of stack, more than %d", what, e->stack, (int)LIMIT); return false; }
  if (e->stack > maxStack) maxStack = e->stack;
  return true;
}
static const char *phase = "";
static void one(const vcodec_t *cx, int ci, rng_t *r, const uint8_t *in, uint32_t n)
{
  (void)cx; const vcodec_t *c = &LC[ci]; const int el = rand_level(r), dl = rand_level(r); if (!codec_at_level(c, el) || !codec_at_level(c, dl)) return;
  snprintf(CUR.what, sizeof(CUR.what), "encode@%s decode@%s", vlevel_names[el], vlevel_names[dl]);
  const uint32_t add = addSize(), bound = c->bounds(n); memcpy(A_IN.lo, in, n); effect_t e;
  lvSet(el); phase = "encoding"; effects(c->comp, A_IN.lo, n, A_CMP.lo, bound, &e); phase = "";
  if (!check("encoding", &e)) return;
  if (!e.ret || e.ret > bound) { ev("encoder-failed", 1); return; }
  const uint32_t cs = e.ret; memset(A_CMP.lo + cs, 0, add);
  lvSet(dl); phase = "decoding"; effects(c->decomp, A_CMP.lo, cs, A_OUT.lo, n + add, &e); phase = "";
  if (!check("decoding", &e)) return;
  ev("observed-calls", 2); seen(vhash(A_CMP.lo, cs) ^ (uint64_t)ci * 1000003);
  if (!(rng_next(r) & 15)) { lvSet(el); effects(c->comp, A_IN.lo, n, A_CMP.lo, bound - 1, &e); if (!check("rejecting a short buffer", &e)) return; effects(c->decomp, NULL, cs, A_OUT.lo, n, &e); if (!check("rejecting NULL", &e)) return; ev("observed-rejections", 2); }
}

// One forked child per batch: installs the filter, makes the calls of the batch, and reports through shared memory.
typedef struct { volatile int codec, phase, el; volatile uint32_t n; volatile int done; volatile long nr; volatile int sig; volatile void *addr; } shared_t;
static shared_t *SH;
static void childSig(int s, siginfo_t *i, void *u) { (void)u; SH->sig = s; SH->nr = s == SIGSYS ? i->si_syscall : -1; SH->addr = i->si_addr; syscall(SYS_exit, 3); }
typedef struct { uint32_t n; int el, dl; uint8_t data[9000]; } case_t;
static void sysOne(int ci, rng_t *seedr, uint64_t batch)
{
  enum { B = 24 }; static case_t cs[B]; const vcodec_t *c = &LC[ci]; int k = 0; const char *sh;
  for (k = 0; k < B; k++) { cs[k].n = gen_random(seedr, &vcodecs[ci], cs[k].data, 9000, &sh); do cs[k].el = rand_level(seedr), cs[k].dl = rand_level(seedr); while (!codec_at_level(c, cs[k].el) || !codec_at_level(c, cs[k].dl)); }
  memset((void *)SH, 0, sizeof(*SH)); fflush(stdout);
  pid_t p = fork(); if (p < 0) exit(70);
  if (!p)
  {
    struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = childSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; int s[] = { SIGSYS, SIGSEGV, SIGBUS, SIGILL, SIGFPE }; for (int i = 0; i < 5; i++) sigaction(s[i], &sa, NULL);
    struct itimerval { long a[4]; } z = { { 0, 0, 0, 0 } }; syscall(SYS_setitimer, 1, &z, 0);
    struct sock_filter f[] = { BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit, 1, 0), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW) };
    struct sock_fprog pr = { sizeof(f) / sizeof(f[0]), f };
    if (prctl(PR_SET_TSC, PR_TSC_SIGSEGV, 0, 0, 0)) SH->codec = -2;
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { SH->done = -1; syscall(SYS_exit, 0); }
    const uint32_t add = 4096;
    for (int i = 0; i < B; i++)
    {
      const uint32_t n = cs[i].n; SH->n = n; SH->el = cs[i].el; SH->phase = 1; lvSet(cs[i].el); memcpy(A_IN.lo, cs[i].data, n);
      const uint32_t m = c->comp(A_IN.lo, n, A_CMP.lo, c->bounds(n));
      if (!m || m > c->bounds(n)) { SH->phase = 9; break; }
      memset(A_CMP.lo + m, 0, add); lvSet(cs[i].dl); SH->el = cs[i].dl; SH->phase = 2;
      c->decomp(A_CMP.lo, m, A_OUT.lo, n + add); SH->phase = 0; SH->done = i + 1;
    }
    syscall(SYS_exit, 0);
  }
  int st; waitpid(p, &st, 0);
  CUR.codec = ci; CUR.stage = ST_OTHER; CUR.index = batch; CUR.in = NULL; CUR.n = SH->n; CUR.shape = "-"; snprintf(CUR.what, sizeof(CUR.what), "%s @%s", SH->phase == 1 ? "encoding" : "decoding", vlevel_names[SH->el]);
  if (SH->done == -1) { ev("filter-not-available", 1); return; }
  if (SH->sig == SIGSYS) { viol("syscall", "%s made system call %ld", SH->phase == 1 ? "encoding" : "decoding", SH->nr); return; }
  if (SH->sig || WIFSIGNALED(st)) { viol("signal", "%s with system calls and the time stamp counter disabled raised signal %d at %p", SH->phase == 1 ? "encoding" : "decoding", SH->sig ? SH->sig : WTERMSIG(st), (void *)SH->addr); return; }
  ev("calls-without-system-calls", 2 * (uint64_t)SH->done);
}

int main(int argc, char **argv)
{
  eng_init(argc, argv); if (!O.extra) return 70;
  soPath = O.extra; void *so = dlopen(soPath, RTLD_NOW | RTLD_LOCAL); if (!so) { fprintf(stderr, "%s\n", dlerror()); return 70; }
  LC = dlsym(so, "vcodecs"); lvSet = dlsym(so, "vlevel_set"); addSize = dlsym(so, "rle_decompress_additional_size"); if (!LC || !lvSet || !addSize) return 70;
  if (strcmp(O.mode, "sys") == 0)
  { // first use included: the very first calls happen in the child
    SH = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 }; sigaltstack(&ss, NULL);
    for (int ci = 0; ci < vcodec_count; ci++) for (uint64_t k = 0; k < O.count; k++) { if ((int)((k + (uint64_t)ci) % (uint64_t)O.shards) != O.shard || codec_muted(ci) || eng_deadline()) continue; rng_t r = rng_seed(O.seed * 104729 + (uint64_t)ci, k); sysOne(ci, &r, k); }
    return eng_finish();
  }
  stk = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memset(stk, 0xA5, STACK);
  // first use (feature detection) is allowed to set the library's feature flags
  { uint8_t a[64] = { 1 }, b[8192]; for (int i = 0; i < vcodec_count; i++) LC[i].comp(a, 64, b, LC[i].bounds(64)); }
  lvSet(LV_SSE2);
  dl_iterate_phdr(onObject, NULL); if (!nSEG) { fprintf(stderr, "no writable segment found\n"); return 70; }
  for (int i = 0; i < nSEG; i++) { SEG[i].copy = malloc(SEG[i].n); SEG[i].init = calloc(1, SEG[i].n); ev(SEG[i].what, SEG[i].n); }
  eng_cases(one, 8, 8);
  char nm[64]; snprintf(nm, sizeof(nm), "largest-stack-use-of-shard"); ev(strdup(nm), maxStack);
  return eng_finish();
}
