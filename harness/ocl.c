// An OpenCL 1.2 runtime for the host code of the OpenCL decoder: tracks every object, defers non-blocking commands, compiles the kernels it is given (clang, OpenCL C, with
// AddressSanitizer) and makes any single call (or everything from one call on) fail. Drives random histories of init / decompress / destroy and judges results and resources.
#define _GNU_SOURCE
#include "eng.h"
#include <dlfcn.h>
#include <unistd.h>
#include <ctype.h>
#define CL_USE_DEPRECATED_OPENCL_1_0_APIS
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#define CL_USE_DEPRECATED_OPENCL_1_2_APIS
#define CL_USE_DEPRECATED_OPENCL_2_0_APIS
#include "CL/cl.h"
bool rle8m_opencl_init(const size_t, const size_t, const size_t); void rle8m_opencl_destroy(void); uint32_t rle8m_opencl_decompress(const uint8_t *, const uint32_t, uint8_t *, const uint32_t);
void __sanitizer_set_death_callback(void (*)(void));

static char at[300]; static uint64_t scenario;
static void death(void) { static char b[600]; int n = snprintf(b, sizeof(b), "\nSAN-CASE name=OpenCL decoder stage=3 scenario=%llu call=%s\n", (unsigned long long)scenario, at); if (write(2, b, n)) {} }

// ---- allocations of the code under test
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int api, cl;            // inside an API function under test / inside this runtime
static void *heap[256]; static uint64_t allocs;
static int64_t calls, failAt = -1; static bool sticky, failed; static int failCode; static char failName[64];
static bool fault(const char *name)
{
  calls++;
  if (failAt < 0 || !(sticky ? calls >= failAt : calls == failAt)) return false;
  failed = true; if (!failName[0]) snprintf(failName, sizeof(failName), "%s", name);
  return true;
}
static void *own(void *p) { if (p) { allocs++; for (int i = 0; i < 256; i++) if (!heap[i]) { heap[i] = p; break; } } return p; }
static void drop(void *p) { if (p) for (int i = 0; i < 256; i++) if (heap[i] == p) { heap[i] = NULL; return; } }
void *__wrap_malloc(size_t n) { if (!api || cl) return __real_malloc(n); return fault("malloc") ? NULL : own(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { if (!api || cl) return __real_calloc(a, b); return fault("calloc") ? NULL : own(__real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { if (!api || cl) return __real_realloc(p, n); if (fault("realloc")) return NULL; drop(p); return own(__real_realloc(p, n)); }
void __wrap_free(void *p) { if (api && !cl) drop(p); __real_free(p); }

// ---- objects
enum { O_CONTEXT, O_QUEUE, O_BUFFER, O_PROGRAM, O_KERNEL, O_EVENT };
static const char *onames[] = { "context", "command queue", "buffer", "program", "kernel", "event" };
typedef struct obj { int kind, refs; size_t size; uint8_t *data; cl_mem_flags flags; struct obj *ctx; void *fn; char name[64]; int nargs; char ptr[16]; size_t asize[16]; uint64_t arg[16]; bool set[16]; char *src; void *lib; struct obj *next; } obj_t;
static obj_t *objs; static uint64_t created, released;
static int platformTag, deviceTag[2]; static int nPlatforms = 1, nDevices = 1; static rng_t R; static int lazy;
static bool bad;
#define BAD(kind, ...) do { if (!bad) viol(kind, __VA_ARGS__); bad = true; } while (0)
static obj_t *valid(const void *h, int kind, const char *who)
{
  for (obj_t *o = objs; o; o = o->next) if (o == h && o->kind == kind) { if (o->refs > 0) return o; BAD("use-after-release", "%s was given a %s that has been released", who, onames[kind]); return NULL; }
  BAD("invalid-handle", "%s was given something that is not a %s (%p)", who, onames[kind], h); return NULL;
}
static obj_t *mk(int kind, obj_t *ctx) { obj_t *o = __real_calloc(1, sizeof(obj_t)); o->kind = kind; o->refs = 1; o->ctx = ctx; o->next = objs; objs = o; created++; return o; }
static cl_int unref(void *h, int kind, const char *who) { obj_t *o = NULL; for (obj_t *p = objs; p; p = p->next) if (p == h && p->kind == kind) o = p; if (!o) { BAD("invalid-handle", "%s: not a %s", who, onames[kind]); return -1; } if (o->refs <= 0) { BAD("double-release", "%s: the %s has been released before", who, onames[kind]); return -1; } o->refs--; released++; return CL_SUCCESS; }

// ---- commands
typedef struct { int type; obj_t *mem, *kernel; void *host; size_t off, n; uint64_t hash, arg[16]; size_t groups, local; } cmd_t;
static cmd_t q[64]; static int nq; static uint64_t commands, groupsRun;
static uint64_t CURG[3], CURL[3], NG, NL;
__attribute__((visibility("default"))) uint64_t _Z12get_group_idj(unsigned d) { return d < 3 ? CURG[d] : 0; }
__attribute__((visibility("default"))) uint64_t _Z12get_local_idj(unsigned d) { return d < 3 ? CURL[d] : 0; }
__attribute__((visibility("default"))) uint64_t _Z13get_global_idj(unsigned d) { return d ? 0 : CURG[0] * NL + CURL[0]; }
__attribute__((visibility("default"))) uint64_t _Z14get_num_groupsj(unsigned d) { return d ? 1 : NG; }
__attribute__((visibility("default"))) uint64_t _Z14get_local_sizej(unsigned d) { return d ? 1 : NL; }
__attribute__((visibility("default"))) uint64_t _Z15get_global_sizej(unsigned d) { return d ? 1 : NG * NL; }
typedef void (*kfn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);

static void run1(cmd_t *c)
{
  commands++;
  if (c->type == 0) { if (vhash(c->host, c->n) != c->hash) BAD("host-memory", "the source of a non-blocking write was changed before the command was executed"); memcpy(c->mem->data + c->off, c->host, c->n); }
  else if (c->type == 1) memcpy(c->host, c->mem->data + c->off, c->n);
  else
  {
    uint64_t a[12] = { 0 }, before[16];
    for (int i = 0; i < c->kernel->nargs && i < 12; i++)
    {
      a[i] = c->arg[i];
      if (c->kernel->ptr[i]) { obj_t *m = (obj_t *)(uintptr_t)c->arg[i]; a[i] = (uint64_t)(uintptr_t)m->data; before[i] = m->flags & CL_MEM_READ_ONLY ? vhash(m->data, m->size) : 0; }
    }
    uint32_t *order = __real_malloc(c->groups * 4); for (size_t i = 0; i < c->groups; i++) order[i] = (uint32_t)i;
    for (size_t i = c->groups; i > 1; i--) { size_t j = rng_below(&R, i); uint32_t t = order[i - 1]; order[i - 1] = order[j]; order[j] = t; }
    NG = c->groups; NL = c->local;
    for (size_t i = 0; i < c->groups; i++) for (size_t l = 0; l < c->local; l++) { CURG[0] = order[i]; CURL[0] = l; ((kfn)c->kernel->fn)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); groupsRun++; }
    __real_free(order);
    for (int i = 0; i < c->kernel->nargs && i < 12; i++) if (c->kernel->ptr[i]) { obj_t *m = (obj_t *)(uintptr_t)c->arg[i]; if (m->flags & CL_MEM_READ_ONLY && before[i] != vhash(m->data, m->size)) BAD("read-only", "the kernel modified a read-only buffer"); }
  }
}
static void drain(void) { for (int i = 0; i < nq; i++) run1(&q[i]); nq = 0; }
static void submit(cmd_t c, bool now) { if (now || !lazy) { drain(); run1(&c); } else { if (nq == 64) drain(); q[nq++] = c; } }

#define ENTER(name) cl++; snprintf(at, sizeof(at), "%s", name); const bool flt = fault(name)
#define LEAVE(x) do { __typeof__(x) _x = (x); cl--; return _x; } while (0)
#define CODE(dflt) (failCode ? failCode : (dflt))

cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *p, cl_uint *num) { ENTER("clGetPlatformIDs"); if (flt) LEAVE(CODE(CL_OUT_OF_HOST_MEMORY)); if (nPlatforms == 0) { if (num) *num = 0; LEAVE(rng_below(&R, 2) ? CL_SUCCESS : -1001); } if (num) *num = (cl_uint)nPlatforms; for (cl_uint i = 0; p && i < n && i < (cl_uint)nPlatforms; i++) p[i] = (cl_platform_id)((char *)&platformTag + i); LEAVE(CL_SUCCESS); }
static bool isPlatform(cl_platform_id p) { return (char *)p >= (char *)&platformTag && (char *)p < (char *)&platformTag + nPlatforms; }
static bool isDevice(cl_device_id d) { return (void *)d == &deviceTag[0] || (void *)d == &deviceTag[1]; }
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *num) { ENTER("clGetDeviceIDs"); if (!isPlatform(p)) BAD("invalid-handle", "clGetDeviceIDs was given something that is not a platform"); if (flt) LEAVE(CODE(CL_DEVICE_NOT_FOUND)); if (!nDevices) { if (num) *num = 0; LEAVE(CL_DEVICE_NOT_FOUND); } if (num) *num = (cl_uint)nDevices; for (cl_uint i = 0; d && i < n && i < (cl_uint)nDevices; i++) d[i] = (cl_device_id)&deviceTag[i]; LEAVE(CL_SUCCESS); }
#define RET(v, code) do { if (err) *err = (code); cl--; return (void *)(v); } while (0)
#define CHECKDEV(d, who) if (!isDevice(d)) BAD("invalid-handle", who " was given something that is not a device")
cl_context clCreateContext(const cl_context_properties *pr, cl_uint n, const cl_device_id *d, void (CL_CALLBACK *cb)(const char *, const void *, size_t, void *), void *u, cl_int *err) { ENTER("clCreateContext"); for (cl_uint i = 0; i < n; i++) { CHECKDEV(d[i], "clCreateContext"); } if (flt) RET(NULL, CODE(CL_OUT_OF_RESOURCES)); RET(mk(O_CONTEXT, NULL), CL_SUCCESS); }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *err) { ENTER("clCreateCommandQueue"); obj_t *x = valid(c, O_CONTEXT, "clCreateCommandQueue"); CHECKDEV(d, "clCreateCommandQueue"); if (flt || !x) RET(NULL, CODE(CL_OUT_OF_RESOURCES)); RET(mk(O_QUEUE, x), CL_SUCCESS); }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *host, cl_int *err)
{
  ENTER("clCreateBuffer"); obj_t *x = valid(c, O_CONTEXT, "clCreateBuffer"); if (flt || !x) RET(NULL, CODE(CL_MEM_OBJECT_ALLOCATION_FAILURE)); if (n == 0) RET(NULL, CL_INVALID_BUFFER_SIZE);
  obj_t *o = mk(O_BUFFER, x); o->size = n; o->flags = f; o->data = __real_malloc(n); for (size_t i = 0; i < n; i++) o->data[i] = (uint8_t)rng_next(&R); if (host && f & CL_MEM_COPY_HOST_PTR) memcpy(o->data, host, n); RET(o, CL_SUCCESS);
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err)
{
  ENTER("clCreateProgramWithSource"); obj_t *x = valid(c, O_CONTEXT, "clCreateProgramWithSource"); if (flt || !x) RET(NULL, CODE(CL_OUT_OF_HOST_MEMORY));
  obj_t *o = mk(O_PROGRAM, x); size_t total = 1; for (cl_uint i = 0; i < n; i++) total += len && len[i] ? len[i] : strlen(s[i]);
  o->src = __real_malloc(total); size_t k = 0; for (cl_uint i = 0; i < n; i++) { size_t l = len && len[i] ? len[i] : strlen(s[i]); memcpy(o->src + k, s[i], l); k += l; } o->src[k] = 0; RET(o, CL_SUCCESS);
}
static struct { uint64_t hash; void *lib; } cache[16]; static int nCache;
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id *d, const char *opt, void (CL_CALLBACK *cb)(cl_program, void *), void *u)
{
  ENTER("clBuildProgram"); obj_t *o = valid(p, O_PROGRAM, "clBuildProgram"); for (cl_uint i = 0; i < n; i++) { CHECKDEV(d[i], "clBuildProgram"); } if (flt || !o) LEAVE(CODE(rng_below(&R, 2) ? CL_BUILD_PROGRAM_FAILURE : CL_OUT_OF_HOST_MEMORY));
  const uint64_t h = vhash((uint8_t *)o->src, strlen(o->src));
  for (int i = 0; i < nCache; i++) if (cache[i].hash == h) o->lib = cache[i].lib;
  if (!o->lib)
  {
    char path[400], cmd[1400]; snprintf(path, sizeof(path), "%s/kernel-%d-%d", O.outdir, (int)getpid(), nCache);
    char f[440]; snprintf(f, sizeof(f), "%s.cl", path); FILE *fp = fopen(f, "wb"); if (!fp) exit(70); fputs(o->src, fp); fclose(fp);
    snprintf(cmd, sizeof(cmd), "unset ASAN_OPTIONS UBSAN_OPTIONS; %s -x cl -cl-std=CL1.2 -target x86_64-linux-gnu -fPIC -shared -O1 -g -fsanitize=address %s.cl -o %s.so > %s.log 2>&1", O.extra, path, path, path);
    if (system(cmd)) { fprintf(stderr, "kernel does not compile, see %s.log\n", path); LEAVE(CL_BUILD_PROGRAM_FAILURE); }
    snprintf(f, sizeof(f), "%s.so", path); o->lib = dlopen(f, RTLD_NOW | RTLD_LOCAL); if (!o->lib) { fprintf(stderr, "%s\n", dlerror()); exit(70); }
    if (nCache < 16) { cache[nCache].hash = h; cache[nCache++].lib = o->lib; }
  }
  LEAVE(CL_SUCCESS);
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info w, size_t n, void *v, size_t *r) { ENTER("clGetProgramBuildInfo"); valid(p, O_PROGRAM, "clGetProgramBuildInfo"); if (flt) LEAVE(CODE(CL_OUT_OF_HOST_MEMORY)); if (r) *r = 4; if (v && n >= 4) memcpy(v, "log", 4); LEAVE(CL_SUCCESS); }
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err)
{
  ENTER("clCreateKernel"); obj_t *o = valid(p, O_PROGRAM, "clCreateKernel"); if (flt || !o) RET(NULL, CODE(CL_OUT_OF_HOST_MEMORY)); if (!o->lib) RET(NULL, CL_INVALID_PROGRAM_EXECUTABLE);
  void *fn = dlsym(o->lib, name); if (!fn) RET(NULL, CL_INVALID_KERNEL_NAME);
  obj_t *k = mk(O_KERNEL, o); k->fn = fn; snprintf(k->name, sizeof(k->name), "%s", name);
  const char *s = o->src; const size_t nl = strlen(name);
  while ((s = strstr(s, name)) && (isalnum((unsigned char)s[nl]) || s[nl] == '_')) s += nl;
  if (s && (s = strchr(s, '(')))
  {
    const char *e = strchr(s, ')'); char sig[600]; snprintf(sig, sizeof(sig), "%.*s", (int)(e - s - 1), s + 1);
    for (char *t = strtok(sig, ","); t && k->nargs < 12; t = strtok(NULL, ","))
    { const int i = k->nargs++; k->ptr[i] = strchr(t, '*') != NULL; k->asize[i] = k->ptr[i] ? sizeof(cl_mem) : strstr(t, "char") || strstr(t, "bool") ? 1 : strstr(t, "short") ? 2 : strstr(t, "long") || strstr(t, "size_t") ? 8 : strstr(t, "int") || strstr(t, "float") ? 4 : 0; }
  }
  RET(k, CL_SUCCESS);
}
cl_int clSetKernelArg(cl_kernel h, cl_uint i, size_t n, const void *v)
{
  ENTER("clSetKernelArg"); obj_t *k = valid(h, O_KERNEL, "clSetKernelArg"); if (flt || !k) LEAVE(CODE(CL_OUT_OF_RESOURCES));
  if (i >= (cl_uint)k->nargs) LEAVE(CL_INVALID_ARG_INDEX); if (k->asize[i] && n != k->asize[i]) LEAVE(CL_INVALID_ARG_SIZE);
  k->arg[i] = 0; memcpy(&k->arg[i], v, n > 8 ? 8 : n); if (k->ptr[i] && !valid((void *)(uintptr_t)k->arg[i], O_BUFFER, "clSetKernelArg")) LEAVE(CL_INVALID_MEM_OBJECT);
  k->set[i] = true; LEAVE(CL_SUCCESS);
}
static cl_int rw(const char *who, int type, cl_command_queue h, cl_mem m, cl_bool blocking, size_t off, size_t n, void *p, bool flt)
{
  obj_t *x = valid(h, O_QUEUE, who), *b = valid(m, O_BUFFER, who); if (flt || !x || !b) return CODE(CL_OUT_OF_RESOURCES);
  if (off > b->size || n > b->size - off || !p || !n) return CL_INVALID_VALUE;
  if (x->ctx != b->ctx) return CL_INVALID_CONTEXT;
  cmd_t c = { .type = type, .mem = b, .host = p, .off = off, .n = n }; if (type == 0) c.hash = vhash(p, n);
  if (blocking || rng_below(&R, 4) == 0) { drain(); run1(&c); } else submit(c, false);
  return CL_SUCCESS;
}
cl_int clEnqueueWriteBuffer(cl_command_queue h, cl_mem m, cl_bool b, size_t off, size_t n, const void *p, cl_uint ne, const cl_event *we, cl_event *e) { ENTER("clEnqueueWriteBuffer"); cl_int r = rw("clEnqueueWriteBuffer", 0, h, m, b, off, n, (void *)p, flt); if (e && !r) *e = (cl_event)mk(O_EVENT, NULL); LEAVE(r); }
cl_int clEnqueueReadBuffer(cl_command_queue h, cl_mem m, cl_bool b, size_t off, size_t n, void *p, cl_uint ne, const cl_event *we, cl_event *e) { ENTER("clEnqueueReadBuffer"); cl_int r = rw("clEnqueueReadBuffer", 1, h, m, b, off, n, p, flt); if (e && !r) *e = (cl_event)mk(O_EVENT, NULL); LEAVE(r); }
cl_int clEnqueueNDRangeKernel(cl_command_queue h, cl_kernel kh, cl_uint dim, const size_t *go, const size_t *g, const size_t *l, cl_uint ne, const cl_event *we, cl_event *e)
{
  ENTER("clEnqueueNDRangeKernel"); obj_t *x = valid(h, O_QUEUE, "clEnqueueNDRangeKernel"), *k = valid(kh, O_KERNEL, "clEnqueueNDRangeKernel"); if (flt || !x || !k) LEAVE(CODE(CL_OUT_OF_RESOURCES));
  if (dim != 1 || go) { fprintf(stderr, "unsupported NDRange\n"); exit(70); }
  for (int i = 0; i < k->nargs; i++) if (!k->set[i]) LEAVE(CL_INVALID_KERNEL_ARGS);
  const size_t local = l ? l[0] : 1; if (!g[0] || !local || g[0] % local) LEAVE(CL_INVALID_WORK_GROUP_SIZE);
  cmd_t c = { .type = 2, .kernel = k, .groups = g[0] / local, .local = local }; memcpy(c.arg, k->arg, sizeof(c.arg));
  for (int i = 0; i < k->nargs; i++) if (k->ptr[i] && !valid((void *)(uintptr_t)k->arg[i], O_BUFFER, "clEnqueueNDRangeKernel")) LEAVE(CL_INVALID_KERNEL_ARGS);
  submit(c, false); if (e) *e = (cl_event)mk(O_EVENT, NULL); LEAVE(CL_SUCCESS);
}
cl_int clFinish(cl_command_queue h) { ENTER("clFinish"); obj_t *x = valid(h, O_QUEUE, "clFinish"); if (flt || !x) LEAVE(CODE(CL_OUT_OF_RESOURCES)); drain(); LEAVE(CL_SUCCESS); }
cl_int clFlush(cl_command_queue h) { ENTER("clFlush"); obj_t *x = valid(h, O_QUEUE, "clFlush"); if (flt || !x) LEAVE(CODE(CL_OUT_OF_RESOURCES)); LEAVE(CL_SUCCESS); }
cl_int clWaitForEvents(cl_uint n, const cl_event *e) { ENTER("clWaitForEvents"); if (flt) LEAVE(CODE(CL_OUT_OF_RESOURCES)); drain(); LEAVE(CL_SUCCESS); }
#define REL(fnname, type, kind) cl_int fnname(type h) { cl++; if (kind == O_QUEUE) drain(); cl_int r = unref(h, kind, #fnname); cl--; return r; }
REL(clReleaseContext, cl_context, O_CONTEXT) REL(clReleaseCommandQueue, cl_command_queue, O_QUEUE) REL(clReleaseMemObject, cl_mem, O_BUFFER) REL(clReleaseProgram, cl_program, O_PROGRAM) REL(clReleaseKernel, cl_kernel, O_KERNEL) REL(clReleaseEvent, cl_event, O_EVENT)
#define RETAIN(fnname, type, kind) cl_int fnname(type h) { obj_t *o = valid(h, kind, #fnname); if (!o) return -1; o->refs++; created++; return CL_SUCCESS; }
RETAIN(clRetainContext, cl_context, O_CONTEXT) RETAIN(clRetainCommandQueue, cl_command_queue, O_QUEUE) RETAIN(clRetainMemObject, cl_mem, O_BUFFER) RETAIN(clRetainProgram, cl_program, O_PROGRAM) RETAIN(clRetainKernel, cl_kernel, O_KERNEL)
cl_int clReleaseDevice(cl_device_id d) { CHECKDEV(d, "clReleaseDevice"); return CL_SUCCESS; }
cl_int clRetainDevice(cl_device_id d) { CHECKDEV(d, "clRetainDevice"); return CL_SUCCESS; }

// ---- histories
enum { S_INIT, S_DECODE, S_DESTROY, S_REJECT };
typedef struct { int op; uint32_t n, k, cs; uint8_t *in, *stream; size_t a, b, c; uint32_t extraIn, extraOut; } step_t;

static void afterCall(const char *what)
{
  if (nq && !(sticky && failed)) { BAD("pending", "%s returned while %d command(s) were still going to access memory of the caller", what, nq); }
  nq = 0;
}

static void runHistory(step_t *s, int n, uint64_t seed, bool count)
{
  R = rng_seed(seed, 5); bad = false; calls = 0; failed = false; failName[0] = 0; nq = 0;
  bool noDev = nPlatforms == 0 || nDevices == 0;
  for (int i = 0; i < n && !bad; i++)
  {
    step_t *t = &s[i]; const bool wasFailed = failed; char op[100];
    if (t->op == S_DESTROY) { snprintf(op, sizeof(op), "destroy"); api = 1; rle8m_opencl_destroy(); api = 0; ev("destroys", 1); afterCall("rle8m_opencl_destroy"); }
    else if (t->op == S_INIT)
    {
      api = 1; const bool ok = rle8m_opencl_init(t->a, t->b, t->c); api = 0; ev(ok ? "inits" : "failed-inits", 1); afterCall("rle8m_opencl_init");
      const bool now = failed && (sticky || !wasFailed);
      if (ok && noDev) BAD("init", "rle8m_opencl_init succeeded without a device");
      if (!ok && !now && !noDev) BAD("init", "rle8m_opencl_init(%zu, %zu, %zu) failed although no OpenCL call did", t->a, t->b, t->c);
    }
    else if (t->op == S_REJECT)
    {
      uint8_t *S = malloc(t->cs), *D = malloc(t->n); memcpy(S, t->stream, t->cs); memset(D, 0x5A, t->n); uint32_t r = 0;
      api = 1;
      switch (t->k % 6) { case 0: r = rle8m_opencl_decompress(NULL, t->cs, D, t->n); break; case 1: r = rle8m_opencl_decompress(S, 0, D, t->n); break; case 2: r = rle8m_opencl_decompress(S, t->cs, NULL, t->n); break; case 3: r = rle8m_opencl_decompress(S, t->cs, D, 0); break; case 4: r = rle8m_opencl_decompress(S, t->cs - 1, D, t->n); break; default: r = rle8m_opencl_decompress(S, t->cs, D, t->n - 1); }
      api = 0; afterCall("rle8m_opencl_decompress"); ev("rejections", 1);
      if (r) BAD("reject", "invalid arguments (%u) were accepted", t->k % 6);
      for (uint32_t j = 0; j < t->n; j++) if (D[j] != 0x5A) { BAD("reject", "invalid arguments (%u) changed the output", t->k % 6); break; }
      free(S); free(D);
    }
    else
    {
      uint8_t *S = malloc(t->cs + t->extraIn), *D = malloc(t->n + t->extraOut); memcpy(S, t->stream, t->cs); memset(S + t->cs, 0xC3, t->extraIn); memset(D, 0x5A, t->n + t->extraOut);
      api = 1; const uint32_t r = rle8m_opencl_decompress(S, t->cs + t->extraIn, D, t->n + t->extraOut); api = 0;
      afterCall("rle8m_opencl_decompress");
      const bool now = failed && (sticky || !wasFailed);
      if (r == 0) { ev("failed-decodes", 1); if (!now && !noDev) BAD("decode", "decoding %u bytes in %u sub-sections failed although no OpenCL call did", t->n, t->k); }
      else
      {
        ev("decodes", 1);
        if (noDev) BAD("decode", "decoding succeeded without a device");
        if (r != t->n) BAD("decode", "returned %u instead of %u", r, t->n);
        else if (memcmp(D, t->in, t->n)) { uint32_t j = 0; while (D[j] == t->in[j]) j++; BAD("decode", "byte %u of %u differs from the CPU decoder's (%u sub-sections)", j, t->n, t->k); }
        for (uint32_t j = 0; j < t->extraOut; j++) if (D[t->n + j] != 0x5A) { BAD("decode", "wrote behind the decompressed data"); break; }
      }
      if (memcmp(S, t->stream, t->cs)) BAD("decode", "the stream was modified");
      free(S); free(D);
    }
  }
  failAt = -1; sticky = false; api = 1; rle8m_opencl_destroy(); api = 0; afterCall("rle8m_opencl_destroy");
  for (obj_t *o = objs; o && !bad; o = o->next) if (o->refs > 0) BAD("leak", "a %s was not released by rle8m_opencl_destroy", onames[o->kind]);
  for (int i = 0; i < 256 && !bad; i++) if (heap[i]) BAD("leak", "memory allocated by the OpenCL decoder was not freed by rle8m_opencl_destroy");
  memset(heap, 0, sizeof(heap));
  while (objs) { obj_t *o = objs; objs = o->next; __real_free(o->data); __real_free(o->src); __real_free(o); }
  (void)count;
}

int main(int argc, char **argv)
{
  eng_init(argc, argv);
  for (int s = 1; s < 32; s++) if (s == SIGSEGV || s == SIGBUS || s == SIGILL || s == SIGFPE || s == SIGABRT || s == SIGTRAP) signal(s, SIG_DFL);
  __sanitizer_set_death_callback(death);
  FILE *keep = fdopen(dup(1), "w"); (void)keep;
  const vcodec_t *le = NULL; for (int i = 0; i < vcodec_count; i++) if (!strcmp(vcodecs[i].cname, "rle8_low_entropy_compress")) le = &vcodecs[i];
  if (!le) exit(70);
  int nul = 0; (void)nul;
  for (scenario = 0; scenario < O.count; scenario++)
  {
    if (scenario % (uint64_t)O.shards != (uint64_t)O.shard) continue;
    if (O.only_index >= 0 && (uint64_t)O.only_index != scenario) continue;
    if (eng_deadline() || codec_muted(0)) break;
    rng_t r = rng_seed(O.seed * 7777 + 20, scenario); CUR.codec = -1; CUR.stage = ST_OTHER; CUR.index = scenario; CUR.shape = "history";
    step_t s[8]; memset(s, 0, sizeof(s)); const bool large = scenario % 97 == 13; int n = 1 + (int)rng_below(&r, large ? 3 : 7); char desc[400] = "";
    for (int i = 0; i < n; i++)
    {
      step_t *t = &s[i]; uint32_t what = (uint32_t)rng_below(&r, 10);
      t->op = what < 6 ? S_DECODE : what < 8 ? S_INIT : what < 9 ? S_DESTROY : S_REJECT;
      if (t->op == S_INIT) { t->a = 1 + rng_below(&r, 12000); t->b = 1 + rng_below(&r, 12000); t->c = 1 + rng_below(&r, 300); }
      if (t->op == S_DECODE || t->op == S_REJECT)
      {
        const char *shape; t->n = gen_random(&r, le, RAW, rng_below(&r, 3) ? 3000 : 300, &shape); CUR.shape = shape; if (t->n < 2) { RAW[1] = RAW[0]; t->n = 2; }
        t->k = rng_below(&r, 4) ? 1 + (uint32_t)rng_below(&r, t->n < 60 ? t->n : 60) : 1 + (uint32_t)rng_below(&r, 3); if (t->k > t->n) t->k = t->n; if (rng_below(&r, 20) == 0 && t->n < 2000) t->k = t->n;
        if (large)
        { // more sections than 16 bit count, more bytes than 24 bit address
          const uint32_t m = t->n; const int kind = (int)rng_below(&r, 3); t->n = kind == 0 ? 65600 + (uint32_t)rng_below(&r, 80000) : kind == 1 ? (1u << 24) + (uint32_t)rng_below(&r, 1 << 21) : 70000 + (uint32_t)rng_below(&r, 2000000);
          t->k = kind == 0 ? 65537 + (uint32_t)rng_below(&r, t->n - 65537) : kind == 1 ? 1 + (uint32_t)rng_below(&r, 40) : 1 + (uint32_t)rng_below(&r, 3000);
          t->in = malloc(t->n); for (uint32_t j = 0; j < t->n; j += m) { memcpy(t->in + j, RAW, t->n - j < m ? t->n - j : m); t->in[j] = (uint8_t)(j * 0x9E3779B1u >> 24); }
          ev(kind == 0 ? "large:sections" : kind == 1 ? "large:16MiB" : "large:medium", 1);
        }
        else { t->in = malloc(t->n); memcpy(t->in, RAW, t->n); }
        const uint32_t bound = rle8m_compress_bounds(t->k, t->n) + 4 * t->n + 4096; t->stream = malloc(bound); vlevel_set(LV_SSE2);
        t->cs = rle8m_compress(t->k, t->in, t->n, t->stream, bound);
        if (!t->cs) { t->op = S_DESTROY; }   // (judged by C03)
        else
        { // the CPU decoder has to agree for this stream, otherwise the comparison says nothing about the OpenCL decoder (judged by C03)
          uint8_t *D = malloc(t->n + 256); if (rle8m_decompress(t->stream, t->cs, D, t->n) != t->n) t->op = S_DESTROY; else memcpy(t->in, D, t->n); free(D);
          if (!seen(vhash(t->stream, t->cs))) ev("distinct-streams", 1);
          t->extraIn = rng_below(&r, 2) ? (uint32_t)rng_below(&r, 40) : 0; t->extraOut = rng_below(&r, 2) ? (uint32_t)rng_below(&r, 40) : 0;
        }
      }
      snprintf(desc + strlen(desc), sizeof(desc) - strlen(desc), t->op == S_DECODE ? "%sdecode(%u in %u)" : t->op == S_INIT ? "%sinit(%u, %u)" : t->op == S_DESTROY ? "%sdestroy" : "%sreject", i ? ", " : "", t->op == S_INIT ? (unsigned)t->a : t->n, t->op == S_INIT ? (unsigned)t->b : t->k);
    }
    sample("history: %s", desc);
    const uint64_t seed = rng_next(&r);
    nPlatforms = 1 + (int)rng_below(&r, 2); nDevices = 1 + (int)rng_below(&r, 2); failCode = 0;
    if (rng_below(&r, 25) == 0) { if (rng_below(&r, 2)) nPlatforms = 0; else nDevices = 0; }
    for (lazy = 0; lazy <= 1; lazy++)
    {
      snprintf(CUR.what, sizeof(CUR.what), "scenario %llu, %s queue, no fault: %.120s", (unsigned long long)scenario, lazy ? "lazy" : "eager", desc);
      runHistory(s, n, seed, true); ev("histories", 1);
      if (bad) break;
      const int64_t total = calls; ev("opencl-and-malloc-calls", (uint64_t)total);
      for (int64_t f = 1; f <= total && !bad; f++)
        for (int st = 0; st < 2 && !bad; st++)
        {
          if (eng_deadline()) break;
          if (st && rng_below(&r, 3)) continue;
          if (large && rng_below(&r, (uint64_t)total * 2 / 3 + 1)) continue;
          failAt = f; sticky = st; failCode = rng_below(&r, 2) ? 0 : rng_below(&r, 2) ? CL_OUT_OF_HOST_MEMORY : CL_INVALID_VALUE;
          snprintf(CUR.what, sizeof(CUR.what), "scenario %llu, %s queue, call %lld fails%s: %.120s", (unsigned long long)scenario, lazy ? "lazy" : "eager", (long long)f, st ? " for good" : "", desc);
          runHistory(s, n, seed, false); ev("faulty-histories", 1); if (failed && failName[0]) { static char names[40][80]; static int nn; char key[80]; snprintf(key, sizeof(key), "failures of %s", failName); int j = 0; while (j < nn && strcmp(names[j], key)) j++; if (j == nn && nn < 40) strcpy(names[nn++], key); if (j < 40) ev(names[j], 1); }
          failCode = 0;
        }
      if (bad) break;
    }
    for (int i = 0; i < n; i++) { free(s[i].in); free(s[i].stream); }
  }
  ev("commands-executed", commands); ev("work-items-run", groupsRun); ev("objects-created", created); ev("objects-released", released); ev("allocations", allocs);
  return eng_finish();
}
