#include "rt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <execinfo.h>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
}
extern "C" size_t malloc_usable_size(void *);
namespace rt {
namespace {
typedef uint32_t Clk;
struct VC { Clk c[MaxThreads]; };
void joinTo(VC &a, const VC &b) { for (int i = 0; i < MaxThreads; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }

enum Pend { Run, WantLock, WantShared, WantGuard, Done };
struct Thread { sem_t sem; VC vc; Pend pend; void *obj; std::function<void()> body; int id; const void *pc; };
Thread threads[MaxThreads]; int nThreads; sem_t mainSem; Shared *sh; bool active = false;
__thread Thread *me = nullptr; __thread int quiet = 0;

struct Obj { void *key; VC vc; int owner, depth, readers; };    // lock, guard or atomic
enum { NObj = 1 << 14 }; Obj *objs;
Obj *obj(void *k) {
  size_t h = (reinterpret_cast<uintptr_t>(k) >> 2) * 0x9E3779B97F4A7C15ull >> 50;
  for (size_t i = 0; i < NObj; ++i) { Obj &o = objs[(h + i) & (NObj - 1)]; if (o.key == k) return &o; if (!o.key) { o.key = k; o.owner = -1; return &o; } }
  abort();
}

struct Cell { Clk w[MaxThreads], r[MaxThreads]; uint8_t wm[MaxThreads], rm[MaxThreads]; };
enum { NChunk = 1 << 15 }; struct Chunk { uintptr_t key; Cell c[128]; }; Chunk *cells; uint32_t used;
Cell *cell(uintptr_t g, bool make) {
  uintptr_t key = (g >> 7) + 1; size_t h = key * 0x9E3779B97F4A7C15ull >> 49;
  for (size_t i = 0; i < NChunk; ++i) { Chunk &c = cells[(h + i) & (NChunk - 1)]; if (c.key == key) return &c.c[g & 127]; if (!c.key) { if (!make) return nullptr; if (used > NChunk / 4 * 3) { sh->overflow = 1; return nullptr; } ++used; c.key = key; return &c.c[g & 127]; } }
  return nullptr;
}
[[noreturn]] void die(const char *f, ...) {
  va_list a; va_start(a, f); if (!sh->error[0]) vsnprintf(sh->error, sizeof sh->error, f, a); va_end(a); _exit(70);
}
// names of the functions on the stack
void where(char *b, size_t n) {
  void *pc[24]; ++quiet; int k = backtrace(pc, 24); char *p = b; *p = 0;
  Dl_info me_; dladdr((void *)where, &me_);
  for (int i = 0; i < k && p < b + n - 40; ++i) { Dl_info d; if (dladdr(pc[i], &d) && d.dli_fbase == me_.dli_fbase) p += snprintf(p, 20, "@%lx ", (unsigned long)((char *)pc[i] - (char *)me_.dli_fbase) - 1); }
  --quiet;
}
[[noreturn]] void race(const char *what, uintptr_t addr, int other) {
  char w[600]; where(w, sizeof w);
  die("data race: %s of thread %d at %lx, not ordered with thread %d [%s]", what, me->id, (unsigned long)addr, other, w);
}
inline void access1(uintptr_t g, uint8_t mask, bool write) {
  Cell *c = cell(g, true); if (!c) return; int t = me->id; Clk now = me->vc.c[t];
  for (int u = 0; u < nThreads; ++u) if (u != t) {
    if ((c->wm[u] & mask) && c->w[u] > me->vc.c[u]) race(write ? "write" : "read", g << 3, u);
    if (write && (c->rm[u] & mask) && c->r[u] > me->vc.c[u]) race("write", g << 3, u);
  }
  if (write) { if (c->w[t] == now) c->wm[t] |= mask; else { c->w[t] = now; c->wm[t] = mask; } }
  else { if (c->r[t] == now) c->rm[t] |= mask; else { c->r[t] = now; c->rm[t] = mask; } }
}
inline void access(const void *p, size_t n, bool write) {
  if (!me || quiet || !n) return; ++sh->accesses;
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  // the stack of the running thread is its own unless it is handed out: other threads seen in the cell are still checked
  while (a < e) { uintptr_t g = a >> 3; uintptr_t end = (g + 1) << 3; if (end > e) end = e; uint8_t mask = uint8_t(((1u << (end - a)) - 1) << (a & 7)); access1(g, mask, write); a = end; }
}
void forget(const void *p, size_t n) {       // memory is handed out afresh
  if (!me || !cells) return; uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
  while (a < e) { uintptr_t next = (a | 127) + 1; if (next > e) next = e; if (Cell *c = cell(a, false)) __real_memset(static_cast<void *>(c), 0, (next - a) * sizeof(Cell)); a = next; }
}
void freed(const void *p, size_t n) { access(p, n > 4096 ? 4096 : n, true); }

bool enabled(Thread &t) {
  switch (t.pend) {
    case Run: return true;
    case WantLock: { Obj *o = obj(t.obj); return (o->owner < 0 && !o->readers) || (o->owner == t.id); }
    case WantShared: return obj(t.obj)->owner < 0;
    case WantGuard: return obj(t.obj)->owner < 0;
    default: return false;
  }
}
// the running thread offers to be replaced; returns when it is its turn again
void point() {
  Thread *t = me; int en[MaxThreads], n = 0; bool mine = enabled(*t);
  if (mine) en[n++] = t->id;
  for (int i = 0; i < nThreads; ++i) if (i != t->id && enabled(threads[i])) en[n++] = i;
  if (!n) {
    bool all = true; for (int i = 0; i < nThreads; ++i) all = all && threads[i].pend == Done;
    if (all) { sem_post(&mainSem); return; }
    die("deadlock: no thread can go on");
  }
  int k = 0;
  if (n > 1) {
    uint32_t p = sh->points++; if (p >= MaxPoints) die("too many points");
    k = p < sh->prefix ? sh->want[p] : 0; if (k >= n) die("schedule does not fit: point %u wants %d of %d", p, k, n);
    sh->trace[p].n = n; sh->trace[p].chosen = k; sh->trace[p].cost = mine;
  }
  if (en[k] == t->id) return;
  Thread *o = &threads[en[k]]; bool done = t->pend == Done;
  sem_post(&o->sem);
  if (!done) { while (sem_wait(&t->sem)) {} }
}
void acquire(Obj *o) { joinTo(me->vc, o->vc); }
void release(Obj *o) { joinTo(o->vc, me->vc); ++me->vc.c[me->id]; }
void *start(void *a) {
  Thread *t = static_cast<Thread *>(a); while (sem_wait(&t->sem)) {}
  me = t; quiet = 0; t->body(); quiet = 1; t->pend = Done; point(); me = nullptr; return nullptr;
}
template <class F> F next(F &f, const char *name) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); return f; }
void io() { if (me && !quiet) { me->pend = Run; point(); } }
}

void yield() { if (me) { me->pend = Run; point(); } }
Quiet::Quiet() { ++quiet; } Quiet::~Quiet() { --quiet; }
int self() { return me ? me->id : -1; }

void execute(const std::vector<std::function<void()>> &bodies, Shared &s) {
  sh = &s; nThreads = bodies.size(); sem_init(&mainSem, 0, 0);
  objs = static_cast<Obj *>(mmap(nullptr, NObj * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  cells = static_cast<Chunk *>(mmap(nullptr, NChunk * sizeof(Chunk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  { void *pc[2]; backtrace(pc, 2); }
  pthread_t id[MaxThreads];
  for (int i = 0; i < nThreads; ++i) {
    Thread &t = threads[i]; t.id = i; t.pend = Run; t.obj = nullptr; t.body = bodies[i]; __real_memset(&t.vc, 0, sizeof t.vc); t.vc.c[i] = 1; sem_init(&t.sem, 0, 0);
    pthread_create(&id[i], nullptr, start, &t);
  }
  // the first thread to run is a choice, too
  uint32_t p = sh->points++; int k = p < sh->prefix ? sh->want[p] : 0; if (nThreads < 2) { sh->points = 0; k = 0; }
  else { sh->trace[p].n = nThreads; sh->trace[p].chosen = k; sh->trace[p].cost = 0; }
  active = true; sem_post(&threads[k].sem);
  while (sem_wait(&mainSem)) {}
  for (int i = 0; i < nThreads; ++i) pthread_join(id[i], nullptr);
  active = false;
}
}
using namespace rt;

extern "C" {
// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void *) {} void __tsan_volatile_write##n(void *) {} void __tsan_unaligned_volatile_read##n(void *) {} void __tsan_unaligned_volatile_write##n(void *) {}
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); } void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true); } void __tsan_vptr_read(void **p) { access(p, 8, false); }
// ---- atomics: each one synchronises; a writing one is a point
static void arel(void *p, bool pt) { if (!me || quiet) return; if (pt) { me->pend = Run; point(); } }
static void async(void *p, bool rd, bool wr) { if (!me || quiet) return; Obj *o = obj(p); if (rd) acquire(o); if (wr) release(o); }
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); async((void *)a, true, false); return v; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { arel((void *)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); async((void *)a, false, true); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { arel((void *)a, true); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); async((void *)a, true, true); return r; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); async((void *)a, true, true); return r; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); async((void *)a, true, true); return r; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); async((void *)a, true, true); return r; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); async((void *)a, true, true); return r; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); async((void *)a, true, true); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { arel((void *)a, true); int r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); async((void *)a, true, r); return r; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int n) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, m, n); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int m, int n) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, m, n); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- locks
static bool isRecursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!me || quiet) return __real_pthread_mutex_lock(m);
  Obj *o = obj(m);
  if (o->owner == me->id) { if (!isRecursive(m)) die("deadlock: thread %d locks again the mutex it holds", me->id); ++o->depth; return 0; }
  me->pend = WantLock; me->obj = m; point(); me->pend = Run;
  o->owner = me->id; o->depth = 1; acquire(o); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!me || quiet) return __real_pthread_mutex_trylock(m);
  me->pend = Run; point(); Obj *o = obj(m); if (o->owner == me->id && isRecursive(m)) { ++o->depth; return 0; } if (o->owner >= 0) return EBUSY; o->owner = me->id; o->depth = 1; acquire(o); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!me || quiet) return __real_pthread_mutex_unlock(m);
  Obj *o = obj(m); if (o->owner != me->id) die("thread %d unlocks a mutex it does not hold", me->id);
  if (--o->depth) return 0;
  o->owner = -1; release(o); return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { static int (*f)(pthread_mutex_t *, const pthread_mutexattr_t *); return next(f, "pthread_mutex_init")(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (me && !quiet) { Obj *o = obj(m); if (o->owner >= 0) die("a held mutex is destroyed"); } return 0; }
static int (*rwRd)(pthread_rwlock_t *), (*rwWr)(pthread_rwlock_t *), (*rwUn)(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!me || quiet) return next(rwRd, "pthread_rwlock_rdlock")(m); me->pend = WantShared; me->obj = m; point(); me->pend = Run; Obj *o = obj(m); ++o->readers; acquire(o); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!me || quiet) return next(rwWr, "pthread_rwlock_wrlock")(m); me->pend = WantLock; me->obj = m; point(); me->pend = Run; Obj *o = obj(m); o->owner = me->id; acquire(o); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!me || quiet) return next(rwUn, "pthread_rwlock_unlock")(m); Obj *o = obj(m); if (o->owner == me->id) o->owner = -1; else --o->readers; release(o); return 0; }
int __wrap_pthread_once(pthread_once_t *c, void (*f)()) {
  static int (*r)(pthread_once_t *, void (*)()); if (!me || quiet) return next(r, "pthread_once")(c, f);
  me->pend = WantGuard; me->obj = c; point(); me->pend = Run; Obj *o = obj(c); acquire(o); if (*c == 2) return 0;
  o->owner = me->id; f(); *c = 2; o->owner = -1; release(o); return 0;
}
// ---- guarded initialisation of function statics
int __cxa_guard_acquire(uint64_t *g) {
  char *b = reinterpret_cast<char *>(g); if (b[0]) { if (me && !quiet) acquire(obj(g)); return 0; }
  if (!me || quiet) return 1;
  me->pend = WantGuard; me->obj = g; point(); me->pend = Run;
  Obj *o = obj(g); acquire(o); if (b[0]) return 0; o->owner = me->id; return 1;
}
void __cxa_guard_release(uint64_t *g) { reinterpret_cast<char *>(g)[0] = 1; if (me && !quiet) { Obj *o = obj(g); o->owner = -1; release(o); } }
void __cxa_guard_abort(uint64_t *g) { if (me && !quiet) { Obj *o = obj(g); o->owner = -1; release(o); } }
// ---- memory
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && me) forget(p, malloc_usable_size(p)); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p && me) forget(p, malloc_usable_size(p)); return p; }
void *realloc(void *q, size_t n) { if (q && me) freed(q, malloc_usable_size(q)); void *p = __libc_realloc(q, n); if (p && me) forget(p, malloc_usable_size(p)); return p; }
void free(void *p) { if (p && me) freed(p, malloc_usable_size(p)); __libc_free(p); }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && me) forget(p, malloc_usable_size(p)); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
int __real_memcmp(const void *, const void *, size_t); size_t __real_strlen(const char *);
int __wrap_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); access(s, n + 1, false); return n; }
// ---- parts of containers which live in libstdc++: nodes of trees and lists
struct Node { int color; Node *parent, *left, *right; };
#define W(p) do { if (p) access(p, sizeof(Node), true); } while (0)
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, Node *, Node *, Node &);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, Node *x, Node *p, Node &h) { W(p); W(&h); __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h); }
Node *__real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(Node *, Node &);
Node *__wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(Node *z, Node &h) { W(z); W(z->parent); W(z->left); W(z->right); W(&h); return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h); }
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void **, void **);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void **t, void **p) { access(p, 16, true); access(t, 16, true); __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(t, p); }
void __real__ZNSt8__detail15_List_node_base9_M_unhookEv(void **);
void __wrap__ZNSt8__detail15_List_node_base9_M_unhookEv(void **t) { access(t, 16, true); if (t[0]) access(t[0], 16, true); if (t[1]) access(t[1], 16, true); __real__ZNSt8__detail15_List_node_base9_M_unhookEv(t); }
void __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void **, void **, void **);
void __wrap__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(void **t, void **a, void **b) { access(t, 16, true); access(a, 16, true); access(b, 16, true); __real__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(t, a, b); }
// ---- files: points of their own (called by libstdc++ as well)
FILE *fopen64(const char *p, const char *m) { static FILE *(*f)(const char *, const char *); io(); return next(f, "fopen64")(p, m); }
FILE *fopen(const char *p, const char *m) { static FILE *(*f)(const char *, const char *); io(); return next(f, "fopen")(p, m); }
ssize_t write(int d, const void *b, size_t n) { static ssize_t (*f)(int, const void *, size_t); io(); return next(f, "write")(d, b, n); }
ssize_t writev(int d, const struct iovec *b, int n) { static ssize_t (*f)(int, const struct iovec *, int); io(); return next(f, "writev")(d, b, n); }
int remove(const char *p) { static int (*f)(const char *); io(); return next(f, "remove")(p); }
int unlink(const char *p) { static int (*f)(const char *); io(); return next(f, "unlink")(p); }
int rename(const char *a, const char *b) { static int (*f)(const char *, const char *); io(); return next(f, "rename")(a, b); }
int rand() { static int (*f)(); return next(f, "rand")(); }
}
