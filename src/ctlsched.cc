#include "ctlsched.h"
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#define EX extern "C" __attribute__((visibility("default")))
#define PC __builtin_return_address(0)

namespace sched {
namespace {
Shm* shm;
int n_threads;
bool on = false;                 // threads are running under control
__thread int tid = -1;
__thread int off = 0;            // >0: inside the runtime
sem_t baton[kThreads];
int current;
struct VC { uint32_t c[kThreads]; void Join(const VC& o) { for (int i = 0; i < kThreads; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Th { VC vc, rel_fence, acq_pending; bool finished, fenced; Op op; void* wait_cond; bool signaled; } th[kThreads];

// ---- shadow memory: one cell per byte --------------------------------------
struct Cell { uint32_t w, r[kThreads], wpc, rpc; uint8_t wt; };
struct Page { uint64_t no; Cell* cells; };
const uint32_t kPages = 1 << 14;
Page* pages;
uint64_t base_pc;
Cell* Lookup(uint64_t no, bool create) {
  uint32_t h = (uint32_t)((no * 0x9E3779B97F4A7C15ull) >> 50);
  for (;; h = (h + 1) & (kPages - 1)) {
    if (pages[h].cells && pages[h].no == no) return pages[h].cells;
    if (!pages[h].cells) {
      if (!create) return NULL;
      pages[h].no = no;
      pages[h].cells = (Cell*)mmap(NULL, 4096 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      return pages[h].cells;
    }
  }
}
[[noreturn]] void Stop(int status) { shm->status = status; _exit(0); }
[[noreturn]] void Race(uint64_t addr, const char* a, const char* b, int t1, int t2, uint32_t pc1, void* pc2) {
  snprintf(shm->what, sizeof shm->what, "data race: %s by thread %d and %s by thread %d on the same memory (%#llx)", a, t1, b, t2, (unsigned long long)addr);
  shm->pc1 = pc1; shm->pc2 = (uint64_t)pc2 - base_pc;
  Stop(RACE);
}
void Access(uint64_t a, uint64_t len, bool write, void* pc) {
  if (tid < 0 || off || !on) return;
  Th& t = th[tid];
  shm->accesses += 1;
  uint64_t last = ~0ull; Cell* cells = NULL;
  uint32_t me = t.vc.c[tid];
  for (uint64_t p = a; p < a + len; p++) {
    if (p >> 12 != last) { last = p >> 12; cells = Lookup(last, true); }
    Cell& c = cells[p & 4095];
    if (c.w && c.wt != tid && c.w > t.vc.c[c.wt]) Race(p, "write", write ? "write" : "read", c.wt, tid, c.wpc, pc);
    if (write) {
      for (int i = 0; i < n_threads; i++) if (i != tid && c.r[i] > t.vc.c[i]) Race(p, "read", "write", i, tid, c.rpc, pc);
      c.w = me; c.wt = (uint8_t)tid; c.wpc = (uint32_t)((uint64_t)pc - base_pc);
    } else { c.r[tid] = me; c.rpc = (uint32_t)((uint64_t)pc - base_pc); }
  }
}
void Fresh(void* p, size_t n) {
  if (!pages || !p) return;
  uint64_t a = (uint64_t)p, e = a + n;
  while (a < e) {
    uint64_t pe = ((a >> 12) + 1) << 12; if (pe > e) pe = e;
    Cell* c = Lookup(a >> 12, false);
    if (c) memset(&c[a & 4095], 0, (pe - a) * sizeof(Cell));
    a = pe;
  }
}

// ---- synchronisation objects -------------------------------------------------
struct Obj { uint64_t addr; VC vc; int owner, readers; };
Obj objs[4096]; int n_objs;
Obj& Object(uint64_t a) {
  for (int i = 0; i < n_objs; i++) if (objs[i].addr == a) return objs[i];
  if (n_objs == 4096) { snprintf(shm->what, sizeof shm->what, "harness: too many synchronisation objects"); Stop(TOO_LONG); }
  Obj& o = objs[n_objs++]; memset(&o, 0, sizeof o); o.addr = a; o.owner = -1; return o;
}
bool Enabled(int i) {
  Th& t = th[i];
  if (t.finished) return false;
  switch (t.op.kind) {
    case LOCK: { Obj& o = Object(t.op.addr & ~1ull); return o.owner < 0 && ((t.op.addr & 1) || !o.readers); }
    case GUARD: { Obj& o = Object(t.op.addr); return o.owner < 0 || o.owner == i; }
    case WAIT: return t.signaled;
  }
  return true;
}
// Hands the processor to the next thread of the schedule; returns when the
// calling thread has been chosen.
void Pick() {
  int k = shm->steps;
  if (k >= kSteps - 1) { snprintf(shm->what, sizeof shm->what, "more than %d synchronisation steps", kSteps); Stop(TOO_LONG); }
  Node& nd = shm->node[k];
  nd.enabled = 0; int alive = 0;
  for (int i = 0; i < n_threads; i++) { nd.op[i] = th[i].op; if (!th[i].finished) alive++; if (Enabled(i)) nd.enabled |= 1 << i; }
  if (!alive) { shm->steps = k; return; }
  if (!nd.enabled) { snprintf(shm->what, sizeof shm->what, "deadlock: every thread waits"); Stop(DEADLOCK); }
  int c;
  if (k < shm->prefix_len) { c = shm->prefix[k]; nd.sleep = 0; if (!(nd.enabled >> c & 1)) { snprintf(shm->what, sizeof shm->what, "harness: schedule cannot be replayed at step %d", k); Stop(TOO_LONG); } }
  else {
    if (k == shm->prefix_len) nd.sleep = shm->sleep;
    else { // a sleeping thread wakes up when something dependent on its next step has happened
      Node& pr = shm->node[k - 1]; nd.sleep = 0;
      for (int i = 0; i < n_threads; i++) if ((pr.sleep >> i & 1) && !Dependent(pr.op[i], pr.op[pr.chosen])) nd.sleep |= 1 << i;
    }
    uint8_t can = nd.enabled & ~nd.sleep;
    if (!can) { shm->steps = k; Stop(REDUNDANT); }
    c = current;
    static int streak = 0;      // fairness for code that spins
    if (!(can >> c & 1) || streak > 200) { int s = c; do c = (c + 1) % n_threads; while (!(can >> c & 1) && c != s); if (!(can >> c & 1)) c = s; streak = 0; }
    else streak++;
  }
  nd.chosen = (uint8_t)c; shm->steps = k + 1;
  if (c != current) { current = c; sem_post(&baton[c]); while (sem_wait(&baton[tid])) {} }
}
void Point(int kind, uint64_t addr) {
  th[tid].op.kind = (uint8_t)kind; th[tid].op.addr = addr;
  Pick();
  th[tid].vc.c[tid]++;
}
bool Ctl() { return on && tid >= 0 && !off; }
// In the runtime; on the way out the thread's clock advances, so that what it
// does next is not covered by what it has just released.
struct Off { Off() { off++; } ~Off() { off--; if (tid >= 0) th[tid].vc.c[tid]++; } };

void (*g_body)(int);
void* Thread(void* p) {
  int me = (int)(intptr_t)p;
  while (sem_wait(&baton[me])) {}
  tid = me;
  off = 0;
  g_body(me);
  off = 1;
  th[tid].finished = true; th[tid].op.kind = EXIT;
  // hand over without waiting for the baton
  int k = shm->steps; bool alive = false;
  for (int i = 0; i < n_threads; i++) if (!th[i].finished) alive = true;
  if (!alive) { shm->status = DONE; return NULL; }
  // the next thread is chosen as in Pick()
  Node& nd = shm->node[k]; nd.enabled = 0;
  if (k >= kSteps - 1) Stop(TOO_LONG);
  for (int i = 0; i < n_threads; i++) { nd.op[i] = th[i].op; if (Enabled(i)) nd.enabled |= 1 << i; }
  if (!nd.enabled) { snprintf(shm->what, sizeof shm->what, "deadlock: every remaining thread waits"); Stop(DEADLOCK); }
  int c;
  if (k < shm->prefix_len) { c = shm->prefix[k]; nd.sleep = 0; if (!(nd.enabled >> c & 1)) { snprintf(shm->what, sizeof shm->what, "harness: schedule cannot be replayed at step %d", k); Stop(TOO_LONG); } }
  else {
    if (k == shm->prefix_len) nd.sleep = shm->sleep;
    else { Node& pr = shm->node[k - 1]; nd.sleep = 0; for (int i = 0; i < n_threads; i++) if ((pr.sleep >> i & 1) && !Dependent(pr.op[i], pr.op[pr.chosen])) nd.sleep |= 1 << i; }
    uint8_t can = nd.enabled & ~nd.sleep;
    if (!can) { shm->steps = k; Stop(REDUNDANT); }
    for (c = 0; !(can >> c & 1); c++) {}
  }
  nd.chosen = (uint8_t)c; shm->steps = k + 1; current = c;
  sem_post(&baton[c]);
  return NULL;
}
}  // namespace

bool Dependent(const Op& a, const Op& b) {
  if (a.kind == START || b.kind == START || a.kind == EXIT || b.kind == EXIT) return false;
  if (a.kind == FENCE || b.kind == FENCE) return false;
  if ((a.addr & ~7ull) != (b.addr & ~7ull)) return false;
  return !(a.kind == LOAD && b.kind == LOAD);
}

void Run(Shm* s, int n, void (*body)(int)) {
  shm = s; n_threads = n; g_body = body;
  mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 28); mallopt(M_TRIM_THRESHOLD, 1 << 28);
  base_pc = 0;
  extern uint64_t ImageBase();
  base_pc = ImageBase();
  pages = (Page*)mmap(NULL, kPages * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shm->status = RUNNING; shm->steps = 0; shm->accesses = 0;
  memset(th, 0, sizeof th);
  pthread_t p[kThreads];
  for (int i = 0; i < n; i++) { sem_init(&baton[i], 0, 0); th[i].op.kind = START; th[i].vc.c[i] = 1; }
  for (int i = 0; i < n; i++) pthread_create(&p[i], NULL, Thread, (void*)(intptr_t)i);
  // first choice
  on = true;
  Node& nd = shm->node[0]; nd.enabled = (uint8_t)((1 << n) - 1);
  for (int i = 0; i < n; i++) nd.op[i] = th[i].op;
  nd.sleep = shm->prefix_len ? 0 : shm->sleep;
  int c = shm->prefix_len ? shm->prefix[0] : 0;
  nd.chosen = (uint8_t)c; shm->steps = 1; current = c;
  sem_post(&baton[c]);
  for (int i = 0; i < n; i++) pthread_join(p[i], NULL);
  on = false;
}
uint64_t ImageBase() {
  FILE* f = fopen("/proc/self/maps", "r"); unsigned long long a = 0;
  if (f) { if (fscanf(f, "%llx-", &a) != 1) a = 0; fclose(f); }
  return a;
}
}  // namespace sched
using namespace sched;

// ---- compiler instrumentation ------------------------------------------------
EX void __tsan_init() {}
EX void __tsan_func_entry(void*) {}
EX void __tsan_func_exit() {}
EX void __tsan_ignore_thread_begin() {}
EX void __tsan_ignore_thread_end() {}
#define RW(n) \
  EX void __tsan_read##n(void* a) { Access((uint64_t)a, n, false, PC); } \
  EX void __tsan_write##n(void* a) { Access((uint64_t)a, n, true, PC); } \
  EX void __tsan_unaligned_read##n(void* a) { Access((uint64_t)a, n, false, PC); } \
  EX void __tsan_unaligned_write##n(void* a) { Access((uint64_t)a, n, true, PC); } \
  EX void __tsan_read_write##n(void* a) { Access((uint64_t)a, n, true, PC); } \
  EX void __tsan_unaligned_read_write##n(void* a) { Access((uint64_t)a, n, true, PC); } \
  EX void __tsan_volatile_read##n(void* a) { Access((uint64_t)a, n, false, PC); } \
  EX void __tsan_volatile_write##n(void* a) { Access((uint64_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EX void __tsan_read_range(void* a, size_t n) { Access((uint64_t)a, n, false, PC); }
EX void __tsan_write_range(void* a, size_t n) { Access((uint64_t)a, n, true, PC); }
EX void __tsan_vptr_read(void** a) { Access((uint64_t)a, 8, false, PC); }
EX void __tsan_vptr_update(void** a, void* v) { Access((uint64_t)a, 8, *a != v, PC); }
EX void* __tsan_memcpy(void* d, const void* s, size_t n) { Access((uint64_t)s, n, false, PC); Access((uint64_t)d, n, true, PC); return memcpy(d, s, n); }
EX void* __tsan_memmove(void* d, const void* s, size_t n) { Access((uint64_t)s, n, false, PC); Access((uint64_t)d, n, true, PC); return memmove(d, s, n); }
EX void* __tsan_memset(void* d, int c, size_t n) { Access((uint64_t)d, n, true, PC); return memset(d, c, n); }
extern "C" int __real_memcmp(const void*, const void*, size_t);
EX int __wrap_memcmp(const void* a, const void* b, size_t n) { Access((uint64_t)a, n, false, PC); Access((uint64_t)b, n, false, PC); return __real_memcmp(a, b, n); }

// ---- atomics -------------------------------------------------------------------
namespace {
enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
bool Acq(int m) { return m != RELAXED && m != RELEASE; }
bool Rel(int m) { return m == RELEASE || m == ACQ_REL || m == SEQ_CST; }
void DoLoad(uint64_t a, int mo) { Obj& o = Object(a); if (Acq(mo)) th[tid].vc.Join(o.vc); else th[tid].acq_pending.Join(o.vc); }
void DoStore(uint64_t a, int mo, bool rmw) {
  Obj& o = Object(a); Th& t = th[tid];
  if (!rmw) memset(&o.vc, 0, sizeof o.vc);
  if (Rel(mo)) o.vc.Join(t.vc); else if (t.fenced) o.vc.Join(t.rel_fence);
}
}  // namespace
#define AT(n, T) \
  EX T __tsan_atomic##n##_load(const volatile T* a, int mo) { if (Ctl()) { Off _; Point(LOAD, (uint64_t)a); DoLoad((uint64_t)a, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EX void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(STORE, (uint64_t)a); DoStore((uint64_t)a, mo, false); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EX T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(RMW, (uint64_t)a); DoLoad((uint64_t)a, mo); DoStore((uint64_t)a, mo, true); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EX T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(RMW, (uint64_t)a); DoLoad((uint64_t)a, mo); DoStore((uint64_t)a, mo, true); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EX T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(RMW, (uint64_t)a); DoLoad((uint64_t)a, mo); DoStore((uint64_t)a, mo, true); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EX T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(RMW, (uint64_t)a); DoLoad((uint64_t)a, mo); DoStore((uint64_t)a, mo, true); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EX T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(RMW, (uint64_t)a); DoLoad((uint64_t)a, mo); DoStore((uint64_t)a, mo, true); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EX T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { if (Ctl()) { Off _; Point(RMW, (uint64_t)a); DoLoad((uint64_t)a, mo); DoStore((uint64_t)a, mo, true); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EX int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { \
    if (!Ctl()) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    Off _; Point(RMW, (uint64_t)a); bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    DoLoad((uint64_t)a, ok ? mo : fmo); if (ok) DoStore((uint64_t)a, mo, true); return ok; } \
  EX int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, mo, fmo); } \
  EX T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EX void __tsan_atomic_thread_fence(int mo) {
  if (!Ctl()) return;
  Th& t = th[tid];
  if (Acq(mo)) t.vc.Join(t.acq_pending);
  if (Rel(mo)) { t.rel_fence = t.vc; t.fenced = true; }
  t.vc.c[tid]++;
}
EX void __tsan_atomic_signal_fence(int) {}

// ---- function-local statics ------------------------------------------------------
EX int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (!Ctl()) { if (b[0]) return 0; b[1] = 1; return 1; }
  Off _; Point(GUARD, (uint64_t)g);
  Obj& o = Object((uint64_t)g);
  th[tid].vc.Join(o.vc);
  if (b[0]) return 0;
  o.owner = tid; b[1] = 1;
  return 1;
}
EX void __cxa_guard_release(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (!Ctl()) { b[1] = 0; b[0] = 1; return; }
  Off _; Point(GUARD_DONE, (uint64_t)g);
  Obj& o = Object((uint64_t)g);
  o.vc.Join(th[tid].vc); o.owner = -1; b[1] = 0; b[0] = 1;
}
EX void __cxa_guard_abort(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (!Ctl()) { b[1] = 0; return; }
  Off _; Point(GUARD_DONE, (uint64_t)g);
  Object((uint64_t)g).owner = -1; b[1] = 0;
}

// ---- pthread locks ---------------------------------------------------------------
#define REAL(r, name, args) extern "C" r __real_##name args; EX r __wrap_##name args
static void Acquired(uint64_t a, bool shared) { Obj& o = Object(a); th[tid].vc.Join(o.vc); if (shared) o.readers++; else o.owner = tid; }
static void Released(uint64_t a) { Obj& o = Object(a); o.vc.Join(th[tid].vc); if (o.owner == tid) o.owner = -1; else if (o.readers) o.readers--; }
REAL(int, pthread_mutex_lock, (pthread_mutex_t* m)) {
  if (!Ctl()) return __real_pthread_mutex_lock(m);
  Off _;
  Obj& o = Object((uint64_t)m);
  if (o.owner == tid) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { o.readers++; return 0; } }
  Point(LOCK, (uint64_t)m); Acquired((uint64_t)m, false); return 0;
}
REAL(int, pthread_mutex_trylock, (pthread_mutex_t* m)) {
  if (!Ctl()) return __real_pthread_mutex_trylock(m);
  Off _; Point(RMW, (uint64_t)m);
  if (Object((uint64_t)m).owner >= 0) return EBUSY;
  Acquired((uint64_t)m, false); return 0;
}
REAL(int, pthread_mutex_unlock, (pthread_mutex_t* m)) {
  if (!Ctl()) return __real_pthread_mutex_unlock(m);
  Off _; Obj& o = Object((uint64_t)m);
  if (o.readers) { o.readers--; return 0; }
  Point(UNLOCK, (uint64_t)m); Released((uint64_t)m); return 0;
}
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t* m)) {
  if (!Ctl()) return __real_pthread_rwlock_rdlock(m);
  Off _; Point(LOCK, (uint64_t)m | 1); Acquired((uint64_t)m, true); return 0;
}
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t* m)) {
  if (!Ctl()) return __real_pthread_rwlock_wrlock(m);
  Off _; Point(LOCK, (uint64_t)m); Acquired((uint64_t)m, false); return 0;
}
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t* m)) {
  if (!Ctl()) return __real_pthread_rwlock_unlock(m);
  Off _; Point(UNLOCK, (uint64_t)m); Released((uint64_t)m); return 0;
}
static void Nothing() {}
REAL(int, pthread_once, (pthread_once_t* c, void (*f)())) {
  if (!Ctl()) return __real_pthread_once(c, f);
  { Off _; Point(GUARD, (uint64_t)c); Obj& o = Object((uint64_t)c); th[tid].vc.Join(o.vc); if (*(volatile int*)c & 2) return 0; o.owner = tid; }
  f();
  { Off _; Point(GUARD_DONE, (uint64_t)c); Obj& o = Object((uint64_t)c); o.vc.Join(th[tid].vc); o.owner = -1; __real_pthread_once(c, Nothing); }
  return 0;
}
REAL(int, pthread_cond_wait, (pthread_cond_t* c, pthread_mutex_t* m)) {
  if (!Ctl()) return __real_pthread_cond_wait(c, m);
  Off _; Point(UNLOCK, (uint64_t)m); Released((uint64_t)m);
  th[tid].wait_cond = c; th[tid].signaled = false;
  Point(WAIT, (uint64_t)c); th[tid].vc.Join(Object((uint64_t)c).vc); th[tid].wait_cond = NULL;
  Point(LOCK, (uint64_t)m); Acquired((uint64_t)m, false); return 0;
}
REAL(int, pthread_cond_broadcast, (pthread_cond_t* c)) {
  if (!Ctl()) return __real_pthread_cond_broadcast(c);
  Off _; Point(SIGNAL, (uint64_t)c); Object((uint64_t)c).vc.Join(th[tid].vc);
  for (auto& t : th) if (t.wait_cond == c) t.signaled = true;
  return 0;
}
REAL(int, pthread_cond_signal, (pthread_cond_t* c)) {
  if (!Ctl()) return __real_pthread_cond_signal(c);
  Off _; Point(SIGNAL, (uint64_t)c); Object((uint64_t)c).vc.Join(th[tid].vc);
  for (auto& t : th) if (t.wait_cond == c && !t.signaled) { t.signaled = true; break; }
  return 0;
}

// ---- allocation: fresh memory has no history -----------------------------------
static void* Alloc(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); if (on) Fresh(p, malloc_usable_size(p)); return p; }
static void Release(void* p, void* pc) { if (p && on) { Access((uint64_t)p, malloc_usable_size(p), true, pc); } free(p); }
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Release(p, PC); }
void operator delete[](void* p) noexcept { Release(p, PC); }
void operator delete(void* p, size_t) noexcept { Release(p, PC); }
void operator delete[](void* p, size_t) noexcept { Release(p, PC); }
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __real_realloc(void*, size_t);
EX void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (on) Fresh(p, malloc_usable_size(p)); return p; }
EX void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if (on) Fresh(p, malloc_usable_size(p)); return p; }
EX void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (on && p != q) Fresh(p, malloc_usable_size(p)); return p; }
