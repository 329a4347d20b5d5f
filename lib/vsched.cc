// See vsched.h.  Nothing here is instrumented.
#include "vsched.h"
#include "mc.h"

#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace sched { bool unlock_points = false; }
namespace {

const int MAXT = 12;
const size_t kStack = 1u << 20;

// ---- vector clocks -----------------------------------------------------------
struct VC {
  uint32_t c[MAXT];
  void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
  void clear() { memset(c, 0, sizeof c); }
};

enum St { FREE, RUNNABLE, BLOCKED, FINISHED };
enum Why { NONE, MUTEX, COND, FUTEX, JOIN, ONCE, RWLOCK, PRED, TIMED };

struct Thread {
  St st;
  Why why;
  void* obj;
  int futex;                 // handoff word
  VC vc;
  pthread_t real;
  bool joined, detached, timed, timed_out, yielding;
  int ignore;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  VC end_vc;
  const std::function<bool()>* pred;
  const char* what;
  int64_t deadline_us;       // of a timed wait, on the monotonic clock
};

bool g_active = false;
Thread T[MAXT];
int g_nthreads = 0;
int g_cur = 0;
int g_preempt = 0;
int g_solo = 0;              // consecutive points without a switch
char* g_stacks = nullptr;
uint32_t g_gen = 0;          // execution generation

__thread int t_tid = -1;
__thread int t_in = 0;       // inside the runtime

struct InRt { InRt() { ++t_in; } ~InRt() { --t_in; } };

inline bool controlled() { return g_active && t_tid >= 0 && t_in == 0; }

// ---- handoff -------------------------------------------------------------------
void futex_wait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void futex_post(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// ---- object tables (address -> record), cleared per execution ------------------
struct Obj {
  uintptr_t addr; uint32_t gen; int kind;
  int owner, depth, readers; int state;
  VC vc; VC rvc;
};
const int kObjs = 1 << 14;
Obj* g_objs;
Obj* obj(const volatile void* a, int kind) {
  uintptr_t x = (uintptr_t)a;
  size_t i = (x * 0x9e3779b97f4a7c15ull + kind * 0x1234567) >> 50;
  for (int n = 0; n < kObjs; ++n, i = (i + 1) & (kObjs - 1)) {
    Obj& o = g_objs[i & (kObjs - 1)];
    if (o.gen != g_gen) {
      o.addr = x; o.gen = g_gen; o.kind = kind; o.owner = -1; o.depth = 0; o.readers = 0; o.state = 0;
      o.vc.clear(); o.rvc.clear();
      return &o;
    }
    if (o.addr == x && o.kind == kind) return &o;
  }
  mc::fail("runtime: too many synchronisation objects");
}
enum { K_MUTEX = 1, K_ATOMIC, K_ONCE, K_RW, K_COND, K_FENCE };

// ---- shadow memory -----------------------------------------------------------------
const int kSlots = 6;
struct Acc { uint32_t clk; uint8_t tid, mask, write, atomic; uint32_t pc_lo; };
struct Cell { uintptr_t a; uint32_t gen; uint8_t n, freed, free_tid, rr; uint32_t free_pc; Acc s[kSlots]; };
const size_t kCells = 1u << 20;
Cell* g_cells;
size_t g_cells_used;
uintptr_t g_base;   // pc base

Cell* cell(uintptr_t a8, bool create) {
  size_t i = (a8 * 0x9e3779b97f4a7c15ull) >> 44;
  for (size_t n = 0; n < 4096; ++n, i = (i + 1) & (kCells - 1)) {
    Cell& c = g_cells[i];
    if (c.gen != g_gen) {
      if (!create) return nullptr;
      if (++g_cells_used > kCells - kCells / 4) return nullptr;   // give up quietly: only misses races
      c.a = a8; c.gen = g_gen; c.n = 0; c.freed = 0; c.rr = 0;
      return &c;
    }
    if (c.a == a8) return &c;
  }
  return nullptr;
}

void describe_pc(uint32_t lo, char* out, size_t n) {
  uintptr_t pc = g_base + lo;
  Dl_info di;
  char path[512];
  ssize_t k = readlink("/proc/self/exe", path, sizeof path - 1);
  out[0] = 0;
  if (k > 0 && mc::tracing()) {
    path[k] = 0;
    char cmd[900];
    snprintf(cmd, sizeof cmd, "addr2line -Cfpse %s 0x%lx 2>/dev/null", path, (unsigned long)lo - 1);
    FILE* f = popen(cmd, "r");
    if (f) { if (fgets(out, n, f)) { size_t l = strlen(out); if (l && out[l - 1] == '\n') out[l - 1] = 0; } pclose(f); }
  }
  if (!out[0]) {
    if (dladdr((void*)pc, &di) && di.dli_sname) snprintf(out, n, "%s", di.dli_sname);
    else snprintf(out, n, "pc 0x%x", lo);
  }
}

[[noreturn]] void report_race(const char* kind, uintptr_t addr, int t1, bool w1, uint32_t pc1, int t2, bool w2, uint32_t pc2) {
  g_active = false;
  mc::virtual_clock = false;
  char a[400], b[400];
  describe_pc(pc1, a, sizeof a);
  describe_pc(pc2, b, sizeof b);
  mc::fail("%s: thread %d %s at %s; thread %d %s at %s", kind, t1, w1 ? "writes" : "reads", a, t2,
           w2 ? "wrote" : "read", b);
}

inline void access1(uintptr_t a8, uint8_t mask, bool write, bool atomic, uint32_t pc) {
  Cell* c = cell(a8, true);
  if (!c) return;
  int t = t_tid;
  Thread& th = T[t];
  if (c->freed & mask) {
    g_active = false;
    char a[400], b[400];
    describe_pc(pc, a, sizeof a);
    describe_pc(c->free_pc, b, sizeof b);
    mc::fail("use of freed memory: thread %d %s at %s; freed by thread %d at %s", t, write ? "writes" : "reads", a,
             c->free_tid, b);
  }
  int same = -1, dead = -1;
  for (int i = 0; i < c->n; ++i) {
    Acc& s = c->s[i];
    if (s.tid == t) {
      if (s.mask == mask && s.write == (write ? 1 : 0) && s.atomic == (atomic ? 1 : 0)) same = i;
      else if ((s.mask & ~mask) == 0 && write && !atomic) dead = i;   // subsumed
      continue;
    }
    bool hb = s.clk <= th.vc.c[s.tid];
    if (hb) { if ((s.mask & ~mask) == 0 && write) dead = i; continue; }
    if ((s.mask & mask) && (s.write || write) && !(s.atomic && atomic))
      report_race("data race", a8, t, write, pc, s.tid, s.write, s.pc_lo);
  }
  int k = same >= 0 ? same : dead >= 0 ? dead : c->n < kSlots ? c->n++ : (c->rr++ % kSlots);
  Acc& s = c->s[k];
  s.clk = th.vc.c[t]; s.tid = t; s.mask = mask; s.write = write; s.atomic = atomic; s.pc_lo = pc;
}

void access(const volatile void* p, size_t n, bool write, bool atomic, void* pc) {
  if (!controlled()) return;
  if (T[t_tid].ignore) return;
  InRt g;
  uint32_t lo = (uint32_t)((uintptr_t)pc - g_base);
  uintptr_t a = (uintptr_t)p, e = a + n;
  while (a < e) {
    uintptr_t a8 = a & ~7ull;
    uintptr_t stop = a8 + 8 < e ? a8 + 8 : e;
    uint8_t mask = (uint8_t)(((1u << (stop - a)) - 1) << (a - a8));
    access1(a8, mask, write, atomic, lo);
    a = stop;
  }
}

void check_freed(const volatile void* p, const char* what) {
  Cell* c = cell((uintptr_t)p & ~7ull, false);
  if (c && c->freed) {
    char b[400];
    g_active = false;
    describe_pc(c->free_pc, b, sizeof b);
    mc::fail("%s in freed memory (freed by thread %d at %s)", what, c->free_tid, b);
  }
}

// ---- scheduling --------------------------------------------------------------------
bool enabled(int t) {
  Thread& x = T[t];
  if (x.st == RUNNABLE) return true;
  if (x.st == BLOCKED && x.why == PRED) return (*x.pred)();
  return false;
}

const char* why_name(Why w) {
  switch (w) { case MUTEX: return "mutex"; case COND: return "condition variable"; case FUTEX: return "future";
    case JOIN: return "join"; case ONCE: return "once"; case RWLOCK: return "rwlock"; case PRED: return "event"; default: return "?"; }
}

[[noreturn]] void deadlock() {
  g_active = false;
  mc::virtual_clock = false;
  char buf[800]; buf[0] = 0;
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i].st == BLOCKED)
      snprintf(buf + strlen(buf), sizeof buf - strlen(buf), " thread %d waits for %s%s%s;", i, why_name(T[i].why),
               T[i].what ? " " : "", T[i].what ? T[i].what : "");
  mc::fail("deadlock:%s", buf);
}

void switch_to(int n) {
  int me = t_tid;
  if (n == me) return;
  g_cur = n;
  g_solo = 0;
  if (mc::tracing()) mc::trace("    [schedule: thread %d -> thread %d]", me, n);
  futex_post(&T[n].futex);
}

void make_runnable(int t) { T[t].st = RUNNABLE; T[t].why = NONE; T[t].obj = nullptr; T[t].what = nullptr; }

bool waits_timed(int i) { return T[i].st == BLOCKED && T[i].timed; }
// A timed wait ends before anything else happens.
void expire(int i) {
  if (mc::tracing()) mc::trace("    [thread %d: wait times out]", i);
  T[i].timed_out = true;
  int64_t mono = mc::now_us + mc::mono_extra_us;
  if (T[i].deadline_us >= mono) mc::mono_extra_us += T[i].deadline_us - mono + 1;
  make_runnable(i);
}
// The threads that can go on instead of the current one; those whose timed wait
// may end (at the price of a preemption) come last.
int others(int* list, int* free_ones) {
  int n = 0;
  for (int i = 0; i < g_nthreads; ++i) if (i != t_tid && enabled(i)) list[n++] = i;
  *free_ones = n;
  if (g_preempt < mc::exec_level)
    for (int i = 0; i < g_nthreads; ++i) if (i != t_tid && !enabled(i) && waits_timed(i)) list[n++] = i;
  return n;
}
// Picks another thread when the current one cannot (or must not) continue.
int pick_other() {
  int list[MAXT], ready, n = others(list, &ready);
  if (ready == 0) return -1;
  int c = mc::choose(n, "resume");
  if (c >= ready) { ++g_preempt; expire(list[c]); }
  return list[c];
}

// Ends a timed wait if nothing else can run.
bool fire_timeout() {
  for (int i = 0; i < g_nthreads; ++i) if (waits_timed(i)) { expire(i); return true; }
  return false;
}

void wait_turn() { futex_wait(&T[t_tid].futex); }

void block(Why w, void* o, const char* what = nullptr) {
  Thread& me = T[t_tid];
  me.st = BLOCKED; me.why = w; me.obj = o; me.what = what;
  for (;;) {
    if (enabled(t_tid)) { make_runnable(t_tid); return; }
    if (me.timed && g_preempt < mc::exec_level && mc::choose(2, "timeout")) { ++g_preempt; expire(t_tid); return; }
    int n = pick_other();
    if (n < 0) {
      if (fire_timeout()) continue;
      deadlock();
    }
    if (T[n].st == BLOCKED) make_runnable(n);
    switch_to(n);
    wait_turn();
    if (T[t_tid].st == RUNNABLE) return;
  }
}

void point_impl() {
  Thread& me = T[t_tid];
  if (me.ignore) return;
  int list[MAXT], ready, n = others(list, &ready);
  if (n == 0) { g_solo = 0; return; }
  if (++g_solo > 400 && ready) {  // a spinning thread: let others run, fairly
    g_solo = 0;
    int k = list[0];
    for (int i = 0; i < ready; ++i) if (list[i] > t_tid) { k = list[i]; break; }
    static int spins; static uint32_t gen;
    if (gen != g_gen) { gen = g_gen; spins = 0; }
    if (++spins > 2000) { g_active = false; mc::fail("livelock: threads only spin"); }
    if (T[k].st == BLOCKED) make_runnable(k);
    switch_to(k);
    wait_turn();
    return;
  }
  if (g_preempt >= mc::exec_level) return;
  int c = mc::choose(n + 1, "preempt");
  if (c == 0) return;
  ++g_preempt;
  int k = list[c - 1];
  if (c > ready) expire(k);
  if (T[k].st == BLOCKED) make_runnable(k);
  switch_to(k);
  wait_turn();
}

void yield_impl() {
  Thread& me = T[t_tid];
  if (me.ignore) return;
  int n = pick_other();
  if (n < 0) { if (!fire_timeout()) return; n = pick_other(); if (n < 0) return; }
  if (T[n].st == BLOCKED) make_runnable(n);
  switch_to(n);
  wait_turn();
}

void tick() { T[t_tid].vc.c[t_tid]++; }

// ---- real functions -----------------------------------------------------------------
template <class F> F real(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "no symbol %s\n", name); abort(); }
  return (F)p;
}
#define REAL(name) static decltype(&name) real_##name = nullptr; if (!real_##name) { ++t_in; real_##name = real<decltype(&name)>(#name); --t_in; }

// ---- mutex -----------------------------------------------------------------------------
int mutex_kind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

int64_t deadline_of(const struct timespec* ts) { return ts->tv_sec * 1000000ll + ts->tv_nsec / 1000; }
int lock_impl(pthread_mutex_t* m, bool try_only, const struct timespec* until = nullptr) {
  InRt g;
  check_freed(m, "mutex locked");
  point_impl();
  check_freed(m, "mutex locked");
  Obj* o = obj(m, K_MUTEX);
  int t = t_tid;
  if (o->owner == t) {
    if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; }
    if (try_only) return EBUSY;
    if (mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    g_active = false;
    mc::virtual_clock = false;
    mc::fail("deadlock: thread %d locks a mutex it already holds", t);
  }
  while (o->owner != -1) {
    if (try_only) return EBUSY;
    T[t].timed = until != nullptr; T[t].timed_out = false;
    if (until) T[t].deadline_us = deadline_of(until);
    block(MUTEX, m);
    bool to = T[t].timed_out;
    T[t].timed = T[t].timed_out = false;
    if (to) return ETIMEDOUT;
    o = obj(m, K_MUTEX);
  }
  check_freed(m, "mutex locked");
  o->owner = t; o->depth = 1;
  T[t].vc.join(o->vc);
  return 0;
}

int unlock_impl(pthread_mutex_t* m) {
  InRt g;
  check_freed(m, "mutex unlocked");
  if (sched::unlock_points) point_impl();
  Obj* o = obj(m, K_MUTEX);
  int t = t_tid;
  if (o->owner != t) { g_active = false; mc::fail("thread %d unlocks a mutex held by thread %d", t, o->owner); }
  if (--o->depth > 0) return 0;
  o->owner = -1;
  o->vc.join(T[t].vc);
  tick();
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i].st == BLOCKED && T[i].why == MUTEX && T[i].obj == m) make_runnable(i);
  return 0;
}

// ---- heap ---------------------------------------------------------------------------------
struct Hdr { size_t size; uint32_t magic; uint32_t gen; };
const uint32_t kLive = 0xA110C8ED, kDead = 0xDEADF4EE;
struct QNode { void* p; };
void** g_quar; size_t g_nquar, g_cquar;

void quarantine(void* p) {
  if (g_nquar == g_cquar) {
    g_cquar = g_cquar ? g_cquar * 2 : 65536;
    g_quar = (void**)realloc(g_quar, g_cquar * sizeof(void*));
  }
  g_quar[g_nquar++] = p;
}

void* heap_alloc(size_t n) {
  Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n);
  if (!h) abort();
  h->size = n; h->magic = kLive; h->gen = g_gen;
  if (n <= 65536) memset(h + 1, 0xa5, n);    // fresh memory is never accidentally zero
  return h + 1;
}

void heap_free(void* p, void* pc) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic == kDead) { g_active = false; mc::virtual_clock = false; mc::fail("double free (thread %d)", t_tid); }
  if (h->magic != kLive) { g_active = false; mc::fail("free of a pointer that was not allocated (thread %d)", t_tid); }
  if (!controlled()) {
    if (g_active && t_tid >= 0) { h->magic = kDead; quarantine(h); return; }   // freed from inside the runtime
    h->magic = 0; free(h); return;
  }
  InRt g;
  uint32_t lo = (uint32_t)((uintptr_t)pc - g_base);
  bool ign = T[t_tid].ignore;
  uintptr_t a = (uintptr_t)p, e = a + h->size;
  for (; a < e; a += 8) {
    uint8_t mask = e - a >= 8 ? 0xff : (uint8_t)((1u << (e - a)) - 1);
    // Only cells that were accessed, or the first ones, need a record of the free.
    Cell* c = cell(a, a - (uintptr_t)p < 512);
    if (!c) continue;
    if (!ign) access1(a, mask, true, false, lo);
    c->freed |= mask; c->free_pc = lo; c->free_tid = t_tid;
  }
  memset(p, 0xDD, h->size);
  h->magic = kDead;
  quarantine(h);
}

// ---- atomics ---------------------------------------------------------------------------------
enum MO { RLX = 0, CONSUME = 1, ACQ = 2, REL = 3, AR = 4, SC = 5 };
inline bool is_acq(int mo) { return mo == ACQ || mo == AR || mo == SC || mo == CONSUME; }
inline bool is_rel(int mo) { return mo == REL || mo == AR || mo == SC; }

// Reference counts (32-bit acq_rel read-modify-write) are not made scheduling
// points: they never carry data a harness observes, and would swamp the bound.
void atomic_pre(const volatile void* a, size_t n, int mo, bool rmw) {
  InRt g;
  if (!(rmw && n == 4 && mo == AR)) point_impl();
}
void atomic_post(const volatile void* a, size_t n, int mo, bool ld, bool st, void* pc) {
  if (T[t_tid].ignore) return;
  access(a, n, st, true, pc);
  InRt g;
  Obj* o = obj(a, K_ATOMIC);
  Thread& t = T[t_tid];
  if (ld && is_acq(mo)) t.vc.join(o->vc);
  if (st) {
    if (is_rel(mo)) {
      if (!ld) o->vc = t.vc; else o->vc.join(t.vc);
      tick();
    } else if (!ld) o->vc.clear();
  }
}

void* thread_main(void* p) {
  int id = (int)(intptr_t)p;
  t_tid = id;
  futex_wait(&T[id].futex);
  void* r = T[id].fn(T[id].arg);
  ++t_in;
  Thread& me = T[id];
  me.ret = r;
  me.end_vc = me.vc;
  me.st = FINISHED;
  for (int i = 0; i < g_nthreads; ++i)
    if (T[i].st == BLOCKED && T[i].why == JOIN && T[i].obj == &me) make_runnable(i);
  int n = pick_other();
  while (n < 0 && fire_timeout()) n = pick_other();
  if (n < 0) {
    bool any = false;
    for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED) any = true;
    if (any) deadlock();
  } else {
    if (T[n].st == BLOCKED) make_runnable(n);
    switch_to(n);
  }
  t_tid = -1;
  --t_in;
  return r;
}

void init_tables() {
  if (g_objs) return;
  g_objs = (Obj*)mmap(nullptr, kObjs * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_cells = (Cell*)mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_stacks = (char*)mmap(nullptr, kStack * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  Dl_info di;
  if (dladdr((void*)&init_tables, &di)) g_base = (uintptr_t)di.dli_fbase;
}

bool g_warm = false;

void run_controlled(const std::function<void()>& body) {
  init_tables();
  ++g_gen;
  g_cells_used = 0;
  memset(T, 0, sizeof T);
  g_nthreads = 1;
  g_cur = 0; g_preempt = 0; g_solo = 0;
  T[0].st = RUNNABLE;
  T[0].vc.c[0] = 1;
  T[0].real = pthread_self();
  t_tid = 0;
  t_in = 0;
  g_active = true;
  body();
  // Everything must have been joined.
  {
    InRt g;
    for (int i = 1; i < g_nthreads; ++i)
      if (T[i].st != FINISHED) {
        std::function<bool()> p = [i] { return T[i].st == FINISHED; };
        T[0].pred = &p;
        block(PRED, nullptr, "thread to finish");
      }
  }
  g_active = false;
  for (int i = 1; i < g_nthreads; ++i)
    if (!T[i].joined) {
      static int (*rj)(pthread_t, void**) = real<int (*)(pthread_t, void**)>("pthread_join");
      rj(T[i].real, nullptr);
    }
  t_tid = -1;
  for (size_t i = 0; i < g_nquar; ++i) free(g_quar[i]);
  g_nquar = 0;
}

struct Install { Install() { mc::exec_wrapper = run_controlled; } } install;

}  // namespace

namespace sched {
void ignore_begin() { if (g_active && t_tid >= 0) T[t_tid].ignore++; }
void ignore_end() { if (g_active && t_tid >= 0) T[t_tid].ignore--; }
int tid() { return t_tid; }
void point() { if (controlled()) { InRt g; point_impl(); } }
void wait_until(const std::function<bool()>& pred, const char* what) {
  if (!controlled()) { if (!pred()) mc::fail("wait_until outside of the scheduler"); return; }
  InRt g;
  int ign = T[t_tid].ignore;
  T[t_tid].ignore = 0;
  T[t_tid].pred = &pred;
  if (!pred()) block(PRED, nullptr, what);
  T[t_tid].ignore = ign;
}
void release(const void* c) { if (!g_active || t_tid < 0) return; InRt g; obj(c, K_COND)->vc.join(T[t_tid].vc); tick(); }
void acquire(const void* c) { if (!g_active || t_tid < 0) return; InRt g; T[t_tid].vc.join(obj(c, K_COND)->vc); }
int live_threads() { int n = 0; for (int i = 0; i < g_nthreads; ++i) n += T[i].st != FINISHED; return n; }
bool is_freed(const void* p) { Cell* c = cell((uintptr_t)p & ~7ull, false); return c && c->freed; }
}  // namespace sched

// ---- heap entry points ---------------------------------------------------------------
#define PC __builtin_return_address(0)
void* operator new(size_t n) { return heap_alloc(n); }
void* operator new[](size_t n) { return heap_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n); }
void operator delete(void* p) noexcept { heap_free(p, PC); }
void operator delete[](void* p) noexcept { heap_free(p, PC); }
void operator delete(void* p, size_t) noexcept { heap_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { heap_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p, PC); }

extern "C" {
// ---- pthread interposition -----------------------------------------------------------
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (controlled()) return lock_impl(m, false);
  if (g_active && t_tid >= 0) return 0;   // the runtime itself: single threaded
  REAL(pthread_mutex_lock);
  return real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (controlled()) return lock_impl(m, true);
  if (g_active && t_tid >= 0) return 0;
  REAL(pthread_mutex_trylock);
  return real_pthread_mutex_trylock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { return controlled() ? lock_impl(m, false, ts) : pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec* ts) noexcept { return controlled() ? lock_impl(m, false, ts) : pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (controlled()) return unlock_impl(m);
  if (g_active && t_tid >= 0) return 0;
  REAL(pthread_mutex_unlock);
  return real_pthread_mutex_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (controlled()) { InRt g; Obj* o = obj(m, K_MUTEX); if (o->owner >= 0) { g_active = false; mc::fail("mutex destroyed while held"); } return 0; }
  if (g_active && t_tid >= 0) return 0;
  REAL(pthread_mutex_destroy);
  return real_pthread_mutex_destroy(m);
}

int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) noexcept {
  REAL(pthread_create);
  if (!controlled()) return real_pthread_create(out, attr, fn, arg);
  InRt g;
  if (g_nthreads >= MAXT) { g_active = false; mc::fail("too many threads"); }
  int id = g_nthreads++;
  Thread& t = T[id];
  memset(&t, 0, sizeof t);
  t.fn = fn; t.arg = arg; t.st = RUNNABLE;
  t.vc = T[t_tid].vc;
  t.vc.c[id] = 1;
  tick();
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, g_stacks + (size_t)id * kStack, kStack);
  int r = real_pthread_create(&t.real, &at, thread_main, (void*)(intptr_t)id);
  pthread_attr_destroy(&at);
  if (r != 0) { g_nthreads--; return r; }
  *out = t.real;
  point_impl();
  return 0;
}
int pthread_join(pthread_t p, void** ret) noexcept(false) {
  REAL(pthread_join);
  if (!controlled()) return real_pthread_join(p, ret);
  InRt g;
  for (int i = 1; i < g_nthreads; ++i)
    if (!T[i].joined && pthread_equal(T[i].real, p)) {
      if (i == t_tid) return EDEADLK;
      while (T[i].st != FINISHED) block(JOIN, &T[i]);
      T[i].joined = true;
      T[t_tid].vc.join(T[i].end_vc);
      if (ret) *ret = T[i].ret;
      return real_pthread_join(p, nullptr);
    }
  return ESRCH;
}
int pthread_detach(pthread_t p) noexcept {
  REAL(pthread_detach);
  if (!controlled()) return real_pthread_detach(p);
  InRt g;
  for (int i = 1; i < g_nthreads; ++i) if (pthread_equal(T[i].real, p)) T[i].detached = true;
  return 0;
}

static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* until) {
  unlock_impl(m);
  InRt g;
  T[t_tid].timed = until != nullptr; T[t_tid].timed_out = false;
  if (until) T[t_tid].deadline_us = deadline_of(until);
  block(COND, c);
  bool to = T[t_tid].timed_out;
  T[t_tid].timed = false; T[t_tid].timed_out = false;
  --t_in;
  lock_impl(m, false);
  ++t_in;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) noexcept(false) {
  if (controlled()) return cond_wait_impl(c, m, nullptr);
  REAL(pthread_cond_wait);
  return real_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) noexcept(false) {
  if (controlled()) return cond_wait_impl(c, m, ts);
  REAL(pthread_cond_timedwait);
  return real_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) noexcept(false) {
  if (controlled()) return cond_wait_impl(c, m, ts);
  REAL(pthread_cond_clockwait);
  return real_pthread_cond_clockwait(c, m, id, ts);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (controlled()) {
    InRt g;
    point_impl();
    int list[MAXT], n = 0;
    for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == COND && T[i].obj == c) list[n++] = i;
    if (n) make_runnable(list[mc::choose(n, "signal")]);
    return 0;
  }
  REAL(pthread_cond_signal);
  return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (controlled()) {
    InRt g;
    point_impl();
    for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == COND && T[i].obj == c) make_runnable(i);
    return 0;
  }
  REAL(pthread_cond_broadcast);
  return real_pthread_cond_broadcast(c);
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (controlled()) return 0;
  REAL(pthread_cond_destroy);
  return real_pthread_cond_destroy(c);
}

static int rd_impl(pthread_rwlock_t* m, bool wr, bool try_only) {
  InRt g;
  check_freed(m, "rwlock locked");
  point_impl();
  Obj* o = obj(m, K_RW);
  while (o->owner != -1 || (wr && o->readers > 0)) {
    if (try_only) return EBUSY;
    if (o->owner == t_tid) { g_active = false; mc::fail("deadlock: thread %d locks a rwlock it already holds", t_tid); }
    block(RWLOCK, m);
  }
  if (wr) { o->owner = t_tid; T[t_tid].vc.join(o->vc); T[t_tid].vc.join(o->rvc); }
  else { o->readers++; T[t_tid].vc.join(o->vc); }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) return rd_impl(m, false, false);
  if (g_active && t_tid >= 0) return 0;
  REAL(pthread_rwlock_rdlock); return real_pthread_rwlock_rdlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) return rd_impl(m, true, false);
  if (g_active && t_tid >= 0) return 0;
  REAL(pthread_rwlock_wrlock); return real_pthread_rwlock_wrlock(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) return rd_impl(m, false, true);
  REAL(pthread_rwlock_tryrdlock); return real_pthread_rwlock_tryrdlock(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) return rd_impl(m, true, true);
  REAL(pthread_rwlock_trywrlock); return real_pthread_rwlock_trywrlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
  if (controlled()) {
    InRt g;
    Obj* o = obj(m, K_RW);
    if (o->owner == t_tid) { o->owner = -1; o->vc.join(T[t_tid].vc); }
    else { o->readers--; o->rvc.join(T[t_tid].vc); }
    tick();
    for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == RWLOCK && T[i].obj == m) make_runnable(i);
    return 0;
  }
  if (g_active && t_tid >= 0) return 0;
  REAL(pthread_rwlock_unlock); return real_pthread_rwlock_unlock(m);
}

int pthread_once(pthread_once_t* o, void (*fn)(void)) noexcept(false) {
  if (!controlled()) {
    REAL(pthread_once);
    return real_pthread_once(o, fn);
  }
  Obj* ob;
  {
    InRt g;
    point_impl();
    ob = obj(o, K_ONCE);
    while (ob->state == 1) block(ONCE, o);
    T[t_tid].vc.join(ob->vc);
    if (*(volatile int*)o == 2) return 0;
    ob->state = 1; ob->owner = t_tid;
  }
  bool done = false;
  struct Fin {
    Obj* ob; pthread_once_t* o; bool* done;
    ~Fin() {
      InRt g;
      ob->state = *done ? 2 : 0;
      if (*done) *(volatile int*)o = 2;
      ob->vc.join(T[t_tid].vc);
      tick();
      for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == ONCE && T[i].obj == o) make_runnable(i);
    }
  } fin{ob, o, &done};
  fn();
  done = true;
  return 0;
}

int __cxa_guard_acquire(uint64_t* gd) {
  char* b = (char*)gd;
  if (!controlled()) { if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0; return 1; }
  InRt g;
  Obj* o = obj(gd, K_ONCE);
  while (o->state == 1) block(ONCE, gd);
  T[t_tid].vc.join(o->vc);
  if (*b) return 0;
  o->state = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* gd) {
  __atomic_store_n((char*)gd, 1, __ATOMIC_RELEASE);
  if (!controlled()) return;
  InRt g;
  Obj* o = obj(gd, K_ONCE);
  o->state = 2;
  o->vc.join(T[t_tid].vc);
  tick();
  for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == ONCE && T[i].obj == gd) make_runnable(i);
}
void __cxa_guard_abort(uint64_t* gd) {
  if (!controlled()) return;
  InRt g;
  Obj* o = obj(gd, K_ONCE);
  o->state = 0;
  for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == ONCE && T[i].obj == gd) make_runnable(i);
}

int sched_yield(void) noexcept {
  if (controlled()) { InRt g; yield_impl(); return 0; }
  return syscall(SYS_sched_yield);
}
int nanosleep(const struct timespec* a, struct timespec* b) noexcept(false) {
  if (controlled()) { InRt g; mc::now_us += a->tv_sec * 1000000ll + a->tv_nsec / 1000; yield_impl(); return 0; }
  return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* a, struct timespec* b) noexcept(false) {
  if (controlled()) { InRt g; yield_impl(); return 0; }
  return syscall(SYS_clock_nanosleep, id, fl, a, b);
}
int usleep(useconds_t u) noexcept(false) {
  struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}

// std::future waits: std::__atomic_futex_unsigned_base.
bool futex_wait_until_impl(unsigned* addr, unsigned val, bool has_timeout, long s, long ns) {
  InRt g;
  point_impl();
  check_freed(addr, "future waited for");
  if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != val) return true;
  T[t_tid].timed = has_timeout; T[t_tid].timed_out = false;
  T[t_tid].deadline_us = s * 1000000ll + ns / 1000;
  block(FUTEX, addr, "completion");
  bool to = T[t_tid].timed_out;
  T[t_tid].timed = false; T[t_tid].timed_out = false;
  return !to;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, long s, long ns) {
  if (!controlled()) { while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) syscall(SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0); return true; }
  return futex_wait_until_impl(addr, val, has_timeout, s, ns);
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, long s, long ns) {
  if (!controlled()) { while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) syscall(SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0); return true; }
  return futex_wait_until_impl(addr, val, has_timeout, s, ns);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* addr) {
  if (!controlled()) { syscall(SYS_futex, addr, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); return; }
  InRt g;
  point_impl();
  check_freed(addr, "future notified");
  for (int i = 0; i < g_nthreads; ++i) if (T[i].st == BLOCKED && T[i].why == FUTEX && T[i].obj == addr) make_runnable(i);
}

// ---- instrumentation hooks --------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_read_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { access(a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access(a, 8, false, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }

#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type* a, int mo) { \
    if (!controlled()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    atomic_pre(a, sizeof(type), mo, false); type v = __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    atomic_post(a, sizeof(type), mo, true, false, PC); return v; } \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { \
    if (!controlled()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } \
    atomic_pre(a, sizeof(type), mo, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    atomic_post(a, sizeof(type), mo, false, true, PC); } \
  ATOMIC_RMW(bits, type, exchange, __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST)) \
  ATOMIC_RMW(bits, type, fetch_add, __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST)) \
  ATOMIC_RMW(bits, type, fetch_sub, __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST)) \
  ATOMIC_RMW(bits, type, fetch_and, __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST)) \
  ATOMIC_RMW(bits, type, fetch_or, __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST)) \
  ATOMIC_RMW(bits, type, fetch_xor, __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST)) \
  ATOMIC_RMW(bits, type, fetch_nand, __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST)) \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo) { \
    if (!controlled()) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    atomic_pre(a, sizeof(type), mo, true); \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    atomic_post(a, sizeof(type), ok ? mo : fmo, true, ok, PC); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
#define ATOMIC_RMW(bits, type, op, expr) \
  type __tsan_atomic##bits##_##op(volatile type* a, type v, int mo) { \
    if (!controlled()) return expr; \
    atomic_pre(a, sizeof(type), mo, true); type r = expr; \
    atomic_post(a, sizeof(type), mo, true, true, PC); return r; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!controlled()) return;
  InRt g;
  Obj* o = obj(&g_base, K_FENCE);
  T[t_tid].vc.join(o->vc); o->vc.join(T[t_tid].vc); tick();
}
void __tsan_atomic_signal_fence(int) {}
}
