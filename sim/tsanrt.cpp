// Runtime behind -fsanitize=thread instrumentation: every library memory access
// becomes a scheduling point and is checked against released memory and, by
// vector clocks, for unsynchronised conflicts. No part of the real TSan runs.
#include "sched.hpp"
#include <atomic>
#include <pthread.h>
#include <semaphore.h>

namespace sim {
extern void (*on_lib_alloc)(const void *, size_t);
extern void (*on_lib_free)(const void *, size_t);
} // namespace sim

extern "C" char __data_start, _end;
namespace sched {
using sim::fail;
using sim::in_lib;

void (*on_switch)();
const char *race_oracle = "race", *uaf_oracle = "use-after-free";
uint64_t accesses, switches;

struct VC {
  uint32_t c[MAXT];
  void join(const VC &o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct Thr {
  sem_t sem;
  pthread_t id;
  bool alive;
  int saved_lib;
  uint32_t fail_at, fail_len, faults; // allocation faults are armed per thread
  VC vc;
  const char *stack_lo, *stack_hi;
  std::function<void()> body;
};
static Thr thr[MAXT];
static int nthr = 1;
static __thread int me;
static bool active;
static int nopreempt;
static uint32_t gap, gap_range, atomic_den;
static bool in_hook;

int self() { return me; }

//---------------------------------------------------------------- scheduling
static int pick_next(bool must) {
  int cand[MAXT], n = 0;
  for (int i = 1; i < nthr; ++i)
    if (thr[i].alive && !(must && i == me)) cand[n++] = i;
  if (!n) return must ? 0 : me;
  if (n == 1) return cand[0];
  // choice 0 means: stay (or the first candidate)
  uint32_t k = sim::choose(uint32_t(n));
  if (!must) {
    int at = 0;
    for (int i = 0; i < n; ++i) if (cand[i] == me) at = i;
    return cand[(at + k) % n];
  }
  return cand[k];
}
static void redraw_gap() { gap = gap_range ? sim::choose(gap_range) : 0; }
static void save_to(Thr &t) {
  t.saved_lib = in_lib;
  t.fail_at = sim::alloc_fail_at;
  t.fail_len = sim::alloc_fail_len;
  t.faults = sim::alloc_faults;
}
static void load_from(const Thr &t) {
  in_lib = t.saved_lib;
  sim::alloc_fail_at = t.fail_at;
  sim::alloc_fail_len = t.fail_len;
  sim::alloc_faults = t.faults;
}
static void switch_to(int next) {
  if (next == me) return;
  ++switches;
  sim::mix(uint64_t(next) * 31 + 7);
  int my = me;
  save_to(thr[my]);
  load_from(thr[next]);
  if (on_switch && !in_hook) {
    int s = in_lib;
    in_lib = 0;
    in_hook = true;
    on_switch();
    in_hook = false;
    in_lib = s;
  }
  sem_post(&thr[next].sem);
  while (sem_wait(&thr[my].sem)) {}
}
static void reschedule(bool must) {
  if (!active || !me || nopreempt || in_hook) return;
  int next = pick_next(must);
  redraw_gap();
  if (next) switch_to(next);
}
void point() { reschedule(false); }

static pthread_key_t key;
// runs after the destructors of thread_local objects
static void finished(void *) {
  int my = me;
  thr[my].alive = false;
  int next = 0;
  {
    int cand[MAXT], n = 0;
    for (int i = 1; i < nthr; ++i)
      if (thr[i].alive) cand[n++] = i;
    if (n) next = cand[n == 1 ? 0 : sim::choose(uint32_t(n))];
  }
  if (next) {
    ++switches;
    sim::mix(uint64_t(next) * 31 + 7);
    redraw_gap();
  }
  load_from(thr[next]);
  sem_post(&thr[next].sem);
}
static void *entry(void *arg) {
  me = int(reinterpret_cast<intptr_t>(arg));
  char mark;
  thr[me].stack_hi = &mark + 4096;
  thr[me].stack_lo = &mark - (1 << 20);
  pthread_setspecific(key, arg);
  while (sem_wait(&thr[me].sem)) {}
  thr[me].body();
  in_lib = 0;
  thr[me].body = nullptr;
  return nullptr;
}
void run(std::vector<std::function<void()>> bodies) {
  static bool once;
  if (!once) {
    once = true;
    pthread_key_create(&key, finished);
    for (auto &t : thr) sem_init(&t.sem, 0, 0);
  }
  static const uint32_t ranges[] = {0, 6, 20, 60, 200, 800};
  gap_range = ranges[sim::choose(6)];
  atomic_den = sim::choose(4); // 0: never by itself
  if (bodies.size() + 1 > MAXT) abort();
  nthr = int(bodies.size()) + 1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 1; i < nthr; ++i) {
    thr[i].alive = true;
    thr[i].saved_lib = 0;
    thr[i].fail_at = thr[i].fail_len = thr[i].faults = 0;
    thr[i].vc = thr[0].vc; // creation happens-before
    thr[i].vc.c[i]++;
    thr[i].body = std::move(bodies[size_t(i) - 1]);
    if (pthread_create(&thr[i].id, &at, entry, reinterpret_cast<void *>(intptr_t(i)))) abort();
  }
  pthread_attr_destroy(&at);
  thr[0].vc.c[0]++;
  active = true;
  save_to(thr[0]);
  int first = nthr == 2 ? 1 : 1 + int(sim::choose(uint32_t(nthr - 1)));
  redraw_gap();
  load_from(thr[first]);
  sem_post(&thr[first].sem);
  while (sem_wait(&thr[0].sem)) {}
  active = false;
  for (int i = 1; i < nthr; ++i) {
    pthread_join(thr[i].id, nullptr);
    thr[0].vc.join(thr[i].vc);
  }
  nthr = 1;
}

//---------------------------------------------------------------- shadow memory
struct Shadow {
  uintptr_t addr;
  uint32_t gen;
  uint8_t wt;       // last writer (0xff none)
  bool wsync;       // it was an atomic/volatile write
  uint32_t wc;
  uint32_t rc[MAXT];     // plain reads
  uint32_t rs[MAXT];     // synchronising reads
};
static const size_t SHN = 1 << 18;
static Shadow shadow[SHN];
static uint32_t gen = 1;
struct SyncVar { uintptr_t addr; uint32_t gen; VC vc; };
static const size_t SYN = 1 << 12;
static SyncVar syncs[SYN];

static size_t shadow_used;
void begin_run() {
  ++gen;
  shadow_used = 0;
  for (auto &t : thr) memset(&t.vc, 0, sizeof t.vc);
  for (int i = 0; i < MAXT; ++i) thr[i].vc.c[i] = 1;
  accesses = switches = 0;
  nopreempt = 0;
}
static Shadow *sh_get(uintptr_t a) {
  size_t h = (a * 0x9E3779B97F4A7C15ull) >> 46;
  for (;; h = (h + 1) & (SHN - 1)) {
    Shadow &s = shadow[h];
    if (s.gen != gen) {
      if (shadow_used > SHN * 3 / 4) return nullptr; // table full: stop tracking new bytes
      ++shadow_used;
      memset(&s, 0, sizeof s);
      s.addr = a;
      s.gen = gen;
      s.wt = 0xff;
      return &s;
    }
    if (s.addr == a) return &s;
  }
}
static SyncVar &sync_get(uintptr_t a) {
  size_t h = ((a >> 2) * 0x9E3779B97F4A7C15ull) >> 52;
  for (;; h = (h + 1) & (SYN - 1)) {
    SyncVar &s = syncs[h];
    if (s.gen != gen) {
      s.addr = a;
      s.gen = gen;
      memset(&s.vc, 0, sizeof s.vc);
      return s;
    }
    if (s.addr == a) return s;
  }
}
static void do_acquire(uintptr_t a) { thr[me].vc.join(sync_get(a).vc); }
static void do_release(uintptr_t a, bool rmw) {
  SyncVar &s = sync_get(a);
  if (rmw) s.vc.join(thr[me].vc);
  else s.vc = thr[me].vc;
  thr[me].vc.c[me]++;
}
void sync_release(const void *c) { do_release(uintptr_t(c), true); }
void sync_acquire(const void *c) { do_acquire(uintptr_t(c)); }

static void where(uintptr_t a, char *buf, size_t n) {
  if (!sim::heap_where(reinterpret_cast<void *>(a), buf, n)) snprintf(buf, n, "global data %#lx", (unsigned long)a);
}
static void conflict(uintptr_t a, const char *kind, int other) {
  char w[96];
  where(a, w, sizeof w);
  fail(race_oracle, "unsynchronised %s by threads %d and %d at %s", kind, other, me, w);
}
// sync: atomic or volatile access (does not conflict with other sync accesses)
static void check(uintptr_t a, size_t n, bool write, bool sync) {
  const VC &vc = thr[me].vc;
  for (size_t i = 0; i < n; ++i) {
    Shadow *s = sh_get(a + i);
    if (!s) return;
    if (s->wt != 0xff && s->wt != me && s->wc > vc.c[s->wt] && !(sync && s->wsync))
      conflict(a + i, write ? "writes" : "write and read", s->wt);
    if (write) {
      for (int t = 0; t < MAXT; ++t) {
        if (t == me) continue;
        if (s->rc[t] > vc.c[t]) conflict(a + i, "read and write", t);
        if (!sync && s->rs[t] > vc.c[t]) conflict(a + i, "atomic read and plain write", t);
      }
      s->wt = uint8_t(me);
      s->wsync = sync;
      s->wc = vc.c[me];
    } else if (sync) s->rs[me] = vc.c[me];
    else s->rc[me] = vc.c[me];
  }
}
static void forget(uintptr_t a, size_t n) {
  if (n > 65536) n = 65536;
  for (size_t i = 0; i < n; ++i) {
    size_t h = ((a + i) * 0x9E3779B97F4A7C15ull) >> 46;
    for (;; h = (h + 1) & (SHN - 1)) {
      Shadow &s = shadow[h];
      if (s.gen != gen) break;
      if (s.addr == a + i) {
        s.wt = 0xff;
        memset(s.rc, 0, sizeof s.rc);
        memset(s.rs, 0, sizeof s.rs);
        break;
      }
    }
  }
}
static inline bool on_stack(uintptr_t a) {
  const char *p = reinterpret_cast<const char *>(a);
  if (!me) {
    char mark;
    return p > &mark - 65536 && p < &mark + (8 << 20);
  }
  return p >= thr[me].stack_lo && p < thr[me].stack_hi;
}
static void access(const void *p, size_t n, bool write, bool sync) {
  uintptr_t a = uintptr_t(p);
  ++accesses;
  char info[96];
  if (sim::heap_freed(p, n, info, sizeof info))
    fail(uaf_oracle, "thread %d %s %s", me, write ? "writes" : "reads", info);
  // memory of the harness (its own heap) is not under examination
  static const uintptr_t lo = uintptr_t(&__data_start), hi = uintptr_t(&_end);
  if ((a >= lo && a < hi) || sim::heap_where(p, info, sizeof info)) check(a, n, write, sync);
}
// scheduling point before a shared access
static inline bool enter(const void *p) {
  return active && in_lib > 0 && !in_hook && !on_stack(uintptr_t(p));
}
static inline void maybe_switch(bool sync) {
  if (nopreempt || !me) return;
  if (sync && atomic_den && sim::choose(atomic_den + 1) == atomic_den) return reschedule(false);
  if (gap && !--gap) reschedule(false);
}
static inline void plain(const void *p, size_t n, bool write) {
  if (!enter(p)) return;
  maybe_switch(false);
  access(p, n, write, false);
}
static inline void vola(const void *p, size_t n, bool write) {
  if (!enter(p)) return;
  maybe_switch(true);
  access(p, n, write, true);
  if (write) do_release(uintptr_t(p), false);
  else do_acquire(uintptr_t(p));
}
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void atomic(const void *p, size_t n, bool read, bool write, int mo) {
  mo &= 0x7fff;
  if (!enter(p)) return;
  maybe_switch(true);
  access(p, n, write, true);
  if (read && is_acq(mo)) do_acquire(uintptr_t(p));
  if (write && is_rel(mo)) do_release(uintptr_t(p), read);
}
static void lib_alloc_hook(const void *p, size_t n) {
  if (active) forget(uintptr_t(p), n);
}
static void lib_free_hook(const void *p, size_t n) {
  if (active && race_oracle) check(uintptr_t(p), n > 8192 ? 8192 : n, true, false);
}
static struct Init {
  Init() {
    sim::on_lib_alloc = lib_alloc_hook;
    sim::on_lib_free = lib_free_hook;
  }
} init;
} // namespace sched

//---------------------------------------------------------------- entry points
using namespace sched;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void *) {}
void __tsan_vptr_read(void **p) { plain(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { plain(p, 8, true); }
#define RW(N)                                                                                      \
  void __tsan_read##N(void *p) { plain(p, N, false); }                                            \
  void __tsan_write##N(void *p) { plain(p, N, true); }                                            \
  void __tsan_unaligned_read##N(const void *p) { plain(p, N, false); }                            \
  void __tsan_unaligned_write##N(void *p) { plain(p, N, true); }                                  \
  void __tsan_volatile_read##N(void *p) { vola(p, N, false); }                                    \
  void __tsan_volatile_write##N(void *p) { vola(p, N, true); }                                    \
  void __tsan_unaligned_volatile_read##N(void *p) { vola(p, N, false); }                          \
  void __tsan_unaligned_volatile_write##N(void *p) { vola(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { plain(p, size_t(n), false); }
void __tsan_write_range(void *p, long n) { plain(p, size_t(n), true); }

#define AT(BITS, T)                                                                                \
  T __tsan_atomic##BITS##_load(const volatile T *p, int mo) {                                     \
    atomic((const void *)p, sizeof(T), true, false, mo);                                          \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                  \
  }                                                                                                \
  void __tsan_atomic##BITS##_store(volatile T *p, T v, int mo) {                                  \
    atomic((const void *)p, sizeof(T), false, true, mo);                                          \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                \
  T __tsan_atomic##BITS##_exchange(volatile T *p, T v, int mo) {                                  \
    atomic((const void *)p, sizeof(T), true, true, mo);                                           \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                           \
  }                                                                                                \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) {      \
    atomic((const void *)p, sizeof(T), true, true, mo);                                           \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                                \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) {        \
    atomic((const void *)p, sizeof(T), true, true, mo);                                           \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
  }                                                                                                \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) {            \
    atomic((const void *)p, sizeof(T), true, true, mo);                                           \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    return e;                                                                                      \
  }
#define ATF(BITS, T, OP)                                                                           \
  T __tsan_atomic##BITS##_fetch_##OP(volatile T *p, T v, int mo) {                                \
    atomic((const void *)p, sizeof(T), true, true, mo);                                           \
    return __atomic_fetch_##OP(p, v, __ATOMIC_SEQ_CST);                                           \
  }
#define ATALL(BITS, T)                                                                             \
  AT(BITS, T) ATF(BITS, T, add) ATF(BITS, T, sub) ATF(BITS, T, and) ATF(BITS, T, or)              \
  ATF(BITS, T, xor) ATF(BITS, T, nand)
ATALL(8, uint8_t) ATALL(16, uint16_t) ATALL(32, uint32_t) ATALL(64, uint64_t)
static char fence_var;
void __tsan_atomic_thread_fence(int mo) {
  if (!active || in_lib <= 0) return;
  if (is_acq(mo)) do_acquire(uintptr_t(&fence_var));
  if (is_rel(mo)) do_release(uintptr_t(&fence_var), true);
}
void __tsan_atomic_signal_fence(int) {}

// memory functions: ranges are accesses too
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (active && in_lib > 0) { plain(s, n, false); plain(d, n, true); }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (active && in_lib > 0) { plain(s, n, false); plain(d, n, true); }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (active && in_lib > 0) plain(d, n, true);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (active && in_lib > 0) { plain(a, n, false); plain(b, n, false); }
  return __real_memcmp(a, b, n);
}
// locks: cooperative, so that a preempted holder never blocks the simulation
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active || !me) return __real_pthread_mutex_lock(m);
  point();
  while (pthread_mutex_trylock(m)) reschedule(true);
  do_acquire(uintptr_t(m));
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (active && me) do_release(uintptr_t(m), true);
  int rc = __real_pthread_mutex_unlock(m);
  if (active && me) point();
  return rc;
}
// function-local statics: not preempted while being constructed
int __real___cxa_guard_acquire(void *g);
void __real___cxa_guard_release(void *g);
void __real___cxa_guard_abort(void *g);
int __wrap___cxa_guard_acquire(void *g) {
  if (active && me) do_acquire(uintptr_t(g));
  int r = __real___cxa_guard_acquire(g);
  if (r) ++nopreempt;
  return r;
}
void __wrap___cxa_guard_release(void *g) {
  if (active && me) do_release(uintptr_t(g), true);
  --nopreempt;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void *g) {
  --nopreempt;
  __real___cxa_guard_abort(g);
}
}
