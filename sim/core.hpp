// Deterministic simulation core: one choice sequence decides everything.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

//---------------------------------------------------------------- shared memory
// Filled by the running child; read by the parent after exit or crash.
struct Shared {
  uint64_t seed;          // seed being run
  uint64_t runs;          // finished runs of this worker
  uint32_t nchoices;      // recorded choices of the current run
  uint32_t nspans;        // recorded span starts (operation boundaries)
  uint64_t hash;          // history hash of the current run
  uint32_t status;        // 0 running, 1 finished ok, 2 violation
  char oracle[96];
  char detail[1024];
  static const uint32_t MAXC = 1u << 19;
  static const uint32_t MAXS = 1u << 16;
  uint32_t choices[MAXC];
  uint32_t spans[MAXS];
};
extern Shared *sh;

//------------------------------------------------------------------- statistics
enum { MAXCOUNTERS = 256 };
struct Counter {
  const char *name;
  uint64_t n;
};
extern Counter counters[MAXCOUNTERS];
void count_slow(const char *name, uint64_t n);
// counter categories by prefix: "fault." faults actually injected, "probe." rare
// conditions reached, "op." operations, "chk." oracle evaluations
#define SIM_COUNT(name)                                                        \
  do {                                                                         \
    static ::sim::Counter *c_ = nullptr;                                       \
    if (!c_)                                                                   \
      c_ = ::sim::counter(name);                                               \
    c_->n++;                                                                   \
  } while (0)
Counter *counter(const char *name);

//------------------------------------------------------------------ decisions
struct Rng {
  uint64_t s[2];
  void seed(uint64_t x) {
    for (auto &v : s) {
      x += 0x9E3779B97F4A7C15ull;
      uint64_t z = x;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      v = z ^ (z >> 31);
    }
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
};

extern bool replaying, verbose;
extern std::string prop; // property whose oracles are active
uint32_t choose(uint32_t n);               // [0, n)
inline bool chance(uint32_t num, uint32_t den) { // true with num/den; 0 => false
  return den && choose(den) >= den - num;
}
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint64_t bits64();
void span(); // marks the beginning of one operation (for minimisation)
template <class C> auto &pick(C &c) { return c[choose(uint32_t(c.size()))]; }

//------------------------------------------------------------------ history
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);                     // adds to history hash
void mix(const void *p, size_t n);
void state(uint64_t fingerprint);         // distinct abstract states reached
[[noreturn]] void fail(const char *oracle, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
std::string hex(const void *p, size_t n, size_t max = 48);

#define CHECK(cond, oracle, ...)                                               \
  do {                                                                         \
    if (__builtin_expect(!(cond), 0))                                          \
      ::sim::fail(oracle, __VA_ARGS__);                                        \
  } while (0)

//------------------------------------------------------------------ memory seam
// All heap traffic of library calls goes through here; in_lib>0 marks it.
extern int in_lib;
#define SIM_NOTSAN __attribute__((no_sanitize("thread"), noinline))
struct LibScope {
  SIM_NOTSAN LibScope() { ++in_lib; }
  SIM_NOTSAN ~LibScope() { --in_lib; }
};
SIM_NOTSAN inline void set_in_lib(int v) { in_lib = v; }
struct HarnessScope { // callbacks from the library into the harness
  int saved;
  SIM_NOTSAN HarnessScope() : saved(in_lib) { in_lib = 0; }
  SIM_NOTSAN ~HarnessScope() { in_lib = saved; }
};
extern uint32_t alloc_fail_at;   // k-th library allocation from now fails (0=never)
extern uint32_t alloc_fail_len;  // how many consecutive ones fail
extern uint32_t alloc_faults;    // fired since arm_alloc_fault()
void arm_alloc_fault(uint32_t at, uint32_t len = 1);
void disarm_alloc_fault();
bool alloc_should_fail();        // used by simulated allocators too
void heap_begin_run(uint64_t fill_seed);
void heap_check(const char *oracle);        // canaries of all live library blocks
size_t heap_live();                         // live library blocks
void heap_end_run(const char *leak_oracle); // no live library blocks allowed
void heap_drop_run();                       // forget (after tolerated leak)
bool heap_owned(const void *p);             // inside a live library block
bool heap_where(const void *p, char *info, size_t len);
bool heap_freed(const void *p, size_t n, char *info, size_t info_len);

//------------------------------------------------------------------ worlds
struct World {
  const char *name;
  void (*run)();
};
struct Register {
  Register(const char *name, void (*run)());
};

// scheduler seam used by the thread world (no-op in other flavours)
} // namespace sim
