// Memory seam: operator new/delete replacement and --wrap'ed malloc family.
// Library allocations (in_lib>0) are fault-injectable, filled with a seeded
// pattern, surrounded by canaries (plain flavour), quarantined after free and
// accounted for leaks.
#include "core.hpp"
#include <cerrno>
#include <new>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
}

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

namespace sim {
int in_lib;
uint32_t alloc_fail_at, alloc_fail_len, alloc_faults;
void (*on_lib_alloc)(const void *, size_t);
void (*on_lib_free)(const void *, size_t);

void arm_alloc_fault(uint32_t at, uint32_t len) {
  alloc_fail_at = at;
  alloc_fail_len = len;
  alloc_faults = 0;
}
void disarm_alloc_fault() { alloc_fail_at = alloc_fail_len = 0; }
bool alloc_should_fail() {
  if (!alloc_fail_at)
    return false;
  if (--alloc_fail_at)
    return false;
  if (alloc_fail_len > 1) {
    --alloc_fail_len;
    alloc_fail_at = 1;
  }
  ++alloc_faults;
  SIM_COUNT("fault.alloc_failure");
  return true;
}

struct Block {
  char *p;
  size_t size;
  uint32_t state; // 0 free slot, 1 live, 2 quarantined, 3 tombstone
};
static const size_t TAB = 1 << 20;
static Block tab[TAB];
static uint32_t slot[TAB]; // used table positions, in order of allocation
static size_t used, live;
static uint64_t fill_seed;
enum { PAD = SIM_ASAN ? 0 : 32 };
static const uint8_t CANARY = 0xE5, DEAD = 0xDD;

static Block *lookup(const void *p) {
  size_t h = (uintptr_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> 44;
  for (size_t i = 0; i < TAB; ++i) {
    Block &b = tab[(h + i) & (TAB - 1)];
    if (b.state == 0)
      return nullptr;
    if (b.p == p && b.state != 3)
      return &b;
  }
  return nullptr;
}
static void add(char *p, size_t size) {
  if (used > TAB * 3 / 4)
    fail("heap.runaway", "more than %zu allocations in one run, the longest ordinary run makes a fraction of that", used);
  size_t h = (uintptr_t(p) >> 4) * 0x9E3779B97F4A7C15ull >> 44;
  for (size_t i = 0;; ++i) {
    Block &b = tab[(h + i) & (TAB - 1)];
    if (b.state == 0) {
      b = {p, size, 1};
      slot[used] = uint32_t((h + i) & (TAB - 1));
      ++used;
      ++live;
      return;
    }
  }
}
static bool canary_ok(const Block &b) {
  for (int i = 0; i < PAD; ++i)
    if (uint8_t(b.p[-1 - i]) != CANARY || uint8_t(b.p[b.size + i]) != CANARY)
      return false;
  return true;
}
static void *lib_alloc(size_t size) {
  HarnessScope H;
  if (alloc_should_fail())
    return nullptr;
  char *raw = static_cast<char *>(__real_malloc(size + 2 * PAD));
  if (!raw)
    return nullptr;
  char *p = raw + PAD;
  memset(raw, CANARY, PAD);
  memset(p + size, CANARY, PAD);
  // seeded garbage: reading uninitialised memory stays deterministic
  uint64_t x = fill_seed ^ size;
  for (size_t i = 0; i < size && i < 4096; i += 8) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t v = x >> 7;
    memcpy(p + i, &v, size - i < 8 ? size - i : 8);
  }
  if (size > 4096)
    memset(p + 4096, int(fill_seed & 0xff), size - 4096);
  SIM_COUNT("op.lib_alloc");
  add(p, size);
  if (on_lib_alloc)
    on_lib_alloc(p, size);
  return p;
}
static void lib_free(Block *b) {
  HarnessScope H;
  if (b->state == 2)
    fail("heap.double-free", "block of %zu bytes released twice", b->size);
  if (!canary_ok(*b))
    fail("heap.overrun", "block of %zu bytes overrun (seen at release)", b->size);
  if (on_lib_free)
    on_lib_free(b->p, b->size);
  b->state = 2;
  --live;
#if SIM_ASAN
  __real_free(b->p); // ASan quarantines
  b->state = 3;
#else
  memset(b->p, DEAD, b->size);
#endif
}
void heap_begin_run(uint64_t seed) {
  fill_seed = seed * 0x9E3779B97F4A7C15ull + 1;
  heap_drop_run();
}
void heap_check(const char *oracle) {
  for (size_t i = 0; i < used; ++i) {
    Block &b = tab[slot[i]];
    if (b.state == 1 && !canary_ok(b))
      fail(oracle, "guard bytes around a library block of %zu bytes were overwritten", b.size);
  }
}
bool heap_owned(const void *p) {
  for (size_t i = 0; i < used; ++i) {
    const Block &b = tab[slot[i]];
    if (b.state == 1 && p >= b.p && p < b.p + b.size)
      return true;
  }
  return false;
}
bool heap_freed(const void *q, size_t n, char *info, size_t len) {
  const char *p = static_cast<const char *>(q);
  for (size_t i = 0; i < used; ++i) {
    const Block &b = tab[slot[i]];
    if (b.state == 2 && p < b.p + b.size && p + n > b.p) {
      snprintf(info, len, "offset %ld of a released block of %zu bytes", long(p - b.p), b.size);
      return true;
    }
  }
  return false;
}
bool heap_where(const void *q, char *info, size_t len) {
  const char *p = static_cast<const char *>(q);
  for (size_t i = 0; i < used; ++i) {
    const Block &b = tab[slot[i]];
    if ((b.state == 1 || b.state == 2) && p >= b.p && p < b.p + b.size) {
      snprintf(info, len, "offset %ld of a block of %zu bytes", long(p - b.p), b.size);
      return true;
    }
  }
  return false;
}
size_t heap_live() { return live; }
void heap_drop_run() {
  if (!used)
    return;
  for (size_t i = 0; i < used; ++i) {
    Block &b = tab[slot[i]];
    if (b.state == 0)
      continue;
    if (b.state == 1 || b.state == 2)
      __real_free(b.p - PAD);
    b.state = 0;
  }
  used = live = 0;
}
void heap_end_run(const char *leak_oracle) {
  if (!used)
    return;
  for (size_t i = 0; i < used; ++i) {
    Block &b = tab[slot[i]];
    if (b.state == 1) {
      if (!canary_ok(b))
        fail("heap.overrun", "guard bytes around a library block of %zu bytes were overwritten", b.size);
      fail(leak_oracle, "library block of %zu bytes was never released (%zu live)", b.size, live);
    }
    if (b.state == 2) {
      for (size_t k = 0; k < b.size; ++k)
        if (uint8_t(b.p[k]) != DEAD)
          fail("heap.write-after-free", "byte %zu of a released block of %zu bytes was written", k, b.size);
      if (!canary_ok(b))
        fail("heap.write-after-free", "released block of %zu bytes: guard bytes written", b.size);
    }
  }
  heap_drop_run();
}
static inline void *do_alloc(size_t size) {
  if (in_lib > 0)
    return lib_alloc(size);
  return __real_malloc(size ? size : 1);
}
static inline void do_free(void *p) {
  if (!p)
    return;
  if (used) {
    if (Block *b = lookup(p))
      return lib_free(b);
  }
  __real_free(p);
}
} // namespace sim

using namespace sim;
extern "C" {
void *__wrap_malloc(size_t n) {
  void *p = do_alloc(n);
  if (!p)
    errno = ENOMEM;
  return p;
}
void __wrap_free(void *p) { do_free(p); }
void *__wrap_calloc(size_t a, size_t b) {
  void *p = do_alloc(a * b);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  Block *b = used ? lookup(p) : nullptr;
  if (!p && in_lib > 0)
    return do_alloc(n);
  if (!b)
    return __real_realloc(p, n);
  if (b->state == 2)
    fail("heap.double-free", "realloc of a released block");
  void *q = lib_alloc(n);
  if (q) {
    memcpy(q, p, b->size < n ? b->size : n);
    lib_free(lookup(p));
  } else
    errno = ENOMEM;
  return q;
}
}
void *operator new(size_t n) {
  void *p = do_alloc(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_alloc(n); }
// ordinary alignment spelled out: the library's short_alloc asks that way
static void *do_alloc_aligned(size_t n, size_t a) {
  if (a <= 16) return do_alloc(n);
  return aligned_alloc(a, (n + a - 1) / a * a);
}
void *operator new(size_t n, std::align_val_t a) {
  void *p = do_alloc_aligned(n, size_t(a));
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_alloc_aligned(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return do_alloc_aligned(n, size_t(a)); }
void operator delete(void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }
