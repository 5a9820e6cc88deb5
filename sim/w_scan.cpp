// flavours: plain
// World `scan`: the library is booted on simulated processors with different
// vector extensions (any subset of what the real one has, with and without the
// support of the operating system for the wide registers), the same history is
// driven through the C interface on each of them and the transcripts are
// compared; every search routine is also probed directly, with the index placed
// against unmapped pages. Decides C17.
#include "boot.hpp"
#include "core.hpp"
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/legacy.h"
#include "machine.hpp"
#include <immintrin.h>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <vector>
using namespace sim;
using std::string;

namespace {
struct Cpu {
  unsigned max_leaf = 0;
  bool ext = true;      // extended leaves
  bool sse2 = true, avx = false, avx2 = false;
  bool osxsave = true;  // the system has turned the extended state on
  uint64_t xcr0 = 7;
  unsigned mxcsr = 0x1f80; // floating point modes of the calling program
  bool wide() const { return osxsave && (xcr0 & 6) == 6; }
  string show() const {
    char b[160];
    snprintf(b, sizeof b, "leaves %u%s%s%s%s os:%s mxcsr=%x xcr0=%llu", max_leaf, ext ? "+" : "", sse2 ? " sse2" : "", avx ? " avx" : "", avx2 ? " avx2" : "", osxsave ? "xsave" : "none", mxcsr, (unsigned long long)xcr0);
    return b;
  }
} cpu;

void cpuid(uint32_t leaf, uint32_t sub, uint32_t *r) {
  uint32_t top[4];
  const uint32_t group = leaf & 0x80000000u;
  machine::real_cpuid(group, 0, top);
  uint32_t limit = group ? (cpu.ext ? std::min(top[0], 0x80000008u) : 0x80000000u) : cpu.max_leaf;
  if (leaf > limit) { // real processors answer with something unrelated
    r[0] = r[1] = r[2] = r[3] = 0xA5A5A5A5u;
    return;
  }
  machine::real_cpuid(leaf, sub, r);
  if (leaf == 0) r[0] = cpu.max_leaf;
  if (leaf == 0x80000000u) r[0] = limit;
  auto bit = [&](uint32_t &w, unsigned b, bool on) { w = on ? w | 1u << b : w & ~(1u << b); };
  if (leaf == 1) {
    bit(r[3], 26, cpu.sse2);
    bit(r[2], 28, cpu.avx);
    bit(r[2], 27, cpu.osxsave);
    bit(r[2], 12, cpu.avx && (r[2] >> 12 & 1));
  }
  if (leaf == 7 && sub == 0) bit(r[1], 5, cpu.avx2);
}
uint64_t xgetbv() {
  if (!cpu.osxsave) fail("c17.illegal-instruction", "XGETBV on a machine whose system has not enabled it (%s)", cpu.show().c_str());
  return cpu.xcr0;
}

struct Real { bool avx, avx2; } real;
void learn() {
  uint32_t r[4], s[4] = {0, 0, 0, 0};
  machine::real_cpuid(1, 0, r);
  uint32_t t[4];
  machine::real_cpuid(0, 0, t);
  if (t[0] >= 7) machine::real_cpuid(7, 0, s);
  const bool os = (machine::real_xgetbv() & 6) == 6;
  real.avx = os && (r[2] >> 28 & 1);
  real.avx2 = real.avx && (s[1] >> 5 & 1);
}

Cpu some_cpu() {
  Cpu c;
  uint32_t t[4];
  machine::real_cpuid(0, 0, t);
  c.max_leaf = std::min(t[0], 13u);
  if (chance(1, 8)) c.max_leaf = choose(c.max_leaf + 1);
  c.ext = !chance(1, 8);
  c.sse2 = !chance(1, 6);
  c.avx = real.avx && c.sse2 && choose(3);
  c.avx2 = real.avx2 && c.avx && choose(3);
  c.osxsave = !chance(1, 5);
  c.xcr0 = c.osxsave ? (choose(4) ? 7 : chance(1, 2) ? 3 : 1) : 0;
  if (choose(2)) { c.mxcsr |= (choose(2) ? 0x40 : 0) | (choose(2) ? 0x8000 : 0) | choose(4) << 13; SIM_COUNT("fault.float_mode"); }
  if (!c.wide()) SIM_COUNT("fault.no_wide_registers");
  return c;
}

// ---- direct probing of the search routines
typedef const void *(*scan_t)(const void *, const void *, uint16_t);
char *arena; // three pages accessible between two unmapped ones
const size_t PAGE = 4096;
void make_arena() {
  if (arena) return;
  char *p = static_cast<char *>(mmap(nullptr, PAGE * 8, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(p + PAGE, PAGE * 6, PROT_READ | PROT_WRITE);
  arena = p + PAGE;
}
void probe(Booted &lib) {
  make_arena();
  static const char *const names[] = {"fptu_scan_referential", "fptu_scan_unroll", "fptu_scan_SSE2", "fptu_scan_AVX", "fptu_scan_AVX2", "fptu_scan"};
  const unsigned rounds = 3 + choose(12);
  for (unsigned i = 0; i < rounds; ++i) {
    span();
    const unsigned n = choose(4) ? choose(80) : choose(3) ? choose(300) : choose(6 * 1024 + 1);
    const size_t bytes = size_t(n) * 4;
    char *at;
    switch (choose(4)) {
    case 0: at = arena + 6 * PAGE - bytes; break; // flush against the end
    case 1: at = arena; break;                    // flush against the start
    case 2: at = arena + PAGE * choose(6) + 4 * choose(12); break; // around a page boundary
    default: at = arena + 4 * choose(unsigned((6 * PAGE - bytes) / 4 + 1));
    }
    if (at + bytes > arena + 6 * PAGE) at = arena + 6 * PAGE - bytes;
    const uint16_t key = uint16_t(choose(3) ? choose(4) << 11 | choose(4) : bits64());
    // the surroundings are full of the key
    for (size_t k = 0; k < 6 * PAGE / 2; ++k) reinterpret_cast<uint16_t *>(arena)[k] = key;
    uint16_t *u = reinterpret_cast<uint16_t *>(at);
    const unsigned hits = choose(3) ? 0 : 1 + choose(3);
    Rng local;
    local.seed(bits64());
    auto roll = [&](unsigned n) { return unsigned(local.next() % n); };
    for (unsigned k = 0; k < n; ++k) {
      u[2 * k] = roll(3) ? uint16_t(local.next()) : key; // the other half of an entry may look like the key
      uint16_t v = uint16_t(local.next());
      if (roll(4) == 0) v = uint16_t(key ^ (1u << roll(16)));
      u[2 * k + 1] = v == key ? uint16_t(~key) : v;
    }
    unsigned first = n;
    for (unsigned k = 0; k < hits && n; ++k) {
      unsigned pos = choose(2) ? choose(n) : choose(2) ? n - 1 - choose(std::min(n, 9u)) : choose(std::min(n, 9u));
      u[2 * pos + 1] = key;
      first = std::min(first, pos);
    }
    const void *want = first < n ? at + size_t(first) * 4 : nullptr;
    const char *end = at + bytes;
    if (!n && chance(1, 3)) end = at - 4 * choose(3); // an index which is not there at all
    for (auto name : names) {
      scan_t f = lib.sym<scan_t>(name);
      if (!f) continue;
      const bool a = strstr(name, "AVX"), a2 = strstr(name, "AVX2");
      if ((a2 && !real.avx2) || (a && !real.avx)) continue;
      _mm_setcsr(cpu.mxcsr);
      const void *got = f(at, end, key);
      _mm_setcsr(0x1f80);
      CHECK(got == want, "c17.search", "%s over %u entries at page offset %zu for %04x gives %td, expected %td", name, n, size_t(at - arena) % PAGE, key,
            got ? (static_cast<const char *>(got) - at) / 4 : -1, want ? (static_cast<const char *>(want) - at) / 4 : -1);
      SIM_COUNT("chk.search");
    }
    mix(uint64_t(first) << 16 | key);
  }
  // what has been selected must run on this machine
  scan_t f = lib.sym<scan_t>("fptu_scan");
  if (f) {
    const bool a2 = f == lib.sym<scan_t>("fptu_scan_AVX2"), a = f == lib.sym<scan_t>("fptu_scan_AVX"), s = f == lib.sym<scan_t>("fptu_scan_SSE2");
    if (a2) SIM_COUNT("probe.selected_AVX2");
    if (a) SIM_COUNT("probe.selected_AVX");
    if (s) SIM_COUNT("probe.selected_SSE2");
    if (f == lib.sym<scan_t>("fptu_scan_unroll")) SIM_COUNT("probe.selected_unroll");
    CHECK(!a2 || (cpu.avx2 && cpu.avx && cpu.wide()), "c17.illegal-instruction", "AVX2 search selected on a machine which cannot execute it (%s)", cpu.show().c_str());
    CHECK(!a || (cpu.avx && cpu.wide()), "c17.illegal-instruction", "AVX search selected on a machine which cannot execute it (%s)", cpu.show().c_str());
    CHECK(!s || cpu.sse2, "c17.illegal-instruction", "SSE2 search selected on a machine which cannot execute it (%s)", cpu.show().c_str());
  }
}

// ---- one history on any machine
struct Api {
  fptu_rw *(*init)(void *, size_t, size_t);
  const char *(*check_rw)(const fptu_rw *);
  fptu_error (*ins32)(fptu_rw *, unsigned, uint32_t);
  fptu_error (*up32)(fptu_rw *, unsigned, uint32_t);
  fptu_error (*up16)(fptu_rw *, unsigned, unsigned);
  fptu_error (*ups64)(fptu_rw *, unsigned, int64_t);
  int (*erase)(fptu_rw *, unsigned, fptu_type_or_filter);
  bool (*shrink)(fptu_rw *);
  const fptu_field *(*lookup_rw)(fptu_rw *, unsigned, fptu_type_or_filter);
  const fptu_field *(*lookup_ro)(fptu_ro, unsigned, fptu_type_or_filter);
  size_t (*count_ro)(fptu_ro, unsigned, fptu_type_or_filter);
  fptu_ro (*take)(const fptu_rw *);
  uint_fast32_t (*get32)(fptu_ro, unsigned, int *);
  explicit Api(Booted &b) {
#define S(m, n) m = b.sym<decltype(m)>(n); if (!m) { fprintf(stderr, "no %s\n", n); _exit(5); }
    S(init, "fptu_init") S(check_rw, "fptu_check_rw") S(ins32, "fptu_insert_uint32") S(up32, "fptu_upsert_uint32") S(up16, "fptu_upsert_uint16")
    S(ups64, "fptu_upsert_int64") S(erase, "fptu_erase") S(shrink, "fptu_shrink") S(lookup_rw, "fptu_lookup_rw") S(lookup_ro, "fptu_lookup_ro")
    S(count_ro, "fptu_field_count_ro") S(take, "fptu_take_noshrink") S(get32, "fptu_get_uint32")
#undef S
  }
};
struct Op { unsigned kind, col; uint64_t v; };
string drive(Api &a, const std::vector<Op> &ops, size_t size, unsigned items, unsigned shift) {
  string log;
  std::vector<char> space(size + 64);
  char *base = space.data() + shift; // fptu buffers need no more than the alignment of a word
  fptu_rw *t = a.init(base, size, items);
  if (!t) return "no tuple";
  auto put = [&](uint64_t x) { log.append(reinterpret_cast<char *>(&x), 8); };
  const fptu_type_or_filter types[] = {fptu_type_or_filter(fptu_uint32), fptu_type_or_filter(fptu_uint16), fptu_type_or_filter(fptu_int64)};
  auto where = [&](const fptu_field *f) { return f ? uint64_t(reinterpret_cast<const char *>(f) - base) : ~0ull; };
  for (auto &o : ops) {
    switch (o.kind) {
    case 0: case 1: put(a.ins32(t, o.col, uint32_t(o.v))); break;
    case 2: put(a.up32(t, o.col, uint32_t(o.v))); break;
    case 3: put(a.up16(t, o.col, uint16_t(o.v))); break;
    case 4: put(a.ups64(t, o.col, int64_t(o.v))); break;
    case 5: put(uint64_t(int64_t(a.erase(t, o.col, types[o.v % 3])))); break;
    case 6: put(where(a.lookup_rw(t, o.col, types[o.v % 3]))); break;
    case 7: {
      fptu_ro r = a.take(t);
      put(r.sys.iov_len);
      log.append(static_cast<const char *>(r.sys.iov_base), r.sys.iov_len);
      put(where(a.lookup_ro(r, o.col, types[o.v % 3])));
      put(a.count_ro(r, o.col, types[o.v % 3]));
      int e = 0;
      put(a.get32(r, o.col, &e));
      put(uint64_t(e));
      break;
    }
    default: put(a.shrink(t));
    }
  }
  const char *bad = a.check_rw(t);
  log += bad ? bad : "sound";
  return log;
}

void run() {
  heap_begin_run(sh->seed);
  learn();
  span();
  std::vector<Op> ops;
  const unsigned cols = 1 + choose(choose(3) ? 12 : 400), nops = 2 + choose(choose(4) ? 60 : 400);
  unsigned shift = 0;
  if (choose(2)) shift = 4 * choose(8);
  const unsigned items = 1 + choose(choose(2) ? 40 : 600);
  const size_t size = 64 + choose(choose(2) ? 600 : 6000);
  for (unsigned i = 0; i < nops; ++i) {
    span();
    Op o;
    o.kind = choose(9);
    if (o.kind == 8 && choose(3)) o.kind = 6;
    o.col = choose(cols);
    o.v = bits64();
    ops.push_back(o);
  }
  string first;
  string first_cpu;
  const unsigned machines = 2 + choose(2);
  sim_cpuid = cpuid;
  sim_xgetbv = xgetbv;
  for (unsigned m = 0; m < machines; ++m) {
    span();
    cpu = some_cpu();
    note("machine %u: %s", m, cpu.show().c_str());
    Booted lib;
    if (choose(2)) probe(lib);
    Api a(lib);
    string log;
    // a thread of its own: its end releases what the library keeps per thread, so that the module can go
    std::thread th([&] {
      _mm_setcsr(cpu.mxcsr);
      log = drive(a, ops, size, items, shift);
    });
    th.join();
    state(fnv(log.data(), log.size()));
    mix(fnv(log.data(), log.size()));
    if (!m) {
      first = log;
      first_cpu = cpu.show();
    } else {
      size_t k = 0;
      while (k < log.size() && k < first.size() && log[k] == first[k]) ++k;
      CHECK(log == first, "c17.machines-differ", "the same %u calls give different results on '%s' and on '%s' (from byte %zu of the transcript)", nops, first_cpu.c_str(), cpu.show().c_str(), k);
      SIM_COUNT("chk.transcripts");
    }
  }
  sim_cpuid = nullptr;
  sim_xgetbv = nullptr;
  heap_end_run("c17.leak");
}
Register r("scan", run);
} // namespace
