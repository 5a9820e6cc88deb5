// flavours: plain
// World `clock`: the library is booted again and again on machines with
// different clocks: any resolution of the coarse source, no coarse source at
// all, steps of the clock in both directions between and inside calls, clock
// calls refused by the kernel at random. Decides C18.
#include "boot.hpp"
#include "core.hpp"
#include "fast_positive/tuples.h"
#include <cerrno>
#include <system_error>
#include <vector>
using namespace sim;

extern "C" {
extern int (*sim_clock_gettime)(clockid_t, struct timespec *);
extern int (*sim_clock_getres)(clockid_t, struct timespec *);
}

namespace {
const int64_t NS = 1000000000;
const int64_t END = (int64_t(1) << 32) * NS; // the representation ends in 2106

struct Kernel {
  int64_t now = 0;         // true time, ns
  int64_t coarse_res = 0;  // 0: no coarse clock
  bool coarse_lies = false; // resolution is refused although the clock works
  int64_t tick_phase = 0;
  unsigned fail_at = 0, fail_errno = 0; // n-th call fails
  bool fail_coarse_only = false, fail_fine_only = false;
  unsigned calls = 0;
  bool failed = false;
  int failed_errno = 0;
  int64_t step = 0; // time passing with every clock call
  struct Reading { int64_t value; bool coarse; };
  std::vector<Reading> seen;

  int64_t coarse() const {
    int64_t t = now - (now - tick_phase) % coarse_res;
    if (t > now) t -= coarse_res;
    return t < 0 ? 0 : t;
  }
} K;

int refuse(int e) {
  errno = e;
  K.failed = true;
  K.failed_errno = e;
  SIM_COUNT("fault.clock_failure");
  return -1;
}
int gettime(clockid_t id, struct timespec *ts) {
  HarnessScope H;
  ++K.calls;
  const bool coarse = id == CLOCK_REALTIME_COARSE;
  if (K.fail_at && K.calls >= K.fail_at && !(K.fail_coarse_only && !coarse) && !(K.fail_fine_only && coarse)) return refuse(int(K.fail_errno));
  if (coarse && !K.coarse_res) return refuse(EINVAL);
  int64_t t = coarse ? K.coarse() : K.now;
  if (id != CLOCK_REALTIME && !coarse) { // a clock of no fixed epoch
    t = K.now - 1500000000ll * NS;
    if (t < 0) t = 0;
  }
  if (id == CLOCK_REALTIME || coarse) K.seen.push_back({t, coarse});
  ts->tv_sec = t / NS;
  ts->tv_nsec = t % NS;
  K.now += K.step;
  if (K.now < 0) K.now = 0;
  if (K.now >= END) K.now = END - 1;
  return 0;
}
int getres(clockid_t id, struct timespec *ts) {
  HarnessScope H;
  if (id == CLOCK_REALTIME_COARSE) {
    if (!K.coarse_res || K.coarse_lies) {
      SIM_COUNT("fault.no_coarse_clock");
      errno = EINVAL;
      return -1;
    }
    ts->tv_sec = K.coarse_res / NS;
    ts->tv_nsec = K.coarse_res % NS;
    return 0;
  }
  ts->tv_sec = 0;
  ts->tv_nsec = 1;
  return 0;
}

// exact position of an instant on the 32.32 scale, rounded down
uint64_t fixed(int64_t ns) {
  return uint64_t(ns / NS) << 32 | uint64_t((unsigned __int128)(uint64_t(ns % NS)) * (1ull << 32) / NS);
}

int64_t some_res() {
  switch (choose(9)) {
  case 0: return 1;
  case 1: return 1 + choose(1000);
  case 2: return 1000000;
  case 3: return 4000000;
  case 4: return 10000000;
  case 5: return 15625000;
  case 6: return 1 + choose(999999999);
  case 7: return NS - 1 - choose(3);
  default: return NS * (1 + choose(3)) + (choose(2) ? 0 : choose(1000000));
  }
}
int some_grain() {
  switch (choose(10)) {
  case 0: return 0;
  case 1: return int(1 + choose(100));
  case 2: return -int(1 + choose(31));
  case 3: return -int(32 + choose(10));
  case 4: return int(K.coarse_res && K.coarse_res < 2000000000 ? K.coarse_res - 1 + choose(3) : 1000000);
  case 5: return int(choose(2) ? INT32_MIN + int(choose(3)) : INT32_MAX - int(choose(3)));
  case 6: return int(bits64());
  case 7: return -16;
  case 8: { // the bits around the resolution of the coarse source
    int b = 0;
    while (b < 31 && (int64_t(1) << b) < K.coarse_res) ++b;
    return -std::max(1, b - 3 + int(choose(8)));
  }
  default: return int(choose(2000000000));
  }
}

void run() {
  heap_begin_run(sh->seed);
  K = Kernel();
  span();
  K.coarse_res = choose(6) ? some_res() : 0;
  K.coarse_lies = chance(1, 12);
  K.now = choose(4) ? 1500000000ll * NS + int64_t(bits64() % (800000000ull * NS)) : int64_t(bits64() % uint64_t(END));
  if (chance(1, 10)) K.now = choose(2) ? choose(3) : END - 1 - choose(3);
  K.tick_phase = K.coarse_res ? int64_t(bits64() % uint64_t(K.coarse_res)) : 0;
  note("boot: now %lld.%09lld, coarse resolution %lld%s", (long long)(K.now / NS), (long long)(K.now % NS), (long long)K.coarse_res, K.coarse_lies ? " (not told)" : "");
  sim_clock_gettime = gettime;
  sim_clock_getres = getres;
  {
    Booted lib;
    auto now_fine = lib.sym<fptu_datetime_C (*)()>("fptu_now_fine");
    auto now_coarse = lib.sym<fptu_datetime_C (*)()>("fptu_now_coarse");
    auto now_grain = lib.sym<fptu_datetime_C (*)(int)>("fptu_now");
    int64_t covered = 0;
    const unsigned steps = 4 + choose(40);
    for (unsigned i = 0; i < steps; ++i) {
      span();
      // the world moves on
      int64_t before = K.now;
      switch (choose(8)) {
      case 0: K.now += int64_t(bits64() % uint64_t(3600 * NS)); break;
      case 1: K.now -= int64_t(bits64() % uint64_t(3600 * NS)); SIM_COUNT("fault.clock_step_back"); break;
      case 2: K.now += int64_t(bits64() % uint64_t(int64_t(20) * 365 * 86400 * NS)); SIM_COUNT("fault.clock_jump_forward"); break;
      case 3: K.now -= int64_t(bits64() % uint64_t(int64_t(20) * 365 * 86400 * NS)); SIM_COUNT("fault.clock_jump_back"); break;
      case 4: break; // frozen
      case 5: K.now = K.now / NS * NS + (choose(2) ? NS - 1 - choose(4) : choose(4)); break; // around a second
      default: K.now += choose(50000000);
      }
      if (K.now < 0) K.now = 0;
      if (K.now >= END) K.now = END - 1;
      covered += std::abs(K.now - before);
      K.step = choose(3) ? choose(3000) : chance(1, 6) ? int64_t(bits64() % (10 * NS)) - 5 * NS : 0;
      K.fail_at = 0;
      if (chance(1, 8)) {
        const int errs[] = {EINVAL, EPERM, EFAULT, ENOSYS, EINTR};
        K.fail_at = K.calls + 1 + (chance(1, 3) ? choose(2) : 0);
        K.fail_errno = unsigned(errs[choose(5)]);
        K.fail_coarse_only = chance(1, 4);
        K.fail_fine_only = !K.fail_coarse_only && chance(1, 4);
      }
      K.failed = false;
      K.seen.clear();
      const unsigned kind = choose(4);
      const int grain = kind >= 2 ? some_grain() : 0;
      const char *what = kind == 0 ? "now_fine" : kind == 1 ? "now_coarse" : "now";
      const int64_t start = K.now;
      const bool nomem = chance(1, 10);
      fptu_datetime_C r{};
      bool threw = false, memory = false;
      int code = 0;
      errno = 0;
      if (nomem) arm_alloc_fault(1 + choose(3), 1 + choose(4));
      try {
        LibScope L;
        r = kind == 0 ? now_fine() : kind == 1 ? now_coarse() : now_grain(grain);
      } catch (const std::system_error &e) {
        threw = true;
        code = e.code().value();
      } catch (const std::bad_alloc &) {
        threw = memory = true;
      }
      disarm_alloc_fault();
      note("%s(%d) at %lld.%09lld step %lld -> %s%llx", what, grain, (long long)(start / NS), (long long)(start % NS), (long long)K.step, threw ? "failure " : "",
           threw ? (unsigned long long)code : (unsigned long long)r.fixedpoint);
      mix(threw ? uint64_t(code) : r.fixedpoint);
      if (threw) {
        CHECK(K.failed, "c18.false-failure", "%s(%d) failed although the kernel refused nothing", what, grain);
        if (memory)
          CHECK(nomem && alloc_faults, "c18.false-failure", "%s(%d) ran out of memory which is there", what, grain);
        else
          CHECK(code == K.failed_errno, "c18.error-code", "%s(%d): the kernel refused with %d, reported is %d", what, grain, K.failed_errno, code);
        SIM_COUNT("chk.reported");
        continue;
      }
      SIM_COUNT("chk.reading");
      CHECK(!K.seen.empty(), "c18.made-up", "%s(%d) gave a time without a successful reading of the clock%s", what, grain, K.failed ? " after a refused one" : "");
      // the mask asked for
      uint64_t mask = ~0ull;
      if (grain < 0) mask = grain > -32 ? ~0ull << -grain : ~0ull << 32;
      bool match = false;
      for (auto &x : K.seen) match |= (fixed(x.value) & mask) == r.fixedpoint;
      CHECK(match, "c18.reading", "%s(%d) gave %016llx, the clock read %016llx", what, grain, (unsigned long long)r.fixedpoint, (unsigned long long)fixed(K.seen.back().value));
      // how far behind the true time of the reading: all instants between start and end of the call count
      const int64_t lo = std::min(start, K.now), hi = std::max(start, K.now);
      CHECK(r.fixedpoint <= fixed(hi), "c18.future", "%s(%d) gave %016llx, the clock says %016llx", what, grain, (unsigned long long)r.fixedpoint, (unsigned long long)fixed(hi));
      // permitted staleness in ns
      int64_t allow = 0;
      if (kind == 1) allow = K.coarse_res;
      else if (kind >= 2) {
        const int64_t res = K.coarse_res && !K.coarse_lies ? K.coarse_res : 0;
        if (grain >= 0) allow = grain;
        else {
          const int64_t g = grain > -32 ? int64_t((unsigned __int128)(1ull << -grain) * NS >> 32) + 1 : NS;
          // truncation loses less than the grain; a coarse reading is used when it is no coarser than the grain
          allow = g + (res <= g || grain <= -32 ? std::max(res, int64_t(0)) : 0);
        }
      }
      CHECK(r.fixedpoint >= fixed(std::max<int64_t>(0, lo - allow)) - std::min<uint64_t>(16, fixed(std::max<int64_t>(0, lo - allow))), "c18.stale", "%s(%d) gave %016llx, the clock says %016llx, resolution of the coarse source %lld ns", what, grain,
            (unsigned long long)r.fixedpoint, (unsigned long long)fixed(lo), (long long)K.coarse_res);
      state(fnv(&r.fixedpoint, 8) ^ uint64_t(kind) << 60);
    }
    counter("probe.sim_us")->n += uint64_t(covered) / 1000;
  }
  sim_clock_gettime = nullptr;
  sim_clock_getres = nullptr;
  heap_end_run("c18.leak");
}
Register r("clock", run);
} // namespace
