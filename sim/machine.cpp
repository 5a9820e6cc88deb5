// Machine seam: processor identification and the tick counter come from the
// simulated machine when one is installed, else from fixed defaults: the real
// processor, and ticks derived from the seed of the run.
#include "core.hpp"
#include "machine.hpp"
#include <cpuid.h>
extern "C" {
void (*sim_cpuid)(uint32_t, uint32_t, uint32_t *) = nullptr;
uint64_t (*sim_ticks)() = nullptr;
uint64_t (*sim_xgetbv)() = nullptr;
static uint64_t tick_count;
void fptu_sim_cpuid(uint32_t leaf, uint32_t sub, uint32_t regs[4]) {
  if (sim_cpuid)
    return sim_cpuid(leaf, sub, regs);
  machine::real_cpuid(leaf, sub, regs);
}
uint64_t fptu_sim_xgetbv(void) {
  return sim_xgetbv ? sim_xgetbv() : machine::real_xgetbv();
}
uint64_t fptu_sim_ticks(void) {
  if (sim_ticks)
    return sim_ticks();
  uint64_t x = (sim::sh ? sim::sh->seed : 0) + ++tick_count * 0x9E3779B97F4A7C15ull;
  x ^= x >> 30;
  x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 27;
  return x;
}
}
namespace machine {
void reset() { tick_count = 0; }
void real_cpuid(uint32_t leaf, uint32_t sub, uint32_t regs[4]) { __cpuid_count(leaf, sub, regs[0], regs[1], regs[2], regs[3]); }
uint64_t real_xgetbv() {
  uint32_t r[4];
  real_cpuid(1, 0, r);
  if (!(r[2] & (1u << 27)))
    return 0;
  uint32_t a, d;
  __asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(0));
  return uint64_t(d) << 32 | a;
}
} // namespace machine
