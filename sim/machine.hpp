#pragma once
#include <cstdint>
extern "C" {
extern void (*sim_cpuid)(uint32_t leaf, uint32_t sub, uint32_t *regs);
extern uint64_t (*sim_ticks)();
extern uint64_t (*sim_xgetbv)();
}
namespace machine {
void reset(); // a run starts
void real_cpuid(uint32_t leaf, uint32_t sub, uint32_t regs[4]);
uint64_t real_xgetbv();
} // namespace machine
