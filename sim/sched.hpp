// Deterministic thread scheduler (thr flavour). Simulated threads are real
// pthreads (so thread_local storage and exception state are real), but exactly
// one of them runs at any moment: the baton is passed at instrumented memory
// accesses of library code, chosen by the seeded scheduler.
#pragma once
#include "core.hpp"
#include <functional>

namespace sched {
enum { MAXT = 6 }; // 0 is the main (setup) thread
// Runs the bodies to completion under the seeded schedule.
void run(std::vector<std::function<void()>> bodies);
int self();                    // simulated thread number, 0 for main
void point();                  // explicit scheduling point (operation boundary)
void sync_release(const void *chan); // harness-level synchronisation (mailboxes)
void sync_acquire(const void *chan);
void begin_run();              // clears shadow memory and clocks
extern void (*on_switch)();    // invariant evaluated at every context switch
extern const char *race_oracle;  // reported for unsynchronised conflicting accesses
extern const char *uaf_oracle;   // reported for accesses to released memory
extern uint64_t accesses, switches;
} // namespace sched
