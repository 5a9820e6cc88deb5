// Simulated buffer allocators: ledgers of lent buffers, injected failures,
// slack on request (a real allocator may return more than asked).
#pragma once
#include "core.hpp"
#include "fast_positive/tuples.h"
#include <set>

namespace allots {
enum { N = 3 };
struct Ledger {
  std::set<const void *> lent;
  uint64_t borrowed = 0, repaid = 0;
};
extern Ledger ledger[N];
extern uint32_t slack_mode; // 0 none, else up to that many extra bytes
hippeus::buffer_tag tag(unsigned i);

void begin_run(uint32_t slack);
void end_run(const char *oracle); // nothing may still be lent
extern void (*on_repay)(const hippeus::buffer *b); // a buffer comes back
bool lent(const hippeus::buffer *b); // currently lent by any simulated allocator
} // namespace allots
