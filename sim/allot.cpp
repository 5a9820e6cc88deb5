#include "allot.hpp"
#include "fast_positive/tuples/1Hippeus/actor.h"

namespace allots {
Ledger ledger[N];
uint32_t slack_mode;
void (*on_repay)(const hippeus::buffer *b);

static hippeus_buffer_t *borrow(hippeus_allot_t *allot, std::size_t wanna, bool leastwise, hippeus_actor_t);
static void repay(hippeus_allot_t *allot, hippeus_buffer_t *buf, hippeus_actor_t);
static bool validate(const hippeus_allot_t *, bool, bool) { return true; }
static hippeus_allot_t pool[N] = {{4080, 0, borrow, repay, validate}, {256, 0, borrow, repay, validate}, {64, 0, borrow, repay, validate}};
inline unsigned index_of(const hippeus_allot_t *a) { return unsigned(a - pool); }
hippeus::buffer_tag tag(unsigned i) { return hippeus::buffer_tag(&pool[i], false); }

static hippeus_buffer_t *borrow(hippeus_allot_t *allot, std::size_t wanna, bool leastwise, hippeus_actor_t) {
  unsigned k = index_of(allot);
  (void)leastwise;
  if (k >= N) sim::fail("allot.foreign", "borrow called with an unknown allocator");
  size_t extra = 0;
  {
    sim::HarnessScope H;
    if (slack_mode) extra = sim::choose(slack_mode) & ~size_t(3);
  }
  size_t gross = wanna + hippeus::buffer_solid::space_overhead() + extra;
  void *p = ::malloc(gross); // the simulated heap decides on failure
  if (!p) throw std::bad_alloc();
  auto *b = new (p) hippeus::buffer_solid(tag(k), gross);
  sim::HarnessScope H;
  ledger[k].lent.insert(p);
  ledger[k].borrowed++;
  SIM_COUNT("op.borrow");
  return b;
}
static void repay(hippeus_allot_t *allot, hippeus_buffer_t *buf, hippeus_actor_t) {
  unsigned k = index_of(allot);
  if (k >= N) sim::fail("allot.foreign", "a buffer was returned to an unknown allocator");
  {
    sim::HarnessScope H;
    if (!ledger[k].lent.erase(buf)) sim::fail("allot.repay", "allocator %u was given a buffer it had not lent (or twice)", k);
    ledger[k].repaid++;
    SIM_COUNT("op.repay");
    if (on_repay) on_repay(static_cast<const hippeus::buffer *>(buf));
  }
  ::free(buf);
}
void begin_run(uint32_t slack) {
  for (auto &l : ledger) l = Ledger();
  slack_mode = slack;
}
void end_run(const char *oracle) {
  for (unsigned k = 0; k < N; ++k)
    if (!ledger[k].lent.empty()) sim::fail(oracle, "%zu buffers were never returned to allocator %u", ledger[k].lent.size(), k);
}
bool lent(const hippeus::buffer *b) {
  for (auto &l : ledger)
    if (l.lent.count(b)) return true;
  return false;
}
} // namespace allots
