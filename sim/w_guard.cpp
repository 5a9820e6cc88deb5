// flavours: plain asan
// World `guard`: buffers of every kind are made while the tick counter which
// salts their guards is in the hands of the simulator, are used legitimately and
// get hit by stray writes. Decides C16.
#include "allot.hpp"
#include "fast_positive/tuples/details/bug.h"
#include "life.hpp"
#include "machine.hpp"
#include "fast_positive/tuples/1Hippeus/hipagut_allocator.h"
#include <array>
#include <memory>
using namespace sim;
using namespace fld;
using hippeus::buffer;

namespace {
uint64_t tick;
unsigned tick_mode;
uint64_t ticks() {
  SIM_COUNT("op.salt");
  switch (tick_mode) {
  case 0: return tick;                             // stuck
  case 1: return tick += 1;                        // crawling
  case 2: return tick -= 0x10001;                  // running backward
  case 3: return tick = tick * 6364136223846793005ull + 1442695040888963407ull;
  default: return tick += uint64_t(1) << 32;
  }
}
uint64_t some_tick() {
  static const uint32_t sigs[] = {HIPAGUT_N42(head), HIPAGUT_N42(under), HIPAGUT_N42(over), HIPAGUT_N42(chkU), HIPAGUT_N42(chkO)};
  switch (choose(7)) {
  case 0: return choose(2) ? 0 : ~0ull;
  case 1: return choose(2) ? 0x0000ffffu + choose(3) - 1 : 0xffff0000u + choose(3) - 1;
  case 2: return uint32_t(-sigs[choose(5)]) + uint64_t(choose(9)) - 4; // the salt cancels the signature
  case 3: return uint64_t(1) << choose(64);
  case 4: { // both halves alike: they cancel each other
    uint64_t h = uint32_t(bits64());
    return h << 32 | h;
  }
  default: return bits64();
  }
}

struct Weak final : hippeus::buffer_weak {
  std::vector<uint8_t> *store;
  bool *gone;
  Weak(std::vector<uint8_t> *s, bool *g) : buffer_weak(hippeus::buffer_tag(nullptr, false), s->data(), s->size()), store(s), gone(g) {}
  ~Weak() override { *gone = true; }
};

struct Slot {
  buffer *b = nullptr;
  unsigned refs = 0;
  bool weak = false;
  std::unique_ptr<std::vector<uint8_t>> store;
  std::unique_ptr<bool> gone;
  std::vector<uint8_t> content;
};

// places of the guards as seen from outside: before the head, before and behind the payload
enum Role { HEAD, UNDER, OVER };
const char *const rolename[] = {"head", "under", "over"};
uint8_t *guard(buffer *b, Role r) {
  switch (r) {
  case HEAD: return reinterpret_cast<uint8_t *>(&b->guard_head);
  case UNDER: return reinterpret_cast<uint8_t *>(&b->guard_under);
  default: return b->end();
  }
}
struct Damage {
  unsigned kind; // 0 bits flipped, 1 bytes overwritten, 2 all bytes alike, 3 copied from another guard, 4 words exchanged inside
  unsigned from, count;
  uint64_t value;
  Role other;
};
const char *const kindname[] = {"bits flipped", "bytes overwritten", "a run of equal bytes", "another guard copied over it", "its halves exchanged", "exchanged with another guard"};

Damage some_damage(bool solid, Role r) {
  Damage d;
  d.kind = choose(6);
  d.from = choose(8);
  d.count = 1 + choose(8 - d.from);
  if (choose(3) == 0) { // an overrun starts at the payload, an underrun ends there
    d.count = 1 + choose(8);
    d.from = r == UNDER ? 8 - d.count : 0;
  }
  d.value = d.kind == 0 && choose(2) ? uint64_t(1) << choose(64) : bits64();
  do d.other = Role(choose(solid ? 3 : 2));
  while (d.other == r);
  return d;
}
// returns whether anything has changed
bool apply(buffer *b, Role r, const Damage &d) {
  uint8_t *g = guard(b, r), old[8], now[8];
  memcpy(old, g, 8);
  memcpy(now, g, 8);
  switch (d.kind) {
  case 0: {
    uint64_t v;
    memcpy(&v, now, 8);
    v ^= d.value;
    memcpy(now, &v, 8);
    break;
  }
  case 1: memcpy(now + d.from, &d.value, d.count); break;
  case 2: memset(now + d.from, int(d.value & 0xff), d.count); break;
  case 3: memcpy(now, guard(b, d.other), 8); break;
  case 4: memcpy(now, old + 4, 4), memcpy(now + 4, old, 4); break;
  default: {
    uint8_t *h = guard(b, d.other);
    memcpy(now, h, 8);
    memcpy(h, old, 8);
  }
  }
  memcpy(g, now, 8);
  return memcmp(old, now, 8) != 0;
}

struct W {
  std::vector<Slot> pool;

  buffer *make(unsigned kind, size_t size, Slot &s) {
    if (kind == 4) {
      s.weak = true;
      s.store.reset(new std::vector<uint8_t>(size));
      s.gone.reset(new bool(false));
      LibScope L;
      return new (::operator new(sizeof(Weak))) Weak(s.store.get(), s.gone.get());
    }
    LibScope L;
    return buffer::borrow(kind == 3 ? hippeus::default_allot_tag() : allots::tag(kind), size, choose(2));
  }

  bool valid(const buffer *b, bool deep) {
    LibScope L;
    return b->check(deep);
  }
  bool reported(const buffer *b, bool deep) {
    LibScope L;
    try {
      b->ensure(deep);
    } catch (const fptu::bug &) {
      return true;
    }
    return false;
  }
  void intact(Slot &s, const char *ctx) {
    const bool deep = choose(2);
    CHECK(valid(s.b, deep), "c16.false-alarm", "%s: an intact buffer of %zu bytes fails its check (tick %llx)", ctx, s.b->size(), (unsigned long long)tick);
    CHECK(!reported(s.b, deep), "c16.false-alarm", "%s: an intact buffer of %zu bytes is reported as damaged", ctx, s.b->size());
    LibScope L;
    CHECK(s.b->check_expect_invalid(deep), "c16.false-alarm", "%s: an intact buffer of %zu bytes fails its check", ctx, s.b->size());
    SIM_COUNT("chk.intact");
  }

  void create() {
    if (pool.size() >= 5) return;
    tick = some_tick();
    tick_mode = choose(5);
    Slot s;
    const unsigned kind = choose(5);
    const size_t size = 1 + (choose(3) ? choose(200) : choose(9000));
    note("make %s of %zu, tick %llx mode %u", kind == 4 ? "weak" : kind == 3 ? "standard" : "lent", size, (unsigned long long)tick, tick_mode);
    const bool fault = chance(1, 10);
    if (fault) arm_alloc_fault(1 + choose(2), 1);
    try {
      s.b = make(kind, size, s);
    } catch (const std::bad_alloc &) {
      disarm_alloc_fault();
      CHECK(fault && alloc_faults, "c16.refused", "no memory although there is");
      return;
    }
    disarm_alloc_fault();
    s.refs = 1;
    CHECK(s.b->size() >= size, "c16.size", "a buffer of %zu bytes instead of %zu", s.b->size(), size);
    s.content.assign(s.b->begin(), s.b->end());
    intact(s, "just made");
    pool.push_back(std::move(s));
  }
  void use(Slot &s) { // legitimate writes up to the very ends
    Rng r;
    r.seed(bits64());
    const unsigned mode = choose(3);
    for (auto &c : s.content) c = mode == 0 ? uint8_t(r.next()) : mode == 1 ? 0 : 0xff;
    memcpy(s.b->begin(), s.content.data(), s.content.size());
    intact(s, "after use");
  }
  void refs(Slot &s, size_t i) {
    if (choose(2)) {
      LibScope L;
      s.b->add_reference();
      ++s.refs;
    } else release(i);
  }
  void release(size_t i) {
    Slot &s = pool[i];
    CHECK(!memcmp(s.b->begin(), s.content.data(), s.content.size()), "c16.content", "content of a buffer changed by itself");
    note("release %zu of %u", i, s.refs);
    {
      LibScope L;
      s.b->detach();
    }
    if (--s.refs) intact(s, "after one of the owners left");
    else {
      if (s.weak) CHECK(*s.gone, "c16.release", "the last owner left, the buffer stays");
      pool.erase(pool.begin() + long(i));
    }
  }
  void hit(Slot &s) {
    const bool solid = s.b->is_solid();
    const Role r = Role(choose(solid ? 3 : 2));
    Damage d = some_damage(solid, r);
    uint8_t save[3][8];
    for (unsigned k = 0; k < (solid ? 3u : 2u); ++k) memcpy(save[k], guard(s.b, Role(k)), 8);
    const bool changed = apply(s.b, r, d);
    note("hit %s: %s from %u count %u", rolename[r], kindname[d.kind], d.from, d.count);
    bool seen = true;
    if (changed) {
      SIM_COUNT("fault.stray_write");
      counter(d.kind == 0 ? "fault.bit_flip" : d.kind >= 3 ? "fault.guard_mixup" : "fault.overwrite")->n++;
      const bool deep = choose(2);
      bool c = valid(s.b, deep), e = reported(s.b, deep), x;
      {
        LibScope L;
        x = s.b->check_expect_invalid(deep);
      }
      seen = !c && e && !x;
      CHECK(c == !e && c == x, "c16.disagree", "after a stray write check says %s, the other check %s, ensure %s", c ? "valid" : "damaged", x ? "valid" : "damaged", e ? "damaged" : "valid");
      SIM_COUNT("chk.damage");
    }
    for (unsigned k = 0; k < (solid ? 3u : 2u); ++k) memcpy(guard(s.b, Role(k)), save[k], 8);
    intact(s, "after repair of the damage");
    if (!seen) { // one change of four billions makes another valid pair: the same hit must not pass again
      SIM_COUNT("probe.missed_once");
      unsigned missed = 0;
      const uint64_t t0 = tick;
      const unsigned m0 = tick_mode;
      for (unsigned k = 0; k < 48; ++k) {
        tick_mode = 3;
        tick = k < 16 ? t0 + k - 8 : bits64();
        Slot other;
        other.b = make(s.weak ? 4 : 0, s.b->size(), other);
        if (apply(other.b, r, d) && valid(other.b, false)) ++missed;
        LibScope L;
        free_damaged(other);
      }
      tick = t0;
      tick_mode = m0;
      CHECK(missed < 2, "c16.missed", "%s hit by a stray write (%s from %u count %u) passes the check (%u of 48 repetitions)", rolename[r], kindname[d.kind], d.from, d.count, missed);
    }
  }
  void free_damaged(Slot &s) { s.b->detach(); }

  // blocks of the guarded standard allocator
  template <class T> bool overrun_seen(size_t n, bool over, unsigned cnt, uint64_t v) {
    hippeus::hipagut_std_allocator<T> a;
    LibScope L;
    T *p = a.allocate(n);
    uint8_t *lo = reinterpret_cast<uint8_t *>(p), *hi = lo + n * sizeof(T);
    uint8_t *g = over ? hi : lo - 8, save[8];
    memcpy(save, g, 8);
    memcpy(g + (over ? 0 : 8 - cnt), &v, cnt);
    if (memcmp(g, save, 8)) {
      try {
        a.deallocate(p, n);
        return false;
      } catch (const fptu::bug &) {
      }
      memcpy(g, save, 8);
    }
    a.deallocate(p, n);
    return true;
  }
  template <class T> void blocks() {
    tick = some_tick();
    tick_mode = choose(5);
    const size_t n = 1 + choose(choose(3) ? 20 : 300);
    const unsigned fill = choose(256);
    hippeus::hipagut_std_allocator<T> a;
    try {
      LibScope L;
      T *p = a.allocate(n);
      memset(static_cast<void *>(p), int(fill), n * sizeof(T));
      a.deallocate(p, n);
    } catch (const fptu::bug &e) {
      fail("c16.false-alarm", "an intact block is reported: %s", e.what());
    }
    if (choose(2)) {
      const bool over = choose(2);
      const unsigned cnt = 1 + choose(8);
      const uint64_t v = bits64();
      SIM_COUNT("fault.block_overrun");
      if (!overrun_seen<T>(n, over, cnt, v)) { // see hit() about coincidences
        SIM_COUNT("probe.missed_once");
        unsigned missed = 0;
        for (unsigned k = 0; k < 48; ++k) {
          tick = k < 16 ? tick + 1 : bits64();
          missed += !overrun_seen<T>(n, over, cnt, v);
        }
        CHECK(missed < 2, "c16.missed", "a block of %zu bytes overrun by %u bytes %s was accepted back", n * sizeof(T), cnt, over ? "above" : "below");
      }
    }
    SIM_COUNT("chk.block");
  }

  // whole tuples living in guarded buffers
  void tuples() {
    span();
    tick = some_tick();
    tick_mode = choose(5);
    note("tuple");
    Model m;
    auto schema = make_fields(m, choose(3), 1 + choose(5), true);
    std::unique_ptr<fptu::tuple_rw_managed> tp;
    {
      const unsigned items = 1 + choose(8), bytes = 8 + choose(200), a = choose(3);
      LibScope L;
      tp.reset(new fptu::tuple_rw_managed(items, bytes, schema.get(), allots::tag(a)));
    }
    auto &t = *tp;
    auto audit = [&](const char *when) {
      for (auto &l : allots::ledger)
        for (auto p : l.lent) {
          bool ok;
          {
            LibScope L;
            ok = static_cast<const buffer *>(p)->check();
          }
          bool known = false;
          for (auto &s : pool) known |= s.b == p;
          (void)known;
          CHECK(ok, "c16.false-alarm", "%s: a buffer in use fails its check", when);
        }
    };
    for (unsigned i = 0, n = 1 + choose(10); i < n; ++i) {
      mutate_one(t, m, 60);
      audit("while a tuple lives in it");
    }
    {
      LibScope L;
      tp.reset();
    }
    SIM_COUNT("chk.tuple");
  }

  void run() {
    heap_begin_run(sh->seed);
    allots::begin_run(choose(2) ? 0 : 40);
    sim_ticks = ticks;
    allots::on_repay = [](const buffer *b) {
      LibScope L;
      CHECK(!b->check_expect_invalid(false), "c16.release", "a released buffer still passes its check");
      SIM_COUNT("chk.released");
    };
    hippeus_buffer_enforce_deep_checking = chance(1, 5);
    const unsigned steps = 5 + choose(60);
    for (unsigned i = 0; i < steps; ++i) {
      span();
      const unsigned what = choose(12);
      if (pool.empty() || what == 0) create();
      else {
        size_t k = choose(unsigned(pool.size()));
        switch (what) {
        case 1: use(pool[k]); break;
        case 2: refs(pool[k], k); break;
        case 3: release(k); break;
        case 4: intact(pool[k], "while in use"); break;
        case 5:
          switch (choose(4)) {
          case 0: blocks<char>(); break;
          case 1: blocks<uint32_t>(); break;
          case 2: blocks<std::array<char, 12>>(); break;
          default: blocks<std::array<uint64_t, 5>>();
          }
          break;
        default: hit(pool[k]);
        }
      }
      uint64_t st = pool.size();
      for (auto &s : pool) st = st * 31 + s.refs + s.b->size() * 7 + s.weak;
      state(st ^ tick * 0x9E3779B97F4A7C15ull);
      mix(st);
    }
    if (chance(1, 4)) tuples();
    while (!pool.empty()) release(pool.size() - 1);
    hippeus_buffer_enforce_deep_checking = false;
    allots::on_repay = nullptr;
    sim_ticks = nullptr;
    allots::end_run("c16.leak");
    heap_end_run("c16.leak");
  }
};
void run() {
  W w;
  w.run();
}
Register r("guard", run);
} // namespace
