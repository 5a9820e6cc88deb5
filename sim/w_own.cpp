// flavours: plain asan
// World "own" (C10): a pool of handles of all kinds over several allocators is
// created, cloned, copied, moved, converted, swapped and destroyed while memory
// requests fail at random points; ledgers and contents are compared throughout.
#include "allot.hpp"
#include "life.hpp"
#include "fast_positive/tuples/legacy.h"
using namespace sim;
using namespace fld;
namespace {
fptu::initiation_scale any_scale() { return fptu::initiation_scale(chance(1, 10) ? choose(5) : choose(2)); }
using fixed_t = fptu::tuple_rw_fixed;
using managed_t = fptu::tuple_rw_managed;
using ro_t = fptu::tuple_ro_managed;
using weak_t = fptu::tuple_ro_weak;
using hippeus::buffer_tag;

struct H {
  int kind = 0; // 0 ro, 1 rw fixed, 2 rw managed
  ro_t ro;
  std::unique_ptr<fixed_t> rw; // managed_t is also kept here (kind 2)
  Model m;
  const fptu::schema *s = nullptr; // schema the writable form is bound to
  bool hollow = false;             // holds nothing
  managed_t &mg() { return static_cast<managed_t &>(*rw); }
};
// tuple_rw_managed has no virtual destructor and no members of its own
struct Pool {
  std::vector<std::unique_ptr<H>> h;
};

struct Own {
  Model base;
  std::unique_ptr<fptu::schema> s, alien; // alien: of another layout
  std::vector<std::unique_ptr<H>> pool;
  unsigned max_len = 30;
  bool faulty = false;
  bool bare = false; // writable tuples may live in plain memory, without a buffer

  buffer_tag rnd_tag() {
    unsigned k = choose(5);
    return k < 3 ? allots::tag(k) : k == 3 ? hippeus::default_allot_tag() : fptu::default_buffer_allot();
  }
  buffer_tag rw_tag() { return bare && chance(1, 3) ? buffer_tag() : rnd_tag(); }
  static bool from(const fixed_t &t, const buffer_tag &tag) { return tag ? t.get_buffer() && t.get_buffer()->host == tag : !t.get_buffer(); }
  static bool hollow(const H &x) { return x.kind == 0 ? !x.ro : !*x.rw; }

  void check(H &x, const char *when) {
    SIM_COUNT("chk.content");
    bool is_hollow = hollow(x);
    CHECK(is_hollow == x.hollow, "own.hollow", "%s: a handle is %s", when, is_hollow ? "empty but should hold a tuple" : "not empty after being moved from");
    if (is_hollow) return;
    if (x.kind == 0) {
      auto d = diff_content(x.ro, x.m, int(choose(2)));
      CHECK(d.empty(), "own.content", "%s: read-only tuple: %s", when, d.c_str());
      auto *b = x.ro.get_buffer();
      CHECK(b && b->check(), "own.buffer", "%s: the buffer of a read-only tuple is damaged or released", when);
    } else {
      auto d = x.kind == 1 ? diff_content(*x.rw, x.m, int(choose(2))) : diff_content(x.mg(), x.m, int(choose(2)));
      CHECK(d.empty(), "own.content", "%s: writable tuple: %s", when, d.c_str());
      const char *trouble;
      { LibScope L; trouble = x.rw->validate(); }
      CHECK(!trouble, "own.valid", "%s: writable tuple does not validate: %s", when, trouble);
      CHECK(x.rw->schema() == x.s, "own.schema", "%s: a writable tuple is bound to another schema", when);
      auto *b = x.rw->get_buffer();
      CHECK(b ? b->check() : bare, "own.buffer", "%s: the buffer of a writable tuple is damaged or released", when);
    }
  }
  void check_all(const char *when) {
    for (auto &x : pool) check(*x, when);
    heap_check("own.overrun");
  }
  // a handle of the wanted sort when there is one: 0 read-only, 1 writable
  H &any(int want) {
    std::vector<H *> c;
    for (auto &x : pool) if ((x->kind != 0) == (want != 0) && !x->hollow) c.push_back(x.get());
    return c.empty() ? any() : *c[choose(unsigned(c.size()))];
  }
  H &any() { return *pool[choose(unsigned(pool.size()))]; }

  // run f with a memory fault possibly armed; returns false when it failed for
  // lack of memory (the only failure allowed)
  template <class F> bool attempt(const char *what, F &&f) {
    note("%s%s", what, faulty ? " (memory fault armed)" : "");
    counter(what)->n++;
    if (faulty) arm_alloc_fault(1 + choose(4), chance(1, 4) ? 3 : 1);
    else disarm_alloc_fault();
    bool ok = true;
    alloc_faults = 0;
    try {
      LibScope L;
      f();
    } catch (const std::bad_alloc &e) {
      in_lib = 0;
      unsigned n = alloc_faults;
      disarm_alloc_fault();
      CHECK(n, "own.refused", "%s failed for lack of memory although none was denied: %s", what, e.what());
      ok = false;
      SIM_COUNT("probe.failed-call");
    } catch (const std::exception &e) {
      in_lib = 0;
      disarm_alloc_fault();
      fail("own.exception", "%s threw %s", what, e.what());
    }
    in_lib = 0;
    disarm_alloc_fault();
    return ok;
  }
  H &add(int kind, const Model &m, const fptu::schema *sc) {
    std::unique_ptr<H> x(new H);
    x->kind = kind;
    x->m = m;
    x->s = sc;
    if (pool.size() >= 6) kill(choose(unsigned(pool.size())));
    pool.push_back(std::move(x));
    return *pool.back();
  }
  void add_rw(int kind, std::unique_ptr<fixed_t> p, const Model &m, const fptu::schema *sc) {
    H &x = add(kind, m, sc);
    x.rw = std::move(p);
  }
  void add_ro(ro_t &&r, const Model &m, const fptu::schema *sc) {
    H &x = add(0, m, sc);
    x.ro.swap(r);
  }
  void kill(size_t i) {
    note("destroy handle %zu", i);
    auto x = std::move(pool[i]);
    pool.erase(pool.begin() + long(i));
    LibScope L;
    if (x->kind == 0) { ro_t tmp(std::move(x->ro)); }
    else if (x->kind == 2) { managed_t tmp(std::move(*x->rw)); }
    else { fixed_t tmp(std::move(*x->rw)); }
  }
  template <class F> std::unique_ptr<fixed_t> make(F &&f) { // f returns fixed_t or managed_t by value
    auto r = f();
    HarnessScope HS;
    return std::unique_ptr<fixed_t>(new fixed_t(std::move(r)));
  }

  void step() {
    faulty = chance(1, 3);
    unsigned op = choose(29);
    if (pool.empty() && op > 3) op = choose(4);
    Model fresh = base;
    fresh.reset();
    size_t items = chance(1, 3) ? choose(4) : choose(40), bytes = chance(1, 3) ? choose(20) : choose(600);
    const bool writable = op <= 2 || op == 21 || op == 22;
    auto tag = writable ? rw_tag() : rnd_tag();
    if (!tag) SIM_COUNT("op.without-a-buffer");
    switch (op) {
    case 0: case 1: {
      std::unique_ptr<fixed_t> p;
      int kind = 1 + int(choose(2));
      if (attempt(kind == 1 ? "op.rw_fixed(items,bytes)" : "op.rw_managed(items,bytes)", [&] {
            p = kind == 1 ? make([&] { return fixed_t(items, bytes, s.get(), tag); }) : make([&] { return managed_t(items, bytes, s.get(), tag); });
          })) {
        CHECK(from(*p, tag), "own.tag", "a new tuple did not take its buffer from the given allocator");
        CHECK(p->head_space() >= std::min<size_t>(items, fptu::max_fields - p->index_size()) && p->tail_space_bytes() >= bytes / 4 * 4, "own.room", "a new tuple has less room than asked for: index %zu of %zu, data %zu of %zu", p->head_space(), items, p->tail_space_bytes(), bytes);
        add_rw(kind, std::move(p), fresh, s.get());
      }
      break;
    }
    case 2: {
      std::unique_ptr<fixed_t> p;
      auto scale = any_scale();
      int kind = 1 + int(choose(2));
      if (attempt("op.rw(scale)", [&] {
            p = kind == 1 ? make([&] { return fixed_t(scale, s.get(), tag); }) : make([&] { return managed_t(scale, s.get(), tag); });
          }))
        add_rw(kind, std::move(p), fresh, s.get());
      break;
    }
    case 3: { // by the process-wide defaults
      std::unique_ptr<fixed_t> p;
      int kind = 1 + int(choose(2));
      bool way = chance(1, 2);
      if (attempt("op.rw(defaults)", [&] {
            if (kind == 1) p = make([&] { return way ? fixed_t(fptu::defaults()) : fixed_t(fptu::initiation_scale::tiny); });
            else p = make([&] { return way ? managed_t(fptu::defaults()) : managed_t(fptu::initiation_scale::tiny); });
          })) {
        CHECK(p->schema() == fptu::defaults::schema.get(), "own.schema", "a default tuple is not bound to the default schema");
        CHECK(p->get_buffer()->host == fptu::defaults::allot_tag, "own.tag", "a default tuple did not use the default allocator");
        Model bare = fresh; // default schema is none: only loose fields exist
        if (!base.preplaced_units) add_rw(kind, std::move(p), bare, nullptr);
        else { LibScope L; p->purge(); }
      }
      break;
    }
    case 4: case 5: case 6: case 7: { // use
      H &x = any(1);
      if (x.kind == 0 || x.hollow) break;
      note("use");
      if (faulty) arm_alloc_fault(1 + choose(4));
      if (x.kind == 2) mutate(x.mg(), x.m, range(1, 5), max_len);
      else mutate(*x.rw, x.m, range(1, 5), max_len);
      disarm_alloc_fault();
      break;
    }
    case 8: { // copy a read-only handle
      H &x = chance(1, 8) ? any() : any(0);
      if (x.kind) break;
      ro_t r;
      if (attempt("op.ro(const ro&)", [&] { ro_t c(x.ro); r.swap(c); })) {
        Model m = x.m;
        auto sc = x.s;
        bool hol = x.hollow;
        add_ro(std::move(r), m, sc);
        pool.back()->hollow = hol;
      }
      break;
    }
    case 9: { // copy-assign
      H &x = any(0), &y = chance(1, 4) ? any() : any(0);
      if (x.kind || y.kind) break;
      if (attempt("op.ro=const ro&", [&] { y.ro = x.ro; }) && &x != &y) { y.m = x.m; y.s = x.s; y.hollow = x.hollow; }
      break;
    }
    case 10: { // move-assign
      H &x = any(), &y = any();
      if (&x == &y || x.kind != y.kind) break;
      if (attempt("op.move-assign", [&] {
            if (x.kind == 0) y.ro = std::move(x.ro);
            else if (x.kind == 1) *y.rw = std::move(*x.rw);
            else y.mg() = std::move(x.mg());
          })) {
        y.m = x.m; y.s = x.s; y.hollow = x.hollow;
        x.hollow = true;
      }
      break;
    }
    case 11: { // move-construct
      H &x = any();
      Model m = x.m;
      auto sc = x.s;
      bool hol = x.hollow;
      int kind = x.kind;
      if (kind == 0) {
        ro_t r;
        attempt("op.ro(ro&&)", [&] { ro_t c(std::move(x.ro)); r.swap(c); });
        x.hollow = true;
        add_ro(std::move(r), m, sc);
      } else {
        std::unique_ptr<fixed_t> p;
        int nk = kind == 1 && chance(1, 3) ? 2 : kind;
        attempt("op.rw(rw&&)", [&] {
          p = nk == 2 ? make([&] { return kind == 2 ? managed_t(std::move(x.mg())) : managed_t(std::move(*x.rw)); }) : make([&] { return fixed_t(std::move(*x.rw)); });
        });
        x.hollow = true;
        add_rw(nk, std::move(p), m, sc);
      }
      pool.back()->hollow = hol;
      break;
    }
    case 12: { // swap
      H &x = any(), &y = any();
      if (&x == &y || x.kind != y.kind) break;
      attempt("op.swap", [&] { if (x.kind == 0) x.ro.swap(y.ro); else x.rw->swap(*y.rw); });
      std::swap(x.m, y.m);
      std::swap(x.s, y.s);
      std::swap(x.hollow, y.hollow);
      break;
    }
    case 13: { // purge
      H &x = any();
      attempt("op.purge", [&] { if (x.kind == 0) x.ro.purge(); else x.rw->purge(); });
      x.hollow = true;
      break;
    }
    case 14: kill(choose(unsigned(pool.size()))); break;
    case 15: { // read-only from writable, by move
      H &x = any(1);
      if (x.kind == 0 || x.hollow) break;
      ro_t r;
      Model m = x.m;
      auto sc = x.s;
      unsigned way = choose(3);
      bool dont = chance(1, 2);
      if (!x.rw->get_buffer()) { // there is nothing to hand over: a refusal that leaves both sides as they were
        bool threw = false;
        try {
          LibScope L;
          if (way == 0) { ro_t c(x.rw->move_to_ro(dont)); r.swap(c); }
          else if (way == 1) { ro_t c(std::move(*x.rw)); r.swap(c); }
          else r = std::move(*x.rw);
        } catch (const std::exception &) { in_lib = 0; threw = true; }
        in_lib = 0;
        CHECK(threw && !r, "own.buffer", "a tuple without a buffer became a read-only one");
        SIM_COUNT("op.refused-without-a-buffer");
        break;
      }
      if (attempt("op.move_to_ro", [&] {
            if (way == 0) { ro_t c(x.rw->move_to_ro(dont)); r.swap(c); }
            else if (way == 1) { ro_t c(std::move(*x.rw)); r.swap(c); }
            else r = std::move(*x.rw);
          })) {
        x.hollow = true;
        add_ro(std::move(r), m, sc);
      }
      break;
    }
    case 16: { // read-only clones of a writable one
      H &x = any(1);
      if (x.kind == 0 || x.hollow) break;
      ro_t r;
      unsigned way = choose(4);
      bool hollow_if_empty = chance(1, 4);
      if (attempt("op.ro clone of rw", [&] {
            if (way == 0) { ro_t c(ro_t::clone(*x.rw, tag)); r.swap(c); }
            else if (way == 1) { ro_t c(x.rw->take_managed_clone_asis(hollow_if_empty, tag)); r.swap(c); }
            else if (way == 2) { ro_t c(x.rw->take_managed_clone_optimized(hollow_if_empty, tag).first); r.swap(c); }
            else { ro_t c(x.rw->take_managed_clone(chance(1, 2), hollow_if_empty, tag).first); r.swap(c); }
          })) {
        Model m = x.m;
        auto sc = x.s;
        if (!r) {
          CHECK(way && hollow_if_empty && !m.loose_count() && !m.preplaced_units, "own.clone", "a clone is empty although the source holds fields");
          break;
        }
        CHECK(r.get_buffer()->host == tag, "own.tag", "a clone did not take its buffer from the given allocator");
        add_ro(std::move(r), m, sc);
      }
      break;
    }
    case 17: { // read-only clones of a read-only one
      H &x = chance(1, 8) ? any() : any(0);
      if (x.kind || x.hollow) break;
      ro_t r;
      unsigned way = choose(3);
      auto sc = s.get();
      if (attempt("op.ro clone of ro", [&] {
            if (way == 0) { ro_t c(ro_t::clone(x.ro, sc, tag)); r.swap(c); }
            else if (way == 1) { ro_t c(ro_t::clone(x.ro.take_weak(), sc, tag)); r.swap(c); }
            else { ro_t c(x.ro.data(), x.ro.size(), sc, tag); r.swap(c); }
          })) {
        CHECK(r.get_buffer()->host == tag, "own.tag", "a clone is not held by the given allocator");
        add_ro(std::move(r), Model(x.m), sc);
      }
      break;
    }
    case 18: case 19: { // writable from read-only, by move
      H &x = chance(1, 8) ? any() : any(0);
      if (x.kind) break;
      int kind = 1 + int(choose(2));
      std::unique_ptr<fixed_t> p;
      if (x.hollow) {
        bool threw = false;
        try { LibScope L; fixed_t f(std::move(x.ro)); } catch (const fptu::tuple_hollow &) { threw = true; in_lib = 0; }
        CHECK(threw, "own.hollow", "an empty handle was turned into a writable tuple");
        break;
      }
      Model m = x.m;
      auto tagwas = x.ro.get_buffer()->host;
      if (attempt("op.rw(ro&&)", [&] {
            p = kind == 1 ? make([&] { return fixed_t(std::move(x.ro)); }) : make([&] { return managed_t(std::move(x.ro)); });
          })) {
        x.hollow = true;
        CHECK(p->get_buffer()->host == tagwas, "own.tag", "a conversion moved the data to another allocator");
        CHECK(p->schema() == x.s, "own.schema", "a conversion to a writable tuple lost the schema");
        add_rw(kind, std::move(p), m, x.s);
      }
      break;
    }
    case 20: { // assign a read-only one to an existing writable one
      H &x = any(0), &y = any(1);
      if (x.kind || x.hollow || !y.kind) break;
      auto sc = x.s;
      if (attempt("op.rw=ro&&", [&] { if (y.kind == 1) *y.rw = std::move(x.ro); else y.mg() = std::move(x.ro); })) {
        y.m = x.m; y.s = sc; y.hollow = false;
        x.hollow = true;
      }
      break;
    }
    case 21: { // writable clones of a read-only one
      H &x = chance(1, 8) ? any() : any(0);
      if (x.kind || x.hollow) break;
      std::unique_ptr<fixed_t> p;
      int kind = 1 + int(choose(2));
      unsigned way = choose(4);
      auto sc = s.get();
      auto scale = any_scale();
      if (attempt("op.rw clone of ro", [&] {
            if (kind == 1) p = make([&] {
              return way == 0 ? fixed_t::clone(x.ro, items, bytes, sc, tag) : way == 1 ? fixed_t::clone(x.ro, scale, sc, tag)
                   : way == 2 ? fixed_t::clone(x.ro.take_weak(), items, bytes, sc, tag) : fixed_t(x.ro.data(), x.ro.size(), items, bytes, sc, tag);
            });
            else p = make([&] {
              return way == 0 ? managed_t::clone(x.ro, items, bytes, sc, tag) : way == 1 ? managed_t::clone(x.ro, scale, sc, tag)
                   : way == 2 ? managed_t::clone(x.ro.take_weak(), items, bytes, sc, tag) : managed_t(x.ro.data(), x.ro.size(), items, bytes, sc, tag);
            });
          })) {
        CHECK(from(*p, tag), "own.tag", "a clone did not take its buffer from the given allocator");
        if (way != 1)
          CHECK(p->head_space() >= std::min<size_t>(items, fptu::max_fields - p->index_size()) && p->tail_space_bytes() >= bytes / 4 * 4, "own.room", "a clone has less room than asked for");
        Model m = x.m;
        add_rw(kind, std::move(p), m, sc);
      }
      break;
    }
    case 22: { // writable clones of a writable one
      H &x = any(1);
      if (!x.kind || x.hollow) break;
      std::unique_ptr<fixed_t> p;
      int kind = 1 + int(choose(2));
      unsigned way = choose(3);
      auto scale = any_scale();
      if (attempt("op.rw clone of rw", [&] {
            if (kind == 1) p = make([&] { return way == 0 ? fixed_t::clone(*x.rw, tag) : way == 1 ? fixed_t::clone(*x.rw, scale, tag) : fixed_t::clone(*x.rw, items, bytes, tag); });
            else p = make([&] { return way == 0 ? managed_t::clone(*x.rw, tag) : way == 1 ? managed_t::clone(*x.rw, scale, tag) : managed_t::clone(*x.rw, items, bytes, tag); });
          })) {
        CHECK(from(*p, tag), "own.tag", "a clone did not take its buffer from the given allocator");
        Model m = x.m;
        auto sc = x.s;
        if (way == 0) // free space as in the source
          CHECK(p->head_space() >= x.rw->head_space() && p->tail_space_bytes() >= x.rw->tail_space_bytes(), "own.room", "a plain clone has less room than its source: %zu/%zu index, %zu/%zu data", p->head_space(), x.rw->head_space(), p->tail_space_bytes(), x.rw->tail_space_bytes());
        if (way == 2)
          CHECK(p->head_space() >= std::min<size_t>(items, fptu::max_fields - p->index_size()) && p->tail_space_bytes() >= bytes / 4 * 4, "own.room", "a clone has less room than asked for");
        add_rw(kind, std::move(p), m, sc);
      }
      break;
    }
    case 23: { // plain buffers
      note("buffer");
      hippeus::buffer *b = nullptr;
      size_t want = 1 + choose(500);
      if (attempt("op.buffer::borrow", [&] { b = hippeus::buffer::borrow(tag, want, true); })) {
        CHECK(b->size() >= want && b->check() && b->is_alterable(), "own.buffer", "a fresh buffer is unusable");
        hippeus::buffer_ptr p1(b);
        {
          LibScope L;
          auto p2 = hippeus::clone(p1);
          HarnessScope HS;
          CHECK(!b->is_alterable(), "own.buffer", "a shared buffer is reported as alterable");
          memset(b->data(), 0x5a, b->size());
          CHECK(b->check(), "own.buffer", "a buffer filled up to its size is reported as damaged");
          in_lib = 1;
          p2.reset();
          in_lib = 0;
        }
        in_lib = 0;
        CHECK(b->is_alterable(), "own.buffer", "a buffer with one owner left is not alterable");
        LibScope L;
        p1.reset();
      }
      break;
    }
    case 24: { // C interface over malloc
      fptu_rw *pt = nullptr;
      attempt("op.fptu_alloc", [&] { pt = fptu_alloc(items, bytes); });
      if (!pt) {
        CHECK(faulty, "own.refused", "fptu_alloc failed although memory was available");
        break;
      }
      fptu_upsert_uint32(pt, 1, 42); // the error record of the thread may keep memory: not under the ledger
      LibScope L;
      fptu_destroy(pt);
      break;
    }
    case 26: { // a request beyond the limits of the format: a refusal that keeps nothing
      const size_t huge = chance(1, 2) ? size_t(fptu::max_fields) + 1 + choose(70000) : ~size_t(0) >> choose(40);
      const size_t much = chance(1, 2) ? size_t(fptu::buffer_limit) + 1 + choose(70000) : ~size_t(0) >> choose(40);
      const bool by_items = chance(1, 2);
      const size_t it = by_items ? huge : items, by = by_items ? bytes : much;
      H *x = pool.empty() ? nullptr : &any();
      unsigned way = choose(3);
      if (x && x->hollow) x = nullptr;
      if (way && !x) way = 0;
      const bool managed = chance(1, 2);
      auto t2 = rw_tag();
      note("out of limits: %zx items, %zx bytes, way %u", it, by, way);
      SIM_COUNT("op.out-of-limits");
      bool threw = false;
      try {
        LibScope L;
        if (!way) { if (managed) managed_t t(it, by, s.get(), t2); else fixed_t t(it, by, s.get(), t2); }
        else if (x->kind) { if (managed) managed_t t(managed_t::clone(*x->rw, it, by, t2)); else fixed_t t(fixed_t::clone(*x->rw, it, by, t2)); }
        else if (way == 1) { if (managed) managed_t t(managed_t::clone(x->ro, it, by, x->s, t2)); else fixed_t t(fixed_t::clone(x->ro, it, by, x->s, t2)); }
        else { if (managed) managed_t t(x->ro.data(), x->ro.size(), it, by, x->s, t2); else fixed_t t(x->ro.data(), x->ro.size(), it, by, x->s, t2); }
      } catch (const std::bad_alloc &) { in_lib = 0;
      } catch (const std::exception &) { in_lib = 0; threw = true; }
      in_lib = 0;
      CHECK(threw, "own.limits", "a tuple beyond the limits of the format was made or asked for (%zx items, %zx bytes)", it, by);
      break;
    }
    case 27: { // under another schema: an image that doesn't fit is refused, one that fits is copied whole
      H &x = chance(1, 8) ? any() : any(0);
      if (x.kind) break;
      const fptu::schema *sc = choose(3) ? alien.get() : nullptr;
      const unsigned way = choose(6);
      const bool managed = chance(1, 2), was_hollow = x.hollow;
      ro_t r;
      std::unique_ptr<fixed_t> p;
      bool hollow_error = false, threw = false, no_memory = false;
      const char *unfit = "there is no image";
      bool kept = false, own_layout = false;
      if (!x.hollow) {
        fptu::details::audit_holes_info holes;
        LibScope L;
        unfit = fptu::details::tuple_ro::audit(x.ro.data(), x.ro.size(), sc, holes);
        kept = way == 0 && !sc && x.ro.get_buffer()->host == tag; // the same tuple, shared
        own_layout = way == 3 && !sc;        // goes with the schema it has
      } else if (way > 1) break;
      note("way %u under %s schema: %s", way, sc ? "another" : "no", unfit ? unfit : "fits");
      SIM_COUNT("op.another-schema");
      if (faulty) arm_alloc_fault(1 + choose(4), 1);
      try {
        LibScope L;
        switch (way) {
        case 0: { ro_t c(ro_t::clone(x.ro, sc, tag)); r.swap(c); break; }
        case 1: { ro_t c(ro_t::clone(x.ro.take_weak(), sc, tag)); r.swap(c); break; }
        case 2: { ro_t c(x.ro.data(), x.ro.size(), sc, tag); r.swap(c); break; }
        case 3: p = managed ? make([&] { return managed_t::clone(x.ro, items, bytes, sc, tag); }) : make([&] { return fixed_t::clone(x.ro, items, bytes, sc, tag); }); break;
        case 4: p = managed ? make([&] { return managed_t::clone(x.ro.take_weak(), items, bytes, sc, tag); }) : make([&] { return fixed_t::clone(x.ro.take_weak(), items, bytes, sc, tag); }); break;
        case 5: p = managed ? make([&] { return managed_t(x.ro.data(), x.ro.size(), items, bytes, sc, tag); }) : make([&] { return fixed_t(x.ro.data(), x.ro.size(), items, bytes, sc, tag); }); break;
        }
      } catch (const fptu::tuple_hollow &) { in_lib = 0; threw = hollow_error = true;
      } catch (const std::bad_alloc &) { in_lib = 0; threw = no_memory = true;
      } catch (const std::exception &) { in_lib = 0; threw = true; }
      in_lib = 0;
      const bool denied = no_memory && alloc_faults;
      disarm_alloc_fault();
      if (denied) break;
      if (was_hollow) {
        CHECK(sc ? hollow_error : !threw && !r, "own.hollow", "a clone of nothing under %s schema is %s", sc ? "a" : "no", threw ? "refused" : "a tuple");
        break;
      }
      CHECK(threw == (unfit && !kept && !own_layout), "own.another-schema", "way %u: a tuple that %s the schema asked for is %s", way, unfit ? "does not fit" : "fits", threw ? "refused" : "accepted");
      if (threw) break;
      const void *d = p ? p->take_weak_asis().data() : r.data();
      const size_t n = p ? p->take_weak_asis().size() : r.size();
      CHECK(n == x.ro.size() && !memcmp(d, x.ro.data(), n), "own.another-schema", "way %u: the copy under another schema differs from its source", way);
      if (p) {
        CHECK(p->schema() == (own_layout ? x.s : sc), "own.schema", "way %u: a copy is bound to another schema than asked for", way);
        CHECK(from(*p, tag), "own.tag", "a clone did not take its buffer from the given allocator");
        const char *trouble;
        { LibScope L; trouble = p->validate(); }
        CHECK(!trouble, "own.valid", "a copy under another schema does not validate: %s", trouble);
      }
      LibScope L;
      r.purge();
      p.reset();
      break;
    }
    case 28: { // a view into one tuple may not be held by the buffer of another
      H &x = any(0), &y = any(0);
      if (x.kind || y.kind || y.hollow) break;
      const bool right = !x.hollow && x.ro.get_buffer() == y.ro.get_buffer();
      note("a view held by %s", right ? "its own buffer" : x.hollow ? "nothing" : "another buffer");
      SIM_COUNT("op.wrong-holder");
      ro_t r;
      bool threw = false;
      try {
        LibScope L;
        ro_t c(y.ro.take_weak(), x.ro);
        r.swap(c);
      } catch (const std::exception &) { in_lib = 0; threw = true; }
      in_lib = 0;
      CHECK(threw != right, "own.holder", "a view of a tuple %s be held by %s", threw ? "may not" : "may", right ? "its own buffer" : x.hollow ? "nothing" : "the buffer of another");
      LibScope L;
      r.purge();
      break;
    }
    case 25: { // nested handles keep the master's buffer alive
      H &x = chance(1, 8) ? any() : any(0);
      if (x.kind || x.hollow) break;
      for (size_t i = 0; i < x.m.f.size(); ++i) {
        const Field &f = x.m.f[i];
        if (f.coll || f.g != fptu::nested) continue;
        ro_t n;
        bool threw = false, way = chance(1, 2);
        auto want = x.m.expect(i);
        note("nested of %s", f.name.c_str());
        try {
          LibScope L;
          if (way) { ro_t c(x.ro.get_nested_managed(f.tok)); n.swap(c); }
          else { ro_t c(x.ro.get_nested_weak(f.tok), x.ro); n.swap(c); }
        } catch (const fptu::field_absent &) {
          in_lib = 0;
          threw = true;
        } catch (const std::exception &e) {
          in_lib = 0;
          fail("own.nested", "taking a nested tuple threw %s", e.what());
        }
        CHECK(threw == !want, "own.nested", "absence of a nested tuple is %s", threw ? "reported although it exists" : "not reported");
        if (threw) break;
        if (want->size() < 8) {
          CHECK(!n || n.empty(), "own.nested", "an empty nested tuple is not empty");
          LibScope L;
          n.purge();
          break;
        }
        CHECK(n && n.get_buffer() == x.ro.get_buffer(), "own.nested", "a nested handle does not share the buffer of its master");
        if (chance(1, 3)) { // handles of one buffer which show different tuples
          note("assign among handles of one buffer");
          const void *inner, *outer, *last;
          size_t inner_size;
          bool back = chance(1, 2), moved = chance(1, 2);
          {
            LibScope L;
            ro_t a(x.ro), b(n);
            if (chance(1, 2)) { a = b; inner = a.data(), inner_size = a.size(); b = x.ro; outer = b.data(); }
            else { a = std::move(b); inner = a.data(), inner_size = a.size(); b = x.ro; outer = b.data(); }
            if (back) { if (moved) a = std::move(b); else a = b; last = a.data(); }
            else { a.swap(b); last = a.data(); }
          }
          SIM_COUNT("op.assign_same_buffer");
          CHECK(inner == n.data() && inner_size == n.size() && outer == x.ro.data() && last == x.ro.data(), "own.assign", "after an assignment the handle shows another tuple of the same buffer");
        }
        bool kill_master = chance(1, 2);
        if (kill_master) {
          LibScope L;
          x.ro.purge();
          x.hollow = true;
        }
        CHECK(n.size() == want->size() && !memcmp(n.data(), want->data(), n.size()), "own.nested", "the bytes of a nested tuple differ");
        unsigned how = choose(8);
        if (how < 5) { // become writable: a tuple of its own with the content of the nested one
          bool faulty = chance(1, 6);
          if (faulty) arm_alloc_fault(1 + choose(3));
          note("nested to writable %u%s", how, kill_master ? " after the master is gone" : "");
          Val got;
          bool ok = false;
          try {
            LibScope L;
            weak_t w;
            managed_t m;
            fixed_t fx;
            switch (how) {
            case 0: { managed_t c(std::move(n)); m.swap(c); w = m.take_weak_asis(); break; }
            case 1: { fixed_t c(std::move(n)); fx.swap(c); w = fx.take_weak_asis(); break; }
            case 2: { managed_t c(managed_t::clone(n, 2, 30, nullptr)); m.swap(c); w = m.take_weak_asis(); break; }
            case 3: { fixed_t c(fixed_t::clone(n, 2, 30, nullptr)); fx.swap(c); w = fx.take_weak_asis(); break; }
            default: m = std::move(n); w = m.take_weak_asis();
            }
            HarnessScope Hs;
            got.assign((const char *)w.data(), w.size());
            ok = true;
            SIM_COUNT("op.nested_to_writable");
          } catch (const std::exception &e) {
            in_lib = 0;
            CHECK(faulty && alloc_faults, "own.nested", "making a nested tuple writable threw %s", e.what());
          }
          disarm_alloc_fault();
          CHECK(!ok || got == *want, "own.nested", "a writable tuple made of a nested one holds %s instead of %s", hex(got.data(), got.size(), 60).c_str(), hex(want->data(), want->size(), 60).c_str());
        }
        LibScope L;
        n.purge();
        break;
      }
      break;
    }
    }
  }
};

void world() {
  heap_begin_run(sh->seed);
  allots::begin_run(choose(3) ? 0 : 100);
  Own w;
  w.s = make_fields(w.base, choose(3) ? range(0, 4) : 0, range(1, 6), true);
  {
    Model other;
    w.alien = make_fields(other, choose(3) ? range(0, 4) : 0, range(1, 4), false);
  }
  if (chance(1, 4)) w.max_len = 300;
  w.bare = chance(1, 4);
  auto saved = fptu::defaults::allot_tag;
  {
    auto t = chance(1, 2) ? allots::tag(choose(3)) : hippeus::default_allot_tag();
    fptu::defaults::setup(any_scale(), nullptr, t);
  }
  unsigned steps = range(3, 40);
  for (unsigned k = 0; k < steps; ++k) {
    span();
    w.step();
    w.check_all("after a step");
    uint64_t fp = 0;
    for (auto &x : w.pool) fp = fp * 31 + uint64_t(x->kind * 2 + x->hollow) + (x->kind == 0 && !x->hollow ? uint64_t(x->ro.get_buffer()->ref_counter) * 7 : 0);
    state(fp);
  }
  while (!w.pool.empty()) w.kill(w.pool.size() - 1);
  fptu::defaults::setup(fptu::tiny, nullptr, saved);
  { LibScope L; w.s.reset(); w.alien.reset(); }
  allots::end_run("own.leak");
  heap_end_run("own.leak");
}
Register r("own", world);
} // namespace
