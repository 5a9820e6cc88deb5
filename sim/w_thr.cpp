// flavours: thr
// World of threads: owners of shared buffers (C08, C09) and per-thread error
// records (C12) under a seeded schedule at the granularity of memory accesses.
#include "allot.hpp"
#include "sched.hpp"
#include "fast_positive/tuples.h"
#include "fast_positive/tuples/legacy.h"
#include <memory>
#include <optional>
#include <vector>

using namespace sim;
using namespace fptu;
using std::string;

namespace {
//---------------------------------------------------------------- owners
struct Snap { // what a read-only tuple must show for its whole life
  string bytes;
  uint32_t num;
  string text;
  bool nested;
  uint32_t inner_num;
  string inner_text;
  bool placed; // laid out by the schema of the run, with no loose field
};
typedef std::shared_ptr<Snap> SnapP;
struct Handle {
  tuple_ro_managed t;
  SnapP snap;
};
typedef std::unique_ptr<Handle> HandleP;

const token NUM(genus::u32, 1, false, true, false), TEXT(genus::text, 2, false, true, false),
    NEST(genus::nested, 3, false, true, false), PAD(genus::varbin, 4, false, true, false);

// the same fields placed by a schema: such a tuple has no loose field at all
std::unique_ptr<fptu::schema> the_schema;
std::optional<token> placed_tokens[4];
void make_schema() {
  the_schema = fptu::schema::create();
  token n = the_schema->define_preplaced("num", genus::u32, false);
  token t = the_schema->define_preplaced("text", genus::text, false);
  token e = the_schema->define_preplaced("nest", genus::nested, false);
  token p = the_schema->define_preplaced("pad", genus::varbin, false);
  placed_tokens[0] = n;
  placed_tokens[1] = t;
  placed_tokens[2] = e;
  placed_tokens[3] = p;
}
const token &num_of(bool placed) { return placed ? *placed_tokens[0] : NUM; }
const token &text_of(bool placed) { return placed ? *placed_tokens[1] : TEXT; }
const token &nest_of(bool placed) { return placed ? *placed_tokens[2] : NEST; }
const token &pad_of(bool placed) { return placed ? *placed_tokens[3] : PAD; }
const fptu::schema *schema_of(bool placed) { return placed ? the_schema.get() : nullptr; }

struct View {
  const Handle *h;
  const uint8_t *p;
  size_t n;
  const Snap *s;
};
std::vector<View> views; // registered live handles

bool p08, p09;

void unreg(const Handle *h) {
  for (size_t i = 0; i < views.size(); ++i)
    if (views[i].h == h) {
      views[i] = views.back();
      views.pop_back();
      return;
    }
}
void verify_view(const View &v) {
  char info[96];
  if (heap_freed(v.p, v.n, info, sizeof info))
    fail(p08 ? "owner.freed" : "view.freed", "a buffer was released while an owner still holds it: its data is at %s", info);
  if (memcmp(v.p, v.s->bytes.data(), v.n))
    fail(p09 ? "view.changed" : "owner.changed", "the bytes of a read-only tuple of %zu bytes changed while it is held", v.n);
}
void reg(Handle *h) {
  if (!h->t) return;
  const uint8_t *p;
  size_t n;
  { p = static_cast<const uint8_t *>(h->t.data()); n = h->t.size(); }
  CHECK(n == h->snap->bytes.size(), p09 ? "view.changed" : "owner.changed", "size of a read-only tuple is %zu, expected %zu", n, h->snap->bytes.size());
  views.push_back({h, p, n, h->snap.get()});
  verify_view(views.back());
}
void verify_all() {
  for (auto &v : views) verify_view(v);
  SIM_COUNT("chk.views");
}

// getters against the snapshot (may be preempted)
void verify_values(const Handle &h) {
  const Snap &s = *h.snap;
  const char *o = p09 ? "view.value" : "owner.value";
  SIM_COUNT("chk.values");
  try {
    uint32_t num;
    string text;
    bool nested;
    {
      LibScope L;
      num = h.t.get_u32(num_of(s.placed));
      auto sv = h.t.get_string(text_of(s.placed));
      HarnessScope H;
      text.assign(sv.data(), sv.size());
    }
    CHECK(num == s.num, o, "number reads %u, expected %u", num, s.num);
    CHECK(text == s.text, o, "text differs from the one stored");
    {
      LibScope L;
      nested = h.t.is_present(nest_of(s.placed));
    }
    CHECK(nested == s.nested, o, "presence of the nested tuple changed");
    if (nested) {
      LibScope L;
      auto w = h.t.get_nested_weak(nest_of(s.placed));
      uint32_t in = w.get_u32(NUM);
      auto sv = w.get_string(TEXT);
      HarnessScope H;
      CHECK(in == s.inner_num && string(sv.data(), sv.size()) == s.inner_text, o, "nested tuple reads differently");
    }
  } catch (const std::exception &e) {
    fail(o, "reading a held tuple threw %s", e.what());
  }
}

struct Content {
  uint32_t num;
  string text;
  bool nested = false;
  uint32_t inner_num = 0;
  string inner_text;
  bool placed = false;
};
string rnd_text() { return string(size_t(choose(4) == 3 ? range(1, 60) : choose(9)), char('a' + choose(26))); }

template <class RW> void fill(RW &rw, Content &c) {
  c.num = uint32_t(bits64());
  c.text = rnd_text();
  c.nested = chance(1, 2);
  tuple_rw_fixed inner = [] { LibScope L; return tuple_rw_fixed(size_t(0), 0, nullptr, allots::tag(0)); }();
  if (c.nested) {
    c.inner_num = uint32_t(bits64());
    c.inner_text = rnd_text();
    LibScope L;
    inner = tuple_rw_fixed(4, 256, nullptr, allots::tag(0));
    inner.set_u32(NUM, c.inner_num);
    inner.set_string(TEXT, string_view(c.inner_text.data(), c.inner_text.size()));
  }
  unsigned pad = choose(3) ? choose(40) : 0;
  string padv(pad, 'p');
  LibScope L;
  rw.set_u32(num_of(c.placed), c.num);
  rw.set_varbinary(pad_of(c.placed), string_view(padv.data(), padv.size()));
  rw.set_string(text_of(c.placed), string_view(c.text.data(), c.text.size()));
  if (c.nested) rw.set_nested(nest_of(c.placed), inner.take_weak_asis());
  else rw.erase(nest_of(c.placed));
  if (pad & 1) rw.erase(pad_of(c.placed));
}
SnapP snap_of(const Content &c, const tuple_ro_managed &t) {
  auto s = std::make_shared<Snap>();
  s->num = c.num;
  s->text = c.text;
  s->nested = c.nested;
  s->inner_num = c.inner_num;
  s->inner_text = c.inner_text;
  s->placed = c.placed;
  s->bytes.assign(static_cast<const char *>(t.data()), t.size());
  return s;
}
Content content_of(const Snap &s) { return {s.num, s.text, s.nested, s.inner_num, s.inner_text, s.placed}; }

struct Mailbox {
  std::vector<HandleP> q;
};
Mailbox box[sched::MAXT];
int nthreads;
hippeus::buffer_tag rnd_tag() {
  unsigned k = choose(4);
  return k == 3 ? hippeus::default_allot_tag() : allots::tag(k);
}

struct Worker {
  int id;
  std::vector<HandleP> own;

  void add(HandleP h) {
    if (h->t) {
      reg(h.get());
      own.push_back(std::move(h));
    }
  }
  HandleP take(size_t i) {
    HandleP h = std::move(own[i]);
    own.erase(own.begin() + long(i));
    return h;
  }
  void drop(HandleP h) {
    unreg(h.get());
    LibScope L;
    h->t.purge();
  }
  void step() {
    if (own.empty() || chance(1, 6)) receive();
    if (own.empty()) return;
    size_t i = choose(uint32_t(own.size()));
    Handle &h = *own[i];
    bool fault = chance(1, 12);
    switch (choose(14)) {
    case 0: { // read
      note("T%d read", id);
      verify_values(h);
      break;
    }
    case 1: { // copy
      note("T%d copy", id);
      SIM_COUNT("op.copy");
      HandleP n(new Handle{tuple_ro_managed(), h.snap});
      {
        LibScope L;
        tuple_ro_managed c(h.t);
        n->t.swap(c);
      }
      add(std::move(n));
      break;
    }
    case 2: { // release
      note("T%d drop", id);
      SIM_COUNT("op.drop");
      drop(take(i));
      break;
    }
    case 3: { // copy-assign over another owner
      size_t j = choose(uint32_t(own.size()));
      note("T%d assign %zu=%zu", id, j, i);
      SIM_COUNT("op.copy_assign");
      Handle &d = *own[j];
      if (j != i) unreg(&d);
      SnapP s = h.snap;
      {
        LibScope L;
        d.t = h.t;
      }
      d.snap = s;
      if (j != i) reg(&d);
      break;
    }
    case 4: { // move-assign
      size_t j = choose(uint32_t(own.size()));
      if (j == i) break;
      note("T%d move-assign %zu=%zu", id, j, i);
      SIM_COUNT("op.move_assign");
      Handle &d = *own[j];
      unreg(&d);
      unreg(&h);
      SnapP s = h.snap;
      {
        LibScope L;
        d.t = std::move(h.t);
      }
      d.snap = s;
      reg(&d);
      CHECK(!h.t, p08 ? "owner.moved" : "view.moved", "a moved-from handle is not empty");
      take(i);
      break;
    }
    case 5: { // move-construct
      note("T%d move", id);
      unreg(&h);
      HandleP n(new Handle{tuple_ro_managed(), h.snap});
      {
        LibScope L;
        tuple_ro_managed c(std::move(h.t));
        n->t.swap(c);
      }
      take(i);
      add(std::move(n));
      break;
    }
    case 6: case 7: { // hand over to another thread (or share a copy)
      int to = 1 + int(choose(uint32_t(nthreads)));
      HandleP n;
      if (chance(1, 2)) {
        note("T%d share with T%d", id, to);
        SIM_COUNT("op.share");
        n.reset(new Handle{tuple_ro_managed(), h.snap});
        LibScope L;
        n->t = h.t;
      } else {
        note("T%d give to T%d", id, to);
        SIM_COUNT("op.give");
        n = take(i);
        unreg(n.get());
      }
      reg(n.get());
      sched::sync_release(&box[to]);
      box[to].q.push_back(std::move(n));
      break;
    }
    case 8: { // nested view as an owner of its own
      if (!h.snap->nested) break;
      note("T%d nested", id);
      SIM_COUNT("op.nested");
      HandleP n(new Handle{tuple_ro_managed(), nullptr});
      bool way = chance(1, 2);
      {
        LibScope L;
        if (way) {
          tuple_ro_managed c(h.t.get_nested_managed(nest_of(h.snap->placed)));
          n->t.swap(c);
        } else {
          tuple_ro_managed c(h.t.get_nested_weak(nest_of(h.snap->placed)), h.t);
          n->t.swap(c);
        }
      }
      Content c{h.snap->inner_num, h.snap->inner_text, false, 0, ""};
      n->snap = snap_of(c, n->t);
      CHECK(heap_owned(n->t.data()), "owner.nested", "a nested view does not lie in a live buffer");
      add(std::move(n));
      break;
    }
    case 9: { // clone: shares or copies depending on the allocator
      note("T%d clone", id);
      SIM_COUNT("op.clone");
      auto tag = rnd_tag();
      HandleP n(new Handle{tuple_ro_managed(), h.snap});
      if (fault) arm_alloc_fault(1 + choose(2));
      try {
        LibScope L;
        tuple_ro_managed c(tuple_ro_managed::clone(h.t, schema_of(h.snap->placed), tag));
        n->t.swap(c);
      } catch (const std::bad_alloc &) {
        CHECK(alloc_faults, "owner.clone", "bad_alloc without cause");
        set_in_lib(0);
        n.reset();
      }
      disarm_alloc_fault();
      if (n) add(std::move(n));
      break;
    }
    case 10: case 11: case 12: { // become a writer, change, publish again
      note("T%d write%s", id, fault ? " (memory fault)" : "");
      SIM_COUNT("op.to_writer");
      HandleP mine = take(i);
      unreg(mine.get());
      const uint8_t *was = static_cast<const uint8_t *>(mine->t.data());
      if (fault) arm_alloc_fault(1 + choose(3));
      try {
        Content c = content_of(*mine->snap);
        tuple_ro_managed out;
        {
          LibScope L;
          tuple_rw_managed rw = chance(1, 2) ? tuple_rw_managed(tuple_rw_fixed(std::move(mine->t))) : tuple_rw_managed(std::move(mine->t));
          HarnessScope H;
          disarm_alloc_fault();
          CHECK(!mine->t, "view.moved", "a handle converted to a writable tuple is not empty");
          if (static_cast<const uint8_t *>(rw.take_weak_asis().data()) == was) SIM_COUNT("probe.reused-in-place");
          else SIM_COUNT("probe.private-copy");
          unsigned n = range(1, 3);
          while (n--) {
            fill(rw, c);
            sched::point();
          }
          sched::point();
          bool opt = chance(1, 2);
          set_in_lib(1);
          tuple_ro_managed ro(rw.move_to_ro(opt));
          out.swap(ro);
          set_in_lib(0);
        }
        set_in_lib(0);
        mine->t.swap(out);
        mine->snap = snap_of(c, mine->t);
      } catch (const std::bad_alloc &) {
        set_in_lib(0);
        CHECK(alloc_faults, "view.convert", "bad_alloc without cause");
        CHECK(mine->t, "view.convert", "a failed conversion to a writable tuple lost its source");
      } catch (const std::exception &e) {
        set_in_lib(0);
        fail("view.convert", "conversion to a writable tuple threw %s", e.what());
      }
      disarm_alloc_fault();
      add(std::move(mine));
      break;
    }
    case 13: { // writable clone, changed and discarded: nobody may notice
      note("T%d scratch writer", id);
      SIM_COUNT("op.scratch_writer");
      Content c = content_of(*h.snap);
      auto tag = rnd_tag();
      if (fault) arm_alloc_fault(1 + choose(2));
      try {
        LibScope L;
        tuple_rw_fixed rw = tuple_rw_fixed::clone(h.t, 8, 600, schema_of(h.snap->placed), tag);
        HarnessScope H;
        disarm_alloc_fault();
        fill(rw, c);
        if (chance(1, 2)) {
          HandleP n(new Handle{tuple_ro_managed(), nullptr});
          set_in_lib(1);
          tuple_ro_managed ro(rw.take_managed_clone_asis(false, tag));
          n->t.swap(ro);
          set_in_lib(0);
          n->snap = snap_of(c, n->t);
          add(std::move(n));
        }
      } catch (const std::bad_alloc &) {
        set_in_lib(0);
        CHECK(alloc_faults, "view.clone", "bad_alloc without cause");
      }
      set_in_lib(0);
      disarm_alloc_fault();
      break;
    }
    }
    if (own.size() > 10) drop(take(0));
  }
  void receive() {
    if (box[id].q.empty()) return;
    sched::sync_acquire(&box[id]);
    HandleP h = std::move(box[id].q.back());
    box[id].q.pop_back();
    note("T%d receive", id);
    own.push_back(std::move(h)); // stays registered
  }
  void body(unsigned steps) {
    for (unsigned k = 0; k < steps; ++k) {
      span();
      step();
      if (p09 || chance(1, 4)) verify_all();
      sched::point();
    }
    while (!own.empty()) {
      drop(take(own.size() - 1));
      sched::point();
    }
  }
};

void owners() {
  views.clear();
  p08 = prop == "C08";
  p09 = prop == "C09";
  sched::on_switch = verify_all;
  sched::race_oracle = p08 ? "owner.race" : "view.race";
  sched::uaf_oracle = p08 ? "owner.use-after-free" : "view.use-after-free";
  nthreads = int(range(2, 4));
  make_schema();
  std::vector<std::unique_ptr<Worker>> w;
  for (int i = 1; i <= nthreads; ++i) {
    w.emplace_back(new Worker);
    w.back()->id = i;
  }
  unsigned bases = range(1, 3);
  for (unsigned b = 0; b < bases; ++b) {
    Content c;
    c.placed = chance(1, 3);
    tuple_ro_managed ro;
    auto tag = rnd_tag();
    {
      HandleP tmp;
      tuple_rw_managed rw = [&] { LibScope L; return tuple_rw_managed(tuple_rw_fixed(size_t(choose(9)), choose(300), schema_of(c.placed), tag)); }();
      fill(rw, c);
      bool opt = chance(1, 2);
      LibScope L;
      tuple_ro_managed r(rw.move_to_ro(opt));
      ro.swap(r);
    }
    SnapP s = snap_of(c, ro);
    for (auto &x : w) {
      if (chance(3, 4)) {
        HandleP n(new Handle{tuple_ro_managed(), s});
        LibScope L;
        n->t = ro;
        HarnessScope H;
        x->add(std::move(n));
      }
    }
    LibScope L;
    ro.purge();
  }
  std::vector<std::function<void()>> bodies;
  for (auto &x : w) {
    Worker *p = x.get();
    unsigned steps = range(2, 14);
    bodies.push_back([p, steps] { p->body(steps); });
  }
  sched::run(std::move(bodies));
  for (int i = 1; i <= nthreads; ++i)
    while (!box[i].q.empty()) {
      HandleP h = std::move(box[i].q.back());
      box[i].q.pop_back();
      verify_values(*h);
      unreg(h.get());
      LibScope L;
      h->t.purge();
    }
  CHECK(views.empty(), "harness", "views left");
  the_schema.reset();
  allots::end_run(p08 ? "owner.leak" : "view.leak");
  heap_end_run(p08 ? "owner.leak" : "view.leak");
}

//---------------------------------------------------------------- errors (C12)
struct Failure {
  fptu_error code;
  string msg;
};
alignas(16) char img[64];
struct ErrWorker {
  bool shaky = false; // the last failure happened without memory
  int id = 0;
  fptu_rw *pt = nullptr;
  alignas(16) char space[2048];
  std::optional<Failure> last; // model of this thread's record
  alignas(16) char space2[256];
  fptu_rw *texts = nullptr;
  const char *held = nullptr; // a text handed out to this thread, and what it was
  string held_was;

  void setup() {
    LibScope L;
    pt = fptu_init(space, fptu_space(2, 24), 2);
    fptu_upsert_uint16(pt, 0, 7);
    texts = fptu_init(space2, sizeof space2, 4);
    for (unsigned i = 0; i < 3; ++i) { // lengths with and without room for a terminator behind
      char t[16];
      memset(t, 'a' + id % 20 + int(i), sizeof t);
      fptu_upsert_string(texts, i, t, 2 + i * 4 + unsigned(id) % 2);
    }
  }
  void text() {
    LibScope L;
    unsigned col = choose(3);
    int err;
    held = fptu_get_cstr(fptu_take_noshrink(texts), col, &err);
    HarnessScope H;
    held_was.assign(2 + col * 4 + unsigned(id) % 2, char('a' + id % 20 + int(col)));
    CHECK(!err, "error.code", "T%d: fptu_get_cstr returned %d", id, err);
  }
  void check_text() {
    if (held) CHECK(held_was == held, "error.text", "T%d: a text handed out as \"%s\" is now \"%s\"", id, held_was.c_str(), held);
  }
  // performs a failing or succeeding call; kind decides; returns its code
  fptu_error call(unsigned kind) {
    static const char text[] = "0123456789012345678901234567890123456789012345678901234567890123";
    LibScope L;
    fptu_ro bad;
    bad.sys.iov_base = img;
    bad.sys.iov_len = 8;
    int err = 0;
    auto by_record = [](bool failed) { return failed ? fptu_last_error_code() : FPTU_OK; };
    auto ro = [&] { return fptu_take_noshrink(pt); };
    switch (kind) {
    case 0: return fptu_upsert_string(pt, 1, text, 60);        // no room
    case 1: return fptu_update_uint32(pt, 700, 5);              // no such field
    case 2: return fptu_upsert_uint64(pt, 5000, 5);             // bad column
    case 3: return fptu_upsert_opaque(pt, 2, text, 50);         // no room, another size
    case 4: return fptu_upsert_nested(pt, 1, bad);              // broken image
    case 5: { // broken image, fetch
      char other[512];
      bad.sys.iov_len = 7;
      return fptu_fetch(bad, other, sizeof other, 1) ? FPTU_OK : FPTU_EINVAL;
    }
    case 6: fptu_get_cstr(ro(), 900, &err); return fptu_error(err); // reading an absent field
    case 7: return fptu_insert_string(pt, 3, text, 64);
    case 8: return fptu_insert_opaque(pt, 4000, text, 4);
    case 9: return fptu_insert_nested(pt, 1, bad);
    case 10: return fptu_update_string(pt, 600, text, 4);
    case 11: return fptu_update_256(pt, 601, text);
    case 12: return fptu_insert_256(pt, 3, text);
    case 13: return fptu_upsert_256(pt, 3, text);
    case 14: fptu_get_uint64(bad, 1, &err); return fptu_error(err); // not a tuple
    case 15: fptu_get_datetime(bad, 5, &err); return fptu_error(err);
    case 16: fptu_get_opaque(bad, 5, &err); return fptu_error(err);
    case 17: fptu_get_nested(bad, 5, &err); return fptu_error(err);
    case 18: fptu_get_96(bad, 7, &err); return fptu_error(err);
    case 19: return by_record(!fptu_fetch(ro(), nullptr, 100, 1));  // no buffer
    case 20: { char tiny[8]; return by_record(!fptu_fetch(ro(), tiny, sizeof tiny, 1)); }
    case 21: { char tiny[8]; return by_record(!fptu_init(tiny, 4, 1)); }
    case 22: { fptu_cbfs_result c; return by_record(!fptu_check_and_get_buffer_size_ex(bad, 1, 1, &c) && c.err == fptu_last_error_code() && !strcmp(c.err_msg, fptu_last_error_msg())); }
    case 23: { fptu_cbfs_result c; memset(&c, 0xff, sizeof c); char other[512]; return by_record(!fptu_fetch_ex(ro(), other, sizeof other, 1, &c)); }
    case 24: return fptu_upsert_null(pt, 4001);
    case 25: return fptu_upsert_datetime(pt, 4002, fptu::datetime_t::from_fixedpoint_32dot32(5));
    case 26: return fptu_update_nested(pt, 5, bad);
    case 27: { auto pf = fptu_lookup_ro(ro(), 0, fptu_type_or_filter(fptu_uint16)); if (!pf) return FPTU_OK; fptu_clear_error(); fptu_field_uint64(pf); return by_record(true); } // wrong type
    case 28: { auto pf = fptu_lookup_ro(ro(), 0, fptu_type_or_filter(fptu_uint16)); if (!pf) return FPTU_OK; fptu_clear_error(); fptu_field_160(pf); return by_record(true); }
    default: return fptu_upsert_uint16(pt, 0, 7); // succeeds
    }
  }
};
enum { KINDS = 29 };
std::optional<Failure> solo[KINDS];
Failure ask() {
  Failure f;
  f.code = fptu_last_error_code();
  const char *m = fptu_last_error_msg();
  HarnessScope H;
  f.msg = m;
  return f;
}
void errors() {
  memset(img, 0xff, sizeof img);
  sched::on_switch = nullptr;
  sched::race_oracle = "error.race";
  sched::uaf_oracle = "error.use-after-free";
  std::vector<std::function<void()>> alone;
  alone.push_back([] { // reference: each failing call, alone on a thread of its own
    ErrWorker w;
    w.setup();
    for (unsigned k = 0; k < KINDS; ++k) {
      { LibScope L; fptu_clear_error(); }
      fptu_error rc = w.call(k);
      LibScope L;
      solo[k] = ask();
      HarnessScope H;
      CHECK(rc != FPTU_OK, "error.code", "call %u was expected to fail", k);
      CHECK(solo[k]->code == rc, "error.code", "call %u returned %d but recorded %d", k, rc, solo[k]->code);
      CHECK(!solo[k]->msg.empty(), "error.message", "call %u recorded no message", k);
    }
    LibScope L;
    fptu_clear_error();
    auto f = ask();
    HarnessScope H;
    CHECK(f.code == FPTU_OK && f.msg.empty(), "error.clear", "clearing left code %d", f.code);
  });
  sched::run(std::move(alone));
  nthreads = int(range(2, 4));
  std::vector<std::unique_ptr<ErrWorker>> w;
  std::vector<std::function<void()>> bodies;
  for (int i = 1; i <= nthreads; ++i) {
    w.emplace_back(new ErrWorker);
    ErrWorker *p = w.back().get();
    p->id = i;
    p->setup();
    unsigned steps = range(2, 14);
    bodies.push_back([p, steps] {
      for (unsigned k = 0; k < steps; ++k) {
        span();
        unsigned op = choose(8);
        if (op < 5) {
          op = choose(KINDS);
          note("T%d failing call %u", p->id, op);
          SIM_COUNT("op.failing_call");
          bool faults = chance(1, 6);
          if (faults) arm_alloc_fault(1 + choose(6), 1 + choose(3));
          fptu_error rc = p->call(op);
          if (faults) faults = alloc_faults;
          disarm_alloc_fault();
          if (faults) { // then the lack of memory may be reported instead, and the message may be missing
            LibScope L;
            Failure f = ask();
            HarnessScope H;
            CHECK(rc == solo[op]->code || rc == FPTU_ENOMEM, "error.code", "T%d: call %u returned %d, alone it returns %d", p->id, op, rc, solo[op]->code);
            CHECK(f.code == rc, "error.last-code", "T%d: call %u returned %d but recorded %d", p->id, op, rc, f.code);
            // whatever it says, it is not the reason of an earlier failure
            const bool stale = p->last && !p->shaky && !f.msg.empty() && f.msg == p->last->msg && f.msg != solo[op]->msg;
            CHECK(!stale, "error.last-message", "T%d: call %u failed with %d but the message is still \"%s\"", p->id, op, rc, f.msg.c_str());
            p->last = f;
            p->shaky = true;
            SIM_COUNT("fault.alloc_in_failing_call");
            continue;
          }
          CHECK(rc == solo[op]->code, "error.code", "T%d: call %u returned %d, alone it returns %d", p->id, op, rc, solo[op]->code);
          p->last = solo[op];
          p->shaky = false;
        } else if (op == 5) {
          note("T%d clear", p->id);
          LibScope L;
          fptu_clear_error();
          p->last.reset();
        } else if (op == 7) {
          note("T%d text", p->id);
          SIM_COUNT("op.text");
          p->text();
        } else if (op == 6) {
          note("T%d good call", p->id);
          fptu_error rc = p->call(99);
          CHECK(rc == FPTU_OK, "error.code", "T%d: a correct call failed with %d", p->id, rc);
        }
        p->check_text();
        if (chance(2, 3)) {
          note("T%d query", p->id);
          SIM_COUNT("chk.query");
          Failure f;
          { LibScope L; f = ask(); set_in_lib(1); }
          fptu_error want = p->last ? p->last->code : FPTU_OK;
          const string &msg = p->last ? p->last->msg : string();
          CHECK(f.code == want, "error.last-code", "T%d: last error is %d, its own last failure was %d", p->id, f.code, want);
          CHECK(f.msg == msg, "error.last-message", "T%d: last message is \"%s\", its own last failure said \"%s\"", p->id, f.msg.c_str(), msg.c_str());
        }
        sched::point();
      }
      set_in_lib(0);
    });
  }
  sched::run(std::move(bodies));
  {
    LibScope L;
    auto f = ask();
    HarnessScope H;
    CHECK(f.code == FPTU_OK && f.msg.empty(), "error.main", "a thread without failures sees error %d \"%s\"", f.code, f.msg.c_str());
  }
  heap_end_run("error.leak");
}

void world() {
  heap_begin_run(sh->seed);
  sched::begin_run();
  allots::begin_run(choose(3) ? 0 : 64);
  for (auto &b : box) b.q.clear();
  if (prop == "C12") errors();
  else owners();
  static Counter *c = counter("probe.switches"), *a = counter("probe.shared_accesses");
  c->n += sched::switches;
  a->n += sched::accesses;
  state(sh->hash); // distinct interleavings: hash of the schedule and history
}
Register r("thr", world);
} // namespace
