// flavours: plain asan
// World "disk": tuples are taken out, stored on a simulated block device, the
// machine crashes, the image is reopened (C06); or the device hands back damaged
// bytes (C07, under AddressSanitizer: the image lives in an exact-size block).
#include "life.hpp"
#include "fast_positive/tuples/details/legacy_compat.h"
#include <thread>
using namespace sim;
using namespace fld;
namespace {
using fixed_t = fptu::tuple_rw_fixed;
using managed_t = fptu::tuple_rw_managed;
using ro_t = fptu::tuple_ro_managed;
using weak_t = fptu::tuple_ro_weak;

// ---------------------------------------------------------------- simulated device
// Sector-granular write-back cache: a write is durable only after sync; at a crash
// every dirty sector is independently kept, lost or torn inside.
struct Device {
  enum { SECTOR = 64 };
  std::string durable, cache;
  void write(size_t off, const Val &v) {
    if (cache.size() < off + v.size()) cache.resize(off + v.size(), '\0');
    cache.replace(off, v.size(), v);
  }
  void sync() { durable = cache; }
  void crash() {
    SIM_COUNT("fault.crash");
    if (durable.size() < cache.size()) durable.resize(cache.size(), '\0');
    for (size_t s = 0; s < cache.size(); s += SECTOR) {
      size_t n = std::min<size_t>(SECTOR, cache.size() - s);
      if (!memcmp(&cache[s], &durable[s], n)) continue;
      switch (choose(4)) {
      case 0: memcpy(&durable[s], &cache[s], n); SIM_COUNT("fault.sector_reached_disk"); break;
      case 1: SIM_COUNT("fault.lost_write"); break;
      case 2: { size_t k = choose(unsigned(n)); memcpy(&durable[s], &cache[s], k); SIM_COUNT("fault.torn_write"); break; }
      default: { size_t k = choose(unsigned(n)); memcpy(&durable[s + k], &cache[s + k], n - k); SIM_COUNT("fault.torn_write"); break; }
      }
    }
    cache = durable;
  }
};

// image bytes in a block of exactly their size, at unit alignment (not more)
struct Block {
  char *base = nullptr;
  char *p = nullptr;
  size_t n;
  explicit Block(const Val &v, bool odd = false) : n(v.size()) {
    // end of the block == end of the image, so that any read beyond is caught
    size_t pad = odd ? 4 : 0;
    base = (char *)malloc(n + pad ? n + pad : 1);
    p = base + pad;
    if (n) memcpy(p, v.data(), n);
#if defined(__SANITIZE_ADDRESS__)
    if (pad) { __asan_poison(base, pad); }
#endif
  }
  static void __asan_poison(void *, size_t) {}
  ~Block() { free(base); }
  Block(const Block &) = delete;
};

struct W {
  Model m;
  std::unique_ptr<fptu::schema> s;
  std::unique_ptr<fixed_t> fx;
  std::unique_ptr<managed_t> mg;
  Device dev;
  unsigned max_len = 40;
  bool legacy_ok = false;

  void fresh(bool managed, unsigned it, unsigned by) {
    LibScope L;
    if (managed) {
      auto *p = new managed_t(it, by, s.get());
      HarnessScope H; mg.reset(p);
    } else {
      auto *p = new fixed_t(it, by, s.get());
      HarnessScope H; fx.reset(p);
    }
  }
  void drop() {
    LibScope L;
    mg.reset();
    fx.reset();
  }
  void use(unsigned n) {
    if (mg) mutate(*mg, m, n, max_len);
    else mutate(*fx, m, n, max_len);
  }
  void verify_rw(const char *where) {
    string d = mg ? diff_content(*mg, m, 0) : diff_content(*fx, m, 0);
    if (!d.empty()) fail("reopened-content", "%s: %s", where, d.c_str());
    const char *tr = [&] { LibScope L; return mg ? mg->validate() : fx->validate(); }();
    if (tr) fail("reopened-invalid", "%s: validate(): %s", where, tr);
    auto w = [&] { LibScope L; return mg ? mg->take_weak_asis() : fx->take_weak_asis(); }();
    d = diff_image(w.data(), w.size(), m);
    if (!d.empty()) fail("reopened-image", "%s: %s", where, d.c_str());
    heap_check("heap-guard");
    SIM_COUNT("chk.writable");
  }
  bool empty_model() const {
    if (m.preplaced_units) return false;
    for (size_t i = 0; i < m.f.size(); ++i)
      if (m.present(i)) return false;
    return true;
  }

  // ------------------------------------------------------------- taking out
  template <class T> Val take(T &t, bool &destroyed) {
    static const char *names[] = {"take_weak_asis", "take_weak_optimized", "take_weak(false)", "take_weak(true)", "take_managed_clone_asis", "take_managed_clone_optimized", "take_managed_clone(false)", "take_managed_clone(true)", "move_to_ro(false)", "move_to_ro(true)", "tuple_ro_managed::clone(rw)", "fptu_take", "fptu_take_noshrink"};
    unsigned how = choose(legacy_ok ? 13 : 11);
    bool hollow = choose(2);
    note("take out: %s", names[how]);
    counter(strdup_once(names[how]))->n++;
    destroyed = false;
    weak_t w;
    ro_t r;
    Val out;
    auto before = [&] { LibScope L; auto x = t.take_weak_asis(); HarnessScope H; return Val((const char *)x.data(), x.size()); }();
    int saved = in_lib;
    try {
      switch (how) {
      case 0: { LibScope L; w = t.take_weak_asis(); break; }
      case 1: { LibScope L; w = t.take_weak_optimized().first; break; }
      case 2: { LibScope L; w = t.take_weak(false).first; break; }
      case 3: { LibScope L; w = t.take_weak(true).first; break; }
      case 4: { LibScope L; r = t.take_managed_clone_asis(hollow); break; }
      case 5: { LibScope L; r = t.take_managed_clone_optimized(hollow).first; break; }
      case 6: { LibScope L; r = t.take_managed_clone(false, hollow).first; break; }
      case 7: { LibScope L; r = t.take_managed_clone(true, hollow).first; break; }
      case 8: { LibScope L; r = t.move_to_ro(false); destroyed = true; break; }
      case 9: { LibScope L; r = t.move_to_ro(true); destroyed = true; break; }
      case 10: { LibScope L; r = ro_t::clone(t); break; }
      default: { // through the C interface
        LibScope L;
        w = t.take_weak_asis();
        fptu_ro cro;
        cro.sys.iov_base = const_cast<void *>(w.data());
        cro.sys.iov_len = w.size();
        const char *err = nullptr;
        unsigned mi = choose(5), mp = choose(60);
        size_t need = fptu_check_and_get_buffer_size(cro, mi, mp, &err);
        if (err) fail("c-rejects", "fptu_check_and_get_buffer_size: %s", err);
        void *buf;
        { HarnessScope H; buf = malloc(need); }
        fptu_rw *pt = fptu_fetch(cro, buf, need, mi);
        if (!pt) fail("c-rejects", "fptu_fetch refused a valid image");
        fptu_ro o = how == 11 ? fptu_take(pt) : fptu_take_noshrink(pt);
        { HarnessScope H; out.assign((const char *)o.sys.iov_base, o.sys.iov_len); }
        if (how == 12 && out != before) fail("c-take", "fptu_take_noshrink gives other bytes than the fetched image");
        { HarnessScope H; free(buf); }
      }
      }
    } catch (const std::exception &e) {
      in_lib = saved;
      fail("take-refused", "%s: %s", names[how], e.what());
    }
    if (how < 4) {
      out.assign((const char *)w.data(), w.size());
      if ((how == 0 || how == 3) && out != before) fail("asis-modified", "%s gives other bytes than take_weak_asis before it", names[how]);
    } else if (how < 11) {
      if (!r) {
        if (!(hollow && how >= 4 && how <= 7 && empty_model())) fail("take-hollow", "%s yields nothing", names[how]);
        out.assign("\1\0\0\0", 4);
      } else {
        string d = diff_content(r, m, 0);
        if (!d.empty()) fail("taken-content", "%s: %s", names[how], d.c_str());
        out.assign((const char *)r.data(), r.size());
        if ((how == 4 || how == 7 || how == 9 || how == 10) && out != before) fail("asis-modified", "%s gives other bytes than take_weak_asis before it", names[how]);
        if (destroyed && bool(t)) fail("move-leaves", "%s: the source still holds a tuple", names[how]);
      }
    }
    mix(how);
    LibScope L;
    r.purge();
    return out;
  }
  static const char *strdup_once(const char *n) {
    static std::map<string, char *> all;
    auto &p = all[n];
    if (!p) p = strdup((string("op.") + n).c_str());
    return p;
  }

  // ------------------------------------------------------------- reopening
  void reopen(const Val &img) {
    static const char *names[] = {"rw_fixed(ptr)", "rw_managed(ptr)", "rw_fixed::clone(weak)", "rw_managed::clone(weak)", "rw_fixed(ro_managed&&)", "rw_managed(ro_managed&&)", "rw_managed::clone(ro_managed)", "rw_fixed(rw scale)", "clone of rw"};
    unsigned how = choose(9);
    static const unsigned mis[] = {0, 1, 3, 10, 100, 1000, 8191};
    static const unsigned mps[] = {0, 1, 4, 30, 200, 5000, 200000};
    unsigned mi = mis[choose(chance(1, 6) ? 7 : 5)], mp = mps[choose(chance(1, 6) ? 7 : 5)];
    bool odd = choose(2);
    note("reopen by %s, room +%u items +%u bytes", names[how], mi, mp);
    counter(strdup_once(names[how]))->n++;
    {
      Block b(img, odd);
      int saved = in_lib;
      try {
        weak_t w = [&] { LibScope L; return weak_t(b.p, b.n, s.get()); }();
        string d = diff_content(w, m, 0);
        if (!d.empty()) fail("reopened-content", "tuple_ro_weak: %s", d.c_str());
        d = diff_content(w, m, 1);
        if (!d.empty()) fail("reopened-content", "tuple_ro_weak by accessor: %s", d.c_str());
        d = diff_image(b.p, b.n, m);
        if (!d.empty()) fail("reopened-image", "raw bytes: %s", d.c_str());
        auto ptr_ro = [&] { LibScope L; return ro_t(b.p, b.n, s.get()); };
        switch (how) {
        case 0: { LibScope L; auto *p = new fixed_t(b.p, b.n, mi, mp, s.get()); HarnessScope H; fx.reset(p); break; }
        case 1: { LibScope L; auto *p = new managed_t(b.p, b.n, mi, mp, s.get()); HarnessScope H; mg.reset(p); break; }
        case 2: { LibScope L; auto *p = new fixed_t(fixed_t::clone(w, mi, mp, s.get())); HarnessScope H; fx.reset(p); break; }
        case 3: { LibScope L; auto *p = new managed_t(managed_t::clone(w, mi, mp, s.get())); HarnessScope H; mg.reset(p); break; }
        case 4:
        case 5:
        case 6: {
          ro_t r;
          unsigned src = choose(m.preplaced_units ? 2 : 3); // preplaced fields need the schema
          note("  through tuple_ro_managed made %s", src == 0 ? "from bytes" : src == 1 ? "by clone(weak, schema)" : "by clone(weak)");
          if (src == 0) { LibScope L; r = ptr_ro(); }
          else if (src == 1) { LibScope L; r = ro_t::clone(w, s.get()); }
          else { LibScope L; r = ro_t::clone(w); }
          d = diff_content(r, m, 0);
          if (!d.empty()) fail("reopened-content", "tuple_ro_managed: %s", d.c_str());
          if (chance(1, 3)) { // another owner makes the conversion copy
            ro_t other(r);
            if (how == 6 || (src == 2 && m.preplaced_units)) { LibScope L; auto *p = new managed_t(managed_t::clone(r, mi, mp, s.get())); HarnessScope H; mg.reset(p); }
            else if (how == 4) { LibScope L; auto *p = new fixed_t(std::move(r)); HarnessScope H; fx.reset(p); }
            else { LibScope L; auto *p = new managed_t(std::move(r)); HarnessScope H; mg.reset(p); }
            d = diff_content(other, m, 0);
            if (!d.empty()) fail("reopened-content", "other owner after conversion: %s", d.c_str());
            LibScope L;
            other.purge();
          } else if (how == 6 || (src == 2 && m.preplaced_units)) { LibScope L; auto *p = new managed_t(managed_t::clone(r, mi, mp, s.get())); HarnessScope H; mg.reset(p); }
          else if (how == 4) { LibScope L; auto *p = new fixed_t(std::move(r)); HarnessScope H; fx.reset(p); }
          else { LibScope L; auto *p = new managed_t(std::move(r)); HarnessScope H; mg.reset(p); }
          LibScope L;
          r.purge();
          mi = mp = 0;
          break;
        }
        case 7: { LibScope L; auto *p = new fixed_t(b.p, b.n, fptu::initiation_scale(choose(4)), s.get()); HarnessScope H; fx.reset(p); mi = mp = 0; break; }
        default: {
          LibScope L;
          fixed_t tmp(b.p, b.n, choose(3), choose(50), s.get());
          auto *p = new fixed_t(choose(2) ? fixed_t::clone(tmp, mi, mp) : fixed_t::clone(tmp));
          HarnessScope H;
          fx.reset(p);
          mi = mp = 0;
        }
        }
      } catch (const std::exception &e) {
        in_lib = saved;
        fail("reopen-refused", "%s: %s", names[how], e.what());
      }
    } // the storage block is gone now: nothing may refer to it
    {
      LibScope L;
      size_t head = mg ? mg->head_space() : fx->head_space(), tail = mg ? mg->tail_space_bytes() : fx->tail_space_bytes();
      size_t used = mg ? mg->brutto_size() : fx->brutto_size();
      size_t idx = mg ? mg->index_size() : fx->index_size();
      bool fits = used / 4 + mi + (mp + 3) / 4 < 65534 && idx + mi <= 8191;
      if (fits && (head < mi || tail < mp)) fail("room", "%s asked for room +%u items +%u bytes, got %zu and %zu", names[how], mi, mp, head, tail);
    }
    verify_rw(names[how]);
  }

  void prefixes(const Val &img) {
    for (unsigned k = 0; k < 3; ++k) {
      size_t n = choose(2) ? choose(unsigned(img.size() / 4)) * 4 : choose(unsigned(img.size()));
      Val cut = img.substr(0, n);
      Block b(cut);
      SIM_COUNT("fault.truncated_image");
      const char *tr = [&] { LibScope L; return weak_t::validate(b.p, b.n, s.get()); }();
      bool thrown = false;
      int saved = in_lib;
      try { LibScope L; weak_t w(b.p, b.n, s.get()); } catch (const std::exception &) { in_lib = saved; thrown = true; }
      if (!tr || !thrown) fail("prefix-accepted", "the first %zu of %zu bytes pass for a tuple", n, img.size());
      thrown = false;
      try { LibScope L; ro_t r(b.p, b.n, s.get()); } catch (const std::exception &) { in_lib = saved; thrown = true; }
      if (!thrown) fail("prefix-accepted", "tuple_ro_managed from the first %zu of %zu bytes", n, img.size());
      thrown = false;
      try { LibScope L; fixed_t r(b.p, b.n, 1, 1, s.get()); } catch (const std::exception &) { in_lib = saved; thrown = true; }
      if (!thrown) fail("prefix-accepted", "tuple_rw_fixed from the first %zu of %zu bytes", n, img.size());
    }
  }

  void setup() {
    s = make_fields(m, 5, 6, true);
    legacy_ok = m.preplaced_units == 0;
    bool big = chance(1, 16);
    max_len = big ? 30000 : chance(1, 6) ? 700 : 40;
    bool limit = big && choose(2);
    if (limit) max_len = 200000;
    fresh(big || choose(2), choose(30), choose(2000));
  }

  // ------------------------------------------------------------------- C06
  void durable() {
    setup();
    unsigned gens = 1 + choose(4);
    for (unsigned g = 0; g < gens; ++g) {
      span();
      use(1 + choose(g ? 6 : 14));
      bool destroyed = false;
      Model at = m;
      Val img = mg ? take(*mg, destroyed) : take(*fx, destroyed);
      mix(img.data(), img.size());
      state(fnv(img.data(), img.size()));
      // store, then go on or crash
      dev.write(0, img);
      dev.sync();
      if (!destroyed && choose(2)) { // the writer goes on; what was taken must not change
        use(1 + choose(6));
        SIM_COUNT("probe.writer-continued");
      }
      // the writer goes on with unsynced garbage elsewhere, then the machine dies
      dev.write((img.size() + 63) / 64 * 64 + 64, Val(choose(200), char(0x5a)));
      dev.crash();
      drop();
      m = at;
      Val back = dev.durable.substr(0, img.size());
      prefixes(back);
      reopen(back);
      m.f.size();
    }
    use(choose(6));
    verify_rw("end");
  }

  // ------------------------------------------------------------------- C07
  // walks over everything an accepted image offers; returns a checksum
  uint64_t walk_view(const weak_t &w, const Model &mm, const fptu::schema *sc, unsigned depth) {
    uint64_t sum = 0;
    auto eat = [&](const std::optional<Val> &v) {
      if (v) sum = fnv(v->data(), v->size(), sum + 1);
    };
    for (auto &x : mm.f) {
      int saved = in_lib;
      try {
        bool pr;
        { LibScope L; pr = w.is_present(x.tok); }
        sum += pr;
        if (!x.coll) {
          eat(read(w, x.tok, x.g));
          auto acc = [&] { LibScope L; return w[x.tok]; }();
          eat(read_acc(acc, x.g));
        } else {
          auto c = [&] { LibScope L; return w.collection(x.tok); }();
          size_t n = 0;
          for (auto it = c.begin(); it != c.end(); ++it) {
            eat(read_acc(*it, x.g));
            if (++n > 9000) fail("endless", "collection of %s does not end", x.name.c_str());
          }
        }
      } catch (const std::exception &) {
        in_lib = saved;
      }
    }
    size_t n = 0;
    auto b = [&] { LibScope L; return w.cbegin(sc); }();
    auto e = [&] { LibScope L; return w.cend(sc); }();
    for (auto it = b; it != e;) {
      auto a = [&] { LibScope L; return *it; }();
      unsigned g = a.type();
      int saved = in_lib;
      try {
        if (g != fptu::hole && g != fptu::app_reserved_64 && g != fptu::app_reserved_128) {
          eat(read_acc(a, g));
          if (g == fptu::nested && depth < 3) nested(a.get_nested(), depth);
        }
      } catch (const std::exception &) {
        in_lib = saved;
      }
      { LibScope L; ++it; }
      if (++n > 20000) fail("endless", "iteration over an accepted image does not end");
    }
    for (auto it = e; it != b;) {
      { LibScope L; --it; }
      if (n-- == 0) fail("endless", "backward iteration over an accepted image does not end");
    }
    SIM_COUNT("chk.walk");
    return sum;
  }
  void nested(const fptu::details::tuple_ro *p, unsigned depth) {
    if (!p) return;
    weak_of w(p);
    LibScope L;
    if (w.size() == 0) fail("nested-hollow", "an accepted image hands out a nested tuple of zero size");
    const char *tr = w.validate(nullptr);
    HarnessScope H;
    if (tr) { SIM_COUNT("probe.nested-rejected"); return; }
    SIM_COUNT("probe.nested-walked");
    Model none;
    none.reset();
    walk_view(w, none, nullptr, depth + 1);
  }

  // the C interface over an image which its own check accepts
  void c_reader(const Block &b, const char *verdict) {
    fptu_ro ro;
    ro.sys.iov_base = b.p;
    ro.sys.iov_len = b.n;
    int saved = in_lib;
    const char *tr = [&] { LibScope L; return fptu_check_ro(ro); }();
    if (!tr != !verdict) fail("verdicts-differ", "validate(): %s, fptu_check_ro(): %s", verdict ? verdict : "ok", tr ? tr : "ok");
    if (tr) {
      const char *err = nullptr;
      fptu_cbfs_result cbfs;
      LibScope L;
      fptu_check_and_get_buffer_size(ro, 0, 0, &err);
      fptu_check_and_get_buffer_size_ex(ro, 0, 0, &cbfs);
      HarnessScope H;
      if (!err || !cbfs.err) fail("verdicts-differ", "fptu_check_and_get_buffer_size() takes an image which fptu_check_ro() rejects");
      LibScope L2;
      fptu_clear_error();
      return;
    }
    const char *lo = (const char *)b.p, *hi = lo + b.n;
    uint64_t sum = 0;
    auto inside = [&](const void *p, size_t n, const char *what) {
      if (!p || !n) return;
      if ((const char *)p < lo || (const char *)p + n > hi) fail("c-outside", "%s hands out %zu bytes which do not lie inside the image", what, n);
      sum = fnv(p, n, sum + 1);
    };
    auto text = [&](const char *t, const char *what) {
      if (!t) return;
      size_t n;
      if (t >= lo && t < hi) {
        n = strnlen(t, size_t(hi - t));
        if (t + n == hi) fail("c-outside", "%s hands out a text without an end inside the image", what);
      } else n = strlen(t);
      sum = fnv(t, n, sum + 1);
    };
    auto all = [&](fptu_ro r) {
      LibScope L;
      unsigned n = 0;
      for (auto pf = fptu_begin_ro(r); pf < fptu_end_ro(r); ++pf) {
        if (++n > 9000) fail("endless", "the C interface walks endlessly");
        sum += fptu_field_is_dead(pf) + fptu_field_column(pf) + fptu_field_type(pf);
        // every reader, of the right type and of all the wrong ones
        sum += fptu_field_uint16(pf) + fptu_field_bool(pf) + uint64_t(fptu_field_int32(pf)) + fptu_field_uint32(pf) + uint64_t(fptu_field_int64(pf)) + fptu_field_uint64(pf);
        double d = fptu_field_fp64(pf); float f = fptu_field_fp32(pf);
        sum = fnv(&d, 8, sum); sum = fnv(&f, 4, sum);
        sum += fptu_field_datetime(pf).fixedpoint;
        inside(fptu_field_96(pf), 12, "fptu_field_96"); inside(fptu_field_128(pf), 16, "fptu_field_128");
        inside(fptu_field_160(pf), 20, "fptu_field_160"); inside(fptu_field_256(pf), 32, "fptu_field_256");
        iovec io = fptu_field_opaque(pf);
        inside(io.iov_base, io.iov_len, "fptu_field_opaque");
        io = fptu_field_as_iovec(pf);
        inside(io.iov_base, io.iov_len, "fptu_field_as_iovec");
        fptu_ro ne = fptu_field_nested(pf);
        inside(ne.sys.iov_base, ne.sys.iov_len, "fptu_field_nested");
        text(fptu_field_cstr(pf), "fptu_field_cstr");
        unsigned col = fptu_field_column(pf);
        if (col <= fptu_max_cols) {
          int e;
          text(fptu_get_cstr(r, col, &e), "fptu_get_cstr");
          io = fptu_get_opaque(r, col, &e);
          inside(io.iov_base, io.iov_len, "fptu_get_opaque");
          if (auto z = fptu_get_256(r, col, &e)) sum = fnv(z, 32, sum); // zeros of the library's own when absent
          sum += fptu_get_uint64(r, col, &e);
        }
      }
    };
    all(ro);
    SIM_COUNT("chk.c-walk");
    // and a writer on top of it
    const char *err = nullptr;
    unsigned mi = choose(5), mp = choose(80);
    LibScope L;
    size_t need = fptu_check_and_get_buffer_size(ro, mi, mp, &err);
    if (!err && need) {
      Block space{Val(need, char(0x55))};
      fptu_rw *pt = fptu_fetch(ro, space.p, need, mi);
      if (!pt) fail("clone-refused", "fptu_fetch() refuses an accepted image: %s", fptu_last_error_msg());
      else {
        const char *bad = fptu_check_rw(pt);
        if (bad) fail("c-broken", "fptu_fetch() makes a broken tuple of an accepted image: %s", bad);
        for (unsigned k = choose(8); k; --k) {
          unsigned col = choose(5);
          HarnessScope H;
          Val data(choose(30), 'x');
          LibScope L2;
          switch (choose(8)) {
          case 0: fptu_upsert_uint16(pt, col, uint16_t(choose(9))); break;
          case 1: fptu_upsert_uint64(pt, col, choose(9)); break;
          case 2: fptu_upsert_string(pt, col, data.data(), data.size()); break;
          case 3: fptu_upsert_opaque(pt, col, data.data(), data.size()); break;
          case 4: fptu_erase(pt, col, fptu_type_or_filter(fptu_any)); break;
          case 5: fptu_shrink(pt); break;
          case 6: fptu_insert_uint32(pt, col, 5); break;
          default: { fptu_field *pf = const_cast<fptu_field *>(fptu_begin_rw(pt)); if (pf < fptu_end_rw(pt)) fptu_erase_field(pt, pf + choose(unsigned(fptu_end_rw(pt) - pf))); }
          }
          bad = fptu_check_rw(pt);
          if (bad) fail("c-broken", "a tuple fetched from an accepted image breaks in use: %s", bad);
        }
        fptu_ro out = fptu_take_noshrink(pt);
        if ((const char *)out.sys.iov_base < (const char *)space.p || (const char *)out.sys.iov_base + out.sys.iov_len > (const char *)space.p + need)
          fail("c-outside", "fptu_take_noshrink() hands out bytes outside its buffer");
        lo = (const char *)space.p; hi = lo + need;
        all(out);
      }
    }
    fptu_clear_error();
    in_lib = saved;
    mix(sum);
  }

  Val damage(Val v, const Val &stale) {
    unsigned n = 1 + choose(3);
    for (unsigned k = 0; k < n; ++k) {
      size_t u = v.size() / 4;
      auto at16 = [&](size_t off, uint16_t x) { if (off + 2 <= v.size()) memcpy(&v[off], &x, 2); };
      auto get16 = [&](size_t off) { uint16_t x = 0; if (off + 2 <= v.size()) memcpy(&x, &v[off], 2); return x; };
      unsigned cnt = get16(2) >> 3;
      switch (choose(19)) {
      case 15: { // the index in another order, everything else as it was
        if (cnt < 2 || 4 + cnt * 4 > v.size()) break;
        SIM_COUNT("fault.index_shuffled");
        for (unsigned r = 1 + choose(4); r--;) {
          unsigned a = choose(cnt), b = choose(cnt);
          auto rel = [&](unsigned i) { unsigned g = get16(6 + i * 4) >> 11; return !inplaced(g) && get16(4 + i * 4); };
          uint16_t oa = get16(4 + a * 4), ob = get16(4 + b * 4), ga = get16(6 + a * 4), gb = get16(6 + b * 4);
          bool ra = rel(a), rb = rel(b);
          at16(4 + b * 4, uint16_t(ra ? oa + a - b : oa)); at16(6 + b * 4, ga);
          at16(4 + a * 4, uint16_t(rb ? ob + b - a : ob)); at16(6 + a * 4, gb);
        }
        break;
      }
      case 16: // a value or a gap that reaches into the one before or after it
      case 17: {
        if (!cnt || 4 + cnt * 4 > v.size()) break;
        std::vector<unsigned> c;
        for (unsigned i = 0; i < cnt; ++i) {
          unsigned gi = get16(6 + i * 4), g = gi >> 11;
          if (get16(4 + i * 4) && (g == fptu::hole ? (gi & 2047) && (gi & 2047) < 2046 : g == fptu::varbin || g == fptu::nested || g == fptu::text)) c.push_back(i);
        }
        if (c.empty()) break;
        SIM_COUNT("fault.overlap");
        unsigned i = c[choose(unsigned(c.size()))], off = get16(4 + i * 4), gi = get16(6 + i * 4), g = gi >> 11;
        const bool back = choose(4) != 0;
        unsigned more = 1 + choose(2);
        if (back && off <= more) break;
        if (back) at16(4 + i * 4, uint16_t(off - more));
        if (g == fptu::hole) { at16(6 + i * 4, uint16_t(gi + more)); break; }
        size_t was = size_t(1 + i + off) * 4, now = back ? was - 4 * more : was;
        if (was + 4 > v.size()) break;
        if (g == fptu::text) {
          unsigned len = uint8_t(v[was]);
          if (len + 4 * more < 254) v[now] = char(len + 4 * more);
        } else {
          uint16_t head = get16(was), second = get16(was + 2);
          at16(now, uint16_t(head + more));
          at16(now + 2, g == fptu::nested ? uint16_t(second & ~(choose(2) ? 0xfff8u : 0u)) : second);
        }
        break;
      }
      case 18: { // many more fields
        if (!chance(1, 8) || v.size() < 4 || cnt > 300 || u > 8000) break;
        SIM_COUNT("fault.many_fields");
        unsigned add = 490 + choose(60);
        Val x;
        for (unsigned i = 0; i < add; ++i) { uint16_t val = uint16_t(i + 1), gi = uint16_t(fptu::u16 << 11 | (i % 40)); x.append((char *)&val, 2); x.append((char *)&gi, 2); }
        v.insert(4, x);
        at16(0, uint16_t(get16(0) + add));
        at16(2, uint16_t(get16(2) + (add << 3)));
        break;
      }
      case 0: // bit flip anywhere
        if (v.empty()) break;
        SIM_COUNT("fault.bit_flip");
        { size_t i = choose(unsigned(v.size())); v[i] = char(v[i] ^ (1 << choose(8))); }
        break;
      case 1: // bit flip in header or index
        if (v.size() < 8) break;
        SIM_COUNT("fault.bit_flip");
        { size_t i = choose(unsigned(std::min(v.size(), size_t(4 + cnt * 4)))); v[i] = char(v[i] ^ (1 << choose(8))); }
        break;
      case 2: // random byte
        if (v.empty()) break;
        SIM_COUNT("fault.byte_garbage");
        v[choose(unsigned(v.size()))] = char(choose(256));
        break;
      case 3: // an offset of the index set to something interesting
      case 4: {
        if (!cnt || v.size() < 8) break;
        SIM_COUNT("fault.wild_offset");
        size_t o = 4 + choose(cnt) * 4;
        static const int d[] = {0, 1, -1, 2, -2, 8, 0x7fff, -0x8000, 100, 3};
        at16(o, uint16_t((choose(2) ? get16(o) : unsigned(u)) + d[choose(10)]));
        break;
      }
      case 5: { // a type/id of the index
        if (!cnt || v.size() < 8) break;
        SIM_COUNT("fault.wild_type");
        size_t o = 4 + choose(cnt) * 4 + 2;
        if (choose(2)) at16(o, uint16_t((get16(o) & 0x7ff) | choose(32) << 11));
        else at16(o, uint16_t((get16(o) & 0xf800) | choose(0x800)));
        break;
      }
      case 6: // length prefix of some value
      case 7: {
        if (u < 2 + cnt) break;
        SIM_COUNT("fault.wild_length");
        size_t o = (1 + cnt + choose(unsigned(u - 1 - cnt))) * 4;
        static const uint16_t x[] = {0, 1, 2, 3, 4, 0xff, 0xfe, 0xfd, 0x7fff, 0x8000, 0xffff, 0xfffe, 0x100};
        at16(o, choose(2) ? x[choose(13)] : uint16_t(get16(o) + choose(9) - 4));
        break;
      }
      case 8: // header: size
        SIM_COUNT("fault.wild_header");
        at16(0, uint16_t(choose(2) ? get16(0) + choose(7) - 3 : choose(65536)));
        break;
      case 9: // header: count and flags
        SIM_COUNT("fault.wild_header");
        at16(2, uint16_t(choose(2) ? get16(2) ^ (1 << choose(16)) : get16(2) + (int(choose(5)) - 2) * 8));
        break;
      case 10: // truncated or extended, header made to agree or not
        SIM_COUNT("fault.resized");
        {
          size_t nu = choose(2) ? choose(unsigned(u + 1)) : u + choose(6);
          v.resize(nu * 4 + (chance(1, 6) ? choose(4) : 0), char(choose(256)));
          if (choose(3)) at16(0, uint16_t(nu));
        }
        break;
      case 11: // stale sector left inside
        if (v.size() < 16 || stale.empty()) break;
        SIM_COUNT("fault.stale_sector");
        {
          size_t s0 = choose(unsigned(v.size() / 16)) * 16, n0 = std::min<size_t>(16 + choose(3) * 24, v.size() - s0);
          for (size_t i = 0; i < n0; ++i) v[s0 + i] = s0 + i < stale.size() ? stale[s0 + i] : '\0';
        }
        break;
      case 12: // swapped units
        if (u < 3) break;
        SIM_COUNT("fault.swapped_units");
        { size_t a = choose(unsigned(u)) * 4, b = choose(unsigned(u)) * 4; char t[4]; memcpy(t, &v[a], 4); memcpy(&v[a], &v[b], 4); memcpy(&v[b], t, 4); }
        break;
      case 13: { // bytes right behind a text: the padding up to the next unit
        if (u < 2 + cnt) break;
        SIM_COUNT("fault.dirty_padding");
        size_t o = (1 + cnt + choose(unsigned(u - 1 - cnt))) * 4 + 3;
        if (o < v.size()) v[o] = char(1 + choose(255));
        break;
      }
      default: // random bytes with a plausible header
        if (!chance(1, 4)) break;
        SIM_COUNT("fault.random_image");
        {
          size_t nu = 1 + choose(12);
          v.resize(nu * 4);
          for (auto &c : v) c = char(choose(8) ? choose(256) : 0);
          at16(0, uint16_t(nu));
          at16(2, uint16_t(choose(unsigned(nu)) << 3 | (choose(3) ? 0 : choose(8))));
          for (size_t i = 1; i <= (get16(2) >> 3) && i < nu; ++i)
            if (choose(3)) at16(i * 4, uint16_t(choose(unsigned(nu + 2 - std::min(nu, i))))), at16(i * 4 + 2, uint16_t(choose(32) << 11 | choose(4)));
        }
      }
    }
    return v;
  }

  void judge(const Val &v, const Model &mm, const fptu::schema *sc) {
    Block b(v);
    SIM_COUNT("chk.image");
    note("image %s", hex(v.data(), v.size(), 120).c_str());
    const char *tr = [&] { LibScope L; return weak_t::validate(b.p, b.n, sc); }();
    const char *tr2 = [&] { LibScope L; return weak_t::validate(b.p, b.n, sc, true); }();
    if (tr && !tr2) fail("verdicts-differ", "stricter validation accepts what the lenient one rejects: %s", tr);
    size_t live = heap_live();
    int saved = in_lib;
    bool thrown = false;
    if (chance(1, b.n > 2000 ? 40 : 3)) { // on a thread of its own, since the interface keeps records per thread
      const char *verdict = sc ? [&] { LibScope L; return weak_t::validate(b.p, b.n, nullptr); }() : tr;
      std::thread th([&] { c_reader(b, verdict); });
      th.join();
    }
    if (chance(1, 6)) { // memory fails inside the validation: it may not pass for a success
      arm_alloc_fault(1, 1 + choose(2));
      const char *tr3 = [&] { LibScope L; return weak_t::validate(b.p, b.n, sc); }();
      if (alloc_faults) SIM_COUNT("probe.validation-without-memory");
      disarm_alloc_fault();
      if (tr && !tr3) fail("verdicts-differ", "short of memory the validation accepts what it rejects otherwise: %s", tr);
    }
    if (chance(1, 8)) arm_alloc_fault(1 + choose(4), 1 + choose(2));
    weak_t w;
    try { LibScope L; w = weak_t(b.p, b.n, sc); } catch (const std::exception &) { in_lib = saved; thrown = true; }
    bool faults = alloc_faults;
    if (!faults && thrown != (tr != nullptr)) fail("verdicts-differ", "validate(): %s, constructor %s", tr ? tr : "ok", thrown ? "throws" : "accepts");
    if (tr && !thrown) fail("rejected-opened", "validate(): %s, but with failing memory the image is opened", tr);
    if (tr) {
      SIM_COUNT("probe.rejected");
      // every way of opening must refuse and leave nothing behind
      unsigned n = 0;
      try { LibScope L; ro_t r(b.p, b.n, sc); ++n; } catch (const std::exception &) { in_lib = saved; }
      try { LibScope L; fixed_t r(b.p, b.n, choose(4), choose(40), sc); ++n; } catch (const std::exception &) { in_lib = saved; }
      try { LibScope L; managed_t r(b.p, b.n, choose(4), choose(40), sc); ++n; } catch (const std::exception &) { in_lib = saved; }
      disarm_alloc_fault();
      if (n) fail("rejected-opened", "validate(): %s, but %u constructors accept the image", tr, n);
      if (heap_live() != live) fail("leak", "a rejected image leaves %zu blocks", heap_live() - live);
      return;
    }
    disarm_alloc_fault();
    if (thrown) {
      if (heap_live() != live) fail("leak", "a failed opening leaves %zu blocks", heap_live() - live);
      return;
    }
    SIM_COUNT("probe.accepted");
    {
      string bad = layout_trouble(b.p, b.n, mm.places, mm.preplaced_units);
      if (!bad.empty()) fail("accepted-broken", "validation accepts a layout that is not well formed: %s", bad.c_str());
    }
    uint64_t sum = walk_view(w, mm, sc, 0);
    mix(sum);
    // clone: must show the same
    if (chance(1, 8)) arm_alloc_fault(1 + choose(4), 1);
    try {
      ro_t r = [&] { LibScope L; return choose(2) ? ro_t(b.p, b.n, sc) : ro_t::clone(w, sc); }();
      weak_t cw = [&] { LibScope L; return r.take_weak(); }();
      uint64_t s2 = walk_view(cw, mm, sc, 0);
      if (s2 != sum) fail("clone-differs", "a clone of an accepted image reads differently");
      LibScope L;
      r.purge();
    } catch (const std::exception &e) {
      in_lib = saved;
      if (!alloc_faults) fail("clone-refused", "an accepted image cannot be cloned: %s", e.what());
    }
    disarm_alloc_fault();
    // writable life on top of it
    if (chance(1, 8)) arm_alloc_fault(1 + choose(8), 1);
    Model scratch = mm;
    scratch.reset();
    try {
      if (choose(2)) {
        auto *p = [&] { LibScope L; return new fixed_t(b.p, b.n, choose(6), choose(90), sc); }();
        std::unique_ptr<fixed_t> hold(p);
        mutate(*p, scratch, 1 + choose(8), 40);
        disarm_alloc_fault();
        auto w2 = [&] { LibScope L; return p->take_weak_asis(); }();
        walk_view(w2, mm, sc, 0);
        if (const char *bad = [&] { LibScope L; return w2.validate(sc); }()) fail("broken-later", "a tuple made of an accepted image breaks in use: %s", bad);
        if (string bad = layout_trouble(w2.data(), w2.size(), mm.places, mm.preplaced_units); !bad.empty()) fail("broken-later", "a tuple made of an accepted image breaks in use: %s", bad.c_str());
        heap_check("heap-guard");
        LibScope L;
        hold.reset();
      } else {
        auto *p = [&] { LibScope L; return new managed_t(b.p, b.n, choose(6), choose(90), sc); }();
        std::unique_ptr<managed_t> hold(p);
        mutate(*p, scratch, 1 + choose(8), 40);
        disarm_alloc_fault();
        auto w2 = [&] { LibScope L; return p->take_weak_asis(); }();
        walk_view(w2, mm, sc, 0);
        if (const char *bad = [&] { LibScope L; return w2.validate(sc); }()) fail("broken-later", "a tuple made of an accepted image breaks in use: %s", bad);
        if (string bad = layout_trouble(w2.data(), w2.size(), mm.places, mm.preplaced_units); !bad.empty()) fail("broken-later", "a tuple made of an accepted image breaks in use: %s", bad.c_str());
        heap_check("heap-guard");
        LibScope L;
        hold.reset();
      }
    } catch (const std::exception &e) {
      in_lib = saved;
      if (!alloc_faults) fail("clone-refused", "an accepted image cannot be made writable: %s", e.what());
    }
    disarm_alloc_fault();
    if (heap_live() != live) fail("leak", "%zu blocks left after using an accepted image", heap_live() - live);
  }

  void corrupt() {
    setup();
    use(choose(12));
    auto image = [&] {
      auto w = [&] { LibScope L; return mg ? mg->take_weak_asis() : fx->take_weak_asis(); }();
      return Val((const char *)w.data(), w.size());
    };
    Val old = image();
    use(1 + choose(10));
    Val img = image();
    if (img.size() > 60000) return; // keep runs cheap
    state(fnv(img.data(), img.size()));
    // another reader's schema now and then
    Model m2;
    std::unique_ptr<fptu::schema> s2;
    if (chance(1, 8)) s2 = make_fields(m2, 4, 4, true);
    unsigned n = 2 + choose(12);
    for (unsigned k = 0; k < n; ++k) {
      span();
      Val v;
      if (chance(1, 6)) { // in-place overwrite, crash in between
        dev = Device();
        dev.write(0, old);
        dev.sync();
        dev.write(0, img);
        dev.crash();
        v = dev.durable.substr(0, choose(2) ? img.size() : old.size());
        if (choose(2)) v = damage(v, old);
      } else v = damage(choose(4) ? img : old, choose(4) ? old : img);
      if (s2 && choose(2)) judge(v, m2, s2.get());
      else if (chance(1, 10)) { Model none; none.reset(); judge(v, none, nullptr); }
      else judge(v, m, s.get());
    }
    LibScope L;
    s2.reset();
  }

  void run() {
    heap_begin_run(sh->seed);
    if (prop == "C07") corrupt();
    else durable();
    drop();
    LibScope L;
    s.reset();
  }
};
void world() {
  { W w; w.run(); }
  heap_end_run("leak");
}
sim::Register reg("disk", world);
} // namespace
