// flavours: plain asan
// World `rw`: one writable tuple (fixed or auto-growing), a seeded history of
// operations with injected allocation failures and exhausted buffers, checked
// against the reference model and the independent image decoder.
#include "model.hpp"
#include <cmath>
#include <cstring>
#include <new>
#include <stdexcept>

using namespace fld;
using namespace sim;
namespace {

struct Abandon {};
bool in_list(const char *list) { return strstr(list, prop.c_str()) != nullptr; }
#define VIOLATE(list, oracle, ...)                                             \
  do {                                                                         \
    if (in_list(list)) fail(oracle, __VA_ARGS__);                              \
    throw Abandon();                                                           \
  } while (0)

enum Res { OK, NO_SPACE, BAD_ALLOC, TOO_LARGE, OVERFLOW_, RANGE, TOO_LONG, DENIL, TYPE_MM, COLL_REQ, COLL_UNAL, ABSENT, OTHER };
const char *res_name[] = {"ok", "insufficient_space", "bad_alloc", "tuple_too_large", "tuple_overflow", "value_out_of_range", "value_too_long", "value_is_denil", "type_mismatch", "collection_required", "collection_unallowed", "field_absent", "other"};
string other_what;

template <class F> Res attempt(F &&f) {
  int saved = in_lib;
  Res r = OTHER;
  try {
    f();
    r = OK;
  } catch (const fptu::insufficient_space &) { r = NO_SPACE;
  } catch (const fptu::tuple_too_large &) { r = TOO_LARGE;
  } catch (const fptu::tuple_overflow &) { r = OVERFLOW_;
  } catch (const fptu::value_out_of_range &) { r = RANGE;
  } catch (const fptu::value_too_long &) { r = TOO_LONG;
  } catch (const fptu::value_is_denil &) { r = DENIL;
  } catch (const fptu::type_mismatch &) { r = TYPE_MM;
  } catch (const fptu::collection_required &) { r = COLL_REQ;
  } catch (const fptu::collection_unallowed &) { r = COLL_UNAL;
  } catch (const fptu::field_absent &) { r = ABSENT;
  } catch (const std::bad_alloc &) { r = BAD_ALLOC;
  } catch (const std::exception &e) { other_what = e.what(); r = OTHER; }
  in_lib = saved;
  return r;
}

using fixed_t = fptu::tuple_rw_fixed;
using managed_t = fptu::tuple_rw_managed;

struct W {
  Model m;
  std::unique_ptr<fptu::schema> s;
  std::unique_ptr<fixed_t> fx;
  std::unique_ptr<managed_t> mg;
  bool managed = false;
  bool big = false; // large values allowed
  bool limit = false; // sizes near the limits of the format
  unsigned max_len = 40;
  size_t cap0 = 0;
  const void *body0 = nullptr;
  unsigned nops = 0;
  string ctx; // extra properties to which a mismatch after this op is charged
  string what;

  fixed_t &t() { return managed ? static_cast<fixed_t &>(*mg) : *fx; }

  void create() {
    managed = prop == "C04" ? true : (prop == "C03" || prop == "C02") ? chance(1, 4) : chance(2, 5);
    m.f.clear();
    s = make_fields(m, 6, 8, true);
    big = chance(1, prop == "C04" ? 5 : 10);
    static const unsigned items[] = {1, 0, 2, 3, 4, 6, 8, 12, 20, 64, 400};
    static const unsigned bytes[] = {40, 0, 4, 8, 16, 24, 64, 100, 200, 400, 1000, 4000};
    unsigned it = items[choose(managed ? 7 : 11)], by = bytes[choose(managed ? 8 : 12)];
    limit = managed && chance(1, prop == "C04" ? 25 : 60);
    if (limit) big = true;
    if (limit && choose(2)) { it = choose(6000); by = 4 * choose(unsigned(65534 - it)); }
    if (big && !managed) { it = 20 + choose(2000); by = 20000 + choose(180000); }
    max_len = big ? (chance(1, 2) ? 60000 : 9000) : chance(1, 6) ? 700 : 40;
    if (limit) max_len = choose(2) ? 240000 : 12;
    note("create %s items=%u bytes=%u schema=%d preplaced_units=%u", managed ? "managed" : "fixed", it, by, s ? 1 : 0, m.preplaced_units);
    for (auto &x : m.f) note("  field %s%s", x.name.c_str(), x.pre ? (" @" + std::to_string(x.off)).c_str() : "");
    const bool bare = chance(1, 6); // in plain memory, without a buffer
    if (bare) SIM_COUNT("op.without-a-buffer");
    Res r = attempt([&] {
      LibScope L;
      auto tag = bare ? hippeus::buffer_tag() : fptu::default_buffer_allot();
      if (managed) {
        auto *p = new managed_t(it, by, s.get(), tag);
        HarnessScope H; mg.reset(p);
      } else {
        auto *p = new fixed_t(it, by, s.get(), tag);
        HarnessScope H; fx.reset(p);
      }
    });
    if (r != OK) VIOLATE("C01C02C03C04C05C14C15", "create-refused", "creation failed: %s %s", res_name[r], other_what.c_str());
    mix(it * 100000 + by);
  }

  //---------------------------------------------------------------- observation
  void mismatch(const string &d, const char *oracle, bool coll, bool nullish) {
    string l = "C01" + ctx;
    if (coll) l += "C15";
    if (nullish) l += "C14";
    VIOLATE(l.c_str(), oracle, "after %s: %s", what.c_str(), d.c_str());
  }
  void content(const string &d, const char *oracle) {
    if (d.empty()) return;
    bool coll = d.find(".coll") != string::npos;
    bool nullish = d.find("absent") != string::npos || d.find("got [0]") != string::npos || d.find("expected [0]") != string::npos ||
                   d.find("expected [1]00 ") != string::npos || d.find("field_absent") != string::npos;
    // zero values
    auto z = [&](const char *key) {
      auto p = d.find(key);
      if (p == string::npos) return false;
      p = d.find(']', p);
      if (p == string::npos) return false;
      for (++p; p < d.size() && d[p] != ','; ++p)
        if (strchr("123456789abcdef", d[p])) return false;
      return true;
    };
    nullish = nullish || z("got [") || z("expected [");
    mismatch(d, oracle, coll, nullish);
  }

  template <class T> void iteration(T &view, const char *where) {
    // expected multiset of (genus,id|offset,value)
    std::vector<std::pair<unsigned, Val>> want, got;
    auto key = [&](size_t i) { return m.f[i].pre ? 0x10000u + m.f[i].off : (m.f[i].g << 11 | m.f[i].tok.id()); };
    for (size_t i = 0; i < m.f.size(); ++i) {
      if (m.f[i].coll) for (auto &v : m.coll[i]) want.push_back({key(i), v});
      else if (m.single[i]) want.push_back({key(i), *m.single[i]});
    }
    std::vector<const void *> fwd, bwd;
    auto b = [&] { LibScope L; if constexpr (requires { view.cbegin(nullptr); }) return view.cbegin(s.get()); else return view.cbegin(); }();
    auto e = [&] { LibScope L; if constexpr (requires { view.cend(nullptr); }) return view.cend(s.get()); else return view.cend(); }();
    size_t guard = 0;
    auto take = [&](auto &it, std::vector<std::pair<unsigned, Val>> &out) {
      auto a = [&] { LibScope L; return *it; }();
      if (a.type() == fptu::hole) return;
      std::optional<Val> v = read_acc(a, a.type());
      if (!v) VIOLATE("C15", "iter-null", "%s after %s: iteration yields an absent %s", where, what.c_str(), gname(a.type()));
      unsigned k = a.is_preplaced() ? 0x10000u + unsigned(a.token().preplaced_offset()) : (unsigned(a.type()) << 11 | a.token().id());
      out.push_back({k, canon(a.type(), *v)});
    };
    for (auto it = b; it != e; ++it) {
      take(it, got);
      if (++guard > 10000) VIOLATE("C15", "iter-endless", "%s after %s: iteration does not end", where, what.c_str());
    }
    std::sort(want.begin(), want.end());
    auto g2 = got;
    std::sort(g2.begin(), g2.end());
    if (g2 != want) {
      string info;
      for (size_t i = 0; i < std::max(g2.size(), want.size()); ++i)
        if (i >= g2.size() || i >= want.size() || g2[i] != want[i]) {
          if (i < g2.size()) info += " got " + std::to_string(g2[i].first) + show(g2[i].second);
          if (i < want.size()) info += " want " + std::to_string(want[i].first) + show(want[i].second);
          break;
        }
      VIOLATE("C15", "iter-content", "%s after %s: iteration yields %zu fields, expected %zu:%s", where, what.c_str(), g2.size(), want.size(), info.c_str());
    }
    // backward (all but a possibly null first preplaced place)
    std::vector<std::pair<unsigned, Val>> back;
    guard = 0;
    for (auto it = e; it != b;) {
      { LibScope L; --it; }
      take(it, back);
      if (++guard > 10000) VIOLATE("C15", "iter-endless", "%s after %s: backward iteration does not end", where, what.c_str());
    }
    std::reverse(back.begin(), back.end());
    if (back != got) VIOLATE("C15", "iter-backward", "%s after %s: backward iteration yields %zu fields, forward %zu, or another order", where, what.c_str(), back.size(), got.size());
    SIM_COUNT("chk.iteration");
    if (chance(1, 6)) walk(view, where, b, e);
  }

  // an iterator equals exactly the token of the field it stands on, and tells it
  template <class IT, class SEEN, class F> bool designates(const IT &it, const SEEN &x, F &&its_token) {
    const Field *on = nullptr;
    for (auto &y : m.f) {
      const bool same = x.g != fptu::hole && y.g == x.g && (y.pre ? x.id == 0x10000u + y.off : x.id == y.tok.id());
      if (same) on = &y;
      LibScope L;
      if ((it == y.tok) != same || (it != y.tok) == same) return false;
    }
    bool told = false;
    token k;
    {
      LibScope L;
      try { k = its_token(); told = true; } catch (const fptu::schema_no_such_field &) {}
    }
    return told == (s && on) && (!told || k == on->tok);
  }
  // the other ways to move over the fields must visit the same places
  template <class T, class IT> void walk(T &view, const char *where, const IT &b, const IT &e) {
    struct Seen { unsigned g, id; std::optional<Val> v; bool operator==(const Seen &o) const { return g == o.g && id == o.id && v == o.v; } };
    auto see = [&](auto a) {
      Seen r;
      r.g = a.type();
      r.id = a.is_preplaced() ? 0x10000u + unsigned(a.token().preplaced_offset()) : a.token().id();
      if (r.g != fptu::hole) r.v = read_acc(a, a.type());
      return r;
    };
#define WALK(c, name) if (!(c)) VIOLATE("C15", "walk-" name, "%s after %s: field %zu of %zu", where, what.c_str(), i, seen.size())
    // all fields: suffix forms, order
    std::vector<Seen> seen;
    for (auto it = b; it != e; ++it) seen.push_back(see([&] { LibScope L; return *it; }()));
    size_t i = 0;
    for (auto it = b; i < seen.size(); ++i) {
      auto was = it;
      auto got = [&] { LibScope L; return it++; }();
      WALK(got == was && see(*got) == seen[i], "suffix");
      WALK(it != was && was < it && it > was && was <= it && it >= was && !(it < was), "order");
      auto again = it;
      auto back = [&] { LibScope L; return again--; }();
      WALK(back == it && again == was, "suffix-back");
      WALK([&] { LibScope L; return (*was)->type() == was.field_type(); }(), "type");
      WALK(designates(was, seen[i], [&] { return was.field_token(); }), "token");
    }
    // loose fields: random access
    auto lb = [&] { LibScope L; return view.cbegin_loose(); }();
    auto le = [&] { LibScope L; return view.cend_loose(); }();
    const ptrdiff_t n = le - lb;
    std::vector<Seen> all;
    all.swap(seen);
    for (auto &x : all) if (x.id < 0x10000u) seen.push_back(x);
    i = 0;
    WALK(n == ptrdiff_t(seen.size()), "loose-number");
    auto step = lb, rstep = le;
    for (; i < seen.size(); ++i) {
      const ptrdiff_t k = ptrdiff_t(i);
      auto at = lb + k;
      WALK(see(*at) == seen[i], "loose-plus");
      WALK(see(lb[k]) == seen[i] && see(le[k - n]) == seen[i] && at == k + lb && at == le - (n - k), "loose-index");
      WALK(at - lb == k && le - at == n - k && at < le && at >= lb && (at > lb) == (k > 0), "loose-distance");
      auto was = [&] { LibScope L; return step++; }();
      WALK(was == at && step == at + 1, "loose-suffix");
      auto rwas = [&] { LibScope L; return rstep--; }();
      WALK(rwas - lb == n - k && rstep - lb == n - k - 1, "loose-suffix-back");
      auto moved = lb;
      moved += k;
      WALK(moved == at && (moved -= k) == lb, "loose-move");
      WALK(designates(at, seen[i], [&] { return at.field_token(s.get()); }), "loose-token");
      WALK(at.field_type() == seen[i].g && (seen[i].g == fptu::hole || at.field_id() == seen[i].id), "loose-type");
    }
    // collections of this view
    for (size_t f = 0; f < m.f.size(); ++f) {
      if (!m.f[f].coll) continue;
      const auto c = [&] { LibScope L; return view.collection(m.f[f].tok); }();
      i = 0;
      seen.clear();
      WALK(c.empty() == m.coll[f].empty(), "collection-empty");
      auto ce = c.end();
      for (auto it = c.begin(); it != ce; ++it) { seen.push_back(see(*it)); if (seen.size() > 10000) WALK(false, "collection-endless"); }
      WALK(seen.size() == m.coll[f].size(), "collection-size");
      auto it = c.begin();
      for (; i < seen.size(); ++i) {
        auto was = it;
        auto got = [&] { LibScope L; return it++; }();
        WALK(got == was && see(*got) == seen[i] && it != was, "collection-suffix");
        size_t met = 0;
        for (auto l = lb; l != le; ++l) met += size_t(l == was);
        for (auto l = b; l != e; ++l) met += size_t(l == was) * 100;
        WALK(met == 101, "collection-place");
        WALK(std::find(m.coll[f].begin(), m.coll[f].end(), seen[i].v ? canon(m.f[f].g, *seen[i].v) : Val("?")) != m.coll[f].end(), "collection-value");
      }
      WALK(it == ce, "collection-end");
    }
#undef WALK
    SIM_COUNT("chk.walk");
  }

  void check(bool deep) {
    LibScope *no = nullptr; (void)no;
    SIM_COUNT("chk.full");
    heap_check("heap-guard");
    // built-in validation
    const char *trouble = [&] { LibScope L; return t().validate(); }();
    if (trouble) VIOLATE((ctx + "C02").c_str(), "validate-rejects", "after %s: validate(): %s", what.c_str(), trouble);
    auto weak = [&] { LibScope L; return t().take_weak_asis(); }();
    const size_t bytes = [&] { LibScope L; return weak.size(); }();
    const void *img = weak.data();
    Decoded d;
    string diff = diff_image(img, bytes, m, &d);
    if (!d.error.empty()) VIOLATE((ctx + "C02").c_str(), "layout", "after %s: %s", what.c_str(), d.error.c_str());
    content(diff, "image-content");
    // space accounting
    struct Q { size_t brutto, netto, index, payload, head, tail, junk, junkb, loose, cap, empty; } q;
    {
      LibScope L;
      auto &x = t();
      q = {x.brutto_size(), x.netto_size(), x.index_size(), x.payload_size_bytes(), x.head_space(), x.tail_space_units(), x.junk_units(), x.junk_bytes(), x.loose_count(), x.capacity(), x.empty()};
    }
    const string l = ctx.find("C04") != string::npos ? "C02C04" : ctx.find("C05") != string::npos ? "C02C05" : "C02";
#define ACC(cond, name)                                                        \
  if (!(cond)) VIOLATE(l.c_str(), "accounting", "after %s: %s: brutto=%zu netto=%zu index=%zu payload=%zu head=%zu tail=%zu junk=%zu/%zu loose=%zu capacity=%zu; scan: units=%u index=%u holes=%u hole_units=%u fields=%zu", what.c_str(), name, q.brutto, q.netto, q.index, q.payload, q.head, q.tail, q.junk, q.junkb, q.loose, q.cap, d.brutto, d.count, d.holes, d.hole_units, d.loose.size())
    ACC(q.brutto == bytes && bytes == size_t(d.brutto) * 4, "gross size");
    ACC(q.index == d.count, "index size");
    ACC(q.payload == (size_t(d.brutto) - 1 - d.count) * 4, "payload size");
    ACC(q.junk == d.holes + d.hole_units && q.junkb == q.junk * 4, "junk");
    ACC(q.loose == d.loose.size(), "number of fields");
    ACC(q.netto == bytes - q.junk * 4, "net size");
    ACC(q.cap == (q.head + q.index + q.tail) * 4 + q.payload, "capacity");
    if (m.preplaced_units == 0) ACC(q.empty == (d.loose.size() == 0), "emptiness");
    state(fnv(&q, sizeof q) ^ (uint64_t(d.holes) << 32));
    // typed reads
    content(diff_content(t(), m, 0), "read-rw");
    if (deep) {
      content(diff_content(t(), m, 1), "read-accessor");
      content(diff_content(weak, m, 0), "read-ro");
      string p = diff_presence(t(), m);
      if (p.empty()) p = diff_presence(weak, m);
      if (!p.empty()) VIOLATE("C14", "presence", "after %s: %s", what.c_str(), p.c_str());
      iteration(weak, "ro");
      if (chance(1, 4)) iteration(t(), "rw");
      const char *v2 = [&] { LibScope L; return weak.validate(s.get()); }();
      if (v2) VIOLATE("C02", "validate-rejects", "after %s: image validate(): %s", what.c_str(), v2);
    }
    mix(m.hash());
    mix(&q, sizeof q);
  }

  //---------------------------------------------------------------- operations
  struct Pre { size_t head, tail, junk, cap, total; const void *body; };
  Pre pre() {
    LibScope L;
    return {t().head_space(), t().tail_space_units(), t().junk_units(), t().capacity(), t().brutto_size() / 4, (const void *)t().get_buffer()};
  }
  // Judges the outcome of a mutating call. want: expected error or OK (meaning:
  // success unless room/memory is short). units/index: what the call may need.
  // growing: the call auto-grows the tuple.
  Res judge(Res r, Res want, const Pre &p, unsigned index, unsigned units, bool growing) {
    ctx = "";
    note("   -> %s", res_name[r]);
    mix(r);
    if (growing) {
      LibScope L;
      if (t().capacity() != p.cap || (const void *)t().get_buffer() != p.body) {
        ctx = "C04";
        SIM_COUNT("probe.grown");
        if (t().schema() != s.get()) VIOLATE("C04", "schema-lost", "schema binding changed by growth");
      } else if (t().head_space() + t().tail_space_units() != p.head + p.tail && p.junk) SIM_COUNT("probe.space-changed");
    }
    if (r != OK) ctx += "C03C04";
    if (want != OK) {
      if (r == BAD_ALLOC && alloc_faults) return r;
      if (r != want)
        VIOLATE("C03", "wrong-error", "%s: expected %s, got %s %s", what.c_str(), res_name[want], res_name[r], r == OTHER ? other_what.c_str() : "");
      SIM_COUNT("probe.refused-argument");
      return r;
    }
    if (r == OK) return r;
    SIM_COUNT("probe.op-failed");
    switch (r) {
    case NO_SPACE:
      if (growing) VIOLATE("C04", "no-growth", "%s: insufficient_space escaped from an auto-growing tuple", what.c_str());
      SIM_COUNT("probe.buffer-full");
      if (p.head >= index && p.tail >= units)
        VIOLATE("C03", "false-refusal", "%s: refused for lack of room with %zu index slots and %zu units free, needs %u and %u", what.c_str(), p.head, p.tail, index, units);
      return r;
    case BAD_ALLOC:
      if (alloc_faults && growing) return r;
      break;
    case TOO_LARGE:
    case OVERFLOW_:
      if (growing && (m.data_units() + m.loose_count() + units + index >= 65535 || m.loose_count() + index > 8191)) {
        SIM_COUNT("probe.format-limit");
        return r;
      }
      break;
    default: break;
    }
    VIOLATE(growing ? "C04C03C01" : "C03C01", "wrong-error", "%s: unexpected %s %s", what.c_str(), res_name[r], r == OTHER ? other_what.c_str() : "");
  }

  bool arm(bool growing) {
    disarm_alloc_fault();
    if (growing && chance(prop == "C04" ? 2 : 1, 8)) {
      arm_alloc_fault(1 + choose(2), 1 + choose(2));
      return true;
    }
    return false;
  }
  void disarm() {
    uint32_t k = alloc_faults;
    disarm_alloc_fault();
    alloc_faults = k;
  }

  size_t pick_field(int want_coll) { // -1 any
    std::vector<size_t> c;
    for (size_t i = 0; i < m.f.size(); ++i)
      if (want_coll < 0 || m.f[i].coll == bool(want_coll)) c.push_back(i);
    if (c.empty()) throw std::out_of_range("");
    return c[choose(unsigned(c.size()))];
  }
  Val value_for(size_t i) {
    const Field &x = m.f[i];
    unsigned st = choose(8);
    unsigned style = st < 5 ? 0 : st == 5 ? 1 : st == 6 ? 2 : 0;
    if (x.pre && x.disc && !stretchy(x.g) && st == 7 && x.g != fptu::f32 && x.g != fptu::f64 && x.g != fptu::d64) return denil_value(x.g);
    unsigned ml = max_len;
    if (limit && (x.g == fptu::text || x.g == fptu::varbin) && chance(1, 3)) { // fill up, leaving a little
      size_t used = [&] { LibScope L; return t().brutto_size() / 4; }();
      size_t leave = choose(chance(1, 2) ? 9000 : 60);
      size_t room = used + leave < 65534 ? 65534 - used - leave : 0;
      if (choose(2)) { // exactly what the buffer has left
        room = [&] { LibScope L; return t().tail_space_units(); }();
        room -= std::min<size_t>(room, choose(3));
      }
      if (room > 8) {
        size_t len = room * 4 - choose(4);
        SIM_COUNT("probe.fill-up");
        uint32_t sd = choose(1u << 20);
        Val v(x.g == fptu::text ? std::min<size_t>(len, 131325) : len, 'x');
        for (auto &c : v) sd = sd * 1664525u + 1013904223u, c = char(sd >> 24);
        return v;
      }
    }
    if (style == 2 && ml < 700 && chance(1, 3)) ml = 700;
    if (x.g == fptu::f32 || x.g == fptu::f64) {
      Val v = gen_value(x.g, style, ml);
      return v;
    }
    return gen_value(x.g, style, ml);
  }

  static bool too_long(unsigned g, const Val &v) { return (g == fptu::text && v.size() > 65535 * 2 + 255) || (g == fptu::varbin && v.size() > 65534 * 4); }
  void op_set(bool via_accessor) {
    size_t i = pick_field(0);
    Val v = value_for(i);
    const Field &x = m.f[i];
    what = string(via_accessor ? "set-by-accessor " : "set ") + x.name + "=" + show(v);
    note("%s", what.c_str());
    SIM_COUNT("op.set");
    bool growing = managed && !via_accessor;
    for (int attempt_no = 0;; ++attempt_no) {
      Pre p = pre();
      bool armed = attempt_no == 0 && arm(growing);
      Res r = attempt([&] {
        if (via_accessor) {
          auto acc = [&] { LibScope L; return t()[x.tok]; }();
          put_acc(acc, x.g, v);
        } else if (managed) put(*mg, x.tok, x.g, v, How::set);
        else put(*fx, x.tok, x.g, v, How::set);
      });
      disarm();
      bool removes = !x.disc && is_empty_value(x.g, v);
      unsigned units = (x.pre && !stretchy(x.g)) || removes ? 0 : value_units(x.g, v);
      r = judge(r, too_long(x.g, v) ? TOO_LONG : OK, p, (x.pre && !stretchy(x.g)) ? 0 : 1, units, growing);
      if (r == OK) { m.set(i, v); break; }
      check(false);
      if (!(growing && armed && r == BAD_ALLOC)) break;
      SIM_COUNT("probe.retry-after-alloc-failure"); // memory is back: must succeed now
    }
  }

  void op_insert() {
    size_t i = pick_field(1);
    Val v = value_for(i);
    const Field &x = m.f[i];
    what = "insert " + x.name + "=" + show(v);
    note("%s", what.c_str());
    SIM_COUNT("op.insert");
    for (int attempt_no = 0;; ++attempt_no) {
      Pre p = pre();
      bool armed = attempt_no == 0 && arm(managed);
      bool stores = m.insert_stores(i, v);
      auto place = [&](const auto &it) { // where the element went
        HarnessScope H;
        if (it.token() != x.tok) VIOLATE("C15", "insert-place", "%s: the returned iterator is of another field", what.c_str());
        auto o = read_acc(*it, x.g);
        SIM_COUNT("chk.insert-place");
        if (stores ? !o || canon(x.g, *o) != canon(x.g, v) : o && !is_empty_value(x.g, *o))
          VIOLATE("C15C01", "insert-place", "%s: the returned iterator gives %s", what.c_str(), o ? show(*o).c_str() : "nothing");
      };
      Res r = attempt([&] {
        if (managed) put(*mg, x.tok, x.g, v, How::insert, place);
        else put(*fx, x.tok, x.g, v, How::insert, place);
      });
      disarm();
      r = judge(r, too_long(x.g, v) ? TOO_LONG : OK, p, 1, stores ? value_units(x.g, v) : 0, managed);
      if (r == OK) {
        if (stores) m.coll[i].push_back(canon(x.g, v));
        break;
      }
      check(false);
      if (!(managed && armed && r == BAD_ALLOC)) break;
      SIM_COUNT("probe.retry-after-alloc-failure");
    }
  }

  void op_burst() { // many small elements at once: long indexes
    size_t i = pick_field(1);
    if (limit && choose(2))
      for (int k = 0; k < 6 && value_units(m.f[i].g, gen_value(m.f[i].g, 0, 3)) > 1; ++k) i = pick_field(1);
    const Field &x = m.f[i];
    unsigned n = 20 + choose(chance(1, 4) ? 700 : 60);
    if (limit) n = choose(2) ? 20 + choose(9000) : unsigned([&] { LibScope L; return t().head_space(); }()) + choose(4);
    unsigned ml = std::min(max_len, 12u);
    what = "burst of " + std::to_string(n) + " inserts into " + x.name;
    note("%s", what.c_str());
    SIM_COUNT("op.burst");
    Val v = gen_value(x.g, 0, ml);
    for (unsigned k = 0; k < n; ++k) {
      if (v.size() > 1) v[v.size() / 2] = char(v[v.size() / 2] + 1);
      if (x.g == fptu::f32 || x.g == fptu::f64 || x.g == fptu::nested) v = gen_value(x.g, 0, ml);
      if (is_empty_value(x.g, v)) v = gen_value(x.g, 0, ml);
      Pre p = pre();
      Res r = attempt([&] {
        if (managed) put(*mg, x.tok, x.g, v, How::insert);
        else put(*fx, x.tok, x.g, v, How::insert);
      });
      if (r != OK) {
        judge(r, too_long(x.g, v) ? TOO_LONG : OK, p, 1, value_units(x.g, v), managed);
        break;
      }
      m.coll[i].push_back(canon(x.g, v));
    }
    ctx = "";
  }

  void op_brim() { // take all but a few of the index slots that the format allows, with elements as small as possible
    std::vector<size_t> c;
    unsigned best = 99;
    for (size_t i = 0; i < m.f.size(); ++i)
      if (m.f[i].coll && !stretchy(m.f[i].g)) {
        unsigned u = value_units(m.f[i].g, gen_value(m.f[i].g, 0, 4));
        if (u < best) best = u, c.clear();
        if (u == best) c.push_back(i);
      }
    if (c.empty()) return op_burst();
    size_t i = c[choose(unsigned(c.size()))];
    const Field &x = m.f[i];
    const unsigned leave = choose(4), have = m.loose_count();
    what = "all but " + std::to_string(leave) + " index slots to " + x.name;
    note("%s", what.c_str());
    SIM_COUNT("op.brim");
    Val v;
    for (int k = 0; k < 9 && (v.empty() || is_empty_value(x.g, v)); ++k) v = gen_value(x.g, 0, 4);
    if (is_empty_value(x.g, v)) return op_burst();
    for (unsigned k = have; k + leave < 8191; ++k) {
      Pre p = pre();
      Res r = attempt([&] { put(*mg, x.tok, x.g, v, How::insert); });
      if (r != OK) {
        judge(r, OK, p, 1, value_units(x.g, v), true);
        break;
      }
      m.coll[i].push_back(canon(x.g, v));
    }
    ctx = "";
  }

  void erase_result(size_t i, bool had, bool said, const string &w) {
    if (had != said) VIOLATE("C14C15", "erase-result", "%s reported %s but the field was %s", w.c_str(), said ? "erased" : "nothing to erase", had ? "present" : "absent");
    (void)i;
  }
  void op_erase() {
    size_t i = pick_field(-1);
    const Field &x = m.f[i];
    what = "erase " + x.name;
    note("%s", what.c_str());
    SIM_COUNT("op.erase");
    for (int attempt_no = 0;; ++attempt_no) {
      Pre p = pre();
      bool armed = attempt_no == 0 && arm(managed);
      bool said = false;
      Res r = attempt([&] {
        LibScope L;
        said = managed ? mg->erase(x.tok) : fx->erase(x.tok);
      });
      disarm();
      r = judge(r, OK, p, x.pre && stretchy(x.g) ? 1 : 0, 0, managed && x.pre);
      if (r == OK) {
        bool had = m.present(i);
        m.erase(i);
        check(false);
        erase_result(i, had, said, what);
        break;
      }
      check(false);
      if (!(managed && armed && r == BAD_ALLOC)) break;
    }
  }

  void op_erase_elements() {
    size_t i = pick_field(1);
    const Field &x = m.f[i];
    unsigned mode = choose(3);
    size_t n = m.coll[i].size();
    SIM_COUNT("op.erase-elements");
    Pre p = pre();
    if (mode == 0) {
      what = "erase collection " + x.name;
      note("%s", what.c_str());
      size_t cnt = 0;
      Res r = attempt([&] {
        LibScope L;
        auto c = t().collection(x.tok);
        cnt = managed ? mg->erase(c) : fx->erase(c);
      });
      r = judge(r, OK, p, 0, 0, false);
      if (r != OK) return;
      m.coll[i].clear();
      if (cnt != n) VIOLATE("C15", "erase-count", "%s returned %zu, %zu elements were there", what.c_str(), cnt, n);
      return;
    }
    if (!n) return;
    size_t from = choose(unsigned(n)), len = mode == 1 ? 1 : 1 + choose(unsigned(n - from)), cnt = 0;
    what = string(mode == 1 ? "erase element " : "erase range ") + x.name + "[" + std::to_string(from) + ",+" + std::to_string(len) + ")";
    note("%s", what.c_str());
    std::vector<Val> victims;
    bool ok1 = false;
    Res r = attempt([&] {
      auto c = [&] { LibScope L; return t().collection(x.tok); }();
      auto it = c.begin();
      for (size_t k = 0; k < from; ++k) { LibScope L; ++it; }
      auto to = it;
      for (size_t k = 0; k < len; ++k) {
        auto v = read_acc(*to, x.g);
        victims.push_back(v ? canon(x.g, *v) : Val());
        LibScope L;
        ++to;
      }
      LibScope L;
      if (mode == 1) ok1 = managed ? mg->erase(it) : fx->erase(it);
      else cnt = managed ? mg->erase(it, to) : fx->erase(it, to);
    });
    r = judge(r, OK, p, 0, 0, false);
    if (r != OK) return;
    for (auto &v : victims) {
      auto q = std::find(m.coll[i].begin(), m.coll[i].end(), v);
      if (q == m.coll[i].end()) VIOLATE("C15C01", "erase-victim", "%s: element %s not in the model", what.c_str(), show(v).c_str());
      m.coll[i].erase(q);
    }
    if (mode == 1 ? !ok1 : cnt != len) VIOLATE("C15", "erase-count", "%s returned %zu/%d, expected %zu", what.c_str(), cnt, ok1, len);
  }

  void op_update_element() {
    size_t i = pick_field(1);
    const Field &x = m.f[i];
    size_t n = m.coll[i].size();
    if (!n) return op_insert();
    size_t at = choose(unsigned(n));
    Val v = value_for(i), old;
    what = "update " + x.name + "[" + std::to_string(at) + "]=" + show(v);
    note("%s", what.c_str());
    SIM_COUNT("op.update-element");
    Pre p = pre();
    Res r = attempt([&] {
      auto c = [&] { LibScope L; return t().collection(x.tok); }();
      auto it = c.begin();
      for (size_t k = 0; k < at; ++k) { LibScope L; ++it; }
      auto o = read_acc(*it, x.g);
      old = o ? canon(x.g, *o) : Val();
      fptu::dynamic_accessor_rw acc = *it;
      put_acc(acc, x.g, v);
    });
    r = judge(r, too_long(x.g, v) ? TOO_LONG : OK, p, 1, m.insert_stores(i, v) ? value_units(x.g, v) : 0, false);
    if (r != OK) return;
    auto q = std::find(m.coll[i].begin(), m.coll[i].end(), old);
    if (q == m.coll[i].end()) VIOLATE("C15C01", "update-victim", "%s: old element %s not in the model", what.c_str(), show(old).c_str());
    m.coll[i].erase(q);
    if (m.insert_stores(i, v)) m.coll[i].push_back(canon(x.g, v));
  }

  void op_optimize() {
    using F = fptu::details::tuple_rw::optimize_flags;
    unsigned mode = choose(7);
    static const char *names[] = {"optimize", "compactify", "sort_index(force)", "take_weak_optimized", "optimize(none)", "compactify+force sort", "sort_index"};
    what = names[mode];
    note("%s", what.c_str());
    SIM_COUNT("op.optimize");
    for (int attempt_no = 0; attempt_no < 2; ++attempt_no) {
      Pre p = pre();
      auto seq = [&] {
        std::vector<uint32_t> v;
        auto w = [&] { LibScope L; return t().take_weak_asis(); }();
        Decoded d = decode(w.data(), w.size(), m.places, m.preplaced_units);
        const unsigned char *img = (const unsigned char *)w.data();
        for (unsigned k = 0; k < d.count; ++k) v.push_back(img[4 + 4 * k + 2] | img[4 + 4 * k + 3] << 8);
        return v;
      };
      auto before = seq();
      disarm_alloc_fault();
      if (attempt_no == 0 && chance(1, 3)) arm_alloc_fault(1 + choose(2), 1);
      bool inv = false;
      Res r = attempt([&] {
        LibScope L;
        switch (mode) {
        case 0: inv = t().optimize(); break;
        case 1: inv = t().compactify(); break;
        case 2: inv = t().sort_index(true); break;
        case 3: inv = t().take_weak_optimized().second; break;
        case 4: inv = t().optimize(F::none); break;
        case 5: inv = t().optimize(F::compactify | F::enforce_sort_index); break;
        default: inv = t().sort_index(false); break;
        }
      });
      disarm();
      note("   -> %s inv=%d", res_name[r], inv);
      mix(r * 2 + inv);
      ctx = "C05";
      if (r == BAD_ALLOC && alloc_faults) {
        SIM_COUNT("probe.optimize-alloc-failed");
        check(true);
        continue; // memory is back
      }
      if (r != OK) VIOLATE("C05", "optimize-failed", "%s: %s %s", what.c_str(), res_name[r], r == OTHER ? other_what.c_str() : "");
      check(false);
      LibScope L;
      bool compacts = mode == 0 || mode == 1 || mode == 3 || mode == 5;
      if (compacts && p.junk) SIM_COUNT("probe.compacted-junk");
      if (compacts && t().junk_units() != 0) VIOLATE("C05", "junk-left", "%s left %zu junk units", what.c_str(), t().junk_units());
      if (t().capacity() != p.cap) VIOLATE("C05", "capacity-changed", "%s changed the capacity %zu -> %zu", what.c_str(), p.cap, t().capacity());
      if (t().brutto_size() / 4 > p.total || t().head_space() < p.head || t().tail_space_units() < p.tail)
        VIOLATE("C05", "area-grew", "%s: used area grew", what.c_str());
      if (!compacts && t().junk_units() != p.junk) VIOLATE("C05", "junk-changed", "%s changed junk %zu -> %zu", what.c_str(), p.junk, t().junk_units());
      {
        HarnessScope H;
        auto after = seq();
        if (!inv && (after != before))
          VIOLATE("C05", "stale-iterators", "%s moved index entries but reported iterators as valid", what.c_str());
      }
      break;
    }
  }

  void op_reset() {
    what = "reset";
    note("reset");
    SIM_COUNT("op.reset");
    { LibScope L; t().reset(); }
    ctx = "";
    m.reset();
  }

  // arguments that must be refused
  void op_wrong() {
    size_t i = pick_field(-1);
    const Field &x = m.f[i];
    Pre p = pre();
    SIM_COUNT("op.wrong");
    Res want = OTHER, r = OK;
    unsigned mode = choose(6);
    if (mode == 0) { // other type
      unsigned g = x.g;
      while (g == x.g) g = choose(31);
      if (g == 26 || g == 27) g = x.g == fptu::text ? fptu::u32 : fptu::text;
      if ((g == fptu::t32 || g == fptu::t64) && (x.g == fptu::t32 || x.g == fptu::t64)) g = fptu::mac;
      if (g == x.g) return;
      Val v = gen_value(g, 0, 10);
      what = "set with type " + string(gname(g)) + " on " + x.name;
      want = TYPE_MM;
      r = attempt([&] { if (managed) put(*mg, x.tok, g, v, x.coll ? How::insert : How::set); else put(*fx, x.tok, g, v, x.coll ? How::insert : How::set); });
    } else if (mode == 1) { // wrong kind
      Val v = gen_value(x.g, 0, 10);
      what = string(x.coll ? "set on a collection " : "insert into a scalar ") + x.name;
      want = x.coll ? COLL_UNAL : COLL_REQ;
      if (x.g == fptu::t32) return;
      r = attempt([&] { if (managed) put(*mg, x.tok, x.g, v, x.coll ? How::set : How::insert); else put(*fx, x.tok, x.g, v, x.coll ? How::set : How::insert); });
    } else if (mode == 2 && (x.g == fptu::text || x.g == fptu::varbin || x.g == fptu::property)) {
      size_t len = x.g == fptu::property ? 256 + choose(1000) : x.g == fptu::text ? 131326 + choose(100) : 262137 + choose(5000);
      Val v((x.g == fptu::property) + len, 'x');
      what = "too long value " + std::to_string(len) + " for " + x.name;
      want = TOO_LONG;
      r = attempt([&] { if (managed) put(*mg, x.tok, x.g, v, x.coll ? How::insert : How::set); else put(*fx, x.tok, x.g, v, x.coll ? How::insert : How::set); });
    } else if (mode == 3) { // read of a wrong type
      unsigned g = x.g == fptu::text ? fptu::i32 : fptu::text;
      if (x.coll) {
        what = "get on a collection " + x.name;
        want = COLL_UNAL;
        r = attempt([&] { read(t(), x.tok, x.g); });
      } else {
        what = string("get as ") + gname(g) + " of " + x.name;
        want = TYPE_MM;
        r = attempt([&] { read(t(), x.tok, g); });
      }
    } else if (mode == 4 && !x.coll) {
      what = "collection() of scalar " + x.name;
      want = COLL_REQ;
      r = attempt([&] { LibScope L; auto c = t().collection(x.tok); volatile bool sink = c.begin() == c.end(); (void)sink; });
    } else return op_number();
    note("%s", what.c_str());
    judge(r, want, p, 0, 0, false);
  }

  static __int128 as_int(unsigned g, const Val &v) {
    switch (g) {
    case fptu::i8: return unpack<int8_t>(v);
    case fptu::i16: return unpack<int16_t>(v);
    case fptu::i32: return unpack<int32_t>(v);
    case fptu::i64: return unpack<int64_t>(v);
    case fptu::u8: return unpack<uint8_t>(v);
    case fptu::u16: return unpack<uint16_t>(v);
    case fptu::u32: return unpack<uint32_t>(v);
    case fptu::u64: return unpack<uint64_t>(v);
    }
    return 0;
  }
  // generic numeric setters with range control
  // number setters on a field of a type that holds no number
  void op_number_misuse() {
    std::vector<size_t> c;
    for (size_t i = 0; i < m.f.size(); ++i)
      if ((m.f[i].g < 4 || m.f[i].g > 14 || m.f[i].g == fptu::t32) && m.f[i].g != fptu::bin128) c.push_back(i);
    if (c.empty()) return;
    const Field &x = m.f[c[choose(unsigned(c.size()))]];
    const unsigned via = choose(13), val = 1 + choose(100);
    SIM_COUNT("op.number-misuse");
    what = "numeric setter #" + std::to_string(via) + " on " + x.name;
    note("%s", what.c_str());
    Pre p = pre();
    auto call = [&](auto &T) {
      fptu::int128_t iw = fptu::int128_t(val);
      fptu::uint128_t uw = fptu::uint128_t(val);
      LibScope L;
#define GO(NAME, ARG) do { if (x.coll) T.insert_##NAME(x.tok, ARG); else T.set_##NAME(x.tok, ARG); } while (0)
      switch (via) {
      case 0: GO(integer, int64_t(val)); break;
      case 1: GO(integer, uint64_t(val)); break;
      case 2: GO(unsigned, int64_t(val)); break;
      case 3: GO(unsigned, uint64_t(val)); break;
      case 4: GO(int128, iw); break;
      case 5: GO(uint128, uw); break;
      case 6: GO(float, double(val)); break;
      }
    };
    auto calln = [&](fixed_t &T) {
      LibScope L;
      switch (via) {
      case 7: GO(number, int64_t(val)); break;
      case 8: GO(number, uint64_t(val)); break;
      case 9: GO(number, int32_t(val)); break;
      case 10: GO(number, uint32_t(val)); break;
      case 11: GO(number, float(val)); break;
      default: GO(number, double(val)); break;
      }
#undef GO
    };
    Res r = attempt([&] { if (via > 6) calln(t()); else if (managed) call(*mg); else call(*fx); });
    judge(r, TYPE_MM, p, 0, 0, false);
  }
  void op_number() {
    if (chance(1, 6)) return op_number_misuse();
    std::vector<size_t> c;
    for (size_t i = 0; i < m.f.size(); ++i)
      if (m.f[i].g >= 4 && m.f[i].g <= 14 && m.f[i].g != fptu::t32) c.push_back(i);
    if (c.empty()) return;
    size_t i = c[choose(unsigned(c.size()))];
    const Field &x = m.f[i];
    SIM_COUNT("op.number");
    // an integer near some power of two
    __int128 val = __int128(1) << choose(70);
    switch (choose(4)) { case 0: val -= 1; break; case 1: val += 1; break; case 2: val += choose(100); break; default: break; }
    if (choose(2)) val = -val;
    if (chance(1, 8)) val = 0;
    const bool sgn = x.g == fptu::i8 || x.g == fptu::i16 || x.g == fptu::i32 || x.g == fptu::i64;
    const bool flt = x.g == fptu::f32 || x.g == fptu::f64;
    const unsigned n = value_size(x.g);
    __int128 lo = sgn ? -(__int128(1) << (8 * n - 1)) : 0, hi = sgn ? (__int128(1) << (8 * n - 1)) - 1 : (__int128(1) << (8 * n)) - 1;
    if (!flt && chance(1, 3)) switch (choose(4)) { case 0: val = lo; break; case 1: val = hi; break; case 2: val = lo - 1; break; default: val = hi + 1; }
    unsigned via = choose(10); // which setter
    const bool i64ok = val >= INT64_MIN && val <= INT64_MAX, u64ok = val >= 0 && val <= (__int128)UINT64_MAX;
    const bool i32ok = val >= INT32_MIN && val <= INT32_MAX, u32ok = val >= 0 && val <= UINT32_MAX;
    enum { SI, SU, SN } fam;
    switch (via) {
    case 0: if (!i64ok) return; fam = SI; break;       // set_integer(int64)
    case 1: if (!u64ok) return; fam = SI; break;       // set_integer(uint64)
    case 2: if (!i64ok) return; fam = SU; break;       // set_unsigned(int64)
    case 3: if (!u64ok) return; fam = SU; break;       // set_unsigned(uint64)
    case 4: if (!i64ok) return; fam = SN; break;       // set_number(int64)
    case 5: if (!u64ok) return; fam = SN; break;       // set_number(uint64)
    case 6: if (!i32ok) return; fam = SN; break;
    case 7: if (!u32ok) return; fam = SN; break;
    case 8: fam = SI; break;                           // set_int128
    default: if (val < 0) return; fam = SU; break;     // set_uint128
    }
    Res want = OK;
    if (fam == SI && !sgn) { // range is checked before the type only for 64 bit narrowing
      if (via == 1 && val > INT64_MAX) return;
      if (via == 8 && !i64ok) return;
      want = TYPE_MM;
    } else if (fam == SU && (sgn || flt)) {
      if (val < 0) return;
      if (via == 9 && !u64ok) return;
      want = TYPE_MM;
    } else if (flt) {
      // exactly representable numbers below the documented safe range must be
      // taken, inexact ones refused; in between either answer is fine
      __int128 sure = x.g == fptu::f32 ? 0x1FFFFF : ((__int128)1 << 53) - 1, lim = x.g == fptu::f32 ? 1 << 24 : ((__int128)1 << 53);
      __int128 mag = val < 0 ? -val : val;
      if ((via == 6 || via == 7) && x.g == fptu::f64) {} // always exact
      else if (mag > lim) want = RANGE;
      else if (mag > sure) return;
    } else if (val < lo || val > hi) want = RANGE;
    // reserved value of a disc preplaced place acts as removal; model handles it
    what = "numeric setter #" + std::to_string(via) + " on " + x.name + " hi=" + std::to_string((long long)(val >> 64)) + " lo=" + std::to_string((unsigned long long)val);
    note("%s", what.c_str());
    Pre p = pre();
    bool thunk = managed && fam != SN; // set_number is not auto-growing
    auto call = [&](auto &T, auto &k) {
      LibScope L;
#define GO(NAME, ARG) do { if (x.coll) T.insert_##NAME(k, ARG); else T.set_##NAME(k, ARG); } while (0)
      switch (via) {
      case 0: GO(integer, int64_t(val)); break;
      case 1: GO(integer, uint64_t(val)); break;
      case 2: GO(unsigned, int64_t(val)); break;
      case 3: GO(unsigned, uint64_t(val)); break;
      case 8: { fptu::int128_t w; memcpy((void *)&w, &val, 16); GO(int128, w); break; }
      case 9: { fptu::uint128_t w; memcpy((void *)&w, &val, 16); GO(uint128, w); break; }
      }
    };
    auto calln = [&](fixed_t &T, auto &k) {
      LibScope L;
      switch (via) {
      case 4: GO(number, int64_t(val)); break;
      case 5: GO(number, uint64_t(val)); break;
      case 6: GO(number, int32_t(val)); break;
      case 7: GO(number, uint32_t(val)); break;
      }
#undef GO
    };
    Res r = attempt([&] {
      if (fam == SN) calln(t(), x.tok);
      else if (managed) call(*mg, x.tok);
      else call(*fx, x.tok);
    });
    Val v;
    if (want == OK) {
      if (x.g == fptu::f32) v = pack(float(double(val)), 4);
      else if (x.g == fptu::f64) v = pack(double(val), 8);
      else v = Val((const char *)&val, n);
    }
    bool removes = want == OK && !x.disc && is_empty_value(x.g, v);
    unsigned units = want != OK || x.pre || removes ? 0 : value_units(x.g, v);
    r = judge(r, want, p, x.pre ? 0 : 1, units, thunk);
    if (r == OK && want == OK) {
      if (x.coll) { if (m.insert_stores(i, v)) m.coll[i].push_back(v); }
      else m.set(i, v);
    }
  }

  // setters which take a floating point number
  void op_real() {
    std::vector<size_t> c;
    for (size_t i = 0; i < m.f.size(); ++i)
      if (m.f[i].g >= 4 && m.f[i].g <= 14 && m.f[i].g != fptu::t32) c.push_back(i);
    if (c.empty()) return;
    size_t i = c[choose(unsigned(c.size()))];
    const Field &x = m.f[i];
    SIM_COUNT("op.real");
    double val = std::ldexp(1.0, int(choose(x.g == fptu::f32 ? 160 : 70)));
    switch (choose(5)) { case 0: val -= 1; break; case 1: val += 1; break; case 2: val += choose(100); break; case 3: val += choose(64) / 64.0; break; default: break; }
    if (choose(2)) val = -val;
    switch (choose(16)) {
    case 0: val = 0; break;
    case 1: val = double(NAN); break;
    case 2: val = double(INFINITY); break;
    case 3: val = -double(INFINITY); break;
    case 4: val = choose(2) ? 3.4028234663852886e+38 : 3.5e38; break;
    default: break;
    }
    if (x.g != fptu::f32 && x.g != fptu::f64 && chance(1, 3)) { // the bounds of the type itself
      const bool sg = x.g == fptu::i8 || x.g == fptu::i16 || x.g == fptu::i32 || x.g == fptu::i64;
      const double top = std::ldexp(1.0, int(8 * value_size(x.g)) - int(sg));
      switch (choose(4)) { case 0: val = sg ? -top : 0; break; case 1: val = top - 1; break; case 2: val = sg ? -top - 1 : -1; break; default: val = top; }
    }
    const unsigned via = choose(3); // 0 set_float, 1 set_number(float), 2 set_number(double)
    if (via == 1) val = float(val);
    const bool flt = x.g == fptu::f32 || x.g == fptu::f64;
    Res want = OK;
    Val v;
    if (flt) {
      if (x.g == fptu::f32 && std::isfinite(val) && std::fabs(val) > 3.4028234663852886e+38) want = RANGE;
      else v = x.g == fptu::f32 ? pack(float(val), 4) : pack(val, 8);
    } else if (via == 0) want = TYPE_MM;
    else if (!std::isfinite(val)) want = RANGE;
    else {
      const bool sgn = x.g == fptu::i8 || x.g == fptu::i16 || x.g == fptu::i32 || x.g == fptu::i64;
      const unsigned n = value_size(x.g);
      const double hi = std::ldexp(1.0, int(8 * n) - int(sgn)), lo = sgn ? -hi : 0;
      if (n >= 4 && (std::fabs(val - hi) <= hi / 1048576 || (sgn && std::fabs(val - lo) <= hi / 1048576))) return; // the safe bound is the library's choice
      if (val < lo || val > hi - 1) want = RANGE;
      else {
        __int128 whole = __int128(val);
        v = Val((const char *)&whole, n);
      }
    }
    what = "real setter #" + std::to_string(via) + " on " + x.name + " value " + std::to_string(val);
    note("%s", what.c_str());
    Pre p = pre();
    const bool thunk = managed && via == 0;
    auto call = [&](auto &T) {
      LibScope L;
      if (x.coll) T.insert_float(x.tok, val);
      else T.set_float(x.tok, val);
    };
    Res r = attempt([&] {
      if (via == 0) {
        if (managed) call(*mg);
        else call(*fx);
        return;
      }
      LibScope L;
      fixed_t &T = t();
      if (via == 1) { if (x.coll) T.insert_number(x.tok, float(val)); else T.set_number(x.tok, float(val)); }
      else { if (x.coll) T.insert_number(x.tok, val); else T.set_number(x.tok, val); }
    });
    bool removes = want == OK && !x.disc && is_empty_value(x.g, v);
    unsigned units = want != OK || x.pre || removes ? 0 : value_units(x.g, v);
    r = judge(r, want, p, x.pre ? 0 : 1, units, thunk);
    if (r == OK && want == OK) {
      if (x.coll) { if (m.insert_stores(i, v)) m.coll[i].push_back(v); }
      else m.set(i, v);
    }
  }

  void run() {
    heap_begin_run(sh->seed);
    create();
    what = "creation";
    check(true);
    unsigned steps = range(0, big ? 40 : 90);
    const bool brim = limit && chance(1, 5); // a full index soon
    for (unsigned k = 0; k < steps; ++k) {
      span();
      ++nops;
      unsigned w = choose(100);
      unsigned opt_share = prop == "C05" ? 25 : 8;
      try {
        if (brim && k == 4 + steps / 4) op_brim();
        else if (limit && chance(1, 7)) op_burst();
        else if (w < opt_share) op_optimize();
        else if (w < opt_share + 5) op_wrong();
        else if (w < opt_share + 7) { if (chance(1, 3)) op_reset(); else op_number(); }
        else if (w < opt_share + 11) { if (chance(1, 2)) op_real(); else op_number(); }
        else if (w < opt_share + 14) { if (chance(1, 2)) op_burst(); else op_insert(); }
        else if (w < opt_share + 34) op_erase();
        else if (w < opt_share + 42) op_erase_elements();
        else if (w < opt_share + 50) op_update_element();
        else if (w < opt_share + 58) op_insert();
        else op_set(chance(1, 3));
      } catch (const std::out_of_range &) {
        continue; // no suitable field
      }
      unsigned lc = m.loose_count();
      check(lc < 60 ? true : chance(1, lc < 1000 ? 4 : 20));
    }
    what = "end";
    ctx = "";
    check(true);
    LibScope L;
    mg.reset();
    fx.reset();
    s.reset();
  }
};

void world_rw() {
  W w;
  try {
    w.run();
  } catch (const Abandon &) {
    SIM_COUNT("probe.abandoned-other-property");
    (void)w.mg.release();
    (void)w.fx.release();
    (void)w.s.release();
    in_lib = 0;
    disarm_alloc_fault();
    heap_drop_run();
    return;
  }
  heap_check("heap-guard");
  heap_end_run("leak");
}
Register reg("rw", world_rw);
} // namespace
