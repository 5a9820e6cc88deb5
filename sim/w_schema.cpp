// flavours: plain asan
// Schema definition histories against a reference list of definitions (C13).
#include "model.hpp"
#include <map>
#include <set>
using namespace sim;
using namespace fld;
namespace {
const unsigned HOLE = 31;
unsigned place_size(unsigned g) {
  return stretchy(g) ? 4 : g == fptu::app_reserved_64 ? 8 : g == fptu::app_reserved_128 ? 16 : g == fptu::ipnet ? 20 : value_size(g);
}
struct Def {
  string name;
  bool pre = false, coll = false, disc = false, sat = false;
  unsigned g = 0, off = 0, size = 0, id = 0;
  bool same(const Def &b) const { return pre == b.pre && g == b.g && (pre ? off == b.off && size == b.size : id == b.id); }
  // order of tokens(): fixed places by offset first, then free ones by type and number
  std::tuple<int, unsigned, unsigned, unsigned> key() const {
    return pre ? std::make_tuple(0, off, g, size) : std::make_tuple(1, g, id, 0u);
  }
  bool operator<(const Def &b) const { return key() < b.key(); }
};
string show(const Def &d) {
  char b[128];
  if (d.pre) snprintf(b, sizeof b, "%s%s%s at %u+%u", d.g == HOLE ? "opaque" : gname(d.g), d.disc ? " null" : "", d.sat ? " sat" : "", d.off, d.size);
  else snprintf(b, sizeof b, "%s%s%s%s #%u", gname(d.g), d.coll ? "[]" : "", d.disc ? " null" : "", d.sat ? " sat" : "", d.id);
  return b;
}
Def describe(const token &t) {
  Def d;
  d.pre = t.is_preplaced();
  d.g = t.type();
  d.disc = t.is_discernible_null();
  d.sat = t.is_saturated();
  if (d.pre) {
    d.off = unsigned(t.preplaced_offset());
    d.size = unsigned(t.preplaced_size());
  } else {
    d.id = t.id();
    d.coll = t.is_collection();
  }
  return d;
}
bool equal(const Def &a, const Def &b) { return a.same(b) && a.coll == b.coll && a.disc == b.disc && a.sat == b.sat; }

enum Why { FINE, BAD_ARGUMENT, BAD_DEFINITION, NO_MEMORY, OTHER };
const char *whyname[] = {"success", "invalid_argument", "schema_definition_error", "bad_alloc", "another error"};

struct Sch {
  std::unique_ptr<fptu::schema> s;
  std::vector<Def> defs; // sorted
  string image;
  ~Sch() {
    LibScope L;
    s.reset();
  }
  const Def *by_name(const string &n) const {
    for (auto &d : defs) if (d.name == n) return &d;
    return nullptr;
  }
  Why judge(const Def &d) const {
    if (d.name.size() > 42) return BAD_ARGUMENT;
    if (by_name(d.name)) return BAD_DEFINITION;
    for (auto &x : defs) {
      if (x.same(d)) return BAD_DEFINITION;
      if (!d.pre || !x.pre) continue;
      if (d.off + d.size <= x.off || x.off + x.size <= d.off) continue;
      if (d.g != HOLE && x.g != HOLE) return BAD_DEFINITION;
      bool in = d.off >= x.off && d.off + d.size <= x.off + x.size, out = x.off >= d.off && x.off + x.size <= d.off + d.size;
      if (!in && !out) return BAD_DEFINITION;
    }
    return FINE;
  }
  void add(const Def &d, const string *init) {
    defs.insert(std::upper_bound(defs.begin(), defs.end(), d), d);
    if (!d.pre) return;
    if (image.size() < d.off + d.size) image.resize(d.off + d.size, '\0');
    if (init) image.replace(d.off, d.size, *init);
    else if (d.g != HOLE) { // an opaque area leaves what lies in it
      Val z(d.size, '\0');
      if (d.disc && !stretchy(d.g)) { Val n = denil_value(d.g); n.resize(d.size, '\0'); z = n; }
      image.replace(d.off, d.size, z);
    }
  }
  unsigned next_id(unsigned g) const {
    unsigned r = 0;
    for (auto &d : defs) if (!d.pre && d.g == g) r = std::max(r, d.id + 1);
    return r;
  }
};

struct World {
  Sch sch[2];
  unsigned nnames = 0;
  std::vector<unsigned> kinds;

  string some_name(const Sch &s) {
    unsigned w = choose(20);
    if (w == 0 && !s.defs.empty()) return s.defs[choose(unsigned(s.defs.size()))].name; // collision
    if (w == 1) return string(43 + choose(40), 'x');
    if (w == 2) return "";
    if (w == 3) { // near collision: a prefix, an extension or one bit apart
      string n = s.defs.empty() ? "n" : s.defs[choose(unsigned(s.defs.size()))].name;
      if (choose(2) && !n.empty()) { if (choose(2)) n.pop_back(); else n[choose(unsigned(n.size()))] ^= char(1 << choose(8)); }
      else n.push_back(char(choose(4)));
      return n;
    }
    string n = "f" + std::to_string(nnames++);
    if (w < 8) n += string(choose(43 - unsigned(n.size())), char('a' + choose(26)));
    if (w == 8) n.push_back('\0');
    return n;
  }
  unsigned some_kind() { return choose(12) ? kinds[choose(unsigned(kinds.size()))] : choose(31); }
  string some_init(const Def &d) {
    string v(d.size, '\0');
    if (stretchy(d.g)) return v; // a reference to nothing
    for (auto &c : v) c = char(choose(256));
    return v;
  }

  template <class F> Why attempt(F &&f, bool fault, bool &fired) {
    if (fault) arm_alloc_fault(1 + choose(9), 1 + choose(2));
    Why r;
    try {
      LibScope L;
      f();
      r = FINE;
    } catch (const fptu::schema_definition_error &) { r = BAD_DEFINITION;
    } catch (const std::invalid_argument &) { r = BAD_ARGUMENT;
    } catch (const std::bad_alloc &) { r = NO_MEMORY;
    } catch (...) { r = OTHER; }
    set_in_lib(0);
    disarm_alloc_fault();
    fired = fault && alloc_faults;
    return r;
  }

  // runs one definition, repeats it after an injected failure
  template <class F> void define(Sch &s, const string &what, const Def &want, Why expect, const string *init, F &&f) {
    const bool fault = chance(1, 6);
    note("%s \"%s\": %s%s%s", what.c_str(), want.name.c_str(), show(want).c_str(), init ? " with a value" : "", fault ? " (memory fails)" : "");
    for (unsigned k = 0;; ++k) {
      bool fired = false;
      token t;
      Why r = attempt([&] { t = f(); }, fault && !k, fired);
      if (r == NO_MEMORY && fired) {
        SIM_COUNT("fault.no_memory");
        audit(s, "after a definition that ran out of memory", true);
        continue;
      }
      if (expect == OTHER) { // may be accepted or refused
        if (r != FINE) return;
      } else
        CHECK(r == expect, "c13.verdict", "%s of \"%s\" (%s): %s instead of %s", what.c_str(), want.name.c_str(), show(want).c_str(), whyname[r], whyname[expect]);
      if (r != FINE) { SIM_COUNT("fault.bad_definition"); return; }
      Def got = describe(t);
      CHECK(equal(got, want), "c13.token", "%s of \"%s\" returned %s instead of %s", what.c_str(), want.name.c_str(), show(got).c_str(), show(want).c_str());
      s.add(want, init);
      SIM_COUNT("op.defined");
      return;
    }
  }
  static void lib_string(std::string &dst, const string &src) {
    LibScope L;
    dst.assign(src.data(), src.size());
  }

  void step(Sch &s, Sch &other) {
    span();
    Def d;
    d.name = some_name(s);
    d.g = some_kind();
    d.disc = choose(2);
    d.sat = choose(2);
    std::string nm;
    const auto name = [&]() -> std::string && {
      HarnessScope H;
      nm = d.name;
      return std::move(nm);
    };
    switch (choose(10)) {
    case 0: case 1: case 2: { // fixed place
      d.pre = true;
      if (chance(1, 30)) {
        d.g = HOLE + choose(3);
        note("preplaced of a forbidden type");
        bool fired;
        Why r = attempt([&] { s.s->define_preplaced(name(), fptu::genus(d.g), d.disc, d.sat, nullptr); }, false, fired);
        CHECK(r == BAD_ARGUMENT, "c13.verdict", "a fixed field of type %u: %s", d.g, whyname[r]);
        return;
      }
      d.size = place_size(d.g);
      unsigned al = std::min(d.size, 4u);
      d.off = unsigned(s.image.size() + al - 1) / al * al;
      Why e = d.off > fptu::details::max_preplaced_offset ? BAD_DEFINITION : s.judge(d);
      const bool init = choose(2);
      string v = some_init(d);
      const bool helper = !init && choose(2);
      define(s, "fixed", d, e, init ? &v : nullptr, [&] {
        return helper ? s.s->define_field(true, name(), fptu::genus(d.g), d.disc, d.sat) : s.s->define_preplaced(name(), fptu::genus(d.g), d.disc, d.sat, init ? v.data() : nullptr);
      });
      return;
    }
    case 3: case 4: case 5: { // free
      if (chance(1, 30)) {
        d.g = HOLE + choose(3);
        note("loose of a forbidden type");
        bool fired;
        Why r = attempt([&] { s.s->define_loose(name(), fptu::genus(d.g), false, d.disc, d.sat); }, false, fired);
        CHECK(r == BAD_ARGUMENT, "c13.verdict", "a free field of type %u: %s", d.g, whyname[r]);
        return;
      }
      d.coll = choose(2);
      d.id = s.next_id(d.g);
      const bool helper = choose(2);
      Why e = d.name.size() > 42 && d.id >= 1024 ? OTHER : d.id >= 1024 ? BAD_DEFINITION : s.judge(d);
      define(s, "free", d, e, nullptr, [&] {
        return !helper ? s.s->define_loose(name(), fptu::genus(d.g), d.coll, d.disc, d.sat)
               : d.coll ? s.s->define_collection(name(), fptu::genus(d.g), d.disc, d.sat) : s.s->define_field(false, name(), fptu::genus(d.g), d.disc, d.sat);
      });
      return;
    }
    case 6: { // opaque structure
      d.pre = true;
      d.g = HOLE;
      d.disc = d.sat = false;
      d.size = chance(1, 12) ? (choose(2) ? 0 : 2046 + choose(4)) : 1 + choose(40);
      unsigned al = choose(2) ? 0 : chance(1, 8) ? choose(40) : 1u << choose(4);
      unsigned eff = al ? al : std::min(d.size, 4u);
      Why e = FINE;
      if (d.size == 0 || d.size >= 2047 || al >= 16) e = BAD_ARGUMENT;
      else if (al && (al & (al - 1))) e = BAD_ARGUMENT;
      else if (!al && (eff & (eff - 1))) e = OTHER; // three bytes: no power of two
      if (e == OTHER) eff = 4;
      if (e != BAD_ARGUMENT) {
        d.off = unsigned(s.image.size() + eff - 1) / eff * eff;
        Why e2 = d.off > fptu::details::max_preplaced_offset ? BAD_DEFINITION : s.judge(d);
        if (e2 != FINE) e = e2;
      }
      const bool init = choose(2);
      string v = some_init(d);
      if (e == OTHER) return;
      define(s, "opaque", d, e, init ? &v : nullptr, [&] { return s.s->define_preplaced_fixed_opacity(name(), d.size, al, init ? v.data() : nullptr); });
      return;
    }
    case 7: case 8: { // import
      token t;
      bool init = false;
      const bool renom = choose(2);
      if (choose(2) && !other.defs.empty()) { // of a token of the other schema
        const Def &o = other.defs[choose(unsigned(other.defs.size()))];
        string n = d.name;
        d = o;
        if (choose(2)) d.name = n;
        auto &toks = other.s->tokens();
        for (auto &x : toks) if (equal(describe(x), o)) t = x;
      } else if (choose(2)) { // of a fixed place made up
        d.pre = true;
        d.size = place_size(d.g);
        unsigned al = std::min(d.size, 4u);
        d.off = choose(unsigned(s.image.size() + 24)) / al * al;
        if (chance(1, 20) || d.off > fptu::details::max_preplaced_offset) d.off = fptu::details::max_preplaced_offset / al * al;
        t = token(ptrdiff_t(d.off), fptu::genus(d.g), d.disc, d.sat);
      } else {
        d.coll = choose(2);
        d.id = choose(4) ? choose(12) : choose(2048);
        t = token(fptu::genus(d.g), d.id, d.coll, d.disc, d.sat);
      }
      if (chance(1, 25)) { // no field at all
        note("import of nothing");
        bool fired;
        Why r = attempt([&] { s.s->import_definition(name(), token(), nullptr, renom); }, false, fired);
        CHECK(r == BAD_ARGUMENT || r == BAD_DEFINITION, "c13.verdict", "import of an invalid token: %s", whyname[r]);
        return;
      }
      Why e;
      if (renom) {
        if (d.pre && d.g == HOLE) e = BAD_DEFINITION;
        else if (d.pre) {
          unsigned al = std::min(d.size, 4u);
          d.off = unsigned(s.image.size() + al - 1) / al * al;
          e = d.off > fptu::details::max_preplaced_offset ? BAD_DEFINITION : s.judge(d);
        } else {
          d.id = s.next_id(d.g);
          e = d.id >= 1024 ? (d.name.size() > 42 ? OTHER : BAD_DEFINITION) : s.judge(d);
        }
      } else e = s.judge(d);
      init = d.pre && choose(2);
      string v = some_init(d);
      define(s, renom ? "import anew" : "import", d, e, init ? &v : nullptr, [&] { return s.s->import_definition(name(), t, init ? v.data() : nullptr, renom); });
      SIM_COUNT("op.import");
      return;
    }
    case 9: // merge of a whole schema
      if (chance(1, 3)) {
        note("merge");
        auto all = other.defs;
        for (auto &o : all) {
          token t;
          for (auto &x : other.s->tokens()) if (equal(describe(x), o)) t = x;
          string v;
          if (o.pre) v = other.image.substr(o.off, o.size);
          d = o;
          Why e = s.judge(o);
          define(s, "merge", o, e, o.pre ? &v : nullptr, [&] { return s.s->import_definition(name(), t, o.pre ? v.data() : nullptr, false); });
        }
        SIM_COUNT("op.merge");
      }
      return;
    }
  }

  void audit(Sch &s, const char *ctx, bool deep) {
    const fptu::schema &q = *s.s;
    const auto &toks = q.tokens();
    CHECK(toks.size() == s.defs.size(), "c13.size", "%s: %zu definitions, expected %zu", ctx, toks.size(), s.defs.size());
    unsigned pre = 0, st = 0;
    for (size_t i = 0; i < toks.size(); ++i) {
      Def d = describe(toks[i]);
      CHECK(equal(d, s.defs[i]), "c13.tokens", "%s: definition %zu is %s, expected %s", ctx, i, show(d).c_str(), show(s.defs[i]).c_str());
      pre += d.pre;
      st += d.pre && stretchy(d.g);
    }
    CHECK(q.number_of_preplaced() == pre && q.number_of_stretchy_preplaced() == st && q.have_preplaced() == (pre > 0) && q.have_stretchy_preplaced() == (st > 0), "c13.count",
          "%s: %zu fixed fields of which %zu stretchy, expected %u and %u", ctx, q.number_of_preplaced(), q.number_of_stretchy_preplaced(), pre, st);
    CHECK(q.preplaced_bytes() == s.image.size(), "c13.image", "%s: the fixed area is %zu bytes, expected %zu", ctx, q.preplaced_bytes(), s.image.size());
    for (size_t i = 0; i < s.image.size(); ++i)
      CHECK(((const char *)q.preplaced_init_image())[i] == s.image[i], "c13.image", "%s: byte %zu of the initial values is %02x, expected %02x", ctx, i, (unsigned char)((const char *)q.preplaced_init_image())[i], (unsigned char)s.image[i]);
    // both directions of the dictionary
    const size_t n = s.defs.size();
    for (size_t k = 0; k < n; ++k) {
      if (!deep && n > 8 && !chance(1, 4)) continue;
      const Def &d = s.defs[k];
      token t;
      string back;
      bool nil;
      const bool fault = deep && chance(1, 8);
      if (fault) arm_alloc_fault(1, 1);
      {
        LibScope L;
        t = q.get_token_nothrow(fptu::string_view(d.name.data(), d.name.size()));
        auto nm = q.get_name_nothrow(t);
        nil = nm.nil();
        HarnessScope H;
        if (!nil) back.assign(nm.data(), nm.size());
      }
      disarm_alloc_fault();
      CHECK(t.is_valid() && equal(describe(t), d), "c13.name-token", "%s: \"%s\" is %s, expected %s", ctx, d.name.c_str(), t.is_valid() ? show(describe(t)).c_str() : "unknown", show(d).c_str());
      CHECK(!nil && back == d.name, "c13.token-name", "%s: %s is named \"%s\", expected \"%s\"", ctx, show(d).c_str(), nil ? "(nothing)" : back.c_str(), d.name.c_str());
      // flags asked for differently do not change the identity
      auto opt = fptu::schema::boolean_option(choose(3)), opt2 = fptu::schema::boolean_option(choose(3));
      token t2;
      string b2;
      {
        LibScope L;
        t2 = q.get_token(fptu::string_view(d.name.data(), d.name.size()), opt, opt2);
        auto nm = q.get_name(t2);
        HarnessScope H;
        b2.assign(nm.data(), nm.size());
      }
      Def w = d;
      if (opt != fptu::schema::boolean_option::option_default) w.disc = opt == fptu::schema::boolean_option::option_enforce_true;
      if (opt2 != fptu::schema::boolean_option::option_default) w.sat = opt2 == fptu::schema::boolean_option::option_enforce_true;
      CHECK(equal(describe(t2), w) && b2 == d.name, "c13.name-token", "%s: \"%s\" with options is %s, expected %s", ctx, d.name.c_str(), show(describe(t2)).c_str(), show(w).c_str());
    }
    SIM_COUNT("chk.dictionary");
    // what is not there
    for (unsigned k = 0; k < 3; ++k) {
      string nm = some_name(s);
      if (s.by_name(nm)) continue;
      token t;
      bool threw = false;
      try {
        LibScope L;
        t = q.get_token_nothrow(fptu::string_view(nm.data(), nm.size()));
        q.get_token(fptu::string_view(nm.data(), nm.size()));
      } catch (const fptu::schema_no_such_field &) { threw = true; }
      set_in_lib(0);
      CHECK(!t.is_valid() && threw, "c13.ghost", "%s: a name never defined is found", ctx);
      Def d;
      d.g = choose(31);
      d.id = choose(2048);
      bool have = false;
      for (auto &x : s.defs) have |= x.same(d);
      if (have) continue;
      token ask(fptu::genus(d.g), d.id, choose(2), choose(2), choose(2));
      threw = false;
      bool nil = false;
      try {
        LibScope L;
        nil = q.get_name_nothrow(ask).nil();
        q.get_name(ask);
      } catch (const fptu::schema_no_such_field &) { threw = true; }
      set_in_lib(0);
      CHECK(nil && threw, "c13.ghost", "%s: a field never defined (%s) has a name", ctx, show(d).c_str());
    }
    // lookup by descriptor and by place
    for (unsigned k = 0; k < (deep ? 12u : 4u); ++k) {
      Def d;
      if (choose(2) && n) d = s.defs[choose(unsigned(n))];
      if (d.pre || d.name.empty()) { d.g = some_kind(); d.id = choose(3) ? choose(10) : choose(2048); }
      uint32_t raw = (uint32_t(d.g) << 11 | d.id) << 16; // descriptor of a loose field
      token t;
      {
        LibScope L;
        t = q.by_loose(reinterpret_cast<const fptu::details::field_loose *>(&raw));
      }
      const Def *want = nullptr;
      for (auto &x : s.defs) if (!x.pre && x.g == d.g && x.id == d.id) want = &x;
      CHECK(t.is_valid() == !!want && (!want || equal(describe(t), *want)), "c13.by-descriptor", "%s: %s#%u gives %s, expected %s", ctx, gname(d.g), d.id,
            t.is_valid() ? show(describe(t)).c_str() : "nothing", want ? show(*want).c_str() : "nothing");
      const ptrdiff_t off = chance(1, 10) ? (choose(2) ? 1 : -1) * ptrdiff_t(bits64() >> (1 + choose(63))) : ptrdiff_t(choose(unsigned(s.image.size() + 4))) - 2;
      token a, b, c;
      {
        LibScope L;
        a = q.by_offset(off);
        b = q.next_by_offset(off);
        c = q.prev_by_offset(off);
      }
      bool at = false;
      const Def *nx = nullptr, *pv = nullptr;
      for (auto &x : s.defs) {
        if (!x.pre) continue;
        if (ptrdiff_t(x.off) == off) at = true;
        if (ptrdiff_t(x.off) > off && !nx) nx = &x;
        if (ptrdiff_t(x.off) < off) pv = &x;
      }
      CHECK(a.is_valid() == at && (!at || a.preplaced_offset() == off), "c13.by-place", "%s: place %td gives %s", ctx, off, a.is_valid() ? show(describe(a)).c_str() : "nothing");
      if (off >= 0 && off < ptrdiff_t(s.image.size()))
        CHECK(b.is_valid() == !!nx && (!nx || unsigned(b.preplaced_offset()) == nx->off), "c13.by-place", "%s: after place %td comes %s, expected %s", ctx, off, b.is_valid() ? show(describe(b)).c_str() : "nothing", nx ? show(*nx).c_str() : "nothing");
      if (off > 0 && off <= ptrdiff_t(s.image.size()))
        CHECK(c.is_valid() == !!pv && (!pv || unsigned(c.preplaced_offset()) == pv->off), "c13.by-place", "%s: before place %td comes %s, expected %s", ctx, off, c.is_valid() ? show(describe(c)).c_str() : "nothing", pv ? show(*pv).c_str() : "nothing");
    }
    SIM_COUNT("chk.lookup");
  }

  // a tuple made by the schema starts with exactly the initial values
  void tuple(Sch &s) {
    span();
    note("tuple by the schema");
    for (auto &d : s.defs) {
      if (d.pre && (d.off % std::min(d.size, 4u))) return;
      // the value of an opaque area may have put garbage over references inside it
      if (d.pre && stretchy(d.g) && s.image.substr(d.off, d.size) != Val(d.size, '\0')) return;
    }
    std::unique_ptr<fptu::tuple_rw_fixed> t;
    {
      LibScope L;
      t.reset(new fptu::tuple_rw_fixed(choose(9), choose(200), s.s.get()));
    }
    for (unsigned round = 0; round < 2; ++round) {
      for (size_t i = 0; i < s.defs.size(); ++i) {
        const Def &d = s.defs[i];
        if (!d.pre || d.g == HOLE || d.g == 26 || d.g == 27) continue;
        token k;
        for (auto &x : s.s->tokens()) if (equal(describe(x), d)) k = x;
        std::optional<Val> got;
        got = read(*t, k, d.g);
        std::optional<Val> want;
        if (stretchy(d.g)) { if (!d.disc) want = Val(); }
        else {
          want = s.image.substr(d.off, value_size(d.g));
          Val nn = denil_value(d.g);
          if (d.disc && *want == nn) want.reset();
        }
        if (got && want && stretchy(d.g)) CHECK(canon(d.g, *got) == canon(d.g, *want) || is_empty_value(d.g, *got), "c13.initial", "\"%s\" starts as %s", d.name.c_str(), fld::show(got).c_str());
        else if (d.g == fptu::d64 || d.g == fptu::f32 || d.g == fptu::f64 || d.g == fptu::ipnet || d.g == fptu::ip) continue; // several spellings of one value
        else CHECK(got == want, "c13.initial", "\"%s\" (%s) starts as %s, expected %s", d.name.c_str(), show(d).c_str(), fld::show(got).c_str(), fld::show(want).c_str());
      }
      const char *bad;
      size_t fields = 0;
      {
        LibScope L;
        bad = t->validate();
        for (auto i = t->cbegin(); i != t->cend() && fields < 5000; ++i) ++fields;
      }
      CHECK(!bad, "c13.tuple", "a fresh tuple by the schema is not valid: %s", bad);
      CHECK(fields <= s.defs.size(), "c13.tuple", "a fresh tuple yields %zu fields with %zu defined", fields, s.defs.size());
      LibScope L;
      t->reset();
    }
    LibScope L;
    t.reset();
    SIM_COUNT("chk.tuple");
  }

  void run() {
    unsigned nk = 1 + choose(6);
    for (unsigned i = 0; i < nk; ++i) kinds.push_back(choose(31));
    for (auto &s : sch) {
      LibScope L;
      s.s = fptu::schema::create();
    }
    const unsigned steps = 3 + choose(chance(1, 12) ? 200 : 30);
    for (unsigned i = 0; i < steps; ++i) {
      const unsigned w = choose(4) == 0;
      Sch &s = sch[w];
      step(s, sch[1 - w]);
      audit(s, "after the last call", chance(1, 5));
      if (chance(1, 8)) tuple(s);
      heap_check("c13.overrun");
      uint64_t h = s.defs.size();
      for (auto &d : s.defs) h = h * 31 + d.g * 7 + d.off * 131 + d.id * 17 + d.pre;
      state(h);
    }
    if (chance(1, 150)) exhaust(sch[0]);
    tuple(sch[0]);
  }
  // up to the limits of the format
  void exhaust(Sch &s) {
    span();
    const bool pre = choose(2);
    note("until nothing fits");
    SIM_COUNT("probe.exhaust");
    Def d;
    d.g = pre ? unsigned(fptu::bin512) : kinds[0];
    for (unsigned k = 0; k < 1100; ++k) {
      d.name = "x" + std::to_string(k);
      if (s.by_name(d.name)) continue;
      d.pre = pre;
      std::string nm = d.name;
      if (pre) {
        d.size = 64;
        d.off = unsigned(s.image.size() + 3) / 4 * 4;
        if (d.off > fptu::details::max_preplaced_offset) {
          define(s, "fixed", d, BAD_DEFINITION, nullptr, [&] { return s.s->define_preplaced(std::move(nm), fptu::bin512); });
          break;
        }
        define(s, "fixed", d, s.judge(d), nullptr, [&] { HarnessScope H; nm = d.name; return s.s->define_preplaced(std::move(nm), fptu::bin512); });
      } else {
        d.id = s.next_id(d.g);
        Why e = d.id >= 1024 ? BAD_DEFINITION : s.judge(d);
        define(s, "free", d, e, nullptr, [&] { HarnessScope H; nm = d.name; return s.s->define_loose(std::move(nm), fptu::genus(d.g)); });
        if (e != FINE) break;
      }
    }
    audit(s, "at the limit", true);
  }
};

void world() {
  heap_begin_run(sh->seed);
  {
    World w;
    w.run();
  }
  heap_end_run("c13.leak");
}
Register r("schema", world);
} // namespace
