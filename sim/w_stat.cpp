// flavours: size
// World `stat`: one tuple driven through compile-time tokens and its twin driven
// through the run-time tokens of the schema, in lockstep, with exhausted buffers
// and injected allocation failures; both are compared with the reference model.
#include "life.hpp"
#include "model.hpp"
#include <cmath>
#include <cstddef>
#include <cstring>
#include <new>
#include <stdexcept>

using namespace fld;
using namespace sim;
namespace {
using fixed_t = fptu::tuple_rw_fixed;
using managed_t = fptu::tuple_rw_managed;

// one of each kind, twice: with and without a distinguishable absence
#define KINDS(X)                                                               \
  X(text, fptu::preplaced_string)                                              \
  X(varbin, fptu::preplaced_varbin)                                            \
  X(nested, fptu::preplaced_nested)                                            \
  X(property, fptu::preplaced_property)                                        \
  X(i64, int64_t)                                                              \
  X(f64, double)                                                               \
  X(t64, fptu::datetime_t)                                                     \
  X(ip, fptu::ip_address_t)                                                    \
  X(bin128, fptu::uuid_t)                                                      \
  X(bin96, fptu::binary96_t)                                                   \
  X(bin256, fptu::binary256_t)                                                 \
  X(i32, int32_t)                                                              \
  X(u32, uint32_t)                                                             \
  X(f32, float)                                                                \
  X(i16, int16_t)                                                              \
  X(i8, int8_t)                                                                \
  X(u8, uint8_t)

// another structure: narrow members first, other kinds, the null-able twin before the plain one
#define KINDS_B(X)                                                             \
  X(u8, uint8_t)                                                               \
  X(i8, int8_t)                                                                \
  X(u16, uint16_t)                                                             \
  X(mac, fptu::mac_address_t)                                                  \
  X(text, fptu::preplaced_string)                                              \
  X(bin160, fptu::binary160_t)                                                 \
  X(u64, uint64_t)                                                             \
  X(bin512, fptu::binary512_t)                                                 \
  X(bin192, fptu::binary192_t)                                                 \
  X(bin384, fptu::binary384_t)                                                 \
  X(varbin, fptu::preplaced_varbin)

#pragma pack(push, 1)
template <unsigned G> struct Pad {};
template <> struct Pad<fptu::text> { uint16_t rest; }; // a place of a variable sized value takes a unit
template <> struct Pad<fptu::varbin> { uint16_t rest; };
template <> struct Pad<fptu::nested> { uint16_t rest; };
template <> struct Pad<fptu::property> { uint16_t rest; };
struct Places {
#define X(G, C) C p_##G; [[no_unique_address]] Pad<fptu::G> pp_##G; C d_##G; [[no_unique_address]] Pad<fptu::G> dp_##G;
  KINDS(X)
#undef X
};
struct PlacesB {
#define X(G, C) C d_##G; [[no_unique_address]] Pad<fptu::G> dp_##G; C p_##G; [[no_unique_address]] Pad<fptu::G> pp_##G;
  KINDS_B(X)
#undef X
};
#pragma pack(pop)
template <class S, class C, C S::*P, size_t OFF, bool DISC> using Tok = fptu::details::token_native<S, C, P, OFF, DISC>;
bool layout_b;

template <class K> constexpr unsigned kind_of() { return unsigned(K::static_genus); }

// calls f(compile-time token) for the field number i
template <class F> void with(unsigned i, F &&f) {
  unsigned n = 0;
  if (layout_b) {
#define X(G, C)                                                                \
  if (i == n++) { f(Tok<PlacesB, C, &PlacesB::d_##G, offsetof(PlacesB, d_##G), true>()); return; } \
  if (i == n++) { f(Tok<PlacesB, C, &PlacesB::p_##G, offsetof(PlacesB, p_##G), false>()); return; }
    KINDS_B(X)
#undef X
    abort();
  }
#define X(G, C)                                                                \
  if (i == n++) { f(Tok<Places, C, &Places::p_##G, offsetof(Places, p_##G), false>()); return; } \
  if (i == n++) { f(Tok<Places, C, &Places::d_##G, offsetof(Places, d_##G), true>()); return; }
  KINDS(X)
#undef X
  abort();
}
#define X(G, C) + 2
enum { NPLACES_A = 0 KINDS(X), NPLACES_B = 0 KINDS_B(X) };
#undef X
#define NPLACES (layout_b ? unsigned(NPLACES_B) : unsigned(NPLACES_A))

// typed calls; K is a compile-time token or fptu::token
template <unsigned G, class T, class K> void assign(T &t, const K &k, const Val &v) {
#define P(G_, C, S) if constexpr (G == fptu::G_) { const C c = unpack<C>(v); LibScope L; t.set_##S(k, c); return; }
  SIM_PLAIN_GENERA(P)
#undef P
  if constexpr (G == fptu::t64) { auto d = fptu::datetime_t::from_fixedpoint_32dot32(unpack<uint64_t>(v)); LibScope L; t.set_datetime(k, d); }
  if constexpr (G == fptu::text) { fptu::string_view s(v.data(), v.size()); LibScope L; t.set_string(k, s); }
  if constexpr (G == fptu::varbin) { fptu::string_view s(v.data(), v.size()); LibScope L; t.set_varbinary(k, s); }
  if constexpr (G == fptu::property) { fptu::property_pair p(fptu::string_view(v.data() + 1, v.size() - 1), (unsigned char)v[0]); LibScope L; t.set_property(k, p); }
  if constexpr (G == fptu::nested) {
    std::vector<uint32_t> buf((v.size() + 3) / 4 + 1);
    if (!v.empty()) memcpy(buf.data(), v.data(), v.size());
    else buf[0] = 1;
    weak_of w((const fptu::details::tuple_ro *)buf.data());
    LibScope L;
    t.set_nested(k, w);
  }
}
template <unsigned G, class A> void assign_acc(A &a, const Val &v) {
#define P(G_, C, S) if constexpr (G == fptu::G_) { const C c = unpack<C>(v); LibScope L; a.set_##S(c); return; }
  SIM_PLAIN_GENERA(P)
#undef P
  if constexpr (G == fptu::t64) { auto d = fptu::datetime_t::from_fixedpoint_32dot32(unpack<uint64_t>(v)); LibScope L; a.set_datetime(d); }
  if constexpr (G == fptu::text) { fptu::string_view s(v.data(), v.size()); LibScope L; a.set_string(s); }
  if constexpr (G == fptu::varbin) { fptu::string_view s(v.data(), v.size()); LibScope L; a.set_varbinary(s); }
  if constexpr (G == fptu::property) { fptu::property_pair p(fptu::string_view(v.data() + 1, v.size() - 1), (unsigned char)v[0]); LibScope L; a.set_property(p); }
  if constexpr (G == fptu::nested) {
    std::vector<uint32_t> buf((v.size() + 3) / 4 + 1);
    if (!v.empty()) memcpy(buf.data(), v.data(), v.size());
    else buf[0] = 1;
    LibScope L;
    a.set_nested((const fptu::details::tuple_ro *)buf.data());
  }
}
template <unsigned G, class T, class K> Val fetch(const T &t, const K &k) {
  LibScope L;
#define P(G_, C, S) if constexpr (G == fptu::G_) { const C c = t.get_##S(k); HarnessScope H; return pack(c, value_size(G)); }
  SIM_PLAIN_GENERA(P)
#undef P
  if constexpr (G == fptu::t64) { auto d = t.get_datetime(k); HarnessScope H; return from_dt(G, d); }
  if constexpr (G == fptu::text) { auto s = t.get_string(k); HarnessScope H; return from_view(s); }
  if constexpr (G == fptu::varbin) { auto s = t.get_varbinary(k); HarnessScope H; return from_view(s); }
  if constexpr (G == fptu::nested) { auto w = t.get_nested_weak(k); HarnessScope H; return nested_bytes(w.get_impl()); }
  if constexpr (G == fptu::property) { auto p = t.get_property(k); HarnessScope H; return from_prop(p); }
  abort();
}

struct Stat {
  Model m;
  std::unique_ptr<fptu::schema> s;
  bool managed = false;
  std::unique_ptr<fixed_t> fx[2];
  std::unique_ptr<managed_t> mg[2];
  unsigned max_len = 40;
  string what;

  fixed_t &base(int i) { return managed ? static_cast<fixed_t &>(*mg[i]) : *fx[i]; }

  // class of the outcome: "" or the kind of error
  template <class F> string outcome(F &&f) {
    int saved = in_lib;
    try { f(); in_lib = saved; return ""; }
    catch (const fptu::insufficient_space &) { in_lib = saved; return "insufficient_space"; }
    catch (const std::bad_alloc &) { in_lib = saved; return "bad_alloc"; }
    catch (const fptu::field_absent &) { in_lib = saved; return "field_absent"; }
    catch (const fptu::type_mismatch &) { in_lib = saved; return "type_mismatch"; }
    catch (const fptu::value_out_of_range &) { in_lib = saved; return "value_range"; }
    catch (const fptu::collection_required &) { in_lib = saved; return "collection_required"; }
    catch (const fptu::collection_unallowed &) { in_lib = saved; return "collection_unallowed"; }
    catch (const std::exception &e) { in_lib = saved; return string("other: ") + e.what(); }
  }
  void same(const string &a, const string &b, bool lax = false) {
    if (lax && (a == "bad_alloc" || b == "bad_alloc")) return;
    CHECK(a == b, "c20.outcome", "%s: '%s' by the compile-time token, '%s' by the run-time token", what.c_str(), a.c_str(), b.c_str());
  }

  void create() {
    managed = choose(2);
    m.f.clear();
    {
      LibScope L;
      s = fptu::schema::create();
    }
    unsigned n = 0;
    auto add = [&](unsigned g, bool disc, size_t off, size_t size) {
      Field x;
      x.g = g;
      x.pre = true;
      x.disc = disc;
      x.coll = false;
      x.name = "f" + std::to_string(n++) + "." + gname(g) + ".pre" + (disc ? ".disc" : "");
      Val raw;
      if (!stretchy(g) && chance(1, 3)) {
        x.init_null = false;
        x.init = gen_value(g, choose(3) == 1 ? 1 : 0, 16);
        raw = x.init + Val(80, '\0');
      }
      {
        LibScope L;
        x.tok = s->define_preplaced(string(x.name), fptu::genus(g), disc, false, x.init_null ? nullptr : raw.data());
      }
      x.off = unsigned(x.tok.preplaced_offset());
      x.size = unsigned(x.tok.preplaced_size());
      CHECK(x.off == off && x.size == (stretchy(g) ? 4 : size), "c20.layout", "%s: the schema gives %u+%u, the structure %zu+%zu", x.name.c_str(), x.off, x.size, off, size);
      m.f.push_back(x);
    };
    layout_b = choose(3) == 2;
    if (layout_b) {
#define X(G, C) add(fptu::G, true, offsetof(PlacesB, d_##G), sizeof(PlacesB::d_##G)); add(fptu::G, false, offsetof(PlacesB, p_##G), sizeof(PlacesB::p_##G));
      KINDS_B(X)
#undef X
    } else {
#define X(G, C) add(fptu::G, false, offsetof(Places, p_##G), sizeof(Places::p_##G)); add(fptu::G, true, offsetof(Places, d_##G), sizeof(Places::d_##G));
      KINDS(X)
#undef X
    }
    for (unsigned i = 0; i < 3; ++i) { // company: ordinary fields
      Field x;
      x.g = i ? fptu::varbin : fptu::u64;
      x.pre = false;
      x.disc = choose(2);
      x.coll = i == 2;
      x.name = "x" + std::to_string(i);
      LibScope L;
      x.tok = s->define_loose(string(x.name), fptu::genus(x.g), x.coll, x.disc, false);
      HarnessScope H;
      m.f.push_back(x);
    }
    m.preplaced_units = unsigned(s->preplaced_units());
    m.preplaced_bytes = unsigned(s->preplaced_bytes());
    m.places.clear();
    m.place_field.clear();
    for (size_t i = 0; i < m.f.size(); ++i)
      if (m.f[i].pre) {
        m.places.push_back({m.f[i].g, m.f[i].off});
        m.place_field.push_back(unsigned(i));
      }
    m.reset();
    for (unsigned i = 0; i < NPLACES; ++i)
      with(i, [&](auto k) {
        using K = decltype(k);
        const fptu::token dyn(k);
        CHECK((dyn == m.f[i].tok || stretchy(m.f[i].g)) && k.type() == m.f[i].g && k.is_preplaced() && !k.is_loose() && !k.is_collection() && k.is_discernible_null() == m.f[i].disc &&
                  K::is_static_preplaced() && unsigned(k.preplaced_offset()) == m.f[i].off,
              "c20.token", "%s: the compile-time token differs from the one of the schema", m.f[i].name.c_str());
      });
    const unsigned it = choose(8), by = choose(4) ? choose(300) : choose(3000);
    if (chance(1, 6)) max_len = 700;
    note("create %s items=%u bytes=%u", managed ? "managed" : "fixed", it, by);
    for (int i = 0; i < 2; ++i) {
      LibScope L;
      if (managed) { auto *p = new managed_t(it, by, s.get()); HarnessScope H; mg[i].reset(p); }
      else { auto *p = new fixed_t(it, by, s.get()); HarnessScope H; fx[i].reset(p); }
    }
  }

  void compare(bool all) {
    heap_check("c20.heap-guard");
    for (int i = 0; i < 2; ++i) {
      const char *who = i ? "run-time" : "compile-time";
      const char *bad = [&] { LibScope L; return base(i).validate(); }();
      CHECK(!bad, "c20.validate", "%s (%s twin): %s", what.c_str(), who, bad);
      if (i && !all) break;
      string d = diff_content(base(i), m, 0);
      CHECK(d.empty(), "c20.content", "%s (%s twin): %s", what.c_str(), who, d.c_str());
    }
    if (!all) return;
    auto weak = [&] { LibScope L; return base(0).take_weak_asis(); }();
    string d = diff_content(weak, m, 0);
    CHECK(d.empty(), "c20.content-ro", "%s: %s", what.c_str(), d.c_str());
    for (unsigned i = 0; i < NPLACES; ++i)
      if (choose(3) == 0) look(i, weak);
    // the same area seen as the structure
    const auto *img = (const unsigned char *)weak.data();
    uint16_t idx;
    memcpy(&idx, img + 2, 2);
    idx >>= 3;
    if (layout_b) {
      const auto *p = (const PlacesB *)(img + 4 + 4 * size_t(idx));
      overlay(p->d_text, 8), overlay(p->p_text, 9), overlay(p->d_varbin, 20), overlay(p->p_varbin, 21);
      SIM_COUNT("chk.overlay");
      return;
    }
    const auto *p = (const Places *)(img + 4 + 4 * size_t(idx));
    overlay(p->p_text, 0), overlay(p->d_text, 1), overlay(p->p_varbin, 2), overlay(p->d_varbin, 3);
    overlay(p->p_property, 6), overlay(p->d_property, 7);
    SIM_COUNT("chk.overlay");
  }
  static Val bytes_of(const fptu::string_view &v) { return from_view(v); }
  static Val bytes_of(const fptu::property_pair &v) { return from_prop(v); }
  template <class V> void overlay(const V &v, unsigned i) {
    Val got, mild;
    string r = outcome([&] { LibScope L; auto x = v.value(); HarnessScope H; got = bytes_of(x); });
    { LibScope L; auto x = v.value_nothrow(); HarnessScope H; mild = bytes_of(x); }
    const auto &have = m.single[i];
    CHECK(r == (have ? "" : "field_absent") || (!have && r == "" && is_empty_value(m.f[i].g, got)), "c20.overlay", "%s: %s through the structure: '%s'", what.c_str(), m.f[i].name.c_str(), r.c_str());
    Val want = have ? *have : zero_value(m.f[i].g);
    if (r.empty()) CHECK(canon(m.f[i].g, got) == want, "c20.overlay", "%s: %s through the structure reads %s, expected %s", what.c_str(), m.f[i].name.c_str(), show(got).c_str(), show(want).c_str());
    CHECK(canon(m.f[i].g, mild) == want, "c20.overlay", "%s: %s through the structure reads %s, expected %s", what.c_str(), m.f[i].name.c_str(), show(mild).c_str(), show(want).c_str());
  }

  // all the ways to read the place i by its compile-time token
  template <class RO> void look(unsigned i, const RO &weak) {
    const Field &x = m.f[i];
    auto want = m.expect(i);
    with(i, [&](auto k) {
      using K = decltype(k);
      constexpr unsigned G = kind_of<K>();
      auto judge = [&](const char *how, const string &r, const Val &got) {
        if (want) CHECK(r.empty() && canon(x.g, got) == *want, "c20.read", "%s: %s %s: '%s' %s, expected %s", what.c_str(), x.name.c_str(), how, r.c_str(), show(got).c_str(), show(*want).c_str());
        else CHECK(r == "field_absent", "c20.read", "%s: %s %s: '%s' %s, expected an absent field", what.c_str(), x.name.c_str(), how, r.c_str(), show(got).c_str());
      };
      Val v;
      string r;
      r = outcome([&] { v = fetch<G>(weak, k); });
      judge("read from the taken form", r, v);
      r = outcome([&] { v = fetch<G>(base(0), k); });
      judge("read from the writable form", r, v);
      r = outcome([&] { auto a = [&] { LibScope L; return weak[k]; }(); auto o = read_any<G>(a); if (!o) fptu::throw_field_absent(); v = *o; });
      judge("read by an accessor", r, v);
      r = outcome([&] { auto a = [&] { LibScope L; return base(0)[k]; }(); auto o = read_any<G>(a); if (!o) fptu::throw_field_absent(); v = *o; });
      judge("read by a writable accessor", r, v);
      bool p0 = [&] { LibScope L; return base(0).is_present(k); }(), p1 = [&] { LibScope L; return weak.is_present(k); }();
      CHECK(p0 == m.present(i) && p1 == p0, "c20.presence", "%s: %s is told %s and %s", what.c_str(), x.name.c_str(), p0 ? "present" : "absent", p1 ? "present" : "absent");
      // another type is refused the same way
      string a, b;
      const unsigned w = choose(4);
      auto wrong = [&](auto &&t, const auto &kk) {
        LibScope L;
        if (w == 0) { if (G == fptu::i32) return; auto c = t.get_i32(kk); HarnessScope H; mix(c); }
        else if (w == 1) { if (G == fptu::text) return; auto c = t.get_string(kk); HarnessScope H; mix(c.length()); }
        else if (w == 2) { if (G == fptu::bin256) return; const auto &c = t.get_bin256(kk); HarnessScope H; mix(&c, 1); }
        else { auto c = t.collection(kk).empty(); HarnessScope H; mix(c); }
      };
      if (chance(1, 16)) {
        SIM_COUNT("fault.wrong_type_read");
        a = outcome([&] { wrong(weak, k); });
        b = outcome([&] { wrong(weak, x.tok); });
        same(a, b);
      }
    });
  }
  template <unsigned G, class A> static std::optional<Val> read_any(const A &a) {
    LibScope L;
    try {
#define P(G_, C, S) if constexpr (G == fptu::G_) { const C c = a.get_##S(); HarnessScope H; return pack(c, value_size(G)); }
      SIM_PLAIN_GENERA(P)
#undef P
      if constexpr (G == fptu::t64) { auto d = a.get_datetime(); HarnessScope H; return from_dt(G, d); }
      if constexpr (G == fptu::text) { auto s = a.get_string(); HarnessScope H; return from_view(s); }
      if constexpr (G == fptu::varbin) { auto s = a.get_varbinary(); HarnessScope H; return from_view(s); }
      if constexpr (G == fptu::nested) { auto w = a.get_nested(); HarnessScope H; return nested_bytes(w); }
      if constexpr (G == fptu::property) { auto p = a.get_property(); HarnessScope H; return from_prop(p); }
    } catch (const fptu::field_absent &) {
    }
    return std::nullopt;
  }

  void op_set() {
    const unsigned i = choose(4) ? choose(NPLACES) : choose(8);
    const Field &x = m.f[i];
    const unsigned st = choose(8);
    Val v = gen_value(x.g, st < 4 ? 0 : st < 6 ? 1 : 2, max_len);
    if (st == 5 && x.disc && !stretchy(x.g) && x.g != fptu::f32 && x.g != fptu::f64 && x.g != fptu::d64) v = denil_value(x.g);
    const bool acc = chance(1, 3), fault = managed && !acc && chance(1, 10);
    what = string("set ") + x.name + "=" + show(v) + (acc ? " by an accessor" : "") + (fault ? " (memory fails)" : "");
    note("%s", what.c_str());
    SIM_COUNT("op.set");
    const unsigned at = 1 + choose(2);
    string r[2];
    bool hit = false;
    with(i, [&](auto k) {
      constexpr unsigned G = kind_of<decltype(k)>();
      for (int round = 0; round < 2; ++round) { // the second one only after a memory failure
        for (int w = 0; w < 2; ++w) {
          alloc_faults = 0;
          if (fault && !round) arm_alloc_fault(at, 1);
          r[w] = outcome([&] {
            if (acc) {
              if (w == 0) { auto a = [&] { LibScope L; return base(0)[k]; }(); assign_acc<G>(a, v); }
              else { auto a = [&] { LibScope L; return base(1)[x.tok]; }(); assign_acc<G>(a, v); }
            } else if (managed) {
              if (w == 0) assign<G>(*mg[0], k, v);
              else assign<G>(*mg[1], x.tok, v);
            } else {
              if (w == 0) assign<G>(*fx[0], k, v);
              else assign<G>(*fx[1], x.tok, v);
            }
          });
          hit |= fault && alloc_faults;
          disarm_alloc_fault();
        }
        if (!round && hit && (r[0] == "bad_alloc" || r[1] == "bad_alloc")) {
          CHECK(r[0] == "" || r[0] == "bad_alloc", "c20.outcome", "%s: %s", what.c_str(), r[0].c_str());
          if (r[0].empty() != r[1].empty()) { // whichever got through: finish the other
            SIM_COUNT("probe.fault_hit_one_twin");
          }
          SIM_COUNT("probe.retry_after_memory_failure");
          continue;
        }
        break;
      }
    });
    same(r[0], r[1]);
    if (r[0].empty()) m.set(i, v);
    else {
      CHECK(r[0] == "insufficient_space" && !(managed && !acc), "c20.refused", "%s: %s", what.c_str(), r[0].c_str());
      CHECK(stretchy(x.g), "c20.refused", "%s: %s for a value which needs no room", what.c_str(), r[0].c_str());
      SIM_COUNT("fault.buffer_full");
    }
  }
  void op_erase() {
    const unsigned i = choose(4) ? choose(NPLACES) : choose(8);
    const Field &x = m.f[i];
    what = string("erase ") + x.name;
    note("%s", what.c_str());
    SIM_COUNT("op.erase");
    const bool look_at = choose(2);
    bool was[2] = {true, true};
    string r[2];
    with(i, [&](auto k) {
      r[0] = outcome([&] {
        LibScope L;
        // for a half of the places the whole program never looks at the answer
        if constexpr (decltype(k)::static_offset / 4 % 2) {
          if (managed) mg[0]->erase(k);
          else fx[0]->erase(k);
        } else {
          if (look_at) was[0] = managed ? mg[0]->erase(k) : fx[0]->erase(k);
          else if (managed) mg[0]->erase(k);
          else fx[0]->erase(k);
        }
      });
    });
    r[1] = outcome([&] {
      LibScope L;
      if (look_at) was[1] = managed ? mg[1]->erase(x.tok) : fx[1]->erase(x.tok);
      else if (managed) mg[1]->erase(x.tok);
      else fx[1]->erase(x.tok);
    });
    same(r[0], r[1]);
    if (r[0] == "insufficient_space" && !managed && stretchy(x.g)) { // no room to note the gap
      SIM_COUNT("fault.buffer_full");
      return;
    }
    CHECK(r[0].empty(), "c20.erase", "%s: %s", what.c_str(), r[0].c_str());
    if (x.off / 4 % 2 == 0)
      CHECK(was[0] == was[1], "c20.erase-result", "%s: %d by the compile-time token, %d by the run-time token", what.c_str(), was[0], was[1]);
    m.erase(i);
  }
  void op_wrong() { // a value of another type is refused, nothing changes
    const unsigned i = choose(NPLACES), w = choose(4);
    const Field &x = m.f[i];
    if ((w == 0 && x.g == fptu::i64) || (w == 1 && x.g == fptu::text) || (w == 2 && x.g == fptu::bin96) || (w == 3 && x.g == fptu::u8)) return;
    what = string("set a value of another type to ") + x.name;
    note("%s", what.c_str());
    SIM_COUNT("fault.wrong_type_write");
    auto go = [&](auto &t, const auto &k) {
      LibScope L;
      if (w == 0) t.set_i64(k, 5);
      else if (w == 1) t.set_string(k, fptu::string_view("abc", 3));
      else if (w == 2) t.set_bin96(k, fptu::binary96_t());
      else t.set_u8(k, 3);
    };
    string r[2];
    with(i, [&](auto k) { r[0] = outcome([&] { managed ? go(*mg[0], k) : go(*fx[0], k); }); });
    r[1] = outcome([&] { managed ? go(*mg[1], x.tok) : go(*fx[1], x.tok); });
    same(r[0], r[1]);
    CHECK(r[0] == "type_mismatch", "c20.wrong-type", "%s: '%s'", what.c_str(), r[0].c_str());
  }
  void op_company() { // ordinary fields come and go on both sides
    const size_t i = NPLACES + choose(3);
    const Field &x = m.f[i];
    const bool er = chance(1, 3);
    Val v = gen_value(x.g, choose(6) ? 0 : 1, max_len);
    what = (er ? "erase " : "put ") + x.name;
    note("%s %s", what.c_str(), er ? "" : show(v).c_str());
    string r[2];
    for (int w = 0; w < 2; ++w)
      r[w] = outcome([&] {
        if (er) { LibScope L; if (managed) mg[w]->erase(x.tok); else fx[w]->erase(x.tok); return; }
        if (managed) put(*mg[w], x.tok, x.g, v, x.coll ? How::insert : How::set);
        else put(*fx[w], x.tok, x.g, v, x.coll ? How::insert : How::set);
      });
    same(r[0], r[1]);
    if (!r[0].empty()) return;
    if (er) m.erase(i);
    else if (!x.coll) m.set(i, v);
    else if (m.insert_stores(i, v)) m.coll[i].push_back(canon(x.g, v));
  }
  void op_maintain() {
    const unsigned k = choose(3);
    what = k == 0 ? "optimize" : k == 1 ? "compactify" : "reset";
    note("%s", what.c_str());
    for (int w = 0; w < 2; ++w) {
      LibScope L;
      if (k == 0) base(w).optimize();
      else if (k == 1) base(w).compactify();
      else base(w).reset();
    }
    if (k == 2) m.reset();
  }

  void run() {
    create();
    what = "creation";
    compare(true);
    const unsigned steps = 3 + choose(40);
    for (unsigned n = 0; n < steps; ++n) {
      span();
      const unsigned w = choose(20);
      if (w < 9) op_set();
      else if (w < 14) op_erase();
      else if (w < 15) op_wrong();
      else if (w < 19) op_company();
      else op_maintain();
      compare(chance(1, 4));
      mix(m.hash());
      state(m.hash());
    }
    compare(true);
    LibScope L;
    for (int i = 0; i < 2; ++i) mg[i].reset(), fx[i].reset();
    s.reset();
  }
};
void world_stat() {
  heap_begin_run(sh->seed);
  {
    Stat w;
    w.run();
  }
  heap_check("c20.heap-guard");
  heap_end_run("c20.leak");
}
Register reg("stat", world_stat);
} // namespace
