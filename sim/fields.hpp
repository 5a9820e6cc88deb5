// Typed access by run-time genus with values as canonical byte strings, plus the
// independent decoder of a serialized tuple (written from the format description,
// shares no code with the library).
#pragma once
#include "core.hpp"
#include "fast_positive/tuples.h"
#include <optional>
#include <string>
#include <vector>

namespace fld {
using fptu::genus;
using fptu::token;
using Val = std::string;
using std::string;

//            genus   C type                suffix
#define SIM_PLAIN_GENERA(X)                                                    \
  X(i8, int8_t, i8)                                                            \
  X(u8, uint8_t, u8)                                                           \
  X(i16, int16_t, i16)                                                         \
  X(u16, uint16_t, u16)                                                        \
  X(i32, int32_t, i32)                                                         \
  X(u32, uint32_t, u32)                                                        \
  X(f32, float, f32)                                                           \
  X(i64, int64_t, i64)                                                         \
  X(u64, uint64_t, u64)                                                        \
  X(f64, double, f64)                                                          \
  X(d64, fptu::decimal64, decimal)                                             \
  X(bin96, fptu::binary96_t, bin96)                                            \
  X(bin128, fptu::binary128_t, bin128)                                         \
  X(bin160, fptu::binary160_t, bin160)                                         \
  X(bin192, fptu::binary192_t, bin192)                                         \
  X(bin224, fptu::binary224_t, bin224)                                         \
  X(bin256, fptu::binary256_t, bin256)                                         \
  X(bin320, fptu::binary320_t, bin320)                                         \
  X(bin384, fptu::binary384_t, bin384)                                         \
  X(bin512, fptu::binary512_t, bin512)                                         \
  X(mac, fptu::mac_address_t, mac_address)                                     \
  X(ip, fptu::ip_address_t, ip_address)                                        \
  X(ipnet, fptu::ip_net_t, ip_net)

// canonical value size of fixed genera (0 for stretchy)
inline unsigned value_size(unsigned g) {
  switch (g) {
  case fptu::i8: case fptu::u8: return 1;
  case fptu::i16: case fptu::u16: return 2;
  case fptu::i32: case fptu::u32: case fptu::f32: case fptu::t32: return 4;
  case fptu::i64: case fptu::u64: case fptu::f64: case fptu::d64: case fptu::t64: case fptu::mac: return 8;
  case fptu::bin96: return 12;
  case fptu::bin128: return 16;
  case fptu::bin160: return 20;
  case fptu::bin192: return 24;
  case fptu::bin224: return 28;
  case fptu::bin256: return 32;
  case fptu::bin320: return 40;
  case fptu::bin384: return 48;
  case fptu::bin512: return 64;
  case fptu::ip: return 16;
  case fptu::ipnet: return 17;
  default: return 0;
  }
}
inline bool stretchy(unsigned g) { return g <= 3; }
inline bool inplaced(unsigned g) { return g >= 4 && g <= 7; }
inline const char *gname(unsigned g) {
  static const char *n[32] = {"text","varbin","nested","property","i8","u8","i16","u16","i32","u32","f32","t32","i64","u64","f64","d64","t64","bin96","bin128","bin160","bin192","bin224","bin256","bin320","bin384","bin512","app64","app128","mac","ip","ipnet","hole"};
  return n[g & 31];
}
// payload units of a stored value (loose or stretchy preplaced)
inline unsigned value_units(unsigned g, const Val &v) {
  switch (g) {
  case fptu::text:
    return unsigned((v.size() + (v.size() < 254 ? 1 : 3) + 3) / 4);
  case fptu::varbin:
    return unsigned((v.size() + 3) / 4 + 1);
  case fptu::nested:
    return v.size() < 4 ? 1 : unsigned(v.size() / 4);
  case fptu::property:
    return unsigned((v.size() - 1 + 2 + 3) / 4);
  case fptu::i8: case fptu::u8: case fptu::i16: case fptu::u16: return 0;
  default:
    return (value_size(g) + 3) / 4;
  }
}
inline Val zero_value(unsigned g) { // value read for an absent non-null field
  if (g == fptu::property) return Val(1, '\0');
  if (g == fptu::nested) return Val();
  return Val(value_size(g), '\0');
}
// binary integer decimal: every zero (whatever its exponent) is the same value
inline bool d64_zero(const Val &v) {
  uint64_t b;
  memcpy(&b, v.data(), 8);
  return ((b >> 61) & 3) != 3 && (b & ((uint64_t(1) << 53) - 1)) == 0;
}
inline bool is_empty_value(unsigned g, const Val &v) {
  if (g == fptu::text || g == fptu::varbin) return v.empty();
  if (g == fptu::nested) return v.size() < 8; // only a header
  if (g == fptu::property) return v.size() == 1 && v[0] == 0;
  if (g == fptu::f32 || g == fptu::f64) { // minus zero counts as zero
    Val t = v;
    t.back() = char(t.back() & 0x7f);
    return t == Val(t.size(), '\0');
  }
  if (g == fptu::d64) return d64_zero(v);
  return v == Val(v.size(), '\0');
}
inline Val denil_value(unsigned g) {
  unsigned n = value_size(g);
  switch (g) {
  case fptu::i8: case fptu::i16: case fptu::i32: case fptu::i64: {
    Val v(n, '\0');
    v[n - 1] = char(0x80);
    return v;
  }
  case fptu::f32: case fptu::f64: case fptu::d64: return Val(n, char(0xff));
  default: return Val(n, '\0');
  }
}

template <class T> T unpack(const Val &v) {
  T t;
  memset((void *)&t, 0, sizeof t);
  memcpy((void *)&t, v.data(), std::min(sizeof t, v.size()));
  return t;
}
template <class T> Val pack(const T &t, size_t n) {
  return Val((const char *)&t, std::min(n, sizeof t)) + Val(n > sizeof t ? n - sizeof t : 0, '\0');
}

inline Val nested_bytes(const void *p) {
  if (!p) return Val();
  uint16_t u;
  memcpy(&u, p, 2);
  return Val((const char *)p, size_t(u) * 4);
}

enum class How { set, insert };
struct weak_of : fptu::tuple_ro_weak { explicit weak_of(const fptu::details::tuple_ro *p) : fptu::tuple_ro_weak(p) {} };

struct NoPlace { template <class I> void operator()(const I &) const {} };
// tuple-level set/insert; T is tuple_rw_fixed or tuple_rw_managed; `place` gets the iterator an insertion returns
template <class T, class F = NoPlace> void put(T &t, const token &k, unsigned g, const Val &v, How how, F place = F()) {
  // the same by another name
#define SIM_ALIAS(NAME, VALUE)                                                 \
  {                                                                            \
    const auto alias_ = VALUE;                                                 \
    sim::LibScope L_;                                                          \
    if (how == How::set) t.set_##NAME(k, alias_); else place(t.insert_##NAME(k, alias_)); \
    return;                                                                    \
  }
  if (k.type() == g && (g == fptu::text || g == fptu::bin128 || g == fptu::i8 || g == fptu::i16) && sim::chance(1, 5)) {
    switch (g) {
    case fptu::text: SIM_ALIAS(string, std::string(v))
    case fptu::i8: if ((unsigned char)v[0] > 1) break; SIM_ALIAS(bool, v[0] != 0)
    case fptu::i16: SIM_ALIAS(enum, unpack<short>(v))
    case fptu::bin128:
      switch (sim::choose(3)) {
      case 0: SIM_ALIAS(uuid, unpack<fptu::uuid_t>(v))
      case 1: SIM_ALIAS(int128, unpack<fptu::int128_t>(v))
      default: SIM_ALIAS(uint128, unpack<fptu::uint128_t>(v))
      }
    }
  }
#undef SIM_ALIAS
#define X(G, C, S)                                                             \
  case fptu::G: {                                                              \
    const C c = unpack<C>(v);                                                  \
    sim::LibScope L_;                                                          \
    if (how == How::set)                                                       \
      t.set_##S(k, c);                                                         \
    else                                                                       \
      place(t.insert_##S(k, c));                                                      \
    return;                                                                    \
  }
  switch (g) {
    SIM_PLAIN_GENERA(X)
  case fptu::t32:
  case fptu::t64: {
    fptu::datetime_t d;
    if (g == fptu::t32)
      d = fptu::datetime_t::from_seconds(unpack<uint32_t>(v));
    else
      d = fptu::datetime_t::from_fixedpoint_32dot32(unpack<uint64_t>(v));
    sim::LibScope L_;
    if (how == How::set) t.set_datetime(k, d); else place(t.insert_datetime(k, d));
    return;
  }
  case fptu::text: {
    fptu::string_view s(v.data(), v.size());
    sim::LibScope L_;
    if (how == How::set) t.set_string(k, s); else place(t.insert_string(k, s));
    return;
  }
  case fptu::varbin: {
    fptu::string_view s(v.data(), v.size());
    sim::LibScope L_;
    if (how == How::set) t.set_varbinary(k, s); else place(t.insert_varbinary(k, s));
    return;
  }
  case fptu::nested: {
    std::vector<uint32_t> buf((v.size() + 3) / 4 + 1);
    if (!v.empty()) memcpy(buf.data(), v.data(), v.size());
    if (v.empty()) buf[0] = 1; // header of an empty tuple
    const auto *ro = (const fptu::details::tuple_ro *)buf.data();
    weak_of w(ro);
    sim::LibScope L_;
    if (how == How::set) t.set_nested(k, w); else place(t.insert_nested(k, w));
    return;
  }
  case fptu::property: {
    fptu::property_pair p(fptu::string_view(v.data() + 1, v.size() - 1), (unsigned char)v[0]);
    sim::LibScope L_;
    if (how == How::set) t.set_property(k, p); else place(t.insert_property(k, p));
    return;
  }
  default: abort();
  }
#undef X
}

// accessor-level set (A is dynamic_accessor_rw)
template <class A> void put_acc(A &a, unsigned g, const Val &v) {
#define X(G, C, S)                                                             \
  case fptu::G: {                                                              \
    const C c = unpack<C>(v);                                                  \
    sim::LibScope L_;                                                          \
    a.set_##S(c);                                                              \
    return;                                                                    \
  }
  switch (g) {
    SIM_PLAIN_GENERA(X)
  case fptu::t32:
  case fptu::t64: {
    fptu::datetime_t d;
    if (g == fptu::t32)
      d = fptu::datetime_t::from_seconds(unpack<uint32_t>(v));
    else
      d = fptu::datetime_t::from_fixedpoint_32dot32(unpack<uint64_t>(v));
    sim::LibScope L_;
    a.set_datetime(d);
    return;
  }
  case fptu::text: {
    fptu::string_view s(v.data(), v.size());
    sim::LibScope L_;
    a.set_string(s);
    return;
  }
  case fptu::varbin: {
    fptu::string_view s(v.data(), v.size());
    sim::LibScope L_;
    a.set_varbinary(s);
    return;
  }
  case fptu::nested: {
    std::vector<uint32_t> buf((v.size() + 3) / 4 + 1);
    if (!v.empty()) memcpy(buf.data(), v.data(), v.size());
    if (v.empty()) buf[0] = 1; // header of an empty tuple
    const auto *ro = (const fptu::details::tuple_ro *)buf.data();
    sim::LibScope L_;
    a.set_nested(ro);
    return;
  }
  case fptu::property: {
    fptu::property_pair p(fptu::string_view(v.data() + 1, v.size() - 1), (unsigned char)v[0]);
    sim::LibScope L_;
    a.set_property(p);
    return;
  }
  default: abort();
  }
#undef X
}

inline Val from_view(const fptu::string_view &s) {
  return s.length() ? Val(s.data(), s.length()) : Val();
}
inline Val from_prop(const fptu::property_pair &p) {
  return Val(1, char(p.second)) + from_view(p.first);
}
inline Val from_dt(unsigned g, const fptu::datetime_t &d) {
  if (g == fptu::t32) {
    uint32_t s = d.utc_seconds();
    return pack(s, 4);
  }
  uint64_t f = d.fixedpoint_32dot32();
  return pack(f, 8);
}

// read by token from anything with getters; nullopt = field_absent reported
template <class S> std::optional<Val> read(const S &t, const token &k, unsigned g) {
  sim::LibScope L_;
  try {
    switch (g) {
#define X(G, C, SFX)                                                           \
  case fptu::G: {                                                              \
    const C &c = t.get_##SFX(k);                                               \
    sim::HarnessScope H_;                                                      \
    return pack(c, value_size(g));                                             \
  }
      SIM_PLAIN_GENERA(X)
#undef X
    case fptu::t32:
    case fptu::t64: {
      auto d = t.get_datetime(k);
      sim::HarnessScope H_;
      return from_dt(g, d);
    }
    case fptu::text: {
      auto s = t.get_string(k);
      sim::HarnessScope H_;
      return from_view(s);
    }
    case fptu::varbin: {
      auto s = t.get_varbinary(k);
      sim::HarnessScope H_;
      return from_view(s);
    }
    case fptu::nested: {
      auto w = t.get_nested_weak(k);
      sim::HarnessScope H_;
      return nested_bytes(w.get_impl());
    }
    case fptu::property: {
      auto p = t.get_property(k);
      sim::HarnessScope H_;
      return from_prop(p);
    }
    default: abort();
    }
  } catch (const fptu::field_absent &) {
    return std::nullopt;
  }
}

// read through an accessor
template <class A> std::optional<Val> read_acc(const A &a, unsigned g) {
  sim::LibScope L_;
  try {
    switch (g) {
#define X(G, C, SFX)                                                           \
  case fptu::G: {                                                              \
    const C &c = a.get_##SFX();                                                \
    sim::HarnessScope H_;                                                      \
    return pack(c, value_size(g));                                             \
  }
      SIM_PLAIN_GENERA(X)
#undef X
    case fptu::t32:
    case fptu::t64: {
      auto d = a.get_datetime();
      sim::HarnessScope H_;
      return from_dt(g, d);
    }
    case fptu::text: {
      auto s = a.get_string();
      sim::HarnessScope H_;
      return from_view(s);
    }
    case fptu::varbin: {
      auto s = a.get_varbinary();
      sim::HarnessScope H_;
      return from_view(s);
    }
    case fptu::nested: {
      auto w = a.get_nested();
      sim::HarnessScope H_;
      return nested_bytes(w);
    }
    case fptu::property: {
      auto p = a.get_property();
      sim::HarnessScope H_;
      return from_prop(p);
    }
    default: abort();
    }
  } catch (const fptu::field_absent &) {
    return std::nullopt;
  }
}

//---------------------------------------------------------------- the general readers
// get_integer(), get_unsigned(), get_int128(), get_uint128(), get_float(),
// get_number_as_ieee754double(), get_bool(), get_enum() and get_uuid() must give
// the stored value where the type fits, report absence as the exact reader does,
// and report a wrong type otherwise. Returns what differs.
template <class R> string read_general_one(const char *name, bool fits, bool ranged, bool absent, const Val &want, R &&reader) {
  enum { VALUE, ABSENT, MISMATCH, RANGE, ELSE };
  static const char *const label[] = {"a value", "field_absent", "type_mismatch", "value_out_of_range", "an unexpected exception"};
  const int expect = !fits ? MISMATCH : absent ? ABSENT : ranged ? RANGE : VALUE;
  int got = VALUE;
  Val v;
  {
    sim::LibScope L;
    try {
      auto r = reader();
      sim::HarnessScope H;
      v = pack(r, sizeof r);
    } catch (const fptu::field_absent &) { got = ABSENT;
    } catch (const fptu::type_mismatch &) { got = MISMATCH;
    } catch (const fptu::value_out_of_range &) { got = RANGE;
    } catch (const std::exception &) { got = ELSE; }
  }
  if (got != expect) return string(name) + " gives " + label[got] + " instead of " + label[expect];
  if (got == VALUE && v != want) return string(name) + " gives " + sim::hex(v.data(), v.size(), 40) + " instead of " + sim::hex(want.data(), want.size(), 40);
  return "";
}
// call: f(reader-tag) reads through a token or an accessor
#define SIM_GENERAL(NAME) [&] { return call([&](auto &&...k) { return obj.get_##NAME(k...); }); }
template <class T, class C> string read_general(const T &obj, unsigned g, const std::optional<Val> &want, C &&call) {
  const bool absent = !want;
  const Val v = want.value_or(zero_value(g));
  const bool sgn = g == fptu::i8 || g == fptu::i16 || g == fptu::i32 || g == fptu::i64;
  const bool uns = g == fptu::u8 || g == fptu::u16 || g == fptu::u32 || g == fptu::u64;
  const bool flt = g == fptu::f32 || g == fptu::f64, b128 = g == fptu::bin128;
  __int128 wide = 0;
  double real = 0;
  if (sgn || uns) {
    wide = sgn && (v.back() & 0x80) ? -1 : 0;
    memcpy((void *)&wide, v.data(), v.size());
    real = double(wide);
  } else if (g == fptu::f32) real = double(unpack<float>(v));
  else if (g == fptu::f64) real = unpack<double>(v);
  else if (b128) memcpy((void *)&wide, v.data(), 16);
  const int64_t narrow = int64_t(wide);
  const bool unsafe = wide > (__int128(1) << 53) - 1 || wide < -((__int128(1) << 53) - 1);
  string d;
  const bool odd = real != real; // not a number: any
  if (!(d = read_general_one("get_integer", sgn, false, absent, pack(narrow, 8), SIM_GENERAL(integer))).empty()) return d;
  if (!(d = read_general_one("get_unsigned", uns, false, absent, pack(narrow, 8), SIM_GENERAL(unsigned))).empty()) return d;
  if (!(d = read_general_one("get_int128", sgn || b128, false, absent, pack(wide, 16), SIM_GENERAL(int128))).empty()) return d;
  if (!(d = read_general_one("get_uint128", uns || b128, false, absent, pack(wide, 16), SIM_GENERAL(uint128))).empty()) return d;
  if (!odd) {
    if (!(d = read_general_one("get_float", flt, false, absent, pack(real, 8), SIM_GENERAL(float))).empty()) return d;
    if (!(d = read_general_one("get_number_as_ieee754double", sgn || uns || flt, (sgn || uns) && unsafe, absent, pack(real, 8), SIM_GENERAL(number_as_ieee754double))).empty()) return d;
  }
  if (!(d = read_general_one("get_bool", g == fptu::boolean, false, absent, pack(wide != 0, 1), SIM_GENERAL(bool))).empty()) return d;
  if (!(d = read_general_one("get_enum", g == fptu::enumeration, false, absent, pack(short(wide), 2), SIM_GENERAL(enum))).empty()) return d;
  if (!(d = read_general_one("get_uuid", b128, false, absent, pack(wide, 16), SIM_GENERAL(uuid))).empty()) return d;
  return "";
}
#undef SIM_GENERAL

//---------------------------------------------------------------- independent decoder
struct DecField {
  unsigned genus, id;
  unsigned payload_unit; // unit index in the image, 0 = none
  unsigned units;
  Val value;
  bool has_payload;
};
struct PrePlace { // description of a schema-fixed place
  unsigned genus, offset;
};
struct Decoded {
  string error;
  unsigned brutto = 0, count = 0, flags = 0;
  unsigned holes = 0, hole_units = 0;
  std::vector<DecField> loose; // in index order (from the start of the index)
  std::vector<std::optional<Val>> pre;      // stretchy preplaced values (in order given)
};

// Decodes value bytes at unit `at` of img; returns units consumed or 0 on error.
unsigned decode_stretchy(const unsigned char *img, unsigned total_units, unsigned at, unsigned g, Val &out, string &err);
Decoded decode(const void *data, size_t bytes, const std::vector<PrePlace> &pre, unsigned preplaced_units,
               bool require_full_cover = true);
string layout_trouble(const void *data, size_t bytes, const std::vector<PrePlace> &pre, unsigned preplaced_units);
Val gen_value(unsigned g, unsigned style, unsigned max_len); // see fields.cpp
Val small_tuple(unsigned how);                                // serialized nested tuple
} // namespace fld
