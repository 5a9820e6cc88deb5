// flavours: plain asan
// The C interface against a reference multimap (C11). Every run lives in a thread
// of its own, so that the per-thread records of the interface start from scratch.
#include "model.hpp"
#include "fast_positive/tuples/details/legacy_compat.h"
#include <cmath>
#include <map>
#include <thread>
using namespace sim;
using namespace fld;
namespace {
struct TypeInfo { unsigned g; fptu_type t; };
const TypeInfo types[] = {{fptu::u16, fptu_uint16}, {fptu::i8, fptu_bool}, {fptu::i32, fptu_int32}, {fptu::u32, fptu_uint32},
  {fptu::f32, fptu_fp32}, {fptu::i64, fptu_int64}, {fptu::u64, fptu_uint64}, {fptu::f64, fptu_fp64}, {fptu::t64, fptu_datetime},
  {fptu::bin96, fptu_96}, {fptu::bin128, fptu_128}, {fptu::bin160, fptu_160}, {fptu::bin256, fptu_256}, {fptu::text, fptu_cstr},
  {fptu::varbin, fptu_opaque}, {fptu::nested, fptu_nested},
  {fptu::i16, fptu_type(fptu::details::make_tag(fptu::genus::enumeration, 0, true, true, false))}}; // fptu_upsert_null: a bare mark
const unsigned NT = sizeof(types) / sizeof(types[0]);
using Key = std::pair<unsigned, unsigned>; // genus, column
using Ref = std::map<Key, std::vector<Val>>;
struct Slot {
  fptu_rw *pt = nullptr;
  bool owned = false; // made by fptu_alloc: only fptu_destroy may release it
  Ref ref;
};
enum Op { UPSERT, INSERT, UPDATE };
const char *opname[] = {"upsert", "insert", "update"};

fptu_type_or_filter by_type(fptu_type t) { return fptu_type_or_filter(uint32_t(t) | fptu_flag_not_filter); }
fptu_type_or_filter by_mask(uint32_t m) { return fptu_type_or_filter(m & ~uint32_t(fptu_flag_not_filter)); }

struct World {
  Slot slot[2];
  unsigned maxcol, maxlen;
  bool wide = false; // long values in a roomy tuple
  std::vector<unsigned> cols, kinds;

  unsigned some_col() { return cols[choose(unsigned(cols.size()))]; }
  unsigned some_kind() { return kinds[choose(unsigned(kinds.size()))]; }

  Val some(unsigned g) {
    Val v = some_value(g, maxlen);
    if (g == fptu::i16) v = denil_value(g); // likewise only a mark without a value
    if (g == fptu::i8) v[0] = char(v[0] & 1); // the C interface knows only true and false
    return v;
  }
  static Val some_value(unsigned g, unsigned max_len) {
    unsigned st = choose(6);
    return gen_value(g, st < 4 ? 0 : st == 4 ? 1 : 2, max_len);
  }

  int put(Op op, fptu_rw *pt, unsigned col, unsigned g, const Val &v, bool null_ptr) {
#define CALL(NAME, ...) (op == UPSERT ? fptu_upsert_##NAME(pt, col, __VA_ARGS__) : op == INSERT ? fptu_insert_##NAME(pt, col, __VA_ARGS__) : fptu_update_##NAME(pt, col, __VA_ARGS__))
    alignas(8) char buf[64];
    memset(buf, 0, sizeof buf);
    if (v.size() <= sizeof buf) memcpy(buf, v.data(), v.size());
    std::vector<uint32_t> nest;
    if (g == fptu::nested) {
      nest.resize(v.size() / 4 + 1);
      memcpy(nest.data(), v.data(), v.size());
      if (v.empty()) nest[0] = 1;
    }
    const bool by_cstr = g == fptu::text && v.find('\0') == Val::npos && chance(1, 3);
    LibScope L;
    switch (g) {
    case fptu::i16: return fptu_upsert_null(pt, col);
    case fptu::u16: return CALL(uint16, unpack<uint16_t>(v));
    case fptu::i8: return CALL(bool, v[0] != 0);
    case fptu::i32: return CALL(int32, unpack<int32_t>(v));
    case fptu::u32: return CALL(uint32, unpack<uint32_t>(v));
    case fptu::f32: return CALL(fp32, unpack<float>(v));
    case fptu::i64: return CALL(int64, unpack<int64_t>(v));
    case fptu::u64: return CALL(uint64, unpack<uint64_t>(v));
    case fptu::f64: return CALL(fp64, unpack<double>(v));
    case fptu::t64: return CALL(datetime, fptu::datetime_t::from_fixedpoint_32dot32(unpack<uint64_t>(v)));
    case fptu::bin96: return CALL(96, buf);
    case fptu::bin128: return CALL(128, buf);
    case fptu::bin160: return CALL(160, buf);
    case fptu::bin256: return CALL(256, buf);
    case fptu::text:
      if (by_cstr) return CALL(cstr, null_ptr ? nullptr : v.c_str());
      if (op != UPDATE && !null_ptr && chance(1, 4)) // the C++ forms
        return choose(2) ? (op == UPSERT ? fptu_upsert_string(pt, col, v) : fptu_insert_string(pt, col, v))
                         : (op == UPSERT ? fptu_upsert_string(pt, col, fptu::string_view(v)) : fptu_insert_string(pt, col, fptu::string_view(v)));
      return CALL(string, null_ptr ? nullptr : v.data(), v.size());
    case fptu::varbin:
      if (v.size() & 1) {
        iovec io;
        io.iov_base = null_ptr ? nullptr : (void *)v.data();
        io.iov_len = v.size();
        return CALL(opaque_iov, io);
      }
      return CALL(opaque, null_ptr ? nullptr : v.data(), v.size());
    case fptu::nested: {
      fptu_ro ro;
      ro.sys.iov_base = nest.data();
      ro.sys.iov_len = v.empty() ? 4 : v.size();
      return CALL(nested, ro);
    }
    }
    abort();
#undef CALL
  }

  Val field_value(const fptu_field *pf, unsigned g) {
    LibScope L;
#define RET(EXPR, N) { auto c = EXPR; HarnessScope H; return pack(c, N); }
    switch (g) {
    case fptu::i16: {
      iovec io = fptu_field_as_iovec(pf);
      return bytes(io.iov_base, io.iov_len);
    }
    case fptu::u16: RET(uint16_t(fptu_field_uint16(pf)), 2)
    case fptu::i8: RET(uint8_t(fptu_field_bool(pf)), 1)
    case fptu::i32: RET(int32_t(fptu_field_int32(pf)), 4)
    case fptu::u32: RET(uint32_t(fptu_field_uint32(pf)), 4)
    case fptu::f32: RET(float(fptu_field_fp32(pf)), 4)
    case fptu::i64: RET(int64_t(fptu_field_int64(pf)), 8)
    case fptu::u64: RET(uint64_t(fptu_field_uint64(pf)), 8)
    case fptu::f64: RET(double(fptu_field_fp64(pf)), 8)
    case fptu::t64: RET(fptu_field_datetime(pf).fixedpoint, 8)
    case fptu::bin96: return bytes(fptu_field_96(pf), 12);
    case fptu::bin128: return bytes(fptu_field_128(pf), 16);
    case fptu::bin160: return bytes(fptu_field_160(pf), 20);
    case fptu::bin256: return bytes(fptu_field_256(pf), 32);
    case fptu::text: { // whole by bytes, up to the first NUL as a C string
      iovec io = fptu_field_as_iovec(pf);
      Val whole = bytes(io.iov_base, io.iov_len), c = cstr(fptu_field_cstr(pf));
      HarnessScope H;
      CHECK(c == Val(whole.c_str()), "c11.text", "a text of %s is %s as a C string", show(whole).c_str(), show(c).c_str());
      return whole;
    }
    case fptu::varbin: {
      iovec io = fptu_field_opaque(pf);
      return bytes(io.iov_base, io.iov_len);
    }
    case fptu::nested: {
      fptu_ro ro = fptu_field_nested(pf);
      return bytes(ro.sys.iov_base, ro.sys.iov_len);
    }
    }
    abort();
#undef RET
  }
  Val bytes(const void *p, size_t n) {
    HarnessScope H;
    return p ? Val((const char *)p, n) : Val();
  }
  Val cstr(const char *p) {
    HarnessScope H;
    return p ? Val(p) : Val();
  }
  // what a C reader can see of a stored value
  Val visible(unsigned g, const Val &v) {
    return canon(g, v);
  }
  static bool same(unsigned g, const Val &a, const Val &b) { return canon(g, a) == canon(g, b); }

  string show_key(unsigned g, unsigned col) { return string(gname(g)) + "@" + std::to_string(col); }

  // full comparison through pointers begin..end
  void compare(const fptu_field *b, const fptu_field *e, const Ref &ref, const string &ctx) {
    Ref got;
    size_t n = 0;
    for (const fptu_field *pf = b; pf < e; ++pf) {
      bool dead;
      int col;
      fptu_type t;
      {
        LibScope L;
        dead = fptu_field_is_dead(pf);
        col = fptu_field_column(pf);
        t = fptu_field_type(pf);
      }
      if (dead) {
        CHECK(col < 0, "c11.dead-column", "%s: an erased field reports column %d", ctx.c_str(), col);
        SIM_COUNT("probe.dead_field");
        continue;
      }
      unsigned g = ~0u;
      for (auto &ti : types) if (ti.t == t) g = ti.g;
      CHECK(g != ~0u, "c11.type", "%s: unknown field type %u", ctx.c_str(), unsigned(t));
      got[{g, unsigned(col)}].push_back(visible(g, field_value(pf, g)));
      if (chance(1, 4)) {
        iovec io = [&] { LibScope L; return fptu_field_as_iovec(pf); }();
        Val want = got[{g, unsigned(col)}].back();
        Val have = bytes(io.iov_base, io.iov_len);
        if (stretchy(g)) CHECK(visible(g, have) == want, "c11.as-iovec", "%s: %s as raw bytes: %s, expected %s", ctx.c_str(), show_key(g, unsigned(col)).c_str(), show(have).c_str(), show(want).c_str());
        else CHECK(io.iov_len == value_size(g) && have == want, "c11.as-iovec", "%s: %s as raw bytes: length %zu instead of %u", ctx.c_str(), show_key(g, unsigned(col)).c_str(), size_t(io.iov_len), value_size(g));
      }
      n++;
    }
    for (auto &kv : got) {
      auto it = ref.find(kv.first);
      string k = show_key(kv.first.first, kv.first.second);
      CHECK(it != ref.end(), "c11.extra", "%s: unexpected field %s", ctx.c_str(), k.c_str());
      std::vector<Val> want;
      for (auto &v : it->second) want.push_back(visible(kv.first.first, v));
      std::sort(want.begin(), want.end());
      std::sort(kv.second.begin(), kv.second.end());
      CHECK(want.size() == kv.second.size(), "c11.count", "%s: %zu instances of %s, expected %zu", ctx.c_str(), kv.second.size(), k.c_str(), want.size());
      for (size_t i = 0; i < want.size(); ++i)
        CHECK(want[i] == kv.second[i], "c11.value", "%s: %s reads %s, expected %s", ctx.c_str(), k.c_str(), hex(kv.second[i]).c_str(), hex(want[i]).c_str());
    }
    for (auto &kv : ref)
      CHECK(kv.second.empty() || got.count(kv.first), "c11.lost", "%s: field %s is gone", ctx.c_str(), show_key(kv.first.first, kv.first.second).c_str());
  }
  static string hex(const Val &v) { return show(v); }

  inline static int mark;
  struct FilterCtx { unsigned col; uint32_t mask; size_t offered, dead, strange; };
  static bool filter(const fptu_field *pf, void *c, void *param) noexcept {
    auto *f = (FilterCtx *)c;
    f->offered++;
    f->dead += fptu_field_is_dead(pf);
    f->strange += param != &mark;
    if (f->mask == 0) return true; // everything that is offered
    return unsigned(fptu_field_column(pf)) == f->col && (f->mask >> fptu::details::tag2genus(fptu_field_type(pf)) & 1);
  }
  size_t model_count(const Ref &ref, unsigned col, uint32_t mask) {
    size_t n = 0;
    for (auto &kv : ref) if (kv.first.second == col && (mask >> kv.first.first & 1)) n += kv.second.size();
    return n;
  }
  // lookups, counts and walks by one column with a type or a mask
  void probe(Slot &s, fptu_ro ro, const string &ctx) {
    const unsigned col = chance(1, 12) ? (choose(2) ? maxcol + 1 + choose(3000) : some_col() + 2048 * (1 + choose(3))) : some_col();
    const bool mask_form = choose(2);
    uint32_t mask;
    fptu_type_or_filter tf;
    const unsigned g = types[some_kind()].g;
    if (mask_form) {
      switch (choose(4)) {
      case 0: mask = fptu_any; break;
      case 1: mask = fptu_any_number; break;
      case 2: mask = fptu_any_int; break;
      default: mask = uint32_t(bits64()) & 0x7fffffff;
      }
      mask &= 0x7fffffff; // the gap type cannot be asked for
      if (!mask) mask = 1;
      tf = by_mask(mask);
    } else {
      mask = 1u << g;
      fptu_type t = fptu_null;
      for (auto &ti : types) if (ti.g == g) t = ti.t;
      tf = by_type(t);
    }
    const size_t want = col > maxcol ? 0 : model_count(s.ref, col, mask);
    size_t c_rw, c_ro, walk_rw = 0, walk_ro = 0, c_ex, c_exro;
    const fptu_field *l_ro;
    fptu_field *l_rw;
    FilterCtx fc{col, mask, 0, 0, 0};
    FilterCtx any{0, 0, 0, 0, 0};
    size_t all[3] = {0, 0, 0}, total = 0;
    for (auto &kv : s.ref) total += kv.second.size();
    {
      LibScope L;
      c_rw = fptu_field_count_rw(s.pt, col, tf);
      c_ro = fptu_field_count_ro(ro, col, tf);
      l_rw = fptu_lookup_rw(s.pt, col, tf);
      l_ro = fptu_lookup_ro(ro, col, tf);
      const fptu_field *e = fptu_end_rw(s.pt);
      for (auto p = fptu_first(fptu_begin_rw(s.pt), e, col, tf); p != e; p = fptu_next(p, e, col, tf)) walk_rw++;
      e = fptu_end_ro(ro);
      for (auto p = fptu_first_ex(fptu_begin_ro(ro), e, filter, &fc, &mark); p != e; p = fptu_next_ex(p, e, filter, &fc, &mark)) walk_ro++;
      c_ex = fptu_field_count_rw_ex(s.pt, filter, &fc, &mark);
      c_exro = fptu_field_count_ro_ex(ro, filter, &fc, &mark);
      all[0] = fptu_field_count_rw_ex(s.pt, filter, &any, &mark);
      all[1] = fptu_field_count_ro_ex(ro, filter, &any, &mark);
      e = fptu_end_rw(s.pt);
      for (auto p = fptu_first_ex(fptu_begin_rw(s.pt), e, filter, &any, &mark); p != e; p = fptu_next_ex(p, e, filter, &any, &mark)) all[2]++;
    }
    CHECK(all[0] == total && all[1] == total && all[2] == total && any.offered == 3 * total && fc.offered == 3 * total && !fc.dead && !any.dead && !fc.strange && !any.strange, "c11.filter",
          "%s: of %zu fields a filter that accepts all sees %zu %zu %zu, dead ones %zu %zu, offers %zu %zu", ctx.c_str(), total, all[0], all[1], all[2], fc.dead, any.dead, fc.offered, any.offered);
    CHECK(c_rw == want && c_ro == want && walk_rw == want && walk_ro == want && c_ex == want && c_exro == want, "c11.enumerate",
          "%s: column %u mask %x: counts %zu %zu %zu %zu %zu %zu, expected %zu", ctx.c_str(), col, mask, c_rw, c_ro, walk_rw, walk_ro, c_ex, c_exro, want);
    CHECK(!!l_rw == !!want && !!l_ro == !!want, "c11.lookup", "%s: column %u mask %x: lookup finds %d %d, expected %d", ctx.c_str(), col, mask, !!l_rw, !!l_ro, !!want);
    SIM_COUNT("chk.enumerate");
    if (chance(1, 4)) { // the C++ names of the same calls
      fptu_type ty = fptu_null;
      for (auto &ti : types) if (ti.g == g) ty = ti.t;
      const fptu_filter fi = fptu_filter(mask);
      size_t n[6], w_rw = 0, w_ro = 0;
      const fptu_field *a, *b;
      {
        LibScope L;
        n[0] = mask_form ? fptu::field_count(s.pt, col, fi) : fptu::field_count(s.pt, col, ty);
        n[1] = mask_form ? fptu::field_count(ro, col, fi) : fptu::field_count(ro, col, ty);
        n[2] = fptu::field_count(s.pt, filter, &fc, &mark);
        n[3] = fptu::field_count(ro, filter, &fc, &mark);
        a = mask_form ? fptu::lookup(s.pt, col, fi) : fptu::lookup(s.pt, col, ty);
        b = mask_form ? fptu::lookup(ro, col, fi) : fptu::lookup(ro, col, ty);
        const fptu_field *e = choose(2) ? fptu::end(s.pt) : fptu::end(*s.pt);
        const fptu_field *p = fptu::first(choose(2) ? fptu::begin(s.pt) : fptu::begin(*s.pt), e, filter, &fc, &mark);
        for (; p != e; p = fptu::next(p, e, filter, &fc, &mark)) w_rw++;
        e = choose(2) ? fptu::end(ro) : fptu::end(&ro);
        p = choose(2) ? fptu::begin(ro) : fptu::begin(&ro);
        p = mask_form ? fptu::first(p, e, col, fi) : fptu::first(p, e, col, ty);
        for (; p != e; p = mask_form ? fptu::next(p, e, col, fi) : fptu::next(p, e, col, ty)) w_ro++;
        n[4] = fptu::get_buffer_size(ro, 3, 40);
        n[5] = fptu_get_buffer_size(ro, 3, 40);
      }
      CHECK(n[0] == want && n[1] == want && n[2] == want && n[3] == want && w_rw == want && w_ro == want && a == l_rw && b == l_ro && n[4] == n[5], "c11.enumerate",
            "%s: column %u mask %x: the C++ names give %zu %zu %zu %zu %zu %zu, expected %zu", ctx.c_str(), col, mask, n[0], n[1], n[2], n[3], w_rw, w_ro, want);
    }
    if (mask_form || g == fptu::i16) return;
    // typed getter over the taken form
    int err = 77;
    Val got;
    const Val *first = nullptr;
    Val shown;
    const bool mem = chance(1, 12);
    if (l_ro && !mem) { shown = visible(g, field_value(l_ro, g)); first = &shown; }
    if (mem) arm_alloc_fault(1, 1 + choose(2));
    {
      LibScope L;
#define RET(EXPR, N) { auto c = EXPR; HarnessScope H; got = pack(c, N); break; }
      switch (g) {
      case fptu::u16: RET(uint16_t(fptu_get_uint16(ro, col, &err)), 2)
      case fptu::i8: RET(uint8_t(fptu_get_bool(ro, col, &err)), 1)
      case fptu::i32: RET(int32_t(fptu_get_int32(ro, col, &err)), 4)
      case fptu::u32: RET(uint32_t(fptu_get_uint32(ro, col, &err)), 4)
      case fptu::f32: RET(float(fptu_get_fp32(ro, col, &err)), 4)
      case fptu::i64: RET(int64_t(fptu_get_int64(ro, col, &err)), 8)
      case fptu::u64: RET(uint64_t(fptu_get_uint64(ro, col, &err)), 8)
      case fptu::f64: RET(double(fptu_get_fp64(ro, col, &err)), 8)
      case fptu::t64: RET(fptu_get_datetime(ro, col, &err).fixedpoint, 8)
      case fptu::bin96: got = bytes(fptu_get_96(ro, col, &err), 12); break;
      case fptu::bin128: got = bytes(fptu_get_128(ro, col, &err), 16); break;
      case fptu::bin160: got = bytes(fptu_get_160(ro, col, &err), 20); break;
      case fptu::bin256: got = bytes(fptu_get_256(ro, col, &err), 32); break;
      case fptu::text: got = cstr(fptu_get_cstr(ro, col, &err)); break;
      case fptu::varbin: { iovec io = fptu_get_opaque(ro, col, &err); got = bytes(io.iov_base, io.iov_len); break; }
      case fptu::nested: { fptu_ro r = fptu_get_nested(ro, col, &err); got = bytes(r.sys.iov_base, r.sys.iov_len); break; }
      }
#undef RET
    }
    disarm_alloc_fault();
    if (l_ro && mem) { shown = visible(g, field_value(l_ro, g)); first = &shown; }
    got = visible(g, got);
    if (g == fptu::text) shown = Val(shown.c_str()); // up to the first NUL
    if (mem && alloc_faults && err != 77 && err != FPTU_OK) { SIM_COUNT("fault.no_memory"); return; }
    CHECK(err != 77, "c11.get-error", "%s: the getter of %s left the error code untouched", ctx.c_str(), show_key(g, col).c_str());
    if (first) {
      CHECK(err == FPTU_OK, "c11.get-error", "%s: the getter of %s reports error %d", ctx.c_str(), show_key(g, col).c_str(), err);
      CHECK(got == *first, "c11.get", "%s: getter of %s gives %s, the first such field is %s", ctx.c_str(), show_key(g, col).c_str(), hex(got).c_str(), hex(*first).c_str());
    } else if (col > maxcol) CHECK(err == FPTU_EINVAL || err == FPTU_ENOFIELD, "c11.get-error", "%s: the getter of impossible column %u reports %d", ctx.c_str(), col, err);
    else {
      CHECK(err == FPTU_OK || err == FPTU_ENOFIELD, "c11.get-error", "%s: the getter of absent %s reports error %d", ctx.c_str(), show_key(g, col).c_str(), err);
      CHECK(is_empty_value(g, got) || got.empty() || got == denil_value(g), "c11.get", "%s: getter of absent %s gives %s", ctx.c_str(), show_key(g, col).c_str(), hex(got).c_str());
    }
    SIM_COUNT("chk.getter");
    // comparison helpers
    if (g == fptu::bin96 || g == fptu::bin128 || g == fptu::bin160 || g == fptu::bin256 || g == fptu::varbin) {
      Val other = first && choose(2) ? *first : some(g);
      if (first && !other.empty() && chance(1, 3)) other[choose(unsigned(other.size()))] ^= char(1 << choose(8));
      if (first && g == fptu::varbin && chance(1, 3)) other = choose(2) ? first->substr(0, choose(unsigned(first->size()) + 1)) : *first + Val(1 + choose(3), char(choose(3)));
      const bool iov = choose(2);
      fptu_lge r;
      {
        std::vector<uint8_t> o(other.begin(), other.end());
        o.resize(o.size() + 1);
        LibScope L;
        r = g == fptu::bin96 ? fptu_cmp_96(ro, col, o.data()) : g == fptu::bin128 ? fptu_cmp_128(ro, col, o.data()) : g == fptu::bin160 ? fptu_cmp_160(ro, col, o.data()) : g == fptu::bin256 ? fptu_cmp_256(ro, col, o.data()) : iov ? fptu_cmp_opaque_iov(ro, col, iovec{o.data(), other.size()}) : fptu_cmp_opaque(ro, col, o.data(), other.size());
      }
      fptu_lge want_r;
      if (!first) want_r = g == fptu::varbin && other.empty() ? fptu_eq : fptu_ic;
      else {
        int d = first->compare(other);
        want_r = d < 0 ? fptu_lt : d > 0 ? fptu_gt : fptu_eq;
        fptu_lge plain = fptu_cmp_binary(first->data(), first->size(), other.data(), other.size());
        CHECK(plain == want_r, "c11.compare", "fptu_cmp_binary of %s and %s gives %d, expected %d", hex(*first).c_str(), hex(other).c_str(), int(plain), int(want_r));
      }
      CHECK(r == want_r, "c11.compare", "%s: comparison of %s gives %d, expected %d", ctx.c_str(), show_key(g, col).c_str(), int(r), int(want_r));
      SIM_COUNT("chk.compare");
    }
  }

  // nothing at all in place of a field, and gaps
  void probe_nothing(Slot &s) {
    bool dead, b;
    int col;
    fptu_type t;
    iovec io, o;
    const char *c;
    double d;
    float f;
    uint64_t n;
    fptu_ro r;
    const void *p;
    {
      LibScope L;
      dead = fptu_field_is_dead(nullptr), col = fptu_field_column(nullptr), t = fptu_field_type(nullptr);
      io = fptu_field_as_iovec(nullptr), o = fptu_field_opaque(nullptr), r = fptu_field_nested(nullptr);
      c = fptu_field_cstr(nullptr), d = fptu_field_fp64(nullptr), f = float(fptu_field_fp32(nullptr)), b = fptu_field_bool(nullptr);
      n = uint64_t(fptu_field_uint16(nullptr)) | fptu_field_uint32(nullptr) | uint64_t(fptu_field_int32(nullptr)) | fptu_field_uint64(nullptr) | uint64_t(fptu_field_int64(nullptr));
      p = choose(2) ? (choose(2) ? fptu_field_96(nullptr) : fptu_field_128(nullptr)) : choose(2) ? fptu_field_160(nullptr) : fptu_field_256(nullptr);
    }
    CHECK(dead && col == -1 && t == fptu_null && !io.iov_len && !o.iov_len && !r.sys.iov_len && (!c || !*c) && !b && !n, "c11.nothing", "the field getters give something for no field at all: %d %d %x %zu %zu %zu %d %llx", dead, col, unsigned(t), io.iov_len, o.iov_len, r.sys.iov_len, b, (unsigned long long)n);
    CHECK(pack(d, 8) == denil_value(fptu::f64) && pack(f, 4) == denil_value(fptu::f32), "c11.nothing", "no field at all reads as the numbers %g and %g", d, double(f));
    CHECK(!p || is_zero(p, 12), "c11.nothing", "no field at all has binary content");
    // erasing a gap does nothing
    fptu_field *e = const_cast<fptu_field *>(fptu_end_rw(s.pt));
    for (fptu_field *pf = const_cast<fptu_field *>(fptu_begin_rw(s.pt)); pf < e; ++pf) {
      LibScope L;
      if (!fptu_field_is_dead(pf) || choose(3)) continue;
      iovec g = fptu_field_as_iovec(pf);
      const size_t junk = fptu_junkspace(s.pt);
      fptu_erase_field(s.pt, choose(2) ? pf : nullptr);
      const size_t after = fptu_junkspace(s.pt);
      if (after != junk || g.iov_len) { HarnessScope H; fail("c11.nothing", "erasing a gap turned %zu bytes of junk into %zu; a gap has %zu bytes of content", junk, after, g.iov_len); }
      SIM_COUNT("probe.gap_erased");
      break;
    }
  }
  static bool is_zero(const void *p, size_t n) {
    for (size_t i = 0; i < n; ++i) if (((const char *)p)[i]) return false;
    return true;
  }

  void check(Slot &s, const string &ctx, bool deep) {
    const char *bad;
    fptu_ro ro;
    bool e_rw, e_ro;
    const fptu_field *b, *e, *rb, *re;
    {
      LibScope L;
      bad = fptu_check_rw(s.pt);
      if (!bad) {
        ro = fptu_take_noshrink(s.pt);
        bad = fptu_check_ro(ro);
      }
    }
    CHECK(!bad, "c11.malformed", "%s: %s", ctx.c_str(), bad);
    {
      LibScope L;
      b = fptu_begin_rw(s.pt);
      e = fptu_end_rw(s.pt);
      rb = fptu_begin_ro(ro);
      re = fptu_end_ro(ro);
      e_rw = fptu_is_empty_rw(s.pt);
      e_ro = fptu_is_empty_ro(ro);
    }
    CHECK(b <= e && rb <= re && e - b == re - rb, "c11.range", "%s: iteration ranges %td and %td", ctx.c_str(), e - b, re - rb);
    size_t total = 0;
    for (auto &kv : s.ref) total += kv.second.size();
    if (total) CHECK(!e_rw && !e_ro, "c11.is-empty", "%s: reported empty with %zu fields", ctx.c_str(), total);
    else if (b == e) CHECK(e_rw && e_ro, "c11.is-empty", "%s: reported not empty without fields", ctx.c_str());
    if (chance(1, 4)) probe(s, ro, ctx);
    if (chance(1, 40)) probe_nothing(s);
    compare(b, e, s.ref, ctx);
    if (deep) compare(rb, re, s.ref, ctx + " (taken)");
    probe(s, ro, ctx);
    uint64_t h = total;
    for (auto &kv : s.ref) for (auto &v : kv.second) h += fnv(v.data(), v.size(), kv.first.first * 4096 + kv.first.second);
    state(h);
  }

  // the instance replaced by an upsert/update is not specified: find which one it was
  void replaced(Slot &s, unsigned g, unsigned col, const Val &v, const string &ctx) {
    auto &ref = s.ref[{g, col}];
    if (ref.empty()) {
      ref.push_back(v);
      return;
    }
    std::vector<Val> got;
    {
      const fptu_field *e = fptu_end_rw(s.pt);
      fptu_type t = fptu_null;
      for (auto &ti : types) if (ti.g == g) t = ti.t;
      for (auto p = fptu_first(fptu_begin_rw(s.pt), e, col, by_type(t)); p != e; p = fptu_next(p, e, col, by_type(t))) got.push_back(visible(g, field_value(p, g)));
    }
    std::sort(got.begin(), got.end());
    for (size_t i = 0; i < ref.size(); ++i) {
      auto cand = ref;
      cand[i] = v;
      std::vector<Val> vis;
      for (auto &x : cand) vis.push_back(visible(g, x));
      std::sort(vis.begin(), vis.end());
      if (vis == got) { ref = cand; return; }
    }
    fail("c11.replace", "%s: the instances of %s are not the former ones with exactly one replaced", ctx.c_str(), show_key(g, col).c_str());
  }

  void do_put(Slot &s) {
    span();
    Op op = Op(choose(3));
    const unsigned g = types[some_kind()].g;
    if (g == fptu::i16) op = UPSERT;
    const bool badcol = chance(1, 25);
    const unsigned col = badcol ? (choose(2) ? maxcol + 1 + choose(5000) : some_col() + 2048 * (1 + choose(3))) : some_col();
    Val v = some(g);
    bool badnest = false;
    if (g == fptu::nested) {
      v = small_tuple(choose(8));
      if (v.size() < 4) v = Val("\1\0\0\0", 4);
      if (chance(1, 6)) { badnest = true; v[0] = char(v[0] + 1 + choose(3)); }
    }
    bool toolong = false;
    if ((g == fptu::text || g == fptu::varbin) && chance(1, 30)) {
      v = Val(g == fptu::text ? 131326 + choose(100) : 262137 + choose(100), 'L');
      toolong = true;
    }
    const bool fault = chance(1, 10);
    size_t head, tail;
    {
      LibScope L;
      head = fptu_space4items(s.pt);
      tail = fptu_space4data(s.pt);
    }
    auto it = s.ref.find({g, col});
    const bool have = it != s.ref.end() && !it->second.empty();
    const bool null_ptr = v.empty() && choose(2);
    const string ctx = string(opname[op]) + " " + show_key(g, col) + "=" + show(v);
    note("%s%s%s", ctx.c_str(), badnest ? " (damaged nested)" : "", fault ? " (memory fails)" : "");
    if (fault) { arm_alloc_fault(1 + choose(2), 1); }
    int rc = put(op, s.pt, col, g, v, null_ptr);
    disarm_alloc_fault();
    counter(op == UPSERT ? "op.upsert" : op == INSERT ? "op.insert" : "op.update")->n++;
    judge_error_record(rc, ctx);
    if (fault && alloc_faults && rc == FPTU_ENOMEM) { SIM_COUNT("fault.no_memory"); return; } // the error could not even be composed
    if (badcol || badnest || toolong) {
      if (badcol && op == UPDATE && rc == FPTU_ENOFIELD) return; // equally true
      if (op == UPDATE && !have && rc == FPTU_ENOFIELD) return;
      if (toolong && rc == FPTU_ENOSPACE) return; // neither would it fit
      CHECK(rc == FPTU_EINVAL, "c11.wrong-code", "%s: expected FPTU_EINVAL, got %d", ctx.c_str(), rc);
      SIM_COUNT("fault.bad_argument");
      return;
    }
    if (op == UPDATE && !have) {
      CHECK(rc == FPTU_ENOFIELD, "c11.wrong-code", "%s: expected FPTU_ENOFIELD, got %d", ctx.c_str(), rc);
      SIM_COUNT("fault.absent_field");
      return;
    }
    if (rc == FPTU_OK) {
      if (op == INSERT) s.ref[{g, col}].push_back(v);
      else replaced(s, g, col, v, ctx);
      return;
    }
    CHECK(rc == FPTU_ENOSPACE, "c11.wrong-code", "%s: expected success or FPTU_ENOSPACE, got %d", ctx.c_str(), rc);
    CHECK(!(head >= 1 && tail / 4 >= value_units(g, v)), "c11.false-refusal", "%s: refused for lack of room with %zu slots and %zu bytes free", ctx.c_str(), head, tail);
    SIM_COUNT("fault.no_room");
  }

  void judge_error_record(int rc, const string &ctx) {
    if (rc == FPTU_OK) return;
    int code;
    {
      LibScope L;
      code = fptu_last_error_code();
    }
    CHECK(code == rc, "c11.last-error", "%s: returned %d but the recorded error is %d", ctx.c_str(), rc, code);
  }

  void do_erase(Slot &s) {
    span();
    const unsigned col = chance(1, 20) ? (choose(2) ? maxcol + 1 + choose(100) : some_col() + 2048 * (1 + choose(3))) : some_col();
    const unsigned kind = choose(3);
    if (kind == 0) { // by mask
      uint32_t mask = (choose(2) ? uint32_t(fptu_any) : uint32_t(bits64())) & 0x7fffffff;
      note("erase @%u mask %x", col, mask);
      int n;
      {
        LibScope L;
        n = fptu_erase(s.pt, col, by_mask(mask));
      }
      SIM_COUNT("op.erase_mask");
      if (col > maxcol) {
        CHECK(n == -FPTU_EINVAL || n == 0, "c11.wrong-code", "erase of column %u returned %d", col, n);
        return;
      }
      size_t want = model_count(s.ref, col, mask);
      CHECK(n == int(want), "c11.erase-count", "erase of column %u mask %x returned %d, expected %zu", col, mask, n, want);
      for (auto &kv : s.ref) if (kv.first.second == col && (mask >> kv.first.first & 1)) kv.second.clear();
      return;
    }
    const unsigned k = some_kind(), g = types[k].g;
    auto &ref = s.ref[{g, col}];
    const auto was = ref;
    if (kind == 1) { // by type
      note("erase %s", show_key(g, col).c_str());
      int n;
      {
        LibScope L;
        n = fptu_erase(s.pt, col, by_type(types[k].t));
      }
      SIM_COUNT("op.erase_type");
      if (col > maxcol) {
        CHECK(n == -FPTU_EINVAL || n == 0, "c11.wrong-code", "erase of column %u returned %d", col, n);
        s.ref.erase({g, col});
        return;
      }
      CHECK(n == int(!was.empty()), "c11.erase-count", "erase of %s returned %d with %zu present", show_key(g, col).c_str(), n, was.size());
      if (n) removed(s, g, col, unsigned(n), "erase " + show_key(g, col));
      return;
    }
    if (col > maxcol) return;
    fptu_field *pf;
    {
      LibScope L;
      pf = fptu_lookup_rw(s.pt, col, by_type(types[k].t));
    }
    CHECK(!!pf == !was.empty(), "c11.lookup", "lookup of %s finds %d with %zu present", show_key(g, col).c_str(), !!pf, was.size());
    if (!pf) return;
    Val old = field_value(pf, g);
    note("erase_field %s=%s", show_key(g, col).c_str(), show(old).c_str());
    {
      LibScope L;
      fptu_erase_field(s.pt, pf);
    }
    SIM_COUNT("op.erase_field");
    Val vo = visible(g, old);
    for (size_t i = 0; i < ref.size(); ++i) if (visible(g, ref[i]) == vo) { ref.erase(ref.begin() + long(i)); return; }
    fail("c11.value", "the erased field %s had value %s, which was never written", show_key(g, col).c_str(), show(old).c_str());
  }
  // n instances are gone, which ones is not specified
  void removed(Slot &s, unsigned g, unsigned col, unsigned n, const string &ctx) {
    auto &ref = s.ref[{g, col}];
    std::vector<Val> got;
    fptu_type t = fptu_null;
    for (auto &ti : types) if (ti.g == g) t = ti.t;
    const fptu_field *e = fptu_end_rw(s.pt);
    for (auto p = fptu_first(fptu_begin_rw(s.pt), e, col, by_type(t)); p != e; p = fptu_next(p, e, col, by_type(t))) got.push_back(visible(g, field_value(p, g)));
    CHECK(got.size() + n == ref.size(), "c11.erase-count", "%s: %zu left of %zu after erasing %u", ctx.c_str(), got.size(), ref.size(), n);
    std::vector<Val> left;
    for (auto &x : got) {
      bool found = false;
      for (size_t i = 0; i < ref.size(); ++i) if (visible(g, ref[i]) == x) { left.push_back(ref[i]); ref.erase(ref.begin() + long(i)); found = true; break; }
      CHECK(found, "c11.value", "%s: instance %s was never written", ctx.c_str(), show(x).c_str());
    }
    ref = left;
  }

  void make(Slot &s) {
    release(s);
    span();
    const bool huge = chance(1, 30);
    const size_t items = wide ? 6 + choose(20) : huge ? (choose(2) ? fptu_max_fields - choose(3) : choose(fptu_max_fields + 1)) : choose(3) ? choose(24) : choose(300);
    const size_t data = wide ? 30000 + choose(100000) : huge ? (choose(2) ? fptu::max_tuple_bytes_netto - choose(9) : choose(fptu::max_tuple_bytes_netto + 1)) : choose(3) ? choose(600) : choose(6000);
    const bool fault = chance(1, 12);
    if (chance(1, 40)) { // impossible requests
      fptu_rw *p;
      {
        LibScope L;
        p = choose(2) ? fptu_alloc(fptu_max_fields + 1 + choose(9), data) : fptu_alloc(items, fptu_max_tuple_bytes + choose(9));
      }
      CHECK(!p, "c11.impossible", "fptu_alloc made a tuple beyond the limits");
      SIM_COUNT("fault.bad_argument");
    }
    s.ref.clear();
    if (choose(2)) {
      note("alloc %zu %zu%s", items, data, fault ? " (memory fails)" : "");
      if (fault) arm_alloc_fault(1, 1 + choose(2));
      {
        LibScope L;
        s.pt = fptu_alloc(items, data);
      }
      disarm_alloc_fault();
      s.owned = true;
      SIM_COUNT("op.alloc");
      if (!s.pt) {
        CHECK(fault && alloc_faults, "c11.alloc-refused", "fptu_alloc(%zu, %zu) failed", items, data);
        LibScope L;
        s.pt = fptu_alloc(items, data);
      }
    } else {
      size_t need;
      void *buf;
      {
        LibScope L;
        need = fptu_space(items, data);
        if (chance(1, 10)) { // a buffer that is too small must be refused
          size_t less = 1 + choose(unsigned(need));
          buf = malloc(need - less ? need - less : 1);
          fptu_rw *p = fptu_init(buf, need - less, items + data / 4 + 8);
          bool ok = !p;
          if (!ok) { HarnessScope H; fail("c11.small-buffer", "fptu_init accepted %zu bytes for %zu fields", need - less, items + data / 4 + 8); }
          free(buf);
        }
        buf = malloc(need);
        s.pt = fptu_init(buf, need, items);
      }
      note("init %zu bytes for %zu fields", need, items);
      s.owned = false;
      SIM_COUNT("op.init");
      CHECK(s.pt, "c11.init-refused", "fptu_init refused a buffer of the size told by fptu_space(%zu, %zu)", items, data);
    }
    size_t si, sd;
    {
      LibScope L;
      si = fptu_space4items(s.pt);
      sd = fptu_space4data(s.pt);
    }
    CHECK(si >= items && sd >= std::min(data / 4 * 4, (size_t(fptu::max_tuple_units_netto) - items) * 4), "c11.capacity", "room for %zu fields and %zu bytes, asked for %zu and %zu", si, sd, items, data);
  }
  void release(Slot &s) {
    if (!s.pt) return;
    LibScope L;
    if (s.owned || choose(2)) fptu_destroy(s.pt);
    else free(s.pt);
    s.pt = nullptr;
  }
  // taken form of a fetched into b
  void refetch(Slot &a, Slot &b) {
    span();
    const bool shrink = choose(2);
    const bool huge = chance(1, 20);
    const unsigned mi = huge ? choose(fptu_max_fields + 100) : choose(2) ? choose(20) : 0, mp = huge ? choose(fptu::max_tuple_bytes_netto + 1000) : choose(2) ? choose(300) : 0;
    const bool ex = choose(2), fault = chance(1, 8);
    note("take%s, fetch%s with %u fields and %u bytes more%s", shrink ? "" : "_noshrink", ex ? "_ex" : "", mi, mp, fault ? " (memory fails)" : "");
    fptu_ro ro;
    {
      if (fault) arm_alloc_fault(1, 1 + choose(2));
      LibScope L;
      ro = shrink ? fptu_take(a.pt) : fptu_take_noshrink(a.pt);
    }
    disarm_alloc_fault();
    Val copy((const char *)ro.sys.iov_base, ro.sys.iov_len);
    release(b);
    std::vector<uint32_t> img(copy.size() / 4);
    memcpy(img.data(), copy.data(), copy.size());
    ro.sys.iov_base = img.data();
    if (chance(1, 10)) { // damaged image: refused with a reason
      std::vector<uint32_t> bad(img);
      fptu_ro r2 = ro;
      r2.sys.iov_base = bad.data();
      bad[0] += 1 + choose(3);
      const char *why = nullptr;
      fptu_cbfs_result cb;
      memset(&cb, 0, sizeof cb);
      size_t n1, n2;
      fptu_rw *p;
      {
        LibScope L;
        n1 = fptu_check_and_get_buffer_size(r2, mi, mp, &why);
        n2 = fptu_check_and_get_buffer_size_ex(r2, mi, mp, &cb);
        uint32_t tmp[1024];
        p = fptu_fetch_ex(r2, tmp, sizeof tmp, mi, &cb);
      }
      CHECK(n1 == 0 && why && n2 == 0 && cb.err == FPTU_EINVAL && !p, "c11.damaged", "a damaged image is accepted by the C interface");
      SIM_COUNT("fault.damaged_image");
    }
    size_t need = 0, need2;
    fptu_cbfs_result cb;
    memset(&cb, 0, sizeof cb);
    const char *why = nullptr;
    {
      LibScope L;
      if (ex) need = fptu_check_and_get_buffer_size_ex(ro, mi, mp, &cb);
      else need = fptu_check_and_get_buffer_size(ro, mi, mp, &why);
      need2 = fptu_get_buffer_size(ro, mi, mp);
    }
    if (mi > fptu_max_fields || mp > fptu::max_tuple_bytes_netto) {
      CHECK(need == 0 && need2 == 0 && (ex ? cb.err != FPTU_OK : why != nullptr), "c11.impossible", "a buffer of %zu (%zu) bytes is told for %u more fields and %u more bytes", need, need2, mi, mp);
      SIM_COUNT("fault.bad_argument");
      b.ref.clear();
      return;
    }
    CHECK(!why && (!ex || cb.err == FPTU_OK) && need, "c11.reject", "a taken tuple is rejected: %s", why ? why : ex ? cb.err_msg : "?");
    CHECK(need == need2, "c11.buffer-size", "required buffer: %zu with validation, %zu without", need, need2);
    if (chance(1, 3)) { // a buffer too small (or just enough): refused, or the tuple whole; nothing written outside
      size_t least;
      {
        LibScope L;
        least = fptu_get_buffer_size(ro, mi, 0);
      }
      fptu_cbfs_result none;
      memset(&none, 0, sizeof none);
      if (choose(2)) none.err = FPTU_EINVAL, none.err_msg = cb.err_msg;
      {
        LibScope L;
        void *buf = malloc(need);
        fptu_rw *p = fptu_fetch_ex(ro, buf, need, mi, choose(3) ? &none : nullptr);
        if (p) { HarnessScope H; fail("c11.fetch-unchecked", "fptu_fetch_ex works without a successful check of the image"); }
        free(buf);
      }
      const size_t tight = choose(3) ? (least > 40 ? least - 24 + choose(32) : choose(40)) : choose(2) ? choose(least + 1) : choose(64);
      note("fetch into %zu bytes of %zu", tight, least);
      std::vector<uint32_t> before(img);
      Slot t;
      {
        LibScope L;
        void *buf = malloc(tight ? tight : 1);
        t.pt = ex ? fptu_fetch_ex(ro, buf, tight, mi, &cb) : fptu_fetch(ro, buf, tight, mi);
        if (!t.pt) free(buf);
      }
      heap_check("c11.overrun");
      CHECK(before == img, "c11.fetch-source", "fetching changed the image fetched from");
      if (t.pt) {
        CHECK(tight >= copy.size(), "c11.fetch-tight", "a tuple of %zu bytes is fetched into a buffer of %zu bytes", copy.size(), tight);
        t.owned = false;
        t.ref = a.ref;
        check(t, "after a tight fetch", true);
        release(t);
        SIM_COUNT("probe.fetch_tight_ok");
      } else {
        CHECK(tight < least, "c11.fetch-refused", "fetch refused %zu bytes while %zu are told to be enough", tight, least);
        SIM_COUNT("fault.small_buffer");
      }
    }
    {
      LibScope L;
      void *buf = malloc(need);
      b.pt = ex ? fptu_fetch_ex(ro, buf, need, mi, &cb) : fptu_fetch(ro, buf, need, mi);
    }
    CHECK(b.pt, "c11.fetch-refused", "fetch refused a buffer of the size told");
    b.owned = false;
    b.ref = a.ref;
    SIM_COUNT("op.fetch");
    size_t si, sd;
    {
      LibScope L;
      si = fptu_space4items(b.pt);
      sd = fptu_space4data(b.pt);
    }
    CHECK((si >= mi && sd >= mp / 4 * 4) || huge, "c11.capacity", "fetched with room for %zu fields and %zu bytes, asked for %u and %u", si, sd, mi, mp);
    check(b, "after fetch", true);
  }

  void run() {
    maxcol = fptu_max_cols;
    wide = chance(1, 10);
    maxlen = wide ? (choose(2) ? 12000 : 50000) : choose(3) ? 24 : choose(2) ? 400 : 3000;
    unsigned nc = 1 + choose(4);
    for (unsigned i = 0; i < nc; ++i) cols.push_back(choose(3) ? choose(6) : choose(maxcol + 1));
    unsigned nk = 1 + choose(5);
    for (unsigned i = 0; i < nk; ++i) kinds.push_back(choose(NT));
    make(slot[0]);
    const unsigned steps = 4 + choose(chance(1, 20) ? 400 : 50);
    const bool bulk = chance(1, 16);
    for (unsigned i = 0; i < steps; ++i) {
      Slot &s = slot[!slot[0].pt ? 1 : slot[1].pt ? choose(2) : 0];
      unsigned w = choose(24);
      string ctx = "after the last call";
      if (w < 13) do_put(s);
      else if (w < 19) do_erase(s);
      else if (w == 19) {
        span();
        const bool fault = chance(1, 3), cond = chance(1, 3);
        size_t junk = fptu_junkspace(s.pt);
        const fptu_field *b = fptu_begin_rw(s.pt);
        Val index((const char *)b, size_t((const char *)fptu_end_rw(s.pt) - (const char *)b));
        note("shrink%s, junk %zu", fault ? " (memory fails)" : "", junk);
        if (fault) arm_alloc_fault(1, 1 + choose(2));
        bool r;
        {
          LibScope L;
          r = cond ? fptu_cond_shrink(s.pt) : fptu_shrink(s.pt);
        }
        disarm_alloc_fault();
        SIM_COUNT("op.shrink");
        size_t junk2 = fptu_junkspace(s.pt);
        if (!fault || !alloc_faults) CHECK(junk2 == 0, "c11.shrink", "%zu bytes of junk are left by fptu_shrink", junk2);
        if (!r) CHECK(fptu_begin_rw(s.pt) == b && index == Val((const char *)b, index.size()), "c11.shrink", "fptu_shrink moved fields but says that it did not");
      } else if (w == 20 && chance(1, 3)) {
        span();
        note("clear");
        int rc;
        {
          LibScope L;
          rc = fptu_clear(s.pt);
        }
        CHECK(rc == FPTU_OK, "c11.clear", "fptu_clear returned %d", rc);
        s.ref.clear();
        SIM_COUNT("op.clear");
      } else if (w == 21 || w == 22) {
        unsigned from = &s == &slot[1];
        refetch(slot[from], slot[1 - from]);
      } else if (w == 23 && chance(1, 4)) make(s);
      if (bulk && i == 0) {
        span();
        unsigned n = 100 + choose(300);
        note("bulk %u", n);
        for (unsigned k = 0; k < n; ++k) {
          unsigned g = types[kinds[k % kinds.size()]].g;
          if (g == fptu::nested || g == fptu::i16) continue;
          Val v = gen_value(g, 1, 8);
          if (g == fptu::i8) v[0] = char(v[0] & 1);
          if (put(INSERT, s.pt, cols[k % cols.size()], g, v, false) == FPTU_OK) s.ref[{g, cols[k % cols.size()]}].push_back(v);
        }
      }
      check(s, ctx, chance(1, 6));
      heap_check("c11.overrun");
    }
    release(slot[0]);
    release(slot[1]);
  }
};

void world() {
  heap_begin_run(sh->seed);
  std::thread th([] { World w; w.run(); });
  th.join();
  heap_end_run("c11.leak");
}
Register r("legacy", world);
} // namespace
