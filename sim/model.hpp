// Reference model of one tuple: scalar fields are optional values, repeated
// fields are multisets. Also generates schemas and gathers all observations.
#pragma once
#include "fields.hpp"
#include <algorithm>
#include <memory>

namespace fld {

struct Field {
  token tok;
  unsigned g = 0;
  bool coll = false, disc = false, pre = false;
  unsigned off = 0, size = 0; // preplaced place
  Val init;                   // preplaced fixed: initial bytes (canonical)
  bool init_null = true;
  string name;
};

inline Val canon(unsigned g, const Val &v) { // nested header-only == empty
  if (g == fptu::nested && v.size() < 8) return Val();
  if (g == fptu::d64 && v.size() == 8 && d64_zero(v)) return Val(8, '\0');
  return v;
}

struct Model {
  std::vector<Field> f;
  std::vector<std::optional<Val>> single;
  std::vector<std::vector<Val>> coll;
  unsigned preplaced_units = 0, preplaced_bytes = 0;
  std::vector<PrePlace> places; // all preplaced, in field order
  std::vector<unsigned> place_field;

  void reset() {
    single.assign(f.size(), std::nullopt);
    coll.assign(f.size(), {});
    for (size_t i = 0; i < f.size(); ++i)
      if (f[i].pre && !stretchy(f[i].g)) {
        if (!f[i].init_null) set(i, f[i].init);
        else if (!f[i].disc) single[i] = zero_value(f[i].g);
      }
  }
  // effect of assigning v to scalar field i
  void set(size_t i, const Val &v) {
    const Field &x = f[i];
    if (x.pre && !stretchy(x.g)) {
      if (x.disc && v == denil_value(x.g)) single[i].reset();
      else single[i] = canon(x.g, v);
    } else if (!x.disc && is_empty_value(x.g, v)) single[i].reset();
    else single[i] = canon(x.g, v);
  }
  bool insert_stores(size_t i, const Val &v) const { return f[i].disc || !is_empty_value(f[i].g, v); }
  void erase(size_t i) {
    const Field &x = f[i];
    if (x.coll) coll[i].clear();
    else if (x.pre && !stretchy(x.g) && !x.disc) single[i] = zero_value(x.g);
    else single[i].reset();
  }
  bool present(size_t i) const { return f[i].coll ? !coll[i].empty() : single[i].has_value(); }
  // what reading the scalar field i must report
  std::optional<Val> expect(size_t i) const {
    if (single[i]) return single[i];
    if (f[i].disc) return std::nullopt;
    return zero_value(f[i].g);
  }
  unsigned loose_count() const {
    unsigned n = 0;
    for (size_t i = 0; i < f.size(); ++i)
      if (!f[i].pre) n += f[i].coll ? unsigned(coll[i].size()) : single[i].has_value();
    return n;
  }
  unsigned data_units() const { // netto payload units incl. preplaced area
    unsigned n = preplaced_units;
    for (size_t i = 0; i < f.size(); ++i) {
      if (f[i].coll) for (auto &v : coll[i]) n += value_units(f[i].g, v);
      else if (single[i] && (!f[i].pre || stretchy(f[i].g))) n += value_units(f[i].g, *single[i]);
    }
    return n;
  }
  uint64_t hash() const {
    uint64_t h = 14695981039346656037ull;
    for (size_t i = 0; i < f.size(); ++i) {
      if (single[i]) h = sim::fnv(single[i]->data(), single[i]->size(), h + i);
      for (auto &v : coll[i]) h += sim::fnv(v.data(), v.size(), i);
    }
    return h;
  }
};

// Random schema (returned, may be null) and field list.
std::unique_ptr<fptu::schema> make_fields(Model &m, unsigned max_pre, unsigned max_loose, bool allow_schemaless);

string show(const std::optional<Val> &v);
// Compares every field as seen through `src` with the model; returns first
// difference as text ("" when none). path: 0 getters, 1 accessor.
template <class S> string diff_content(S &src, const Model &m, int path) {
  const bool general = sim::chance(1, 24); // (most of these calls throw, which takes its time)
  if (general) SIM_COUNT("chk.general-readers");
  for (size_t i = 0; i < m.f.size(); ++i) {
    const Field &x = m.f[i];
    if (!x.coll) {
      std::optional<Val> got;
      try {
        if (path == 0) {
          got = read(src, x.tok, x.g);
          auto d = !general ? string() : read_general(src, x.g, m.expect(i), [&](auto &&f) { return f(x.tok); });
          if (!d.empty()) return x.name + ": " + d;
        }
        else {
          auto acc = [&] { sim::LibScope L; return src[x.tok]; }();
          got = read_acc(acc, x.g);
          auto d = !general ? string() : read_general(acc, x.g, m.expect(i), [&](auto &&f) { return f(); });
          if (!d.empty()) return x.name + ": accessor." + d;
        }
      } catch (const std::exception &e) {
        return x.name + ": unexpected " + e.what();
      }
      if (got) *got = canon(x.g, *got);
      auto want = m.expect(i);
      if (got != want)
        return x.name + ": got " + show(got) + ", expected " + show(want);
    } else {
      std::vector<Val> got;
      try {
        auto c = [&] { sim::LibScope L; return src.collection(x.tok); }();
        auto end = c.end();
        size_t guard = 0;
        for (auto it = c.begin(); it != end; ++it) {
          auto v = read_acc(*it, x.g);
          if (!v) return x.name + ": element reported as absent";
          got.push_back(canon(x.g, *v));
          if (++guard > 20000) return x.name + ": endless collection";
        }
      } catch (const std::exception &e) {
        return x.name + ": unexpected " + e.what();
      }
      auto want = m.coll[i];
      if (got.size() != want.size())
        return x.name + ": " + std::to_string(got.size()) + " elements, expected " + std::to_string(want.size());
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      for (size_t k = 0; k < got.size(); ++k)
        if (got[k] != want[k])
          return x.name + ": element " + show(got[k]) + ", expected " + show(want[k]);
    }
  }
  return "";
}
// presence queries against the model
template <class S> string diff_presence(const S &src, const Model &m) {
  for (size_t i = 0; i < m.f.size(); ++i) {
    const Field &x = m.f[i];
    bool p;
    try {
      sim::LibScope L;
      p = src.is_present(x.tok);
    } catch (const std::exception &e) {
      return x.name + ": is_present threw " + e.what();
    }
    if (p != m.present(i))
      return x.name + ": is_present=" + (p ? "true" : "false") + " but the field is " + (m.present(i) ? "present" : "absent");
  }
  return "";
}
// serialized image against the model through the independent decoder
string diff_image(const void *data, size_t bytes, const Model &m, Decoded *out = nullptr);
} // namespace fld
