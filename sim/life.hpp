// Ordinary use of a writable tuple, mirrored in the model. The detailed judging of
// these calls belongs to the rw world; other worlds use them to get real content.
#pragma once
#include "model.hpp"
namespace fld {
struct NoField {};
inline size_t any_field(const Model &m, int want_coll) {
  std::vector<size_t> c;
  for (size_t i = 0; i < m.f.size(); ++i)
    if (want_coll < 0 || m.f[i].coll == bool(want_coll)) c.push_back(i);
  if (c.empty()) throw NoField();
  return c[sim::choose(unsigned(c.size()))];
}
inline Val some_value(unsigned g, unsigned max_len) {
  unsigned st = sim::choose(6);
  return gen_value(g, st < 4 ? 0 : st == 4 ? 1 : 2, max_len);
}
// returns 1 applied, 0 refused
template <class F> bool tried(F &&f) {
  int saved = sim::in_lib;
  try {
    f();
    sim::in_lib = saved;
    return true;
  } catch (const std::exception &) {
    sim::in_lib = saved;
    return false;
  }
}
template <class T> void mutate_one(T &t, Model &m, unsigned max_len, bool maintenance = true) {
  try {
    unsigned w = sim::choose(20);
    if (w < 9) {
      size_t i = any_field(m, 0);
      Val v = some_value(m.f[i].g, max_len);
      sim::note("  set %s=%s", m.f[i].name.c_str(), show(v).c_str());
      if (tried([&] { put(t, m.f[i].tok, m.f[i].g, v, How::set); })) m.set(i, v);
    } else if (w < 13) {
      size_t i = any_field(m, 1);
      Val v = some_value(m.f[i].g, max_len);
      sim::note("  insert %s=%s", m.f[i].name.c_str(), show(v).c_str());
      if (tried([&] { put(t, m.f[i].tok, m.f[i].g, v, How::insert); }) && m.insert_stores(i, v)) m.coll[i].push_back(canon(m.f[i].g, v));
    } else if (w < 18) {
      size_t i = any_field(m, -1);
      if (m.f[i].coll) {
        size_t n = m.coll[i].size();
        if (n && sim::choose(2)) { // one element
          size_t at = sim::choose(unsigned(n));
          Val old;
          sim::note("  erase %s[%zu]", m.f[i].name.c_str(), at);
          if (tried([&] {
                auto c = [&] { sim::LibScope L; return t.collection(m.f[i].tok); }();
                auto it = c.begin();
                for (size_t k = 0; k < at; ++k) { sim::LibScope L; ++it; }
                auto o = read_acc(*it, m.f[i].g);
                old = o ? canon(m.f[i].g, *o) : Val();
                sim::LibScope L;
                t.erase(it);
              })) {
            auto q = std::find(m.coll[i].begin(), m.coll[i].end(), old);
            if (q != m.coll[i].end()) m.coll[i].erase(q);
          }
          return;
        }
      }
      sim::note("  erase %s", m.f[i].name.c_str());
      if (tried([&] { sim::LibScope L; t.erase(m.f[i].tok); })) m.erase(i);
    } else if (maintenance) {
      using F = fptu::details::tuple_rw::optimize_flags;
      unsigned k = sim::choose(3);
      sim::note("  maintenance %u", k);
      tried([&] {
        sim::LibScope L;
        if (k == 0) t.optimize();
        else if (k == 1) t.compactify();
        else t.sort_index(true);
      });
      (void)F::all;
    }
  } catch (const NoField &) {
  }
}
template <class T> void mutate(T &t, Model &m, unsigned steps, unsigned max_len, bool maintenance = true) {
  for (unsigned k = 0; k < steps; ++k) mutate_one(t, m, max_len, maintenance);
}
} // namespace fld
