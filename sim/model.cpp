#include "model.hpp"
namespace fld {
string show(const std::optional<Val> &v) {
  if (!v) return "absent";
  return "[" + std::to_string(v->size()) + "]" + sim::hex(v->data(), v->size(), 20);
}

static unsigned pick_genus() {
  // stretchy types carry most of the machinery
  if (sim::chance(9, 20)) {
    static const unsigned s[] = {fptu::text, fptu::varbin, fptu::nested, fptu::property};
    return s[sim::choose(4)];
  }
  static const unsigned all[] = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 28, 29, 30};
  return all[sim::choose(sizeof all / sizeof *all)];
}

std::unique_ptr<fptu::schema> make_fields(Model &m, unsigned max_pre, unsigned max_loose, bool schemaless_ok) {
  m.f.clear();
  bool schemaless = schemaless_ok && sim::chance(1, 3);
  unsigned npre = schemaless ? 0 : sim::choose(max_pre + 1);
  unsigned nloose = 1 + sim::choose(max_loose);
  std::unique_ptr<fptu::schema> s;
  sim::LibScope L;
  if (!schemaless) s = fptu::schema::create();
  for (unsigned i = 0; i < npre + nloose; ++i) {
    sim::HarnessScope H;
    Field x;
    x.g = pick_genus();
    x.pre = i < npre;
    x.disc = sim::choose(2);
    x.coll = !x.pre && sim::chance(2, 5);
    if (x.coll && x.g == fptu::t32) x.g = fptu::t64; // insert_datetime is for t64
    x.name = "f" + std::to_string(i) + "." + gname(x.g) + (x.pre ? ".pre" : "") + (x.coll ? ".coll" : "") + (x.disc ? ".disc" : "");
    if (x.pre) {
      Val raw;
      if (!stretchy(x.g) && sim::choose(2)) {
        x.init_null = false;
        x.init = gen_value(x.g, sim::choose(3) == 1 ? 1 : 0, 16);
        raw = x.init + Val(80, '\0');
      }
      {
        sim::LibScope L2;
        x.tok = s->define_preplaced(string(x.name), genus(x.g), x.disc, false, x.init_null ? nullptr : raw.data());
      }
      x.off = unsigned(x.tok.preplaced_offset());
      x.size = unsigned(x.tok.preplaced_size());
    } else if (s) {
      sim::LibScope L2;
      x.tok = s->define_loose(string(x.name), genus(x.g), x.coll, x.disc, false);
    } else {
      // ids at the extremes and in the middle, unique per type
      unsigned id = sim::chance(1, 6) ? (sim::choose(2) ? 0 : fptu::details::tag_bits::max_ident) : i * 7 + 1;
      for (bool again = true; again;) {
        again = false;
        for (auto &y : m.f)
          if (y.g == x.g && y.tok.id() == id) { id = (id + 1) % 1900; again = true; }
      }
      x.tok = token(genus(x.g), id, x.coll, x.disc, false);
    }
    m.f.push_back(x);
  }
  sim::HarnessScope H;
  m.preplaced_units = s ? unsigned(s->preplaced_units()) : 0;
  m.preplaced_bytes = s ? unsigned(s->preplaced_bytes()) : 0;
  m.places.clear();
  m.place_field.clear();
  for (size_t i = 0; i < m.f.size(); ++i)
    if (m.f[i].pre) {
      m.places.push_back({m.f[i].g, m.f[i].off});
      m.place_field.push_back(unsigned(i));
    }
  m.reset();
  return s;
}

string diff_image(const void *data, size_t bytes, const Model &m, Decoded *out) {
  Decoded d = decode(data, bytes, m.places, m.preplaced_units);
  if (out) *out = d;
  if (!d.error.empty()) return "layout: " + d.error;
  const unsigned char *img = (const unsigned char *)data;
  for (size_t p = 0; p < m.places.size(); ++p) {
    size_t i = m.place_field[p];
    const Field &x = m.f[i];
    if (stretchy(x.g)) {
      auto got = d.pre[p];
      if (got) *got = canon(x.g, *got);
      if (got != m.single[i]) return x.name + ": image has " + show(got) + ", expected " + show(m.single[i]);
    } else {
      Val want = m.single[i] ? *m.single[i] : denil_value(x.g);
      unsigned n = std::min(x.size, unsigned(want.size()));
      Val got((const char *)img + 4 * (1 + d.count) + x.off, n);
      want.resize(n);
      if (x.g == fptu::d64) got = canon(x.g, got);
      if (got != want) return x.name + ": image has " + show(got) + " in place, expected " + show(want);
    }
  }
  std::vector<std::vector<Val>> got(m.f.size());
  for (auto &l : d.loose) {
    size_t i = 0;
    for (; i < m.f.size(); ++i)
      if (!m.f[i].pre && m.f[i].g == l.genus && m.f[i].tok.id() == l.id) break;
    if (i == m.f.size()) return string("image holds an unknown field ") + gname(l.genus) + "." + std::to_string(l.id);
    got[i].push_back(canon(l.genus, l.value));
  }
  for (size_t i = 0; i < m.f.size(); ++i) {
    if (m.f[i].pre) continue;
    std::vector<Val> want;
    if (m.f[i].coll) want = m.coll[i];
    else if (m.single[i]) want.push_back(*m.single[i]);
    std::sort(want.begin(), want.end());
    std::sort(got[i].begin(), got[i].end());
    if (want != got[i])
      return m.f[i].name + ": image holds " + std::to_string(got[i].size()) + " values " + (got[i].empty() ? "" : show(got[i][0])) +
             ", expected " + std::to_string(want.size()) + (want.empty() ? "" : " " + show(want[0]));
  }
  return "";
}
} // namespace fld
