#include <cmath>
#include "fields.hpp"
namespace fld {
static unsigned u16at(const unsigned char *p) { return p[0] | p[1] << 8; }

unsigned decode_stretchy(const unsigned char *img, unsigned total, unsigned at, unsigned g, Val &out, string &err) {
  const unsigned char *p = img + size_t(at) * 4;
  const size_t room = size_t(total - at) * 4;
  auto bad = [&](const char *what) {
    err = string(gname(g)) + " payload: " + what;
    return 0u;
  };
  if (at >= total) return bad("outside");
  switch (g) {
  case fptu::text: {
    size_t len = p[0], hdr = 1;
    if (len >= 254) {
      len = p[0] + 2 * size_t(u16at(p + 1));
      hdr = 3;
    }
    if (hdr + len > room) return bad("too long");
    out.assign((const char *)p + hdr, len);
    return unsigned((hdr + len + 3) / 4);
  }
  case fptu::varbin: {
    unsigned units = u16at(p), tail = u16at(p + 2);
    if (units < 1 || size_t(units) * 4 > room) return bad("bad size");
    if (tail > 3 || (tail && units < 2)) return bad("bad tail");
    size_t len = size_t(units - 1) * 4;
    if (tail) len -= 4 - tail;
    out.assign((const char *)p + 4, len);
    return units;
  }
  case fptu::nested: {
    unsigned units = u16at(p);
    if (units < 1 || size_t(units) * 4 > room) return bad("bad size");
    out.assign((const char *)p, size_t(units) * 4);
    return units;
  }
  case fptu::property: {
    size_t len = p[0];
    if (len + 2 > room) return bad("too long");
    out = Val(1, char(p[1])) + Val((const char *)p + 2, len);
    return unsigned((len + 2 + 3) / 4);
  }
  }
  return bad("?");
}

Decoded decode(const void *data, size_t bytes, const std::vector<PrePlace> &pre, unsigned preplaced_units, bool full) {
  Decoded d;
  const unsigned char *img = (const unsigned char *)data;
  auto bad = [&](const string &s) {
    d.error = s;
    return d;
  };
  if (bytes == 0) { // nothing at all: empty tuple
    d.pre.resize(pre.size());
    return d;
  }
  if (bytes & 3) return bad("size not a multiple of 4");
  const unsigned total = unsigned(bytes / 4);
  d.brutto = u16at(img);
  d.count = u16at(img + 2) >> 3;
  d.flags = u16at(img + 2) & 7;
  if (d.brutto != total) return bad("header says " + std::to_string(d.brutto) + " units, image has " + std::to_string(total));
  if (1 + d.count + preplaced_units > total) return bad("index or preplaced area outside");
  const unsigned pivot = 1 + d.count;
  std::vector<unsigned char> used(total, 0);
  for (unsigned i = 0; i < pivot + preplaced_units; ++i) used[i] = 1;
  auto claim = [&](unsigned at, unsigned n, const string &who) {
    if (at + n > total) { d.error = who + " ends outside the image"; return false; }
    for (unsigned i = at; i < at + n; ++i) {
      if (used[i]) { d.error = who + " overlaps at unit " + std::to_string(i); return false; }
      used[i] = 1;
    }
    return true;
  };
  for (auto &p : pre) {
    if (!stretchy(p.genus)) { d.pre.push_back(std::nullopt); continue; }
    const size_t at = size_t(pivot) * 4 + p.offset;
    unsigned off = u16at(img + at);
    if (!off) { d.pre.push_back(std::nullopt); continue; }
    if (at & 3) return bad("unaligned stretchy preplaced field");
    unsigned pay = unsigned(at / 4) + off;
    Val v;
    unsigned n = decode_stretchy(img, total, pay, p.genus, v, d.error);
    if (!n) return d;
    if (!claim(pay, n, string("preplaced ") + gname(p.genus))) return d;
    d.pre.push_back(v);
  }
  for (unsigned i = 0; i < d.count; ++i) {
    const unsigned char *f = img + 4 * (1 + i);
    unsigned off = u16at(f), gi = u16at(f + 2), g = gi >> 11, id = gi & 2047;
    string who = string("field #") + std::to_string(i) + " " + gname(g) + "." + std::to_string(id);
    if (g == fptu::hole) {
      d.holes++;
      if (id == 2047) { // a huge gap keeps its size inside
        if (!off || 1 + i + off >= total) return bad("huge hole outside of the tuple");
        uint32_t n;
        memcpy(&n, img + 4 * (1 + i + off), 4);
        if (n < 2047 || n > 65535) return bad("huge hole with a wrong size");
        id = n;
      }
      d.hole_units += id;
      if (id == 0) {
        if (off) return bad("empty hole with an offset");
        continue;
      }
      if (!off) return bad("hole without an offset");
      if (!claim(1 + i + off, id, who)) return d;
      continue;
    }
    DecField df{g, id, 0, 0, {}, false};
    if (inplaced(g)) {
      df.value = Val((const char *)f, value_size(g));
      if (value_size(g) == 1 && f[1] != 0 && !(g == fptu::i8)) return bad(who + " has garbage in the upper byte");
      df.has_payload = true;
      d.loose.push_back(df);
      continue;
    }
    if (!off) {
      if (!stretchy(g)) return bad(who + " fixed-size value without payload");
      if (g == fptu::property) df.value = Val(1, '\0');
      d.loose.push_back(df);
      continue;
    }
    unsigned pay = 1 + i + off, n;
    if (pay >= total) return bad(who + " payload outside");
    if (stretchy(g)) {
      n = decode_stretchy(img, total, pay, g, df.value, d.error);
      if (!n) return d;
    } else {
      n = (value_size(g) + 3) / 4;
      if (n == 0) return bad(who + " unknown type");
      if (pay + n > total) return bad(who + " payload outside");
      df.value = Val((const char *)img + size_t(pay) * 4, value_size(g));
    }
    if (!claim(pay, n, who)) return d;
    df.payload_unit = pay;
    df.units = n;
    df.has_payload = true;
    d.loose.push_back(df);
  }
  if (full)
    for (unsigned i = 0; i < total; ++i)
      if (!used[i]) return bad("unit " + std::to_string(i) + " of " + std::to_string(total) + " belongs to nothing");
  return d;
}

// What makes a layout well formed and nothing more: every value and every gap lies inside
// the used area, no two of them overlap, together they cover it.
string layout_trouble(const void *data, size_t bytes, const std::vector<PrePlace> &pre, unsigned preplaced_units) {
  const unsigned char *img = (const unsigned char *)data;
  if (bytes < 4) return "no header";
  const unsigned total = u16at(img), count = u16at(img + 2) >> 3, pivot = 1 + count;
  if (size_t(total) * 4 > bytes) return "header says " + std::to_string(total) + " units, there are " + std::to_string(bytes / 4);
  if (pivot + preplaced_units > total) return "index or preplaced area outside";
  std::vector<unsigned char> used(total, 0);
  for (unsigned i = 0; i < pivot + preplaced_units; ++i) used[i] = 1;
  string err;
  auto claim = [&](unsigned at, unsigned n, const string &who) {
    if (at + n > total) err = who + " ends outside the image";
    for (unsigned i = at; err.empty() && i < at + n; ++i) {
      if (used[i]) err = who + " overlaps at unit " + std::to_string(i);
      used[i] = 1;
    }
  };
  auto stretch = [&](unsigned at, unsigned g, const string &who) {
    if (at >= total) { err = who + " starts outside the image"; return; }
    const unsigned char *p = img + size_t(at) * 4;
    size_t n = 0;
    if (g == fptu::text) n = p[0] < 254 ? p[0] + 1 : 3 + p[0] + 2 * size_t(u16at(p + 1));
    else if (g == fptu::property) n = p[0] + 2;
    else n = size_t(u16at(p)) * 4;
    if (n == 0) err = who + " is hollow";
    else claim(at, unsigned((n + 3) / 4), who);
  };
  for (auto &p : pre) {
    if (!stretchy(p.genus) || !err.empty()) continue;
    const size_t at = size_t(pivot) * 4 + p.offset;
    if (unsigned off = u16at(img + at)) stretch(unsigned(at / 4) + off, p.genus, string("preplaced ") + gname(p.genus));
  }
  for (unsigned i = 0; i < count && err.empty(); ++i) {
    const unsigned char *f = img + 4 * (1 + i);
    unsigned off = u16at(f), gi = u16at(f + 2), g = gi >> 11, id = gi & 2047;
    string who = string("field #") + std::to_string(i) + " " + gname(g) + "." + std::to_string(id);
    if (g == fptu::hole) {
      if (id == 2047) {
        if (!off || 1 + i + off >= total) return "huge hole outside of the tuple";
        uint32_t n;
        memcpy(&n, img + 4 * (1 + i + off), 4);
        if (n > 65535) return "huge hole with a wrong size";
        id = n;
      }
      if (id) claim(1 + i + off, id, who);
    } else if (inplaced(g)) continue;
    else if (stretchy(g)) { if (off) stretch(1 + i + off, g, who); }
    else claim(1 + i + off, g == fptu::app_reserved_64 ? 2 : g == fptu::app_reserved_128 ? 4 : unsigned(value_size(g) + 3) / 4, who);
  }
  for (unsigned i = 0; i < total && err.empty(); ++i)
    if (!used[i]) err = "unit " + std::to_string(i) + " of " + std::to_string(total) + " belongs to nothing";
  return err;
}

// A self-made serialized tuple (not produced by the library): index of in-placed
// and text fields. how==0: header only.
Val small_tuple(unsigned how) {
  if (how == 0) { // header only
    const unsigned char h[4] = {1, 0, 0, 0};
    return Val((const char *)h, 4);
  }
  unsigned nfield = 1 + sim::choose(3), textlen = sim::choose(how * 4 + 1);
  std::vector<unsigned char> idx, pay;
  unsigned index_units = nfield;
  for (unsigned i = 0; i < nfield; ++i) {
    if (i == 0 && textlen) {
      if (textlen > 250) textlen = 250;
      unsigned off = index_units - i;
      unsigned gi = (fptu::text << 11) | 5;
      idx.insert(idx.end(), {(unsigned char)off, (unsigned char)(off >> 8), (unsigned char)gi, (unsigned char)(gi >> 8)});
      pay.push_back((unsigned char)textlen);
      for (unsigned j = 0; j < textlen; ++j) pay.push_back((unsigned char)('a' + j % 26));
      while (pay.size() & 3) pay.push_back(0);
    } else {
      unsigned v = 1 + sim::choose(60000), gi = (fptu::u16 << 11) | (10 + i);
      idx.insert(idx.end(), {(unsigned char)v, (unsigned char)(v >> 8), (unsigned char)gi, (unsigned char)(gi >> 8)});
    }
  }
  unsigned total = unsigned(1 + idx.size() / 4 + pay.size() / 4), lf = nfield << 3;
  Val out;
  out.push_back(char(total));
  out.push_back(char(total >> 8));
  out.push_back(char(lf));
  out.push_back(char(lf >> 8));
  out.append((const char *)idx.data(), idx.size());
  out.append((const char *)pay.data(), pay.size());
  return out;
}

// style 0 ordinary, 1 empty/zero, 2 boundary
Val gen_value(unsigned g, unsigned style, unsigned max_len) {
  auto fill = [](Val &v) { // cheap, compressible pattern, distinct per call
    uint32_t s = sim::choose(1u << 20);
    for (auto &c : v) {
      s = s * 1664525u + 1013904223u;
      c = char(s >> 24);
    }
  };
  switch (g) {
  case fptu::text:
  case fptu::varbin: {
    size_t n;
    if (style == 1) n = 0;
    else if (style == 2) {
      static const unsigned b[] = {1, 2, 3, 4, 5, 7, 8, 252, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 1023, 1024, 4096, 8187, 8188, 8189, 8192, 16384, 65535, 65536, 131000};
      n = b[sim::choose(sizeof b / sizeof *b)];
    } else if (max_len >= 8192 && sim::chance(1, 4)) n = 8170 + sim::choose(24); // about where a gap stops fitting the index
    else n = 1 + sim::choose(std::max(1u, max_len));
    if (n > max_len) n = max_len;
    Val v(n, '\0');
    fill(v);
    return v;
  }
  case fptu::nested:
    if (style == 1) return sim::choose(2) ? small_tuple(0) : Val();
    return small_tuple(1 + sim::choose(std::min(60u, 1 + max_len / 4)));
  case fptu::property: {
    if (style == 1) return Val(1, '\0');
    size_t n = style == 2 ? (sim::choose(2) ? 255 : 0) : sim::choose(std::min(255u, max_len) + 1);
    if (n > max_len) n = max_len;
    Val v(n, '\0');
    fill(v);
    unsigned id = sim::choose(128);
    if (n == 0 && id == 0) id = 1;
    return Val(1, char(id)) + v;
  }
  }
  unsigned n = value_size(g);
  Val v(n, '\0');
  if (style == 1) return v;
  if (style == 2) {
    switch (g) {
    case fptu::i8: case fptu::i16: case fptu::i32: case fptu::i64:
      switch (sim::choose(3)) {
      case 0: v = Val(n, char(0xff)); return v;                       // -1
      case 1: v = Val(n, char(0xff)); v[n - 1] = 0x7f; return v;      // max
      default: v[n - 1] = char(0x80); v[0] = char(n > 1 ? 1 : 0x81); return v; // min+1
      }
    case fptu::u8: case fptu::u16: case fptu::u32: case fptu::u64:
      return Val(n, char(0xff));
    case fptu::f32: { static const float b[] = {3.402823466e+38f, 1e-38f, INFINITY, -INFINITY, NAN, -0.0f, 1e-45f}; return pack(b[sim::choose(7)], 4); }
    case fptu::f64: { static const double b[] = {1.7976931348623157e308, 2.3e-308, double(INFINITY), -double(INFINITY), double(NAN), -0.0, 5e-324}; return pack(b[sim::choose(7)], 8); }
    case fptu::d64: break;
    default: // zero but for one byte
      v[sim::choose(g == fptu::mac ? 6 : n)] = char(1 + sim::choose(255));
      if (g == fptu::ipnet && uint8_t(v[16]) > 128) v[16] = char(128);
      return v;
    }
  }
  if (g == fptu::f32) { float f = float(int(sim::choose(2000001)) - 1000000) / 8.0f; if (f == 0) f = 1.5f; return pack(f, 4); }
  if (g == fptu::f64) { double f = (double(sim::choose(1u << 30)) - (1 << 29)) / 64.0; if (f == 0) f = 2.5; return pack(f, 8); }
  fill(v);
  if (g == fptu::d64) { // a finite non-zero decimal
    uint64_t b;
    memcpy(&b, v.data(), 8);
    b = (b & (1ull << 63)) | (uint64_t(390 + (b >> 56 & 15)) << 53) | ((b & 0xffffffffff) + 1);
    memcpy(&v[0], &b, 8);
    return v;
  }
  if (g == fptu::mac) v[6] = v[7] = 0;
  if (g == fptu::ipnet) v[16] = char(sim::choose(129));
  if (v == denil_value(g)) v[0] = char(v[0] ^ 1);
  if (is_empty_value(g, v)) v[0] = 1;
  return v;
}
} // namespace fld
