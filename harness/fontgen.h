// Generator of well-formed TrueType fonts from a model that is also the oracle.
#ifndef FONTGEN_H
#define FONTGEN_H
#include "pbt.h"
#include <blend2d/blend2d.h>
#include <map>
#include <string>
#include <vector>
#include <cmath>
namespace fg {
using pbt::Case;

struct Buf : std::vector<uint8_t> {
  void u8(uint32_t v) { push_back(uint8_t(v)); }
  void u16(uint32_t v) { u8(v >> 8); u8(v); }
  void u32(uint32_t v) { u16(v >> 16); u16(v); }
  void tag(const char* t) { for (int i = 0; i < 4; i++) u8(uint8_t(t[i])); }
  void put(const std::vector<uint8_t>& o) { insert(end(), o.begin(), o.end()); }
  void set16(size_t p, uint32_t v) { (*this)[p] = uint8_t(v >> 8); (*this)[p + 1] = uint8_t(v); }
  void set32(size_t p, uint32_t v) { set16(p, v >> 16); set16(p + 2, v); }
  void pad(size_t n) { while (size() % n) u8(0); }
};

struct Pt { int x, y; bool on; };
struct Comp { int glyph, dx, dy; int kind; double a, b, c, d; bool scaled_offset, words; };   // kind 0 none, 1 scale, 2 xy, 3 affine
struct Glyph { std::vector<std::vector<Pt>> contours; std::vector<Comp> comps; int adv = 0, lsb = 0, bb[4] = {0, 0, 0, 0}; bool empty() const { return contours.empty() && comps.empty(); } };
struct Name { int id; std::string text; };
struct Os2 { bool present = false; int version = 0, weight = 400, width = 5, sel = 0, typo_asc = 0, typo_desc = 0, typo_gap = 0, xh = 0, cap = 0, so_size = 0, so_pos = 0; uint8_t panose[10] = {0}; uint32_t cov[4] = {0, 0, 0, 0}; };

struct Font {
  int upem = 1000, loca = 0, lowest = 8, asc = 800, desc = -200, gap = 90, max_adv = 1000, min_lsb = 0, min_rsb = 0, post_pos = -100, post_thick = 50, head_bb[4] = {0, 0, 0, 0}; uint32_t rev = 0x10000, head_flags = 0;
  std::vector<Glyph> g; int long_metrics = 1; std::map<uint32_t, uint32_t> cmap; int cmap_format = 4; bool symbol = false; std::vector<Name> names; Os2 os2; bool has_post = true;
  std::map<std::string, Buf> extra;       // Additional tables (GSUB, GPOS, GDEF, kern).
  Buf bytes; std::string text;
};

// Stored form of F2.14 values.
static inline double f2(int v) { return double(v) / 16384.0; }
static inline int to_f2(double v) { return int(std::lround(v * 16384.0)); }

static Buf glyph_bytes(Case& c, const Glyph& g) {
  Buf b; if (g.empty()) return b; b.u16(uint32_t(g.comps.empty() ? int(g.contours.size()) : -1)); for (int i = 0; i < 4; i++) b.u16(uint32_t(g.bb[i]));
  if (!g.comps.empty()) {
    for (size_t i = 0; i < g.comps.size(); i++) {
      const Comp& k = g.comps[i]; uint32_t f = 0x0002; bool words = k.words || k.dx < -128 || k.dx > 127 || k.dy < -128 || k.dy > 127; if (words) f |= 1; if (i + 1 < g.comps.size()) f |= 0x20; if (k.kind == 1) f |= 8; if (k.kind == 2) f |= 0x40; if (k.kind == 3) f |= 0x80; if (k.scaled_offset) f |= 0x800; else if (c.chance(1, 4)) f |= 0x1000; if (c.chance(1, 4)) f |= 4; if (c.chance(1, 6)) f |= 0x200; bool instr = i + 1 == g.comps.size() && c.chance(1, 5); if (instr) f |= 0x100;
      b.u16(f); b.u16(uint32_t(k.glyph)); if (words) { b.u16(uint32_t(k.dx)); b.u16(uint32_t(k.dy)); } else { b.u8(uint32_t(k.dx)); b.u8(uint32_t(k.dy)); }
      if (k.kind == 1) b.u16(uint32_t(to_f2(k.a))); if (k.kind == 2) { b.u16(uint32_t(to_f2(k.a))); b.u16(uint32_t(to_f2(k.d))); } if (k.kind == 3) { b.u16(uint32_t(to_f2(k.a))); b.u16(uint32_t(to_f2(k.b))); b.u16(uint32_t(to_f2(k.c))); b.u16(uint32_t(to_f2(k.d))); }
      if (instr) { b.u16(3); b.u8(0x4D); b.u8(0x4D); b.u8(0x4D); }
    }
    return b;
  }
  size_t n = 0; for (auto& k : g.contours) { n += k.size(); b.u16(uint32_t(n - 1)); } uint32_t ni = c.chance(1, 4) ? c.below(9) : 0; b.u16(ni); for (uint32_t i = 0; i < ni; i++) b.u8(c.byte());
  std::vector<uint8_t> fl; Buf xs, ys; int px = 0, py = 0; bool first = true, wide = c.chance(1, 6);
  for (auto& k : g.contours) for (auto& p : k) {
    uint32_t f = p.on ? 1 : 0; int dx = p.x - px, dy = p.y - py; px = p.x; py = p.y; if (first && c.chance(1, 3)) f |= 0x40; first = false;
    if (dx == 0 && !wide) f |= 0x10; else if (std::abs(dx) < 256 && !wide) { f |= 2; if (dx >= 0) f |= 0x10; xs.u8(uint32_t(std::abs(dx))); } else xs.u16(uint32_t(dx));
    if (dy == 0 && !wide) f |= 0x20; else if (std::abs(dy) < 256 && !wide) { f |= 4; if (dy >= 0) f |= 0x20; ys.u8(uint32_t(std::abs(dy))); } else ys.u16(uint32_t(dy));
    fl.push_back(uint8_t(f));
  }
  bool pack = c.coin(); for (size_t i = 0; i < fl.size();) { size_t j = i + 1; while (pack && j < fl.size() && fl[j] == fl[i] && j - i < 256) j++; if (j - i > 1) { b.u8(fl[i] | 8u); b.u8(uint32_t(j - i - 1)); } else b.u8(fl[i]); i = j; }
  b.put(xs); b.put(ys); return b;
}

static Buf cmap_sub(Case& c, const std::map<uint32_t, uint32_t>& m, int format) {
  Buf b; uint32_t lo = m.empty() ? 0 : m.begin()->first, hi = m.empty() ? 0 : m.rbegin()->first;
  auto get = [&](uint32_t u) { auto i = m.find(u); return i == m.end() ? 0u : i->second; };
  switch (format) {
    case 0: b.u16(0); b.u16(262); b.u16(0); for (uint32_t i = 0; i < 256; i++) b.u8(get(i)); break;
    case 6: b.u16(6); b.u16(10 + (hi - lo + 1) * 2); b.u16(0); b.u16(lo); b.u16(hi - lo + 1); for (uint32_t i = lo; i <= hi; i++) b.u16(get(i)); break;
    case 10: b.u16(10); b.u16(0); b.u32(20 + (hi - lo + 1) * 2); b.u32(0); b.u32(lo); b.u32(hi - lo + 1); for (uint32_t i = lo; i <= hi; i++) b.u16(get(i)); break;
    case 4: {
      struct Seg { uint32_t a, b; bool delta; }; std::vector<Seg> s;
      for (auto i = m.begin(); i != m.end();) { uint32_t a = i->first, e = a, g = i->second; bool lin = true; auto j = std::next(i); bool merge = c.chance(1, 3); while (j != m.end() && j->first < 0xFFFF && (j->first == e + 1 || (merge && j->first <= e + 3))) { bool l = j->first == e + 1 && j->second == g + (j->first - a); if (!merge && !l) break; lin &= l; e = j->first; ++j; } s.push_back({a, e, lin && c.chance(3, 4)}); i = j; }
      if (s.empty() || s.back().b != 0xFFFF) s.push_back({0xFFFF, 0xFFFF, true}); uint32_t n = uint32_t(s.size()), p = 1, l = 0; while (p * 2 <= n) { p *= 2; l++; }
      b.u16(4); b.u16(0); b.u16(0); b.u16(n * 2); b.u16(p * 2); b.u16(l); b.u16(n * 2 - p * 2); for (auto& x : s) b.u16(x.b); b.u16(0); for (auto& x : s) b.u16(x.a); std::vector<uint16_t> arr; std::vector<uint32_t> deltas, offs;
      for (uint32_t i = 0; i < n; i++) { uint32_t d = 0, o = 0; if (s[i].delta) d = get(s[i].a) - s[i].a; else { d = c.chance(1, 3) ? c.below(50) : 0; o = (n - i) * 2 + uint32_t(arr.size()) * 2; for (uint32_t u = s[i].a; u <= s[i].b; u++) { uint32_t v = get(u); arr.push_back(uint16_t(v ? v - d : 0)); if (v && uint16_t(v - d) == 0) { arr.back() = uint16_t(v); d = 0; } } } deltas.push_back(d); offs.push_back(o); }
      // A delta that would turn a stored value to zero isn't representable, use no delta for such segments.
      arr.clear(); for (uint32_t i = 0; i < n; i++) if (!s[i].delta) { bool z = false; for (uint32_t u = s[i].a; u <= s[i].b; u++) z |= get(u) && uint16_t(get(u) - deltas[i]) == 0; if (z) deltas[i] = 0; offs[i] = (n - i) * 2 + uint32_t(arr.size()) * 2; for (uint32_t u = s[i].a; u <= s[i].b; u++) arr.push_back(uint16_t(get(u) ? get(u) - deltas[i] : 0)); }
      for (auto d : deltas) b.u16(d); for (auto o : offs) b.u16(o); for (auto v : arr) b.u16(v); b.set16(2, uint32_t(b.size())); break;
    }
    default: {
      struct G { uint32_t a, b, g; }; std::vector<G> gs; for (auto& p : m) { if (!gs.empty() && gs.back().b + 1 == p.first && p.second == (format == 12 ? gs.back().g + (p.first - gs.back().a) : gs.back().g) && !c.chance(1, 10)) gs.back().b++; else gs.push_back({p.first, p.first, p.second}); }
      b.u16(uint32_t(format)); b.u16(0); b.u32(16 + uint32_t(gs.size()) * 12); b.u32(0); b.u32(uint32_t(gs.size())); for (auto& x : gs) { b.u32(x.a); b.u32(x.b); b.u32(x.g); } break;
    }
  }
  return b;
}

static std::string name_text(Case& c) { std::string s; int n = int(c.range(1, 12)); for (int i = 0; i < n; i++) switch (c.weighted({8, 1, 1})) { case 0: s += char(c.range('A', 'Z') + (c.coin() ? 32 : 0)); break; case 1: s += "\xC3\xA9"; break; default: s += c.coin() ? "\xE2\x82\xAC" : "\xF0\x9F\x98\x80"; } return s; }
static void utf16be(Buf& b, const std::string& s) { for (size_t i = 0; i < s.size();) { uint8_t k = uint8_t(s[i]); uint32_t u; int n; if (k < 0x80) { u = k; n = 1; } else if (k < 0xE0) { u = k & 31; n = 2; } else if (k < 0xF0) { u = k & 15; n = 3; } else { u = k & 7; n = 4; } for (int j = 1; j < n; j++) u = u << 6 | (uint8_t(s[i + size_t(j)]) & 63); i += size_t(n); if (u >= 0x10000) { u -= 0x10000; b.u16(0xD800 + (u >> 10)); b.u16(0xDC00 + (u & 1023)); } else b.u16(u); } }

static void assemble(Case& c, Font& f) {
  std::map<std::string, Buf> t = f.extra; int ng = int(f.g.size());
  { Buf& b = t["head"]; b.u32(0x10000); b.u32(f.rev); b.u32(0); b.u32(0x5F0F3CF5); b.u16(f.head_flags); b.u16(uint32_t(f.upem)); for (int i = 0; i < 16; i++) b.u8(0); for (int i = 0; i < 4; i++) b.u16(uint32_t(f.head_bb[i])); b.u16(0); b.u16(uint32_t(f.lowest)); b.u16(2); b.u16(uint32_t(f.loca)); b.u16(0); }
  { Buf& b = t["maxp"]; b.u32(0x10000); b.u16(uint32_t(ng)); for (int i = 0; i < 13; i++) b.u16(i == 0 ? 1000 : i == 1 ? 100 : 2); }
  { Buf& b = t["hhea"]; b.u32(0x10000); b.u16(uint32_t(f.asc)); b.u16(uint32_t(f.desc)); b.u16(uint32_t(f.gap)); b.u16(uint32_t(f.max_adv)); b.u16(uint32_t(f.min_lsb)); b.u16(uint32_t(f.min_rsb)); b.u16(0); b.u16(1); for (int i = 0; i < 7; i++) b.u16(0); b.u16(uint32_t(f.long_metrics)); }
  { Buf& b = t["hmtx"]; for (int i = 0; i < ng; i++) { if (i < f.long_metrics) b.u16(uint32_t(f.g[size_t(i)].adv)); b.u16(uint32_t(f.g[size_t(i)].lsb)); } }
  { Buf& gl = t["glyf"]; size_t al = f.loca && c.coin() ? 1 : 2; Buf& lo = t["loca"]; if (!f.loca && c.chance(1, 4)) gl.u16(0); for (auto& g : f.g) { if (f.loca) lo.u32(uint32_t(gl.size())); else lo.u16(uint32_t(gl.size() / 2)); gl.put(glyph_bytes(c, g)); gl.pad(al); } if (f.loca) lo.u32(uint32_t(gl.size())); else lo.u16(uint32_t(gl.size() / 2)); if (gl.empty()) { gl.u8(0); gl.u8(0); } }
  if (f.has_post) { Buf& b = t["post"]; b.u32(0x30000); b.u32(0); b.u16(uint32_t(f.post_pos)); b.u16(uint32_t(f.post_thick)); for (int i = 0; i < 5; i++) b.u32(0); }
  if (f.os2.present) { Os2& o = f.os2; Buf& b = t["OS/2"]; b.u16(uint32_t(o.version)); b.u16(500); b.u16(uint32_t(o.weight)); b.u16(uint32_t(o.width)); b.u16(0); for (int i = 0; i < 8; i++) b.u16(uint32_t(i * 10)); b.u16(uint32_t(o.so_size)); b.u16(uint32_t(o.so_pos)); b.u16(0); for (int i = 0; i < 10; i++) b.u8(o.panose[i]); for (int i = 0; i < 4; i++) b.u32(o.cov[i]); b.tag("TEST"); b.u16(uint32_t(o.sel)); b.u16(32); b.u16(0xFFFF); b.u16(uint32_t(o.typo_asc)); b.u16(uint32_t(o.typo_desc)); b.u16(uint32_t(o.typo_gap)); b.u16(900); b.u16(200); if (o.version >= 1) { b.u32(1); b.u32(0); } if (o.version >= 2) { b.u16(uint32_t(o.xh)); b.u16(uint32_t(o.cap)); b.u16(0); b.u16(32); b.u16(1); } if (o.version >= 5) { b.u16(8); b.u16(0xFFFF); } }
  { // name: each name on the Windows platform, some also on others with different (less preferred) text.
    Buf recs, str; int n = 0; struct R { int p, e, l, id; Buf s; }; std::vector<R> rs; for (auto& nm : f.names) { R r{3, 1, 0x409, nm.id, Buf()}; utf16be(r.s, nm.text); if (c.chance(1, 4)) { R d{0, 3, 0, nm.id, Buf()}; utf16be(d.s, "Decoy" + nm.text); rs.push_back(d); } if (c.chance(1, 4)) { R d{1, 0, 0, nm.id, Buf()}; for (char k : std::string("MacDecoy")) d.s.u8(uint8_t(k)); rs.push_back(d); } if (c.chance(1, 4)) { R d{3, 1, 0x407, nm.id, Buf()}; utf16be(d.s, "Deutsch"); rs.push_back(d); } rs.push_back(r); }
    std::stable_sort(rs.begin(), rs.end(), [](const R& a, const R& b) { return std::make_tuple(a.p, a.e, a.l, a.id) < std::make_tuple(b.p, b.e, b.l, b.id); }); for (auto& r : rs) { recs.u16(uint32_t(r.p)); recs.u16(uint32_t(r.e)); recs.u16(uint32_t(r.l)); recs.u16(uint32_t(r.id)); recs.u16(uint32_t(r.s.size())); recs.u16(uint32_t(str.size())); str.put(r.s); n++; }
    Buf& b = t["name"]; b.u16(0); b.u16(uint32_t(n)); b.u16(uint32_t(6 + n * 12)); b.put(recs); b.put(str); b.u16(0);
  }
  { // cmap: the wanted mapping in the most preferred encoding and decoys that map elsewhere.
    std::map<uint32_t, uint32_t> decoy; for (uint32_t u = 60; u < 70; u++) decoy[u] = uint32_t(ng - 1); struct E { int p, e; Buf b; }; std::vector<E> es; int fm = f.cmap_format; bool full = fm == 10 || fm == 12 || fm == 13;
    if (f.symbol) es.push_back({3, 0, cmap_sub(c, f.cmap, fm)});
    else if (fm == 0) es.push_back({c.coin() ? 1 : 0, 0, cmap_sub(c, f.cmap, 0)});
    else { bool win = c.chance(2, 3); es.push_back({win ? 3 : 0, win ? (full ? 10 : 1) : (full ? 4 : 3), cmap_sub(c, f.cmap, fm)}); if (ng > 1 && c.chance(1, 2)) es.push_back({1, 0, cmap_sub(c, decoy, 0)}); if (ng > 1 && c.chance(1, 3)) es.push_back({0, win ? (full ? 4 : 3) : 1, cmap_sub(c, decoy, 4)}); if (win && full && c.coin()) es.push_back({3, 1, cmap_sub(c, decoy, 4)}); if (c.chance(1, 5)) { Buf v; v.u16(14); v.u32(10); v.u32(0); es.push_back({0, 5, v}); } }
    std::stable_sort(es.begin(), es.end(), [](const E& a, const E& b) { return std::make_pair(a.p, a.e) < std::make_pair(b.p, b.e); });
    Buf& b = t["cmap"]; b.u16(0); b.u16(uint32_t(es.size())); uint32_t off = uint32_t(4 + es.size() * 8); for (auto& e : es) { b.u16(uint32_t(e.p)); b.u16(uint32_t(e.e)); b.u32(off); off += uint32_t(e.b.size() + 3) / 4 * 4; } for (auto& e : es) { b.put(e.b); b.pad(4); }
  }
  bool otto = t.count("CFF ") != 0; if (otto) { t.erase("glyf"); t.erase("loca"); }
  Buf& o = f.bytes; o.clear(); uint32_t n = uint32_t(t.size()), p = 1, l = 0; while (p * 2 <= n) { p *= 2; l++; } o.u32(otto ? 0x4F54544Fu : c.chance(1, 4) ? 0x74727565u : 0x00010000u); o.u16(n); o.u16(p * 16); o.u16(l); o.u16((n - p) * 16); size_t off = 12 + n * 16; for (auto& x : t) { uint32_t s = 0; for (size_t i = 0; i < x.second.size(); i++) s += uint32_t(x.second[i]) << (24 - (i % 4) * 8); o.tag(x.first.c_str()); o.u32(s); o.u32(uint32_t(off)); o.u32(uint32_t(x.second.size())); off += (x.second.size() + 3) / 4 * 4; } for (auto& x : t) { o.put(x.second); o.pad(4); }
}

// Fills the model (not the tables). `simple` avoids outlines (used by the shaping tests).
static void model(Case& c, Font& f, int max_glyphs, bool simple) {
  f.upem = int(c.pickl<int>({1000, 2048, 16, 16384, 1024, 777})); f.loca = int(c.below(2)); f.lowest = int(c.range(1, 60)); f.rev = c.u32(); f.head_flags = c.coin() ? c.below(4) : 0; f.asc = int(c.range(-3000, 3000)); f.desc = int(c.range(-3000, 3000)); f.gap = int(c.range(-300, 300)); f.max_adv = int(c.range(0, 3000)); f.min_lsb = int(c.range(-300, 300)); f.min_rsb = int(c.range(-300, 300)); f.post_pos = int(c.range(-300, 300)); f.post_thick = int(c.range(0, 300)); for (int& v : f.head_bb) v = int(c.range(-2000, 2000)); if (f.head_bb[0] > f.head_bb[2]) std::swap(f.head_bb[0], f.head_bb[2]); if (f.head_bb[1] > f.head_bb[3]) std::swap(f.head_bb[1], f.head_bb[3]);
  int ng = int(c.range(2, max_glyphs)); f.long_metrics = c.coin() ? ng : int(c.range(1, ng)); f.g.resize(size_t(ng));
  for (int i = 0; i < ng; i++) {
    Glyph& g = f.g[size_t(i)]; g.adv = int(c.range(0, 2000)); g.lsb = int(c.range(-200, 200)); if (i >= f.long_metrics) g.adv = f.g[size_t(f.long_metrics - 1)].adv; for (int k = 0; k < 4; k++) g.bb[k] = 0; if (simple && i % 3) continue;
    int kind = int(c.weighted({2, 6, uint32_t(i > 1 ? 3 : 0)}));
    if (kind == 1) {
      int range = int(c.pickl<int>({100, 800, 4000})), nc = int(c.range(1, 4)); for (int k = 0; k < nc; k++) { std::vector<Pt> v; int n = int(c.range(1, c.chance(1, 10) ? 300 : 9)); int px = int(c.range(-range, range)), py = int(c.range(-range, range)); for (int j = 0; j < n; j++) { v.push_back({px, py, c.chance(3, 5)}); px = c.chance(1, 5) ? px : int(c.range(-range, range)); py = c.chance(1, 5) ? py : int(c.range(-range, range)); } g.contours.push_back(v); }
      g.bb[0] = g.bb[1] = 32000; g.bb[2] = g.bb[3] = -32000; for (auto& v : g.contours) for (auto& p : v) { g.bb[0] = std::min(g.bb[0], p.x); g.bb[1] = std::min(g.bb[1], p.y); g.bb[2] = std::max(g.bb[2], p.x); g.bb[3] = std::max(g.bb[3], p.y); }
    }
    else if (kind == 2) {
      int n = int(c.range(1, 3)); for (int k = 0; k < n; k++) { Comp m{}; m.glyph = int(c.below(uint32_t(i))); int depth = 0; for (int q = m.glyph; depth < 9 && !f.g[size_t(q)].comps.empty(); depth++) q = f.g[size_t(q)].comps[0].glyph; if (depth > 4) m.glyph = 0; m.dx = int(c.range(-500, 500)); m.dy = int(c.range(-500, 500)); if (c.coin()) { m.dx %= 120; m.dy %= 120; } m.kind = int(c.below(4)); m.words = c.chance(1, 4); auto r = [&] { return f2(int(c.range(-32768, 32767))); }; m.a = m.d = 1; m.b = m.c = 0; if (m.kind == 1) m.a = m.d = r(); if (m.kind == 2) { m.a = r(); m.d = r(); } if (m.kind == 3) { m.a = r(); m.b = r(); m.c = r(); m.d = r(); } m.scaled_offset = m.kind && c.chance(1, 4); g.comps.push_back(m); }
      for (int k = 0; k < 4; k++) g.bb[k] = int(c.range(-2000, 2000)); if (g.bb[0] > g.bb[2]) std::swap(g.bb[0], g.bb[2]); if (g.bb[1] > g.bb[3]) std::swap(g.bb[1], g.bb[3]);
    }
  }
  f.cmap_format = c.pickl<int>({4, 4, 12, 12, 0, 6, 10, 13}); int fm = f.cmap_format; uint32_t base = fm == 0 ? c.below(200) : fm == 12 || fm == 13 || fm == 10 ? c.pickl<uint32_t>({0x20, 0x400, 0xFFF0, 0x1F600, 0x10FF00}) : c.pickl<uint32_t>({0x20, 0x20, 0x400, 0xFE00}); uint32_t lim = fm == 0 ? 256 : fm == 4 ? 0xFFFF : fm == 6 ? 0xFFFF : 0x10FFFF; int n = int(c.range(1, 60)); uint32_t u = base;
  uint32_t gg = 1; for (int i = 0; i < n && u < lim; i++) { f.cmap[u] = fm == 13 ? gg : c.chance(1, 3) ? c.range(1, ng - 1) : gg; if (fm != 13 || c.chance(1, 4)) gg = gg + 1 < uint32_t(ng) ? gg + 1 : 1; u += c.chance(1, 4) ? 1 + c.below(fm == 6 || fm == 10 || fm == 0 ? 5 : 400) : 1; } f.symbol = (fm == 4 || fm == 6) && c.chance(1, 10);
  for (int id : {1, 2, 4, 6}) f.names.push_back({id, name_text(c)}); if (c.chance(1, 4)) { f.names.push_back({16, name_text(c)}); if (c.chance(3, 4)) f.names.push_back({17, name_text(c)}); } if (c.chance(1, 6)) { f.names.push_back({21, name_text(c)}); f.names.push_back({22, name_text(c)}); } if (c.chance(1, 3)) f.names.push_back({0, "Copyright"});
  f.has_post = c.chance(5, 6); Os2& o = f.os2; o.present = c.chance(5, 6); if (o.present) { o.version = int(c.pickl<int>({0, 1, 2, 3, 4, 5})); o.weight = int(c.pickl<int>({100, 400, 700, 950, 5, 0})); o.width = int(c.below(10)); o.sel = int(c.pickl<int>({0, 1, 0x200, 0x80, 0x81})); o.typo_asc = int(c.range(-2000, 2000)); o.typo_desc = int(c.range(-2000, 2000)); o.typo_gap = int(c.range(-200, 200)); o.xh = int(c.range(0, 1000)); o.cap = int(c.range(0, 1000)); o.so_size = int(c.range(0, 100)); o.so_pos = int(c.range(-300, 600)); for (auto& v : o.panose) v = uint8_t(c.below(10)); for (auto& v : o.cov) v = c.u32(); }
}

// Reference outline: verbs with absolute coordinates in design units, y up, without any transformation.
struct Seg { char k; double x[2], y[2]; };      // 'M', 'L', 'Q' (control, end), 'Z'
struct Mat { double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0; void ap(double x, double y, double& ox, double& oy) const { ox = x * a + y * c + e; oy = x * b + y * d + f; } };
static Mat mul(const Mat& m, const Mat& n) { Mat r; r.a = m.a * n.a + m.b * n.c; r.b = m.a * n.b + m.b * n.d; r.c = m.c * n.a + m.d * n.c; r.d = m.c * n.b + m.d * n.d; r.e = m.e * n.a + m.f * n.c + n.e; r.f = m.e * n.b + m.f * n.d + n.f; return r; }
static void outline(const Font& f, int gi, const Mat& m, std::vector<Seg>& out) {
  const Glyph& g = f.g[size_t(gi)];
  for (auto& k : g.comps) { Mat t; t.a = k.a; t.b = k.b; t.c = k.c; t.d = k.d; t.e = k.dx; t.f = k.dy; if (k.scaled_offset) { t.e *= std::hypot(t.a, t.b); t.f *= std::hypot(t.c, t.d); } outline(f, k.glyph, mul(t, m), out); }
  for (auto& v : g.contours) {
    size_t n = v.size(); if (n < 2) continue; auto P = [&](size_t i) { Pt p = v[i % n]; double x, y; m.ap(p.x, p.y, x, y); return std::make_pair(x, y); }; auto mid = [](std::pair<double, double> a, std::pair<double, double> b) { return std::make_pair((a.first + b.first) / 2, (a.second + b.second) / 2); };
    size_t s = 0; while (s < n && !v[s].on) s++; std::pair<double, double> start; size_t i0; if (s < n) { start = P(s); i0 = s; } else { start = mid(P(n - 1), P(0)); i0 = n - 1; }
    out.push_back({'M', {start.first, 0}, {start.second, 0}}); bool have = false; std::pair<double, double> ctl;
    for (size_t j = 1; j <= n; j++) { size_t i = (i0 + j) % n; auto p = P(i); bool on = v[i].on; if (s == n && j == n) { if (have) { auto e = mid(ctl, p); out.push_back({'Q', {ctl.first, e.first}, {ctl.second, e.second}}); } out.push_back({'Q', {p.first, start.first}, {p.second, start.second}}); have = false; break; } if (on) { if (have) out.push_back({'Q', {ctl.first, p.first}, {ctl.second, p.second}}); else out.push_back({'L', {p.first, 0}, {p.second, 0}}); have = false; } else { if (have) { auto e = mid(ctl, p); out.push_back({'Q', {ctl.first, e.first}, {ctl.second, e.second}}); } ctl = p; have = true; } }
    out.push_back({'Z', {0, 0}, {0, 0}});
  }
}
} // fg
#endif
