// C29: text input in any Unicode encoding is decoded exactly. The oracle is an independent decoder; inputs live in
// exactly sized heap blocks, so that a read past the end is caught by AddressSanitizer.
#include "pbt.h"
#include "render.h"
#include <memory>
using pbt::Case; using rv::px32;
#ifndef RES
#define RES "/blend2d-testing/resources/ABeeZee-Regular.ttf"
#endif
struct Out { std::vector<uint32_t> cp, at; bool bad = false; };
static void put(Out& o, uint32_t u, size_t i) { o.cp.push_back(u); o.at.push_back(uint32_t(i)); }
// Decoders, written from the definition: a sequence is taken when it's complete and minimal, otherwise one unit is replaced.
static Out dec8(const std::vector<uint8_t>& s) {
  Out o; for (size_t i = 0; i < s.size();) {
    uint32_t b = s[i]; size_t n = b < 0x80 ? 1 : b >> 5 == 6 ? 2 : b >> 4 == 14 ? 3 : b >> 3 == 30 ? 4 : 0; bool ok = n && i + n <= s.size(); uint32_t u = n == 1 ? b : n == 2 ? b & 31 : n == 3 ? b & 15 : b & 7;
    for (size_t k = 1; ok && k < n; k++) { ok = (s[i + k] & 0xC0) == 0x80; u = u << 6 | (s[i + k] & 63); } static const uint32_t low[] = {0, 0, 0x80, 0x800, 0x10000}; if (ok && (u < low[n] || u > 0x10FFFF)) ok = false;
    if (ok) { put(o, u, i); i += n; } else { put(o, 0xFFFD, i); o.bad = true; i++; } }
  return o; }
static Out dec16(const std::vector<uint16_t>& s) { Out o; for (size_t i = 0; i < s.size();) { uint32_t u = s[i]; if ((u & 0xFC00) == 0xD800 && i + 1 < s.size() && (s[i + 1] & 0xFC00) == 0xDC00) { put(o, 0x10000 + ((u & 0x3FF) << 10) + (s[i + 1] & 0x3FFu), i); i += 2; } else put(o, u, i++); } return o; }
static Out dec32(const std::vector<uint32_t>& s) { Out o; for (size_t i = 0; i < s.size(); i++) { bool ok = s[i] <= 0x10FFFF; put(o, ok ? s[i] : 0xFFFD, i); o.bad |= !ok; } return o; }
static uint32_t code(Case& c) { switch (c.below(8)) { case 0: return uint32_t(c.range(1, 0x7F)); case 1: return uint32_t(c.range(0x80, 0x7FF)); case 2: return uint32_t(c.range(0x800, 0xD7FF)); case 3: return uint32_t(c.range(0xE000, 0xFFFF)); case 4: return uint32_t(c.range(0x10000, 0x10FFFF)); case 5: return c.pickl<uint32_t>({1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F600, 0xFFFFF, 0x100000, 0x10FFFF}); case 6: return uint32_t(c.range(0x20, 0x7E)); default: return uint32_t(c.range(0xA0, 0xFF)); } }
static void enc8(std::vector<uint8_t>& v, uint32_t u, int n = 0) { if (!n) n = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4; if (n == 1) { v.push_back(uint8_t(u)); return; } v.push_back(uint8_t((n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) | (u >> 6 * (n - 1)))); for (int k = n - 2; k >= 0; k--) v.push_back(uint8_t(0x80 | (u >> 6 * k & 63))); }
static void enc16(std::vector<uint16_t>& v, uint32_t u) { if (u < 0x10000) v.push_back(uint16_t(u)); else { v.push_back(uint16_t(0xD7C0 + (u >> 10))); v.push_back(uint16_t(0xDC00 + (u & 1023))); } }
static size_t length(Case& c) { switch (c.below(8)) { case 0: return c.below(4); case 1: return size_t(c.range(250, 262)); case 2: return size_t(c.range(310, 330)); case 3: return size_t(c.range(0, 60)); case 4: return size_t(c.chance(1, 6) ? c.range(500, 3000) : c.range(0, 10)); default: return size_t(c.range(1, 24)); } }
static std::vector<uint8_t> text8(Case& c, bool& touched) {
  std::vector<uint8_t> v; size_t n = length(c); bool valid = c.chance(1, 3); for (size_t i = 0; i < n; i++) {
    if (valid || c.chance(2, 3)) { enc8(v, c.chance(1, 30) ? 0 : code(c)); continue; } touched = true;
    switch (c.below(7)) {
      case 0: v.push_back(c.byte()); break;
      case 1: { std::vector<uint8_t> w; enc8(w, code(c)); size_t k = 1 + c.below(uint32_t(w.size())); v.insert(v.end(), w.begin(), w.begin() + long(std::min(k, w.size() - (w.size() > 1)))); break; } // Truncated.
      case 2: { uint32_t u = code(c); int m = int(c.range(2, 4)); if (u < 1u << (m == 2 ? 11 : m == 3 ? 16 : 21)) enc8(v, u, m); break; } // Possibly overlong.
      case 3: enc8(v, uint32_t(c.range(0xD800, 0xDFFF)), 3); break;
      case 4: enc8(v, uint32_t(c.range(0x110000, 0x1FFFFF)), 4); break;
      case 5: for (uint32_t k = 0; k < 4; k++) v.push_back(uint8_t(0x80 | c.below(64))); break;
      default: { std::vector<uint8_t> w; enc8(w, code(c)); w[c.below(uint32_t(w.size()))] = c.pickl<uint8_t>({0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF}); v.insert(v.end(), w.begin(), w.end()); break; }
    } }
  if (!valid && !v.empty() && c.chance(1, 3)) { touched = true; v.resize(v.size() - c.below(uint32_t(std::min<size_t>(v.size(), 3)))); } return v; }
static std::vector<uint16_t> text16(Case& c, bool& touched) { std::vector<uint16_t> v; size_t n = length(c); bool valid = c.chance(1, 3); for (size_t i = 0; i < n; i++) { if (valid || c.chance(2, 3)) { enc16(v, c.chance(1, 30) ? 0 : code(c)); continue; } touched = true; switch (c.below(4)) { case 0: v.push_back(uint16_t(c.range(0xD800, 0xDBFF))); break; case 1: v.push_back(uint16_t(c.range(0xDC00, 0xDFFF))); break; case 2: v.push_back(c.pickl<uint16_t>({0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF})); break; default: v.push_back(uint16_t(c.u32())); } } return v; }
static std::vector<uint32_t> text32(Case& c, bool& touched) { std::vector<uint32_t> v; size_t n = length(c); bool valid = c.chance(1, 3); for (size_t i = 0; i < n; i++) { if (valid || c.chance(2, 3)) { v.push_back(c.chance(1, 30) ? 0 : code(c)); continue; } touched = true; switch (c.below(3)) { case 0: v.push_back(uint32_t(c.range(0xD800, 0xDFFF))); break; case 1: v.push_back(c.pickl<uint32_t>({0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x10000041u})); break; default: v.push_back(c.u32()); } } return v; }
// An exactly sized copy, NUL terminated or not.
template<typename T> struct Block { std::unique_ptr<T[]> p; size_t n; Block(const std::vector<T>& v, bool nul) : p(new T[v.size() + nul]), n(v.size()) { for (size_t i = 0; i < n; i++) p[i] = v[i]; if (nul) p[n] = 0; } };
template<typename T> static void cut(std::vector<T>& v) { for (size_t i = 0; i < v.size(); i++) if (!v[i]) { v.resize(i); return; } }
static void same(Case& c, const BLGlyphBuffer& gb, const Out& o, const char* what) {
  REQUIRE(c, gb.size() == o.cp.size(), "%s: %zu entries instead of %zu", what, gb.size(), o.cp.size()); REQUIRE(c, gb.is_empty() == o.cp.empty() && gb.has_text() == !o.cp.empty(), "%s: has_text() is %d with %zu entries", what, gb.has_text(), o.cp.size());
  REQUIRE(c, gb.has_invalid_chars() == o.bad, "%s: has_invalid_chars() is %d", what, gb.has_invalid_chars()); REQUIRE(c, !gb.has_undefined_chars() && !gb.has_invalid_font_data(), "%s: flags %08x", what, gb.flags());
  for (size_t i = 0; i < o.cp.size(); i++) { REQUIRE(c, gb.content()[i] == o.cp[i], "%s: entry %zu is U+%X instead of U+%X", what, i, gb.content()[i], o.cp[i]); REQUIRE(c, gb.info_data()[i].cluster == o.at[i], "%s: entry %zu has cluster %u instead of %u", what, i, gb.info_data()[i].cluster, o.at[i]); }
  const BLGlyphRun& r = gb.glyph_run(); REQUIRE(c, r.size == o.cp.size() && (r.size == 0 || r.glyph_data == gb.content()) && r.placement_type == BL_GLYPH_PLACEMENT_TYPE_NONE, "%s: the run has size %zu, placement %d", what, r.size, r.placement_type); }
static std::string hex(const std::vector<uint8_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 60; i++) s += pbt::fmt("%02X ", v[i]); return s; }

// Several texts, in any encoding, one after another in the same buffer.
static void decode(Case& c) {
  BLGlyphBuffer gb; int rounds = int(c.range(1, 4)); bool any = false, reuse = rounds > 1; size_t total = 0; Out prev; bool have = false;
  for (int k = 0; k < rounds; k++) {
    bool nul = c.chance(1, 3), touched = false; BLResult r; Out o; const char* what; bool generic = c.coin();
    switch (c.below(4)) {
      case 0: { auto v = text8(c, touched); if (nul) cut(v); o = dec8(v); Block<uint8_t> b(v, nul); what = "UTF-8"; size_t n = nul ? SIZE_MAX : b.n; const char* p = reinterpret_cast<const char*>(b.p.get()); r = generic ? gb.set_text(p, n, BL_TEXT_ENCODING_UTF8) : c.coin() ? gb.set_utf8_text(p, n) : gb.set_utf8_text(b.p.get(), n); c.note("utf8 %zu nul %d: %s", v.size(), nul, hex(v).c_str()); break; }
      case 1: { auto v = text16(c, touched); if (nul) cut(v); o = dec16(v); Block<uint16_t> b(v, nul); what = "UTF-16"; size_t n = nul ? SIZE_MAX : b.n; r = generic ? gb.set_text(b.p.get(), n, BL_TEXT_ENCODING_UTF16) : gb.set_utf16_text(b.p.get(), n); c.note("utf16 %zu nul %d", v.size(), nul); break; }
      case 2: { auto v = text32(c, touched); if (nul) cut(v); o = dec32(v); Block<uint32_t> b(v, nul); what = "UTF-32"; size_t n = nul ? SIZE_MAX : b.n; r = generic ? gb.set_text(b.p.get(), n, BL_TEXT_ENCODING_UTF32) : c.coin() ? gb.set_utf32_text(b.p.get(), n) : gb.set_wchar_text(reinterpret_cast<const wchar_t*>(b.p.get()), n); c.note("utf32 %zu nul %d", v.size(), nul); break; }
      default: { auto v = c.bytes(length(c)); if (nul) cut(v); for (size_t i = 0; i < v.size(); i++) put(o, v[i], i); Block<uint8_t> b(v, nul); what = "Latin-1"; size_t n = nul ? SIZE_MAX : b.n; const char* p = reinterpret_cast<const char*>(b.p.get()); r = generic ? gb.set_text(p, n, BL_TEXT_ENCODING_LATIN1) : gb.set_latin1_text(p, n); c.note("latin1 %zu nul %d", v.size(), nul); for (uint8_t x : v) touched |= x >= 0x80; break; }
    }
    REQUIRE(c, r == BL_SUCCESS, "%s: set_text failed with %u", what, unsigned(r)); same(c, gb, o, what); any |= touched; total += o.cp.size(); c.label(o.bad, "ill-formed"); prev = o; have = true;
    if (c.chance(1, 8)) { char z[4] = {}; REQUIRE(c, gb.set_text(z, 2, BLTextEncoding(c.pickl<uint32_t>({4, 5, 100, 0xFFFFFFFFu}))) == BL_ERROR_INVALID_VALUE, "an invalid encoding was accepted"); same(c, gb, o, "after a refused encoding"); }
  }
  (void)have; c.nontrivial(total > 0 && (any || reuse)); }

// The same code points in every encoding.
static void agree(Case& c) {
  size_t n = length(c); std::vector<uint32_t> t; bool latin = c.chance(1, 4), wide = false; for (size_t i = 0; i < n; i++) t.push_back(latin ? uint32_t(c.range(1, 255)) : code(c)); std::vector<uint8_t> a; std::vector<uint16_t> b; std::vector<uint32_t> pa, pb; for (uint32_t u : t) { pa.push_back(uint32_t(a.size())); pb.push_back(uint32_t(b.size())); enc8(a, u); enc16(b, u); wide |= u > 0x7F; }
  c.note("%zu code points, latin %d", n, latin); bool nul = c.coin(); Block<uint8_t> ba(a, nul); Block<uint16_t> bb(b, nul); Block<uint32_t> bc(t, nul); auto len = [&](size_t k) { return nul ? SIZE_MAX : k; };
  BLGlyphBuffer g[4]; REQUIRE(c, g[0].set_utf8_text(ba.p.get(), len(a.size())) == BL_SUCCESS && g[1].set_utf16_text(bb.p.get(), len(b.size())) == BL_SUCCESS && g[2].set_utf32_text(bc.p.get(), len(n)) == BL_SUCCESS, "set_text failed"); int m = 3; if (latin) { std::vector<uint8_t> l(t.begin(), t.end()); Block<uint8_t> bl(l, nul); REQUIRE(c, g[3].set_latin1_text(reinterpret_cast<const char*>(bl.p.get()), len(n)) == BL_SUCCESS, "set_latin1_text failed"); m = 4; }
  for (int k = 0; k < m; k++) { REQUIRE(c, g[k].size() == n && !g[k].has_invalid_chars(), "encoding %d: %zu entries of %zu, invalid %d", k, g[k].size(), n, g[k].has_invalid_chars()); for (size_t i = 0; i < n; i++) { uint32_t at = k == 0 ? pa[i] : k == 1 ? pb[i] : uint32_t(i); REQUIRE(c, g[k].content()[i] == t[i] && g[k].info_data()[i].cluster == at, "encoding %d: entry %zu is U+%X at %u instead of U+%X at %u", k, i, g[k].content()[i], g[k].info_data()[i].cluster, t[i], at); } }
  c.nontrivial(n > 0 && wide); }

// Every 1 to 4 byte sequence around the interesting lead bytes, and every pair of UTF-16 units around the borders.
static void exhaustive(Case& c) {
  BLGlyphBuffer gb; if (c.chance(1, 4)) { uint16_t hi = uint16_t(0xD7F0 + c.below(0x820)); static const uint16_t edge[] = {0, 1, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFF}; c.note("utf16 %04X", hi); for (uint16_t lo : edge) for (int tail = 0; tail < 2; tail++) { std::vector<uint16_t> v{hi, lo}; if (tail) v.push_back(0x41); Block<uint16_t> b(v, false); REQUIRE(c, gb.set_utf16_text(b.p.get(), b.n) == BL_SUCCESS, "set_text failed"); same(c, gb, dec16(v), pbt::fmt("UTF-16 %04X %04X", hi, lo).c_str()); } c.nontrivial(true); return; }
  uint8_t b0 = uint8_t(0x7E + c.below(0x82)), b1 = c.coin() ? c.pickl<uint8_t>({0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0}) : c.byte(); static const uint8_t edge[] = {0, 0x41, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xC2, 0xE1, 0xF1, 0xFF}; c.note("utf8 %02X %02X", b0, b1);
  for (int len = 1; len <= 4; len++) for (int x = 0; x < (len > 2 ? 11 : 1); x++) for (int y = 0; y < (len > 3 ? 11 : 1); y++) { std::vector<uint8_t> v{b0}; if (len > 1) v.push_back(b1); if (len > 2) v.push_back(edge[x]); if (len > 3) v.push_back(edge[y]); Block<uint8_t> b(v, false); REQUIRE(c, gb.set_utf8_text(b.p.get(), b.n) == BL_SUCCESS, "set_text failed"); same(c, gb, dec8(v), pbt::fmt("UTF-8 %s", hex(v).c_str()).c_str()); }
  c.nontrivial(b0 >= 0x80); }

// Text drawn by a context is decoded the same way.
static void draw(Case& c) {
  static BLFontFace face; if (face.is_empty()) { const char* r = getenv("VERIF_REPO"); REQUIRE(c, face.create_from_file((std::string(r ? r : "/repo") + RES).c_str()) == BL_SUCCESS, "the font file was not loaded"); } BLFont font; REQUIRE(c, font.create_from_face(face, float(c.range(6, 20))) == BL_SUCCESS, "font");
  bool touched = false; int kind = int(c.below(3)), threads = c.chance(1, 4) ? 1 : 0; bool stroke = c.chance(1, 4), nul = c.chance(1, 3); std::vector<uint8_t> a; std::vector<uint16_t> b; std::vector<uint32_t> d; Out o; if (kind == 0) { a = text8(c, touched); if (a.size() > 400) a.resize(400); if (nul) cut(a); o = dec8(a); } else if (kind == 1) { b = text16(c, touched); if (b.size() > 400) b.resize(400); if (nul) cut(b); o = dec16(b); } else { d = text32(c, touched); if (d.size() > 400) d.resize(400); if (nul) cut(d); o = dec32(d); }
  Block<uint8_t> ba(a, nul); Block<uint16_t> bb(b, nul); Block<uint32_t> bd(d, nul); c.note("kind %d, %zu code points, nul %d stroke %d threads %d", kind, o.cp.size(), nul, stroke, threads); BLPoint at(c.real(-50, 20), 20); BLImage im[2]; BLGlyphBuffer gb; REQUIRE(c, gb.set_utf32_text(o.cp.data(), o.cp.size()) == BL_SUCCESS && font.shape(gb) == BL_SUCCESS, "shape");
  for (int k = 0; k < 2; k++) { REQUIRE(c, im[k].create(120, 28, BL_FORMAT_PRGB32) == BL_SUCCESS, "image"); BLContextCreateInfo ci{}; ci.thread_count = k ? 0 : uint32_t(threads); BLContext x; REQUIRE(c, x.begin(im[k], ci) == BL_SUCCESS, "begin"); x.clear_all(); x.set_fill_style(BLRgba32(0xFF3080F0u)); x.set_stroke_style(BLRgba32(0xA0FF8040u)); BLResult r;
    const char* p = reinterpret_cast<const char*>(ba.p.get()); auto n = [&](size_t s) { return nul ? SIZE_MAX : s; };
    if (k) r = stroke ? x.stroke_glyph_run(at, font, gb.glyph_run()) : x.fill_glyph_run(at, font, gb.glyph_run()); else if (kind == 0) r = stroke ? x.stroke_utf8_text(at, font, p, n(ba.n)) : x.fill_utf8_text(at, font, p, n(ba.n)); else if (kind == 1) r = stroke ? x.stroke_utf16_text(at, font, bb.p.get(), n(bb.n)) : x.fill_utf16_text(at, font, bb.p.get(), n(bb.n)); else r = stroke ? x.stroke_utf32_text(at, font, bd.p.get(), n(bd.n)) : x.fill_utf32_text(at, font, bd.p.get(), n(bd.n));
    REQUIRE(c, r == BL_SUCCESS, "drawing failed with %u", unsigned(r)); REQUIRE(c, x.end() == BL_SUCCESS, "end"); }
  BLImageData p, q; im[0].get_data(&p); im[1].get_data(&q); bool ink = false; for (int y = 0; y < 28; y++) for (int x = 0; x < 120; x++) { REQUIRE(c, px32(p, x, y) == px32(q, x, y), "pixel %d,%d is %08x instead of %08x", x, y, px32(p, x, y), px32(q, x, y)); ink |= px32(p, x, y) != 0; }
  c.nontrivial(ink); }

int main(int argc, char** argv) {
  pbt::Suite s("C29", "Non-trivial: the text has characters outside ASCII or ill-formed units, or several texts share a buffer; drawing leaves ink.", argc, argv);
  s.add("decode", decode, {.quick = 60000, .thorough = 3000000, .chunk = 500, .guided = true});
  s.add("agree", agree, {.quick = 20000, .thorough = 600000, .chunk = 500});
  s.add("exhaustive", exhaustive, {.quick = 12000, .thorough = 300000, .chunk = 500});
  s.add("draw", draw, {.quick = 8000, .thorough = 200000, .chunk = 100});
  s.assume("Surrogate code points encoded in UTF-8 or UTF-32 and unpaired UTF-16 surrogates are passed through, which is what the reader's non-strict mode is for.");
  return s.run();
}
