// Objects of every shareable type: random operations on them and a textual fingerprint of everything they hold.
#pragma once
#include <blend2d/blend2d.h>
#include <functional>
#include <string>
#include <cstring>
#include <cmath>
#include <vector>
#include "pbt.h"

namespace og {
using pbt::Case; using pbt::fmt;
template<class T> struct Op { std::string text; std::function<BLResult(T&)> run; };

static inline std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; const uint8_t* b = static_cast<const uint8_t*>(p); s.reserve(2 * n); for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; } return s; }

// ------------------------------------------------------------------------------------------------ fingerprints
static inline std::string fp(const BLString& s) { std::string r = fmt("str %zu:", s.size()); r.append(s.data(), s.size()); if (s.data()[s.size()]) r += "(no terminator)"; return r; }
template<class T> static inline std::string fp(const BLArray<T>& a) { return fmt("arr %zu:", a.size()) + hex(a.data(), a.size() * sizeof(T)); }
static inline std::string fp(const BLArray<BLString>& a) { std::string r = fmt("arr %zu:", a.size()); for (auto& s : a) r += fp(s) + ";"; return r; }
static inline std::string fp(const BLBitSet& s) { std::string r = fmt("bitset %u:", s.cardinality()); uint32_t n = 0; BLBitSetWordIterator it(s); while (uint32_t w = it.next_word()) { r += fmt(" %u:%x", it.bit_index(), w); if (++n > 3000) { r += "..."; break; } } return r; }
static inline std::string fp(const BLBitArray& s) { return fmt("bits %u:", s.size()) + hex(s.data(), (s.size() + 31) / 32 * 4); }
static inline std::string num(double v) { if (std::isnan(v)) return "nan"; return fmt("%a", v); }
static inline std::string fp(const BLPath& p) { std::string r = fmt("path %zu:", p.size()); for (size_t i = 0; i < p.size(); i++) { r += fmt(" %u", p.command_data()[i]); if (p.command_data()[i] != BL_PATH_CMD_CLOSE) r += "(" + num(p.vertex_data()[i].x) + " " + num(p.vertex_data()[i].y) + ")"; } return r; }
static inline std::string fp(const BLImage& i) { BLImageData d; BLResult e = i.get_data(&d); if (e != BL_SUCCESS || d.size.w == 0) return fmt("img %dx%d", d.size.w, d.size.h); std::string r = fmt("img %dx%d %u:", d.size.w, d.size.h, d.format); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; for (int y = 0; y < d.size.h; y++) r += hex(static_cast<const uint8_t*>(d.pixel_data) + y * d.stride, size_t(d.size.w) * bpp); return r; }
static inline std::string fp(const BLMatrix2D& m) { std::string r; for (double v : m.m) r += num(v) + " "; return r; }
static inline std::string fp(const BLGradient& g) { std::string r = fmt("grad %u %u tt %u:", g.type(), g.extend_mode(), g.transform_type()); for (size_t i = 0; i <= BL_GRADIENT_VALUE_MAX_VALUE; i++) r += num(g.value(i)) + " "; r += fp(g.transform()); for (size_t i = 0; i < g.size(); i++) r += num(g.stops()[i].offset) + fmt("=%016llx ", (unsigned long long)g.stops()[i].rgba.value); return r; }
static inline std::string fp(const BLPattern& p) { BLRectI a = p.area(); return fmt("pat %d %d %d %d ext %u tt %u:", a.x, a.y, a.w, a.h, p.extend_mode(), p.transform_type()) + fp(p.transform()) + fp(p.get_image()); }
static inline std::string fp(const BLFontFeatureSettings& s) { BLFontFeatureSettingsView v; s.get_view(&v); std::string r = fmt("feat %zu:", s.size()); for (size_t i = 0; i < v.size; i++) r += fmt(" %08x=%u", v.data[i].tag, v.data[i].value); return r; }
static inline std::string fp(const BLFontVariationSettings& s) { BLFontVariationSettingsView v; s.get_view(&v); std::string r = fmt("var %zu:", s.size()); for (size_t i = 0; i < v.size; i++) r += fmt(" %08x=%a", v.data[i].tag, double(v.data[i].value)); return r; }
static inline std::string fp(const BLFontData& d) { return fmt("data %d %u %llu", int(d.is_valid()), d.face_count(), (unsigned long long)0); }
static inline std::string fp(const BLFontFace& f) { return fmt("face %d %u %u %u ", int(f.is_valid()), f.glyph_count(), f.weight(), f.units_per_em()) + fp(f.family_name()); }
static inline std::string fp(const BLFont& f) { std::string r = fmt("font %a ", double(f.size())) + fp(f.face()); if (f.is_valid()) { BLFontMetrics m = f.metrics(); r += fmt("%a %a ", double(m.ascent), double(m.descent)) + fp(f.feature_settings()) + fp(f.variation_settings()); } return r; }
static inline std::string fp(const BLImageCodec& k) { return "codec " + fp(k.name()); }
static inline std::string fp(const BLStrokeOptions& o) { return fmt("opt %u %u %u %u ", o.start_cap, o.end_cap, o.join, o.transform_order) + num(o.width) + " " + num(o.miter_limit) + " " + num(o.dash_offset) + " " + fp(o.dash_array); }
static inline std::string fp(const BLVar& v) {
  switch (v.type()) {
    case BL_OBJECT_TYPE_RGBA: return "rgba " + hex(&v, 16);
    case BL_OBJECT_TYPE_RGBA32: { BLRgba32 r; v.to_rgba32(&r); return fmt("rgba32 %08x", r.value); }
    case BL_OBJECT_TYPE_RGBA64: { BLRgba64 r; v.to_rgba64(&r); return fmt("rgba64 %016llx", (unsigned long long)r.value); }
    case BL_OBJECT_TYPE_NULL: return "null";
    case BL_OBJECT_TYPE_BOOL: { bool b; v.to_bool(&b); return fmt("bool %d", b); }
    case BL_OBJECT_TYPE_INT64: { int64_t i; v.to_int64(&i); return fmt("int %lld", (long long)i); }
    case BL_OBJECT_TYPE_UINT64: { uint64_t i; v.to_uint64(&i); return fmt("uint %llu", (unsigned long long)i); }
    case BL_OBJECT_TYPE_DOUBLE: { double d; v.to_double(&d); return "double " + num(d); }
    case BL_OBJECT_TYPE_PATTERN: return fp(v.as<BLPattern>());
    case BL_OBJECT_TYPE_GRADIENT: return fp(v.as<BLGradient>());
    case BL_OBJECT_TYPE_IMAGE: return fp(v.as<BLImage>());
    case BL_OBJECT_TYPE_PATH: return fp(v.as<BLPath>());
    case BL_OBJECT_TYPE_FONT: return fp(v.as<BLFont>());
    case BL_OBJECT_TYPE_FONT_FEATURE_SETTINGS: return fp(v.as<BLFontFeatureSettings>());
    case BL_OBJECT_TYPE_FONT_VARIATION_SETTINGS: return fp(v.as<BLFontVariationSettings>());
    case BL_OBJECT_TYPE_BIT_ARRAY: return fp(v.as<BLBitArray>());
    case BL_OBJECT_TYPE_BIT_SET: return fp(v.as<BLBitSet>());
    case BL_OBJECT_TYPE_STRING: return fp(v.as<BLString>());
    case BL_OBJECT_TYPE_ARRAY_OBJECT: return fp(v.as<BLArray<BLString>>());
    case BL_OBJECT_TYPE_ARRAY_INT32: return fp(v.as<BLArray<int>>());
    case BL_OBJECT_TYPE_ARRAY_FLOAT64: return fp(v.as<BLArray<double>>());
    case BL_OBJECT_TYPE_FONT_FACE: return fp(v.as<BLFontFace>());
    case BL_OBJECT_TYPE_FONT_DATA: return fp(v.as<BLFontData>());
    case BL_OBJECT_TYPE_IMAGE_CODEC: return fp(v.as<BLImageCodec>());
    default: return fmt("type %d", int(v.type()));
  }
}

// ------------------------------------------------------------------------------------------------ operations
static inline std::string text(Case& c, size_t max = 40) { size_t n = c.chance(1, 12) ? size_t(c.range(60, 400)) : c.chance(1, 3) ? c.below(uint32_t(max)) : c.below(16); char k = char('a' + c.below(26)); std::string s(n, k); for (size_t i = 0; i < n && i < 6; i++) s[i] = char('a' + (k * 7 + i * 3) % 26); return s; }
static inline Op<BLString> op(Case& c, const BLString*) {
  std::string s = text(c); size_t a = c.below(40), b = c.below(40);
  switch (c.below(10)) {
    case 0: return {"assign", [=](BLString& x) { return x.assign(s.data(), s.size()); }};
    case 1: case 2: return {"append", [=](BLString& x) { return x.append(s.data(), s.size()); }};
    case 3: return {"prepend", [=](BLString& x) { return x.prepend(s.data(), s.size()); }};
    case 4: return {"insert", [=](BLString& x) { return x.insert(std::min(a, x.size()), s.data(), s.size()); }};
    case 5: return {"remove", [=](BLString& x) { size_t p = std::min(a, x.size()), q = std::min(p + b, x.size()); return x.remove(BLRange{p, q}); }};
    case 6: return {"clear", [=](BLString& x) { return x.clear(); }};
    case 7: return {"reserve", [=](BLString& x) { return x.reserve(a * b / 4); }};
    case 8: return {"append format", [=](BLString& x) { return x.append_format("%s|%d", s.c_str(), int(a)); }};
    default: return {"shrink", [=](BLString& x) { return x.shrink(); }};
  }
}
template<class T> static inline Op<BLArray<T>> op(Case& c, const BLArray<T>*) {
  typedef BLArray<T> A; T v = T(c.i(-100, 100)); size_t n = c.chance(1, 8) ? size_t(c.range(20, 200)) : c.below(9), a = c.below(30), b = c.below(20); std::vector<T> d(n, v); for (size_t i = 0; i < n; i++) d[i] = T(d[i] + T(i));
  switch (c.below(11)) {
    case 0: return {"append", [=](A& x) { return x.append(v); }};
    case 1: return {"append data", [=](A& x) { return x.append_data(d.data(), d.size()); }};
    case 2: return {"insert", [=](A& x) { return x.insert(std::min(a, x.size()), v); }};
    case 3: return {"insert data", [=](A& x) { return x.insert_data(std::min(a, x.size()), d.data(), d.size()); }};
    case 4: return {"assign data", [=](A& x) { return x.assign_data(d.data(), d.size()); }};
    case 5: return {"remove", [=](A& x) { size_t p = std::min(a, x.size()), q = std::min(p + b, x.size()); return x.remove(BLRange{p, q}); }};
    case 6: return {"replace", [=](A& x) { if (x.is_empty()) return x.append(v); return x.replace(a % x.size(), v); }};
    case 7: return {"resize", [=](A& x) { return x.resize(a, v); }};
    case 8: return {"reserve", [=](A& x) { return x.reserve(a * b); }};
    case 9: return {"clear", [=](A& x) { return x.clear(); }};
    default: return {"shrink", [=](A& x) { return x.shrink(); }};
  }
}
static inline Op<BLArray<BLString>> op(Case& c, const BLArray<BLString>*) {
  typedef BLArray<BLString> A; std::string s = text(c); size_t a = c.below(12), b = c.below(6); BLString v; v.assign(s.data(), s.size());
  switch (c.below(8)) {
    case 0: case 1: return {"append", [=](A& x) { return x.append(v); }};
    case 2: return {"insert", [=](A& x) { return x.insert(std::min(a, x.size()), v); }};
    case 3: return {"remove", [=](A& x) { size_t p = std::min(a, x.size()), q = std::min(p + b, x.size()); return x.remove(BLRange{p, q}); }};
    case 4: return {"replace", [=](A& x) { if (x.is_empty()) return x.append(v); return x.replace(a % x.size(), v); }};
    case 5: return {"resize", [=](A& x) { return x.resize(a, v); }};
    case 6: return {"clear", [=](A& x) { return x.clear(); }};
    default: return {"shrink", [=](A& x) { return x.shrink(); }};
  }
}
static inline Op<BLBitSet> op(Case& c, const BLBitSet*) {
  auto at = [&] { return c.chance(1, 8) ? c.u32() / 2 : c.chance(1, 3) ? c.below(4096) : c.below(200); }; uint32_t a = at(), b = at() + 1; if (a > b) std::swap(a, b);
  switch (c.below(8)) {
    case 0: case 1: return {fmt("add bit %u", a), [=](BLBitSet& x) { return x.add_bit(a); }};
    case 2: case 3: return {fmt("add range %u %u", a, b), [=](BLBitSet& x) { return x.add_range(a, b); }};
    case 4: return {fmt("clear bit %u", a), [=](BLBitSet& x) { return x.clear_bit(a); }};
    case 5: return {fmt("clear range %u %u", a, b), [=](BLBitSet& x) { return x.clear_range(a, b); }};
    case 6: return {"clear", [=](BLBitSet& x) { return x.clear(); }};
    default: return {"shrink", [=](BLBitSet& x) { return x.shrink(); }};
  }
}
static inline Op<BLBitArray> op(Case& c, const BLBitArray*) {
  uint32_t a = c.below(300), b = c.below(300), n = c.chance(1, 6) ? c.range(300, 3000) : c.below(200); uint32_t w = c.u32(); if (a > b) std::swap(a, b);
  switch (c.below(10)) {
    case 0: case 1: return {fmt("resize %u", n), [=](BLBitArray& x) { return x.resize(n); }};
    case 2: return {"set bit", [=](BLBitArray& x) { if (x.is_empty()) return x.resize(n); return x.set_bit(a % x.size()); }};
    case 3: return {"fill range", [=](BLBitArray& x) { uint32_t s = x.size(); return x.fill_range(std::min(a, s), std::min(b, s)); }};
    case 4: return {"clear range", [=](BLBitArray& x) { uint32_t s = x.size(); return x.clear_range(std::min(a, s), std::min(b, s)); }};
    case 5: return {"append bit", [=](BLBitArray& x) { return x.append_bit(w & 1); }};
    case 6: return {"append word", [=](BLBitArray& x) { return x.append_word(w); }};
    case 7: return {"assign words", [=](BLBitArray& x) { uint32_t d[3] = {w, ~w, w * 3}; return x.assign_words(d, 3); }};
    case 8: return {"clear", [=](BLBitArray& x) { return x.clear(); }};
    default: return {"reserve", [=](BLBitArray& x) { return x.reserve(n); }};
  }
}
static inline BLPath some_path(Case& c) { BLPath p; int n = c.i(0, 8); for (int i = 0; i < n; i++) { double x = c.i(-50, 50), y = c.i(-50, 50); if (i == 0 || c.chance(1, 6)) p.move_to(x, y); else switch (c.below(4)) { case 0: p.line_to(x, y); break; case 1: p.quad_to(x, y, y, x); break; case 2: p.cubic_to(x, y, y, x, x + 3, y - 7); break; default: p.close(); p.move_to(x, y); } } return p; }
static inline Op<BLPath> op(Case& c, const BLPath*) {
  double x = c.i(-60, 60), y = c.i(-60, 60); int k = int(c.below(15)); size_t a = c.below(30), b = c.below(20); BLPath other = k == 3 || k == 4 || k == 5 ? some_path(c) : BLPath();
  switch (k) {
    case 0: return {"move_to", [=](BLPath& p) { return p.move_to(x, y); }};
    case 1: return {"line_to", [=](BLPath& p) { if (p.is_empty()) return p.move_to(x, y); return p.line_to(x, y); }};
    case 2: return {"cubic_to", [=](BLPath& p) { if (p.is_empty()) return p.move_to(x, y); return p.cubic_to(x, y, y, x, x + 3, y - 7); }};
    case 3: return {"add_path", [=](BLPath& p) { return p.add_path(other); }};
    case 4: return {"add_stroked_path", [=](BLPath& p) { BLStrokeOptions o; o.width = 3; o.join = BL_STROKE_JOIN_ROUND; return p.add_stroked_path(other, o, BLApproximationOptions(bl_default_approximation_options)); }};
    case 5: return {"add_reversed_path", [=](BLPath& p) { return p.add_reversed_path(other, BL_PATH_REVERSE_MODE_COMPLETE); }};
    case 6: return {"add_rect", [=](BLPath& p) { return p.add_rect(BLRect(x, y, 10, 12)); }};
    case 7: return {"add_circle", [=](BLPath& p) { return p.add_circle(BLCircle(x, y, 9)); }};
    case 8: return {"add_pie", [=](BLPath& p) { return p.add_pie(BLArc(x, y, 9, 7, 0.3, 4.1)); }};
    case 9: return {"translate", [=](BLPath& p) { return p.translate(BLPoint(x, y)); }};
    case 10: return {"remove_range", [=](BLPath& p) { size_t s = std::min(a, p.size()), e = std::min(s + b, p.size()); return p.remove_range(BLRange{s, e}); }};
    case 11: return {"close", [=](BLPath& p) { if (p.is_empty()) return p.move_to(x, y); return p.close(); }};
    case 12: return {"clear", [=](BLPath& p) { return p.clear(); }};
    case 13: return {"reserve", [=](BLPath& p) { return p.reserve(a * 9); }};
    default: return {"shrink", [=](BLPath& p) { return p.shrink(); }};
  }
}
static inline BLImage some_image(Case& c) { BLImage i(c.i(1, 12), c.i(1, 12), c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8})); BLImageData d; i.make_mutable(&d); uint32_t s = c.u32(); for (int y = 0; y < d.size.h; y++) for (intptr_t x = 0; x < d.size.w * (d.format == BL_FORMAT_A8 ? 1 : 4); x++) { s = s * 1664525u + 1013904223u; static_cast<uint8_t*>(d.pixel_data)[y * d.stride + x] = (x & 3) == 3 ? 255 : uint8_t(s >> 24); } return i; }
static inline Op<BLImage> op(Case& c, const BLImage*) {
  int w = c.i(1, 20), h = c.i(1, 20); BLFormat f = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); uint32_t s = c.u32(); BLImage other = c.chance(1, 3) ? some_image(c) : BLImage();
  auto paint = [=](BLImage& i) { BLImageData d; BLResult e = i.make_mutable(&d); if (e != BL_SUCCESS) return e; if (!d.size.w) return e; uint8_t* p = static_cast<uint8_t*>(d.pixel_data) + intptr_t(s % uint32_t(d.size.h)) * d.stride; memset(p, int(s >> 24), size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); return BLResult(BL_SUCCESS); };
  auto create = [=](BLImage& i) { BLResult e = i.create(w, h, f); if (e != BL_SUCCESS) return e; BLImageData d; e = i.make_mutable(&d); if (e != BL_SUCCESS) return e; for (int y = 0; y < h; y++) memset(static_cast<uint8_t*>(d.pixel_data) + y * d.stride, int(s & 255), size_t(w) * (f == BL_FORMAT_A8 ? 1 : 4)); return BLResult(BL_SUCCESS); };
  switch (c.below(6)) {
    case 0: return {"create", create};
    case 1: case 2: return {"paint", paint};
    case 3: return {"convert", [=](BLImage& i) { if (i.is_empty()) return create(i); return i.convert(f); }};
    case 4: return {"scale", [=](BLImage& i) { BLImage src = i.is_empty() ? other : i; if (src.is_empty()) return create(i); return BLImage::scale(i, src, BLSizeI(w, h), BL_IMAGE_SCALE_FILTER_BILINEAR); }};
    default: return {"render", [=](BLImage& i) { if (i.is_empty()) return create(i); BLContext ctx; BLResult e = ctx.begin(i); if (e != BL_SUCCESS) return e; ctx.set_comp_op(BL_COMP_OP_SRC_COPY); e = ctx.fill_rect(BLRect(1, 1, w / 2.0, h / 2.0), BLRgba32(s | 0xFF000000u)); BLResult q = ctx.end(); return e ? e : q; }};
  }
}
static inline Op<BLGradient> op(Case& c, const BLGradient*) {
  double x = c.i(-20, 20), y = c.i(-20, 20), o = c.i(0, 8) / 8.0; uint32_t k = c.u32(), n = c.below(12); size_t i = c.below(12);
  switch (c.below(10)) {
    case 0: return {"set type", [=](BLGradient& g) { return g.set_type(BLGradientType(k % 3)); }};
    case 1: return {"set value", [=](BLGradient& g) { return g.set_value(k % 4, x); }};
    case 2: case 3: return {"add stop", [=](BLGradient& g) { return g.add_stop(o, BLRgba32(k)); }};
    case 4: return {"assign stops", [=](BLGradient& g) { std::vector<BLGradientStop> v; for (uint32_t q = 0; q < n; q++) v.push_back(BLGradientStop(q / 12.0, BLRgba32(k * (q + 1)))); return g.assign_stops(v.data(), v.size()); }};
    case 5: return {"remove stop", [=](BLGradient& g) { if (!g.size()) return g.add_stop(o, BLRgba32(k)); return g.remove_stop(i % g.size()); }};
    case 6: return {"translate", [=](BLGradient& g) { return g.translate(x, y); }};
    case 7: return {"set extend mode", [=](BLGradient& g) { return g.set_extend_mode(BLExtendMode(k % 3)); }};
    case 8: return {"reset stops", [=](BLGradient& g) { return g.reset_stops(); }};
    default: return {"reserve", [=](BLGradient& g) { return g.reserve(i * 5); }};
  }
}
static inline Op<BLPattern> op(Case& c, const BLPattern*) {
  double x = c.i(-20, 20); uint32_t k = c.u32(); BLImage img = some_image(c);
  switch (c.below(6)) {
    case 0: return {"set image", [=](BLPattern& p) { return p.set_image(img); }};
    case 1: return {"create", [=](BLPattern& p) { return p.create(img, BLExtendMode(k % 9)); }};
    case 2: return {"set extend mode", [=](BLPattern& p) { return p.set_extend_mode(BLExtendMode(k % 9)); }};
    case 3: return {"set area", [=](BLPattern& p) { BLImage i = p.get_image(); if (i.is_empty()) return p.set_image(img); BLRectI r; r.reset(0, 0, 1 + int(k % unsigned(i.width())), i.height()); return p.set_area(r); }};
    case 4: return {"translate", [=](BLPattern& p) { return p.translate(x, 2); }};
    default: return {"reset image", [=](BLPattern& p) { return p.reset_image(); }};
  }
}
static inline BLTag some_tag(Case& c) { return c.pickl<BLTag>({BL_MAKE_TAG('k', 'e', 'r', 'n'), BL_MAKE_TAG('l', 'i', 'g', 'a'), BL_MAKE_TAG('s', 'm', 'c', 'p'), BL_MAKE_TAG('s', 's', '0', '1'), BL_MAKE_TAG('z', 'e', 'r', 'o'), BL_MAKE_TAG('a', 'a', 'l', 't'), BL_MAKE_TAG('x', 'x', 'x', 'x'), BL_MAKE_TAG('A', 'B', 'C', 'D'), BL_MAKE_TAG('T', 'E', 'S', 'T')}); }
static inline Op<BLFontFeatureSettings> op(Case& c, const BLFontFeatureSettings*) {
  BLTag t = some_tag(c); uint32_t v = c.chance(1, 3) ? c.range(0, 65535) : c.below(2); if (c.chance(1, 4)) t += c.below(9);
  switch (c.below(5)) { case 0: return {"remove", [=](BLFontFeatureSettings& s) { return s.remove_value(t); }}; case 1: if (c.chance(1, 4)) return {"clear", [=](BLFontFeatureSettings& s) { return s.clear(); }}; [[fallthrough]]; default: return {"set", [=](BLFontFeatureSettings& s) { BLResult r = s.set_value(t, v); if (r == BL_ERROR_INVALID_VALUE) return BLResult(BL_SUCCESS); return r; }}; }
}
static inline Op<BLFontVariationSettings> op(Case& c, const BLFontVariationSettings*) {
  BLTag t = c.coin() ? c.pickl<BLTag>({BL_MAKE_TAG('w', 'g', 'h', 't'), BL_MAKE_TAG('w', 'd', 't', 'h'), BL_MAKE_TAG('i', 't', 'a', 'l'), BL_MAKE_TAG('o', 'p', 's', 'z'), BL_MAKE_TAG('s', 'l', 'n', 't')}) : some_tag(c); float v = float(c.i(0, 1000));
  switch (c.below(5)) { case 0: return {"remove", [=](BLFontVariationSettings& s) { return s.remove_value(t); }}; case 1: if (c.chance(1, 4)) return {"clear", [=](BLFontVariationSettings& s) { return s.clear(); }}; [[fallthrough]]; default: return {"set", [=](BLFontVariationSettings& s) { return s.set_value(t, v); }}; }
}
static inline const BLArray<uint8_t>& font_bytes() { static BLArray<uint8_t>* a = [] { auto* v = new BLArray<uint8_t>(); const char* r = getenv("VERIF_REPO"); BLFileSystem::read_file((std::string(r ? r : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), *v); return v; }(); return *a; }
static inline const BLFontFace& shared_face() { static BLFontFace* f = [] { auto* v = new BLFontFace(); BLFontData d; d.create_from_data(font_bytes()); v->create_from_data(d, 0); return v; }(); return *f; }
static inline Op<BLFontData> op(Case& c, const BLFontData*) { if (c.chance(1, 4)) return {"reset", [](BLFontData& d) { return d.reset(); }}; return {"create_from_data", [](BLFontData& d) { return d.create_from_data(font_bytes()); }}; }
static inline Op<BLFontFace> op(Case& c, const BLFontFace*) {
  switch (c.below(4)) { case 0: return {"reset", [](BLFontFace& f) { return f.reset(); }}; case 1: return {"copy of a shared one", [](BLFontFace& f) { return f.assign(shared_face()); }}; default: return {"create_from_data", [](BLFontFace& f) { BLFontData d; BLResult r = d.create_from_data(font_bytes()); if (r != BL_SUCCESS) return r; return f.create_from_data(d, 0); }}; }
}
static inline Op<BLFont> op(Case& c, const BLFont*) {
  float z = float(c.i(1, 40)); BLTag t = some_tag(c); uint32_t v = c.below(2); int n = c.i(0, 4);
  auto create = [=](BLFont& f) { return f.create_from_face(shared_face(), z); };
  switch (c.below(6)) {
    case 0: return {"create", create};
    case 1: return {"create with features", [=](BLFont& f) { BLFontFeatureSettings s; for (int i = 0; i < n; i++) { BLResult r = s.set_value(t + BLTag(i), v); if (r != BL_SUCCESS) return r; } return f.create_from_face(shared_face(), z, s); }};
    case 2: case 3: return {"set size", [=](BLFont& f) { if (!f.is_valid()) return create(f); return f.set_size(z); }};
    case 4: return {"set feature settings", [=](BLFont& f) { if (!f.is_valid()) return create(f); BLFontFeatureSettings s; for (int i = 0; i < n; i++) { BLResult r = s.set_value(t + BLTag(i), v); if (r != BL_SUCCESS) return r; } return f.set_feature_settings(s); }};
    default: return {"reset feature settings", [=](BLFont& f) { if (!f.is_valid()) return create(f); return f.reset_feature_settings(); }};
  }
}
static inline Op<BLImageCodec> op(Case& c, const BLImageCodec*) { const char* n = c.pickl<const char*>({"PNG", "BMP", "QOI", "JPEG"}); if (c.chance(1, 5)) return {"reset", [](BLImageCodec& k) { return bl_image_codec_reset(&k); }}; return {"find", [=](BLImageCodec& k) { return k.find_by_name(n); }}; }
static inline Op<BLStrokeOptions> op(Case& c, const BLStrokeOptions*) {
  uint32_t k = c.u32(); double w = c.i(1, 20); int n = c.i(0, 5);
  switch (c.below(4)) { case 0: return {"width", [=](BLStrokeOptions& o) { o.width = w; return BLResult(BL_SUCCESS); }}; case 1: return {"caps", [=](BLStrokeOptions& o) { o.set_caps(BLStrokeCap(k % 6)); o.join = uint8_t(k % 5); return BLResult(BL_SUCCESS); }};
    case 2: return {"dash append", [=](BLStrokeOptions& o) { return o.dash_array.append(w); }}; default: return {"dashes", [=](BLStrokeOptions& o) { double d[5] = {w, 2, 3, w + 1, 1}; return o.dash_array.assign_data(d, size_t(n)); }}; }
}
template<class T> static inline T build(Case& c, int n) { T v; for (int i = 0; i < n; i++) op(c, static_cast<const T*>(nullptr)).run(v); return v; }
static inline Op<BLVar> op(Case& c, const BLVar*) {
  auto obj = [&](auto v, const char* n) -> Op<BLVar> { bool mv = c.coin(); typedef decltype(v) T; return {fmt("assign %s%s", n, mv ? " (move)" : ""), [=](BLVar& x) { if (mv) { T t(v); return x.assign(std::move(t)); } return x.assign(v); }}; };
  int n = c.i(0, 4);
  switch (c.below(20)) {
    case 0: return {"null", [](BLVar& v) { return v.assign(BLVar()); }};
    case 1: { bool b = c.coin(); return {"bool", [=](BLVar& v) { return v.assign(b); }}; }
    case 2: { int64_t i = int64_t(c.u64()); return {"int64", [=](BLVar& v) { return v.assign(i); }}; }
    case 3: { uint64_t i = c.u64(); return {"uint64", [=](BLVar& v) { return v.assign(i); }}; }
    case 4: { double d = c.real(-1e6, 1e6); return {"double", [=](BLVar& v) { return v.assign(d); }}; }
    case 5: { BLRgba32 r(c.u32()); return {"rgba32", [=](BLVar& v) { return v.assign(r); }}; }
    case 6: { BLRgba64 r(c.u64()); return {"rgba64", [=](BLVar& v) { return v.assign(r); }}; }
    case 7: { BLRgba r(float(c.frac()), float(c.frac()), float(c.frac()), float(c.frac())); return {"rgba", [=](BLVar& v) { return v.assign(r); }}; }
    case 8: return obj(build<BLString>(c, n), "string");
    case 9: return obj(build<BLArray<int>>(c, n), "array");
    case 10: return obj(build<BLArray<BLString>>(c, n), "array of strings");
    case 11: return obj(build<BLBitSet>(c, n), "bit set");
    case 12: return obj(build<BLBitArray>(c, n), "bit array");
    case 13: return obj(build<BLPath>(c, n), "path");
    case 14: return obj(build<BLImage>(c, n), "image");
    case 15: return obj(build<BLGradient>(c, n), "gradient");
    case 16: return obj(build<BLPattern>(c, n), "pattern");
    case 17: return obj(build<BLFont>(c, n), "font");
    case 18: return obj(build<BLFontFeatureSettings>(c, n), "feature settings");
    default: return obj(build<BLFontVariationSettings>(c, n), "variation settings");
  }
}
}
