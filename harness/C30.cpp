// C30: drawing text equals drawing the outlines of its glyphs.
#include "layoutgen.h"
#include "cffgen.h"
#include "render.h"
#include <memory>
using namespace fg; using rv::px32;
#ifndef RES
#define RES "/blend2d-testing/resources/ABeeZee-Regular.ttf"
#endif
struct F { Font f; BLFontData data; BLFontFace face; bool file = false; std::vector<uint32_t> chars; };
static void font_of(Case& c, F& x, bool exact) {
  if (!exact && c.chance(1, 3)) { x.file = true; const char* r = getenv("VERIF_REPO"); REQUIRE(c, x.face.create_from_file((std::string(r ? r : "/repo") + RES).c_str()) == BL_SUCCESS, "the font file was not loaded"); for (uint32_t u = 32; u < 127; u++) x.chars.push_back(u); for (uint32_t u : {0xE9u, 0xFCu, 0x20ACu, 0x4E00u, 0x1F600u}) x.chars.push_back(u); return; }
  model(c, x.f, 10, false); if (exact) x.f.upem = int(c.pickl<int>({16, 1024, 2048, 16384})); int ng = int(x.f.g.size()); if (c.chance(1, 2)) x.f.extra["GSUB"] = lg::table(c, lg::make(c, false, ng, false)); if (c.chance(1, 2)) x.f.extra["GPOS"] = lg::table(c, lg::make(c, true, ng, false)); if (c.chance(1, 3)) x.f.extra["kern"] = lg::kern_table(c, lg::make_kern(c, ng));
  if (exact) for (auto& g : x.f.g) for (auto& m : g.comps) { m.a = m.d = c.pickl<double>({1, 0.5, -1}); m.b = m.c = 0; }
  x.f.cmap.clear(); x.f.cmap_format = 12; x.f.symbol = false; uint32_t at = 0x20; for (int i = 1; i < ng; i++) { x.f.cmap[at] = uint32_t(i); x.chars.push_back(at); at += c.chance(1, 4) ? c.pickl<uint32_t>({0x60, 0x3000, 0x10000}) : 1; if (at >= 0xD000 && at < 0xE000) at += 0x1000; } x.chars.push_back(0x1F600);
  assemble(c, x.f); if (const char* p = getenv("C30_DUMP")) { FILE* o = fopen(p, "wb"); fwrite(x.f.bytes.data(), 1, x.f.bytes.size(), o); fclose(o); } REQUIRE(c, x.data.create_from_data(x.f.bytes.data(), x.f.bytes.size()) == BL_SUCCESS && x.face.create_from_data(x.data, 0) == BL_SUCCESS, "the font was not loaded");
}
static std::string utf8(const std::vector<uint32_t>& t) { std::string s; for (uint32_t u : t) { if (u < 0x80) s += char(u); else if (u < 0x800) { s += char(0xC0 | u >> 6); s += char(0x80 | (u & 63)); } else if (u < 0x10000) { s += char(0xE0 | u >> 12); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); } else { s += char(0xF0 | u >> 18); s += char(0x80 | (u >> 12 & 63)); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); } } return s; }
static std::u16string utf16(const std::vector<uint32_t>& t) { std::u16string s; for (uint32_t u : t) if (u < 0x10000) s += char16_t(u); else { s += char16_t(0xD7C0 + (u >> 10)); s += char16_t(0xDC00 + (u & 1023)); } return s; }

static void draw(Case& c, bool exact, bool absolute = false) {
  F x; font_of(c, x, exact); float size = exact ? float(c.pickl<double>({16, 32, 64, 8, 128})) : float(c.pickl<double>({12.5, 20, 33.3, 100, 7})); BLFont font; REQUIRE(c, font.create_from_face(x.face, size) == BL_SUCCESS, "font wasn't created");
  int w = int(c.range(20, 160)), h = int(c.range(20, 120)); int n = int(c.chance(1, 25) ? c.range(300, 700) : c.range(1, 12)); std::vector<uint32_t> text; for (int i = 0; i < n; i++) text.push_back(x.chars[c.below(uint32_t(x.chars.size()))]); bool latin = true; for (uint32_t u : text) latin &= u < 0x100;
  bool stroke = !absolute && c.coin(); int threads = c.chance(1, 3) ? 2 : 0; BLPoint origin = exact ? BLPoint(double(c.range(-40, 8 * w)) / 8, double(c.range(0, 8 * h)) / 8) : BLPoint(c.real(-20, w), c.real(0, h + 20)); bool iorg = c.chance(1, 4); BLPointI oi{int(origin.x), int(origin.y)}; if (iorg) origin = BLPoint(oi.x, oi.y);
  BLMatrix2D m(1, 0, 0, 1, 0, 0), um(1, 0, 0, 1, 0, 0); auto mat = [&](BLMatrix2D& q) { if (exact) switch (absolute ? 1 : c.below(4)) { case 0: break; case 1: q.m20 = double(c.range(-20, 20)) / 4; q.m21 = double(c.range(-20, 20)) / 4; break; case 2: q.m00 = c.pickl<double>({0.5, 2, -1}); q.m11 = c.pickl<double>({0.5, 2, 1}); q.m20 = double(c.range(0, 40)); break; default: q.m00 = 0; q.m01 = 1; q.m10 = c.coin() ? 1 : -1; q.m11 = 0; q.m20 = c.range(0, 60); } else if (c.coin()) q = BLMatrix2D(c.real(-1.5, 1.5), c.real(-1.5, 1.5), c.real(-1.5, 1.5), c.real(-1.5, 1.5), c.real(-20, w), c.real(-20, h)); }; mat(m); mat(um); bool meta = c.chance(1, 3);
  // What is drawn: a string in an encoding, its glyph run, or a run with explicit placement.
  int how = absolute ? 5 : int(c.weighted({3, 2, 2, 0, 3, 4})); BLGlyphBuffer gb; REQUIRE(c, gb.set_utf32_text(text.data(), text.size()) == BL_SUCCESS && font.shape(gb) == BL_SUCCESS, "shape failed"); BLGlyphRun run = gb.glyph_run(); size_t glyphs = gb.size(); if (glyphs > 3000) c.discard();
  struct Rec { uint32_t id; uint32_t pad; BLPoint p; uint64_t more; BLGlyphPlacement pl; }; std::vector<Rec> rec; int type = int(run.placement_type), ptype = 1; bool none = false; std::vector<BLMatrix2D> at; BLFontMatrix fm = font.matrix();
  if (how == 5) {
    ptype = absolute ? 4 : int(c.pickl<int>({0, 1, 2, 3})); none = ptype == 0; glyphs = size_t(c.range(1, 8)); for (size_t i = 0; i < glyphs; i++) { Rec r; r.id = c.below(x.face.glyph_count()); r.pad = 0; double k = ptype == 2 ? x.face.units_per_em() / double(size) : 1; r.p = exact ? BLPoint(double(c.range(-20, 100)) * (ptype == 2 ? std::round(k) : 0.5), double(c.range(-20, 60)) * (ptype == 2 ? std::round(k) : 0.5)) : BLPoint(c.real(-10, 90) * k, c.real(-10, 50) * k); r.more = 7; r.pl.placement = BLPointI(int(c.range(-400, 400)), int(c.range(-400, 400))); r.pl.advance = BLPointI(int(c.range(-200, 1500)), int(c.chance(1, 3) ? c.range(-300, 300) : 0)); rec.push_back(r); }
    run.reset(); run.size = glyphs; run.set_glyph_data(&rec[0].id, intptr_t(sizeof(Rec))); run.placement_type = uint8_t(ptype); if (ptype == 1) run.set_placement_data(&rec[0].pl, intptr_t(sizeof(Rec))); else if (ptype > 1) run.set_placement_data(&rec[0].p, intptr_t(sizeof(Rec))); else if (c.coin()) run.set_placement_data(&rec[0].p, intptr_t(sizeof(Rec)));
  } else REQUIRE(c, glyphs == 0 || type == BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET, "placement type after shaping is %d", type);
  // The reference path: each outline is placed independently.
  BLPath path; double px = 0, py = 0, reach = 0;
  for (size_t i = 0; i < glyphs; i++) {
    uint32_t id = how == 5 ? rec[i].id : gb.content()[i]; double ox = px, oy = py; if (ptype == 1) { BLGlyphPlacement pl = how == 5 ? rec[i].pl : gb.placement_data()[i]; double a = pl.placement.x, b = pl.placement.y; ox += a * fm.m00 + b * fm.m10; oy += a * fm.m01 + b * fm.m11; a = pl.advance.x; b = pl.advance.y; px += a * fm.m00 + b * fm.m10; py += a * fm.m01 + b * fm.m11; } else if (ptype == 2) { ox = rec[i].p.x * fm.m00 + rec[i].p.y * fm.m10; oy = rec[i].p.x * fm.m01 + rec[i].p.y * fm.m11; } else if (ptype >= 3) { ox = rec[i].p.x; oy = rec[i].p.y; }
    REQUIRE(c, font.get_glyph_outlines(id, BLMatrix2D(1, 0, 0, 1, ox, oy), path) == BL_SUCCESS, "get_glyph_outlines(%u) failed", id); reach = std::max(reach, std::fabs(ox) + std::fabs(oy)); } if (reach > 1e5) c.discard();
  BLStrokeOptions so; so.width = exact ? c.pickl<double>({1, 2, 4}) : c.real(0.3, 5); so.join = uint8_t(c.below(5)); so.start_cap = so.end_cap = uint8_t(c.below(6)); so.transform_order = uint8_t(c.below(2)); if (stroke && path.size() > 4000) c.discard();
  BLRgba32 color(c.chance(1, 3) ? 0xFFFFFFFFu : c.u32() | 0x60000000u); bool clip = c.chance(1, 3); BLRect cr(c.range(0, w / 2), c.range(0, h / 2), c.range(1, w), c.range(1, h)); int cm = c.coin() ? 2 : 0; bool style = c.chance(1, 4);
  c.note("%s %dx%d size %g upem %d glyphs %zu how %d ptype %d threads %d stroke %d (width %g order %d) m (%g %g %g %g %g %g) um (%g %g %g %g %g %g) meta %d origin %g,%g", x.file ? "file" : "synthetic", w, h, double(size), x.face.units_per_em(), glyphs, how, ptype, threads, stroke, so.width, so.transform_order, m.m00, m.m01, m.m10, m.m11, m.m20, m.m21, um.m00, um.m01, um.m10, um.m11, um.m20, um.m21, meta, origin.x, origin.y);
  BLImage img[2]; std::string u8 = utf8(text); std::u16string u16 = utf16(text); std::string l1; if (latin) for (uint32_t u : text) l1 += char(u); bool nul = c.coin();
  for (int k = 0; k < 2; k++) {
    REQUIRE(c, img[k].create(w, h, BL_FORMAT_PRGB32) == BL_SUCCESS, "image"); BLContextCreateInfo ci{}; ci.thread_count = k ? 0 : uint32_t(threads); BLContext ctx; REQUIRE(c, ctx.begin(img[k], ci) == BL_SUCCESS, "begin"); ctx.clear_all(); if (cm) { ctx.fill_all(BLRgba32(0xFF204060u)); }
    if (clip) ctx.clip_to_rect(cr); if (meta) { ctx.apply_transform(m); ctx.user_to_meta(); ctx.apply_transform(um); } else ctx.apply_transform(m); ctx.set_stroke_options(so); if (style) { ctx.set_fill_style(color); ctx.set_stroke_style(color); } ctx.set_fill_rule(k == 0 && c.coin() ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO); BLResult r;
    if (k) r = stroke ? (style ? ctx.stroke_path(origin, path) : ctx.stroke_path(origin, path, color)) : (style ? ctx.fill_path(origin, path) : ctx.fill_path(origin, path, color));
    else {
#define T(CALL, ...) (iorg ? (stroke ? (style ? ctx.stroke_##CALL(oi, font, __VA_ARGS__) : ctx.stroke_##CALL(oi, font, __VA_ARGS__, color)) : (style ? ctx.fill_##CALL(oi, font, __VA_ARGS__) : ctx.fill_##CALL(oi, font, __VA_ARGS__, color))) : (stroke ? (style ? ctx.stroke_##CALL(origin, font, __VA_ARGS__) : ctx.stroke_##CALL(origin, font, __VA_ARGS__, color)) : (style ? ctx.fill_##CALL(origin, font, __VA_ARGS__) : ctx.fill_##CALL(origin, font, __VA_ARGS__, color))))
      switch (how) {
        case 0: r = nul ? T(utf8_text, u8.c_str(), SIZE_MAX) : T(utf8_text, u8.data(), u8.size()); break;
        case 1: r = nul ? T(utf16_text, reinterpret_cast<const uint16_t*>(u16.c_str()), SIZE_MAX) : T(utf16_text, reinterpret_cast<const uint16_t*>(u16.data()), u16.size()); break;
        case 2: { std::vector<uint32_t> z = text; z.push_back(0); r = nul ? T(utf32_text, z.data(), SIZE_MAX) : T(utf32_text, z.data(), text.size()); break; }
        case 3: { BLStringView sv{}; (void)sv; r = T(utf8_text, u8.data(), u8.size()); break; }
        default: r = T(glyph_run, run); break;
      }
    }
    REQUIRE(c, r == BL_SUCCESS, "%s failed: %u", k ? "drawing the outlines" : "drawing the text", unsigned(r)); REQUIRE(c, ctx.end() == BL_SUCCESS, "end");
  }
  BLImageData a, b; img[0].get_data(&a); img[1].get_data(&b); size_t diff = 0, big = 0, ink = 0; int worst = 0, wx = 0, wy = 0; uint32_t bg = cm ? 0xFF204060u : 0;
  for (int y = 0; y < h; y++) for (int q = 0; q < w; q++) { uint32_t u = px32(a, q, y), v = px32(b, q, y); ink += v != bg; int d = 0; for (int s = 0; s < 32; s += 8) d = std::max(d, std::abs(int(u >> s & 255) - int(v >> s & 255))); diff += d != 0; big += d > 12; if (d > worst) { worst = d; wx = q; wy = y; } }
  if (absolute) REQUIRE(c, diff == 0, "absolute placement: %zu pixels differ", diff);
  else if (exact) REQUIRE(c, diff == 0, "%zu pixels differ, the most at %d,%d: %08X instead of %08X", diff, wx, wy, px32(a, wx, wy), px32(b, wx, wy));
  else REQUIRE(c, big <= 4 + ink / 50, "%zu of %zu pixels differ, the most at %d,%d: %08X instead of %08X", big, ink, wx, wy, px32(a, wx, wy), px32(b, wx, wy));
  c.nontrivial(ink > 3); c.label(how == 5, "explicit run"); c.label(threads > 0, "asynchronous"); c.label(stroke, "stroke"); c.label(n > 200, "long text"); c.label(x.file, "font file"); c.label(how == 5 && none, "no placement");
}
static void exact(Case& c) { draw(c, true); }
// Without scaling, absolute units are user units.
static void absolute(Case& c) { draw(c, true, true); }
static void approximate(Case& c) { draw(c, false); }

// get_glyph_run_outlines is the concatenation of the outlines of the glyphs, and the sink is called once per glyph.
struct Sink { std::vector<size_t> index, contours, sizes; };
static BLResult BL_CDECL on_glyph(BLPathCore* p, const void* info, void* u) noexcept { Sink* s = static_cast<Sink*>(u); const BLGlyphOutlineSinkInfo* i = static_cast<const BLGlyphOutlineSinkInfo*>(info); s->index.push_back(i->glyph_index); s->contours.push_back(i->contour_count); s->sizes.push_back(static_cast<BLPath*>(p)->size()); return BL_SUCCESS; }
static void run_outlines(Case& c) {
  F x; font_of(c, x, false); float size = float(c.pickl<double>({12, 20, 33.3, 1000})); BLFont font; REQUIRE(c, font.create_from_face(x.face, size) == BL_SUCCESS, "font"); size_t n = size_t(c.range(1, 12)); std::vector<uint32_t> id; std::vector<BLPoint> pt; std::vector<BLGlyphPlacement> pl; for (size_t i = 0; i < n; i++) { id.push_back(c.below(x.face.glyph_count())); pt.push_back(BLPoint(c.real(-500, 500), c.real(-500, 500))); BLGlyphPlacement q; q.placement = BLPointI(int(c.range(-999, 999)), int(c.range(-999, 999))); q.advance = BLPointI(int(c.range(-999, 999)), int(c.range(-999, 999))); pl.push_back(q); }
  int type = int(c.below(5)); BLGlyphRun run{}; run.size = n; run.set_glyph_data(id.data()); run.placement_type = uint8_t(type); if (type == 1) run.set_placement_data(pl.data()); else run.set_placement_data(pt.data()); BLMatrix2D t(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-99, 99), c.real(-99, 99)); bool ident = c.chance(1, 4); if (ident) t.reset(); BLFontMatrix fm = font.matrix();
  BLPath got; Sink s; bool sink = c.coin(); BLResult r = sink ? font.get_glyph_run_outlines(run, t, got, on_glyph, &s) : ident ? font.get_glyph_run_outlines(run, got) : font.get_glyph_run_outlines(run, t, got); REQUIRE(c, r == BL_SUCCESS, "get_glyph_run_outlines failed: %u", unsigned(r)); BLPath want; double px = 0, py = 0, scale = 1; std::vector<size_t> sizes, contours;
  for (size_t i = 0; i < n; i++) {
    double ox = 0, oy = 0; if (type == 1) { double a = px + pl[i].placement.x, b = py + pl[i].placement.y; ox = a * fm.m00 + b * fm.m10; oy = a * fm.m01 + b * fm.m11; px += pl[i].advance.x; py += pl[i].advance.y; } else if (type == 2) { ox = pt[i].x * fm.m00 + pt[i].y * fm.m10; oy = pt[i].x * fm.m01 + pt[i].y * fm.m11; } else if (type >= 3) { ox = pt[i].x; oy = pt[i].y; }
    BLMatrix2D q; if (type == 4) q.reset(t.m00, t.m01, t.m10, t.m11, t.m20 + ox, t.m21 + oy); else q.reset(t.m00, t.m01, t.m10, t.m11, ox * t.m00 + oy * t.m10 + t.m20, ox * t.m01 + oy * t.m11 + t.m21); size_t before = want.size(); REQUIRE(c, font.get_glyph_outlines(id[i], q, want) == BL_SUCCESS, "get_glyph_outlines"); sizes.push_back(want.size()); size_t k = 0; for (size_t j = before; j < want.size(); j++) k += want.command_data()[j] == BL_PATH_CMD_MOVE; contours.push_back(k); }
  REQUIRE(c, got.size() == want.size() && !memcmp(got.command_data(), want.command_data(), want.size()), "outlines have %zu vertices instead of %zu", got.size(), want.size()); for (size_t i = 0; i < want.size(); i++) scale = std::max({scale, std::isfinite(want.vertex_data()[i].x) ? std::fabs(want.vertex_data()[i].x) : 0, std::isfinite(want.vertex_data()[i].y) ? std::fabs(want.vertex_data()[i].y) : 0});
  for (size_t i = 0; i < want.size(); i++) { if (want.command_data()[i] == BL_PATH_CMD_CLOSE) continue; BLPoint a = got.vertex_data()[i], b = want.vertex_data()[i]; REQUIRE(c, std::fabs(a.x - b.x) <= 1e-9 * scale + 1e-9 && std::fabs(a.y - b.y) <= 1e-9 * scale + 1e-9, "vertex #%zu is %.12g,%.12g instead of %.12g,%.12g (placement type %d)", i, a.x, a.y, b.x, b.y, type); }
  if (sink) { REQUIRE(c, s.sizes == sizes, "the sink saw other outlines"); for (size_t i = 0; i < n; i++) REQUIRE(c, s.index[i] == i && (x.file || s.contours[i] >= contours[i]), "the sink got index %zu contours %zu instead of %zu %zu", s.index[i], s.contours[i], i, contours[i]); }
  c.nontrivial(want.size() > 4); c.label(type == 4, "absolute"); c.label(sink, "sink");
}
int main(int argc, char** argv) {
  pbt::Suite s("C30", "the text left visible pixels (outlines: has a figure)", argc, argv);
  s.add("exact", exact, {.quick = 40000, .thorough = 900000, .chunk = 50});
  s.add("close", approximate, {.quick = 30000, .thorough = 600000, .chunk = 50});
  s.add("absolute", absolute, {.quick = 3000, .thorough = 40000, .chunk = 50});
  s.add("outlines", run_outlines, {.quick = 30000, .thorough = 600000, .chunk = 100});
  return s.run();
}
