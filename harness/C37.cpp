// C37: glyph buffers and text measurement. A history of operations over a few glyph buffers and fonts is compared with a
// model whose steps are either computed directly or performed on a fresh buffer, so nothing may depend on the history.
#include "layoutgen.h"
#include "cffgen.h"
#include <memory>
using namespace fg;
#ifndef RES
#define RES "/blend2d-testing/resources/ABeeZee-Regular.ttf"
#endif
enum Kind { kPlain, kLayout, kFile, kNone };
struct F { Font f; BLFontData data; BLFontFace face; Kind kind = kPlain; std::vector<uint32_t> chars; };
static void font_of(Case& c, F& x, Kind kind) {
  x.kind = kind; if (kind == kNone) { x.chars = {0x20, 0x41}; return; }
  if (kind == kFile) { const char* r = getenv("VERIF_REPO"); REQUIRE(c, x.face.create_from_file((std::string(r ? r : "/repo") + RES).c_str()) == BL_SUCCESS, "the font file was not loaded"); for (uint32_t u = 32; u < 127; u++) x.chars.push_back(u); for (uint32_t u : {0xE9u, 0xFCu, 0x20ACu, 0x4E00u, 0x1F600u}) x.chars.push_back(u); return; }
  model(c, x.f, 10, false); int ng = int(x.f.g.size()); if (kind == kLayout) { if (c.chance(3, 4)) x.f.extra["GSUB"] = lg::table(c, lg::make(c, false, ng, false)); if (c.chance(1, 2)) x.f.extra["GPOS"] = lg::table(c, lg::make(c, true, ng, false)); if (c.chance(1, 2)) x.f.extra["kern"] = lg::kern_table(c, lg::make_kern(c, ng)); }
  x.f.cmap.clear(); x.f.cmap_format = 12; x.f.symbol = false; uint32_t at = 0x20; for (int i = 1; i < ng; i++) { x.f.cmap[at] = uint32_t(i); x.chars.push_back(at); at += c.chance(1, 4) ? c.pickl<uint32_t>({0x60, 0x3000, 0x10000}) : 1; if (at >= 0xD000 && at < 0xE000) at += 0x1000; } x.chars.push_back(0x1F600); x.chars.push_back(0x7F);
  assemble(c, x.f); REQUIRE(c, x.data.create_from_data(x.f.bytes.data(), x.f.bytes.size()) == BL_SUCCESS && x.face.create_from_data(x.data, 0) == BL_SUCCESS, "the font was not loaded"); }

static bool eq(const BLGlyphPlacement& a, const BLGlyphPlacement& b) { return a.placement == b.placement && a.advance == b.advance; }
struct Model {
  std::vector<uint32_t> id, at; bool text = false, invalid = false, undefined = false, placed = false; std::vector<BLGlyphPlacement> pl;
  void clear() { *this = Model(); }
  // State of a buffer that has the same content, but no history.
  void load(Case& c, BLGlyphBuffer& gb) const { if (text) REQUIRE(c, gb.set_utf32_text(id.data(), id.size()) == BL_SUCCESS, "set_utf32_text failed"); else REQUIRE(c, gb.set_glyphs(id.data(), id.size()) == BL_SUCCESS, "set_glyphs failed"); }
  void take(const BLGlyphBuffer& gb, bool replaced) { std::vector<uint32_t> n, a; for (size_t i = 0; i < gb.size(); i++) { n.push_back(gb.content()[i]); uint32_t k = gb.info_data()[i].cluster; a.push_back(replaced ? (k < at.size() ? at[k] : 0xBAD00BADu) : k); } id = n; at = a; text = gb.has_text(); placed = gb.glyph_run().placement_type != BL_GLYPH_PLACEMENT_TYPE_NONE; pl.clear(); if (placed) pl.assign(gb.placement_data(), gb.placement_data() + gb.size()); } };
static void check(Case& c, const BLGlyphBuffer& gb, const Model& m, const char* op) {
  REQUIRE(c, gb.size() == m.id.size() && gb.is_empty() == m.id.empty() && bool(gb) == !m.id.empty(), "%s: %zu entries instead of %zu", op, gb.size(), m.id.size()); const BLGlyphRun& r = gb.glyph_run();
  for (size_t i = 0; i < m.id.size(); i++) REQUIRE(c, gb.content()[i] == m.id[i] && gb.info_data()[i].cluster == m.at[i], "%s: entry %zu is %u (cluster %u) instead of %u (cluster %u)", op, i, gb.content()[i], gb.info_data()[i].cluster, m.id[i], m.at[i]);
  if (!m.id.empty()) { REQUIRE(c, gb.has_text() == m.text && gb.has_glyphs() == !m.text, "%s: has_text() is %d instead of %d", op, gb.has_text(), m.text); REQUIRE(c, gb.has_invalid_chars() == m.invalid && gb.has_undefined_chars() == m.undefined, "%s: invalid %d instead of %d, undefined %d instead of %d", op, gb.has_invalid_chars(), m.invalid, gb.has_undefined_chars(), m.undefined); }
  REQUIRE(c, r.size == gb.size() && (!r.size || (r.glyph_data == gb.content() && r.glyph_advance == 4)), "%s: the run isn't the content", op); REQUIRE(c, !m.placed || r.placement_type == BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET, "%s: placement type %d after positioning", op, r.placement_type); REQUIRE(c, m.placed || r.placement_type == BL_GLYPH_PLACEMENT_TYPE_NONE, "%s: placement type %d of glyphs, which have no positions", op, r.placement_type);
  if (m.placed && !m.id.empty()) { REQUIRE(c, r.placement_data == gb.placement_data() && gb.placement_data() != nullptr, "%s: the run has other placement data", op); for (size_t i = 0; i < m.id.size(); i++) { const BLGlyphPlacement &a = gb.placement_data()[i], &b = m.pl[i]; REQUIRE(c, eq(a, b), "%s: placement %zu is %d,%d +%d,%d instead of %d,%d +%d,%d", op, i, a.placement.x, a.placement.y, a.advance.x, a.advance.y, b.placement.x, b.placement.y, b.advance.x, b.advance.y); } }
  BLGlyphRunIterator it(r); size_t k = 0; for (; !it.at_end(); it.advance(), k++) { REQUIRE(c, it.index == k && it.glyph_id() == m.id[k], "%s: the iterator is at %zu glyph %u instead of %zu glyph %u", op, it.index, it.glyph_id(), k, m.id[k]); if (m.placed) REQUIRE(c, eq(it.placement<BLGlyphPlacement>(), m.pl[k]), "%s: the iterator has another placement", op); } REQUIRE(c, k == m.id.size(), "%s: the iterator saw %zu glyphs", op, k); }
static size_t length(Case& c) { switch (c.below(6)) { case 0: return c.below(3); case 1: return size_t(c.range(250, 330)); case 2: return size_t(c.chance(1, 8) ? c.range(500, 1500) : c.range(20, 70)); default: return size_t(c.range(1, 12)); } }
// Bounding boxes and bearings come from the first and the last glyph, advances from all.
static void metrics(Case& c, const BLFont& font, const Model& m, const BLTextMetrics& t) {
  if (m.id.empty()) { REQUIRE(c, t.advance == BLPoint(0, 0) && t.bounding_box == BLBox(0, 0, 0, 0) && t.leading_bearing == BLPoint(0, 0) && t.trailing_bearing == BLPoint(0, 0), "metrics of no text: advance %g,%g", t.advance.x, t.advance.y); return; }
  double ax = 0, ay = 0; for (auto& p : m.pl) { ax += p.advance.x; ay += p.advance.y; } BLBoxI b[2]; for (int k = 0; k < 2; k++) REQUIRE(c, font.get_glyph_bounds(k ? &m.id.back() : &m.id[0], 4, &b[k], 1) == BL_SUCCESS, "get_glyph_bounds failed"); BLFontMatrix f = font.matrix(); double lead = b[0].x0 * f.m00, trail = (double(m.pl.back().advance.x) - b[1].x1) * f.m00, sx = ax * f.m00, sy = ay * f.m11; auto near = [&](double a, double w) { return std::fabs(a - w) <= 1e-9 * (1 + std::fabs(sx) + std::fabs(w)); };
  REQUIRE(c, near(t.advance.x, sx) && near(t.advance.y, sy), "the text advance is %g,%g instead of %g,%g", t.advance.x, t.advance.y, sx, sy); REQUIRE(c, near(t.leading_bearing.x, lead) && t.leading_bearing.y == 0 && near(t.trailing_bearing.x, trail) && t.trailing_bearing.y == 0, "bearings are %g and %g instead of %g and %g", t.leading_bearing.x, t.trailing_bearing.x, lead, trail);
  REQUIRE(c, near(t.bounding_box.x0, lead) && near(t.bounding_box.x1, sx - trail), "the bounding box is %g to %g instead of %g to %g", t.bounding_box.x0, t.bounding_box.x1, lead, sx - trail); }

static void history(Case& c) {
  static const char* kinds[] = {"plain", "layout", "file", "none"}; F x[2]; BLFont font[2]; for (int k = 0; k < 2; k++) { Kind kind = Kind(c.weighted({4, 4, 1, 1})); font_of(c, x[k], kind); float size = float(c.pickl<double>({12, 20, 33.5, 1000})); if (kind != kNone) REQUIRE(c, font[k].create_from_face(x[k].face, size) == BL_SUCCESS, "font"); c.note("font %d: %s %g", k, kinds[kind], double(size)); }
  std::unique_ptr<BLGlyphBuffer> gb[2] = {std::make_unique<BLGlyphBuffer>(), std::make_unique<BLGlyphBuffer>()}; Model m[2]; int ops = int(c.range(4, 24)), shaped = 0, moved = 0, none = 0, measured = 0;
  for (int i = 0; i < ops; i++) {
    int w = c.chance(1, 4), z = c.coin(); BLGlyphBuffer& g = *gb[w]; Model& a = m[w]; F& fx = x[z]; const BLFont& fn = font[z]; bool nf = fx.kind == kNone, sync = true; std::string op; uint32_t ng = nf ? 5 : fx.face.glyph_count();
    switch (c.weighted({5, 3, 2, 1, 1, 1, 6, 3, 4, 1, 3, 3, 4, 2})) {
      case 0: { size_t n = length(c); a.clear(); std::vector<uint32_t> t; bool bad = c.chance(1, 10); for (size_t k = 0; k < n; k++) t.push_back(bad && c.chance(1, 5) ? 0x110000 + c.below(9) : fx.chars[c.below(uint32_t(fx.chars.size()))]); op = pbt::fmt("set_utf32_text(%zu)", n); REQUIRE(c, g.set_utf32_text(t.data(), n) == BL_SUCCESS, "%s failed", op.c_str()); for (size_t k = 0; k < n; k++) { a.id.push_back(t[k] > 0x10FFFF ? 0xFFFD : t[k]); a.at.push_back(uint32_t(k)); a.invalid |= t[k] > 0x10FFFF; } a.text = n > 0; break; }
      case 1: { size_t n = length(c); a.clear(); std::unique_ptr<uint32_t[]> t(new uint32_t[n]); for (size_t k = 0; k < n; k++) { t[k] = c.chance(1, 40) ? c.pickl<uint32_t>({ng, 0xFFFF, 0x10000, 0xFFFFFFFFu}) : c.below(ng); a.id.push_back(t[k]); a.at.push_back(uint32_t(k)); } op = pbt::fmt("set_glyphs(%zu)", n); REQUIRE(c, g.set_glyphs(t.get(), n) == BL_SUCCESS, "%s failed", op.c_str()); break; }
      case 2: { size_t n = std::min<size_t>(length(c), 400), is = c.coin() ? 2 : 4, st = is * size_t(c.range(1, 5)); bool back = c.chance(1, 4); a.clear(); std::vector<uint8_t> raw = c.bytes(n * st); size_t bytes = n ? (n - 1) * st + is : 0; std::unique_ptr<uint32_t[]> blk(new uint32_t[(bytes + 3) / 4]); uint8_t* p = reinterpret_cast<uint8_t*>(blk.get()); memset(p, 0xCC, bytes); for (size_t k = 0; k < n; k++) { uint32_t v = c.below(ng); uint8_t* q = p + (back ? n - 1 - k : k) * st; if (is == 2) { uint16_t s = uint16_t(v); memcpy(q, &s, 2); } else memcpy(q, &v, 4); a.id.push_back(is == 2 ? uint16_t(v) : v); a.at.push_back(uint32_t(k)); } op = pbt::fmt("set_glyphs_from_struct(%zu, size %zu, stride %s%zu)", n, is, back ? "-" : "", st); REQUIRE(c, g.set_glyphs_from_struct(back && n ? p + (n - 1) * st : p, n, is, back ? -intptr_t(st) : intptr_t(st)) == BL_SUCCESS, "%s failed", op.c_str()); break; }
      case 3: { op = "set_glyphs_from_struct(bad size)"; uint32_t t[4] = {1, 2, 3, 4}; REQUIRE(c, g.set_glyphs_from_struct(t, 2, c.pickl<size_t>({0, 1, 3, 8}), 4) == BL_ERROR_INVALID_VALUE, "a bad id size was accepted"); break; }
      case 4: op = "clear"; REQUIRE(c, g.clear() == BL_SUCCESS, "clear failed"); a.clear(); REQUIRE(c, g.flags() == 0, "flags %08x after clear", g.flags()); break;
      case 5: if (c.coin()) { op = "reset"; REQUIRE(c, g.reset() == BL_SUCCESS, "reset failed"); a.clear(); } else { op = "move"; gb[w] = std::make_unique<BLGlyphBuffer>(std::move(g)); moved++; } break;
      case 6: case 7: { // shape or map_text_to_glyphs.
        bool map = false; bool shape = c.chance(2, 3); map = !shape; op = pbt::fmt("%s(font %d)", shape ? "shape" : "map", z); BLGlyphMappingState st{}; size_t before = a.id.size(); BLResult r = shape ? fn.shape(g) : c.coin() ? fn.map_text_to_glyphs(g, st) : (st.glyph_count = SIZE_MAX, fn.map_text_to_glyphs(g)); if (a.id.empty()) { REQUIRE(c, r == BL_SUCCESS, "%s of an empty buffer: error %u", op.c_str(), unsigned(r)); break; } if (!a.text) { REQUIRE(c, r == BL_ERROR_INVALID_STATE, "%s of glyphs: result %u", op.c_str(), unsigned(r)); break; } if (nf) { REQUIRE(c, r == BL_ERROR_FONT_NOT_INITIALIZED, "%s with no font: result %u", op.c_str(), unsigned(r)); none++; break; }
        REQUIRE(c, r == BL_SUCCESS, "%s failed with %u", op.c_str(), unsigned(r)); std::vector<uint32_t> alone; size_t undef = 0, first = SIZE_MAX; for (size_t k = 0; k < before; k++) { BLGlyphBuffer one; REQUIRE(c, one.set_utf32_text(&a.id[k], 1) == BL_SUCCESS && fn.map_text_to_glyphs(one) == BL_SUCCESS && one.size() == 1, "mapping U+%X alone failed", a.id[k]); uint32_t got = one.content()[0]; if (fx.kind != kFile) { auto it = fx.f.cmap.find(a.id[k]); uint32_t want = it == fx.f.cmap.end() ? 0 : it->second; REQUIRE(c, got == want, "U+%X is mapped to glyph %u instead of %u", a.id[k], got, want); } alone.push_back(got); if (!got) { undef++; first = std::min(first, k); } if (before > 64 && k > 24 && fx.kind != kFile) { for (k++; k < before; k++) { auto it = fx.f.cmap.find(a.id[k]); uint32_t v = it == fx.f.cmap.end() ? 0 : it->second; alone.push_back(v); if (!v) { undef++; first = std::min(first, k); } } } }
        if (map && st.glyph_count != SIZE_MAX) REQUIRE(c, st.glyph_count == before && st.undefined_count == undef && st.undefined_first == first, "the mapping state is %zu glyphs, %zu undefined from %zu, instead of %zu, %zu from %zu", st.glyph_count, st.undefined_count, st.undefined_first, before, undef, first); a.undefined = undef > 0; a.text = false; if (map) { a.id = alone; break; }
        BLGlyphBuffer fresh; REQUIRE(c, fresh.set_utf32_text(a.id.data(), a.id.size()) == BL_SUCCESS && fn.shape(fresh) == BL_SUCCESS, "shaping a fresh buffer failed"); a.take(fresh, true); shaped++; if (fx.kind == kPlain) { REQUIRE(c, a.id == alone, "shaping without layout tables isn't the mapping of each character"); } break; }
      case 8: { op = pbt::fmt("position_glyphs(font %d)", z); BLResult r = fn.position_glyphs(g); if (a.id.empty()) { REQUIRE(c, r == BL_SUCCESS, "%s of an empty buffer: error %u", op.c_str(), unsigned(r)); break; } if (a.text) { REQUIRE(c, r == BL_ERROR_INVALID_STATE, "%s of text: result %u", op.c_str(), unsigned(r)); break; } if (nf) { REQUIRE(c, r == BL_ERROR_FONT_NOT_INITIALIZED, "%s with no font: result %u", op.c_str(), unsigned(r)); none++; break; } REQUIRE(c, r == BL_SUCCESS, "%s failed with %u", op.c_str(), unsigned(r)); if (a.placed) { std::vector<uint32_t> at = a.at, id = a.id; if (fx.kind == kPlain) break; a.take(g, false); REQUIRE(c, a.at == at && a.id == id && a.placed, "%s changed the glyphs", op.c_str()); break; } BLGlyphBuffer fresh; a.load(c, fresh); REQUIRE(c, fn.position_glyphs(fresh) == BL_SUCCESS, "positioning a fresh buffer failed"); a.take(fresh, true); shaped++;
        if (fx.kind == kPlain) for (size_t k = 0; k < a.id.size(); k++) { BLGlyphPlacement p{}; REQUIRE(c, fn.get_glyph_advances(&a.id[k], 4, &p, 1) == BL_SUCCESS && eq(p, a.pl[k]), "glyph %zu was positioned with advance %d instead of %d", k, a.pl[k].advance.x, p.advance.x); } break; }
      case 9: { op = "apply_kerning"; bool has = !nf && fx.kind == kLayout && fx.f.extra.count("kern"); if (!has && !a.id.empty()) { if (fx.kind == kFile) continue; BLResult r = fn.apply_kerning(g); REQUIRE(c, r != BL_SUCCESS, "apply_kerning with no kerning succeeded"); break; } BLResult r = fn.apply_kerning(g); if (a.id.empty()) { REQUIRE(c, r == BL_SUCCESS, "apply_kerning of an empty buffer: error %u", unsigned(r)); break; } if (!a.placed) { REQUIRE(c, r == BL_ERROR_INVALID_STATE, "apply_kerning without placements: result %u", unsigned(r)); break; } BLGlyphBuffer fresh; Model pure = a; pure.load(c, fresh); F& pf = fx; (void)pf; BLResult q = fn.position_glyphs(fresh); REQUIRE(c, q == BL_SUCCESS, "position"); memcpy(fresh.placement_data(), a.pl.data(), a.pl.size() * sizeof(BLGlyphPlacement)); BLResult rr = fn.apply_kerning(fresh); REQUIRE(c, r == rr, "apply_kerning returned %u instead of %u", unsigned(r), unsigned(rr)); a.take(fresh, true); break; }
      case 10: { // Substitution.
        BLBitArray plan; uint32_t bits[2] = {c.u32(), c.u32()}; plan.resize(64); plan.assign_words(bits, 2); op = pbt::fmt("apply_gsub(font %d)", z); BLGlyphBuffer fresh; bool inv = a.invalid, undef = a.undefined; if (a.text) continue; if (a.id.size() > 600) continue; BLResult r = fn.apply_gsub(g, plan); if (a.id.empty()) break; if (nf) { REQUIRE(c, r == BL_ERROR_FONT_NOT_INITIALIZED, "%s with no font: result %u", op.c_str(), unsigned(r)); none++; break; } a.load(c, fresh); BLResult rr = fn.apply_gsub(fresh, plan); REQUIRE(c, r == rr, "%s returned %u, but %u on a fresh buffer", op.c_str(), unsigned(r), unsigned(rr)); if (r != BL_SUCCESS && (fx.kind == kPlain || !fx.f.extra.count("GSUB"))) break; std::vector<uint32_t> oid = a.id; Model old = a; a.take(fresh, true); if (a.id == oid && g.glyph_run().placement_type) { a.placed = old.placed; a.pl = old.pl; } a.invalid = inv; a.undefined = undef; c.label(a.id != oid, "substituted"); break; }
      case 11: { BLBitArray plan; uint32_t bits[2] = {c.u32(), c.u32()}; plan.resize(64); plan.assign_words(bits, 2); op = pbt::fmt("apply_gpos(font %d)", z); BLResult r = fn.apply_gpos(g, plan); if (a.id.empty()) break; if (!a.placed) { REQUIRE(c, r != BL_SUCCESS, "apply_gpos without placements succeeded"); break; } if (nf) { none++; break; } BLGlyphBuffer fresh; a.load(c, fresh); REQUIRE(c, fn.position_glyphs(fresh) == BL_SUCCESS, "position"); memcpy(fresh.placement_data(), a.pl.data(), a.pl.size() * sizeof(BLGlyphPlacement)); BLResult rr = fn.apply_gpos(fresh, plan); REQUIRE(c, r == rr, "%s returned %u, but %u on a fresh buffer", op.c_str(), unsigned(r), unsigned(rr)); a.take(fresh, true); break; }
      case 12: { op = pbt::fmt("get_text_metrics(font %d)", z); BLTextMetrics t; memset(&t, 0x55, sizeof(t)); BLResult r = fn.get_text_metrics(g, t); bool was_text = a.text, was_placed = a.placed; if (!a.id.empty() && nf) { REQUIRE(c, r != BL_SUCCESS, "%s with no font succeeded", op.c_str()); none++; break; } if (!a.id.empty() && !was_text && !was_placed) { REQUIRE(c, r == BL_ERROR_INVALID_STATE, "%s of glyphs without positions: result %u", op.c_str(), unsigned(r)); break; } if (!a.id.empty() && was_placed && (a.id[0] >= ng || a.id.back() >= ng)) break; REQUIRE(c, r == BL_SUCCESS, "%s failed with %u", op.c_str(), unsigned(r)); if (was_text) { BLGlyphBuffer fresh; a.load(c, fresh); BLTextMetrics q; REQUIRE(c, fn.shape(fresh) == BL_SUCCESS && fn.get_text_metrics(fresh, q) == BL_SUCCESS && q.advance == t.advance, "measuring shaped text differs"); bool u = fresh.has_undefined_chars(); a.take(fresh, true); a.undefined = u; } metrics(c, fn, a, t); measured++; break; }
      default: { // Low-level queries with a stride.
        if (nf) continue; op = "bounds and advances"; size_t n = size_t(c.range(0, 12)), st = 4 * size_t(c.range(1, 4)); bool back = c.chance(1, 4); size_t total = n ? (n - 1) * st + 4 : 0; std::unique_ptr<uint32_t[]> blk(new uint32_t[total / 4 + (total == 0)]); uint8_t* p = reinterpret_cast<uint8_t*>(blk.get()); std::vector<uint32_t> id; for (size_t k = 0; k < n; k++) { id.push_back(c.below(ng)); memcpy(p + (back ? n - 1 - k : k) * st, &id[k], 4); } const uint32_t* q = reinterpret_cast<const uint32_t*>(back && n ? p + (n - 1) * st : p); intptr_t adv = back ? -intptr_t(st) : intptr_t(st); std::vector<BLBoxI> b(n); std::vector<BLGlyphPlacement> pl(n); REQUIRE(c, fn.get_glyph_bounds(q, adv, b.data(), n) == BL_SUCCESS && fn.get_glyph_advances(q, adv, pl.data(), n) == BL_SUCCESS, "%s failed", op.c_str());
        for (size_t k = 0; k < n; k++) { BLBoxI b1; BLGlyphPlacement p1; REQUIRE(c, fn.get_glyph_bounds(&id[k], 4, &b1, 1) == BL_SUCCESS && fn.get_glyph_advances(&id[k], 4, &p1, 1) == BL_SUCCESS, "%s failed", op.c_str()); REQUIRE(c, b1 == b[k] && eq(p1, pl[k]), "glyph %u measured alone differs", id[k]); if (fx.kind != kFile) REQUIRE(c, p1.advance.x == fx.f.g[id[k]].adv && p1.advance.y == 0 && p1.placement == BLPointI(0, 0), "glyph %u has advance %d instead of %d", id[k], p1.advance.x, fx.f.g[id[k]].adv); } sync = false; break; }
    }
    c.note("%d: %s -> %zu entries, text %d placed %d", w, op.c_str(), m[w].id.size(), m[w].text, m[w].placed); (void)sync; check(c, *gb[0], m[0], w ? "(other)" : op.c_str()); check(c, *gb[1], m[1], w ? op.c_str() : "(other)"); }
  c.nontrivial(shaped + measured > 0); c.label(shaped > 1, "shaped repeatedly"); c.label(measured > 0, "measured"); c.label(moved > 0, "moved"); c.label(none > 0, "no font"); }

// Measurement scales with the font size, adds up over a text without kerning, and encodings don't matter.
static void scaling(Case& c) {
  F x; font_of(c, x, Kind(c.weighted({4, 4, 1}))); double size = c.pickl<double>({7, 12, 16, 33.5, 100}), k = c.pickl<double>({2, 4, 0.5, 8}); BLFont a, b; REQUIRE(c, a.create_from_face(x.face, float(size)) == BL_SUCCESS && b.create_from_face(x.face, float(size * k)) == BL_SUCCESS, "font"); size_t n = length(c); std::vector<uint32_t> t; for (size_t i = 0; i < n; i++) t.push_back(x.chars[c.below(uint32_t(x.chars.size()))]); c.note("%zu characters, size %g, factor %g, upem %d", n, size, k, x.face.units_per_em());
  BLGlyphBuffer g[2]; BLTextMetrics m[2]; for (int i = 0; i < 2; i++) { REQUIRE(c, g[i].set_utf32_text(t.data(), n) == BL_SUCCESS, "set_text"); if (c.coin()) REQUIRE(c, (i ? b : a).shape(g[i]) == BL_SUCCESS, "shape"); REQUIRE(c, (i ? b : a).get_text_metrics(g[i], m[i]) == BL_SUCCESS, "get_text_metrics failed"); }
  auto near = [&](double u, double v) { return std::fabs(u - v) <= 1e-6 * (1 + std::fabs(v)); }; double p[] = {m[0].advance.x, m[0].advance.y, m[0].leading_bearing.x, m[0].trailing_bearing.x, m[0].bounding_box.x0, m[0].bounding_box.x1}, q[] = {m[1].advance.x, m[1].advance.y, m[1].leading_bearing.x, m[1].trailing_bearing.x, m[1].bounding_box.x0, m[1].bounding_box.x1}; for (int i = 0; i < 6; i++) REQUIRE(c, near(p[i] * k, q[i]), "value %d: %g at size %g, but %g at size %g", i, p[i], size, q[i], size * k);
  // Metrics measured with one size from glyphs shaped with another one.
  BLTextMetrics o; if (n) { REQUIRE(c, b.get_text_metrics(g[0], o) == BL_SUCCESS && near(o.advance.x, m[1].advance.x), "measuring a shaped buffer with another size: %g instead of %g", o.advance.x, m[1].advance.x); }
  if (x.kind == kPlain) { double sum = 0; for (uint32_t u : t) { BLGlyphBuffer one; BLTextMetrics z; REQUIRE(c, one.set_utf32_text(&u, 1) == BL_SUCCESS && a.get_text_metrics(one, z) == BL_SUCCESS, "one character"); sum += z.advance.x; } REQUIRE(c, near(m[0].advance.x, sum), "the advance is %g instead of the sum %g", m[0].advance.x, sum);
    for (int i = 0; i < 3 && n; i++) { uint32_t u = t[c.below(uint32_t(n))]; BLGlyphBuffer one; BLTextMetrics z; one.set_utf32_text(&u, 1); a.get_text_metrics(one, z); BLPath path; uint32_t id = one.content()[0]; REQUIRE(c, a.get_glyph_outlines(id, path) == BL_SUCCESS, "outline"); if (path.is_empty() || !x.f.g[id].comps.empty()) continue; BLBoxI gb; REQUIRE(c, a.get_glyph_bounds(&id, 4, &gb, 1) == BL_SUCCESS, "bounds"); REQUIRE(c, near(z.leading_bearing.x, gb.x0 * a.matrix().m00), "the leading bearing is %g instead of %g", z.leading_bearing.x, gb.x0 * a.matrix().m00); } }
  c.nontrivial(n > 1 && m[0].advance.x != 0); }
int main(int argc, char** argv) {
  pbt::Suite s("C37", "Non-trivial: something was shaped, positioned or measured.", argc, argv);
  s.add("history", history, {.quick = 30000, .thorough = 900000, .chunk = 100});
  s.add("scaling", scaling, {.quick = 12000, .thorough = 300000, .chunk = 100});
  return s.run();
}
