// C27: fonts synthesised from a model are read back exactly as the model defines.
#include "fontgen.h"
#include "cffgen.h"
using namespace fg;

struct Loaded { std::unique_ptr<uint8_t[]> mem; BLFontData data; BLFontFace face; };
static void load(Case& c, Font& f, Loaded& l) {
  assemble(c, f); l.mem.reset(new uint8_t[f.bytes.size()]); memcpy(l.mem.get(), f.bytes.data(), f.bytes.size()); if (const char* p = getenv("C27_DUMP")) { FILE* o = fopen(p, "wb"); fwrite(f.bytes.data(), 1, f.bytes.size(), o); fclose(o); }
  REQUIRE(c, l.data.create_from_data(l.mem.get(), f.bytes.size()) == BL_SUCCESS, "create_from_data failed"); REQUIRE(c, l.data.face_count() == 1, "face count is %u", l.data.face_count()); BLResult r = l.face.create_from_data(l.data, 0); REQUIRE(c, r == BL_SUCCESS, "face wasn't created: %u", unsigned(r));
}
static std::string pick_name(const Font& f, std::initializer_list<int> ids) { for (int id : ids) for (auto& n : f.names) if (n.id == id) return n.text; return ""; }

static void tables(Case& c) {
  Font f; model(c, f, 12, true); Loaded l; c.note("upem %d glyphs %zu cmap format %d symbol %d loca %d long metrics %d OS/2 %d v%d sel %X", f.upem, f.g.size(), f.cmap_format, f.symbol, f.loca, f.long_metrics, f.os2.present, f.os2.version, f.os2.sel); load(c, f, l); const Os2& o = f.os2;
  BLFontFace& a = l.face; REQUIRE(c, a.glyph_count() == f.g.size() && a.units_per_em() == f.upem && a.face_type() == BL_FONT_FACE_TYPE_OPENTYPE && a.outline_type() == BL_FONT_OUTLINE_TYPE_TRUETYPE && a.face_info().revision == f.rev, "glyph count, units per em or revision is wrong");
  // Names: typographic names are preferred over the basic ones.
  std::string fam = pick_name(f, {16, 1, 21}), sub = pick_name(f, {17, 2, 22}); auto eq = [&](const BLString& s, const std::string& t) { return s.size() == t.size() && !memcmp(s.data(), t.data(), t.size()); }; REQUIRE(c, eq(a.full_name(), pick_name(f, {4})), "full name is '%s' instead of '%s'", a.full_name().data(), pick_name(f, {4}).c_str()); REQUIRE(c, eq(a.post_script_name(), pick_name(f, {6})), "PostScript name is '%s'", a.post_script_name().data());
  bool redundant = fam.size() >= sub.size() && fam.compare(fam.size() - sub.size(), sub.size(), sub) == 0; if (!redundant) REQUIRE(c, eq(a.family_name(), fam) && eq(a.subfamily_name(), sub), "family '%s' '%s' instead of '%s' '%s'", a.family_name().data(), a.subfamily_name().data(), fam.c_str(), sub.c_str());
  // Metrics.
  BLFontDesignMetrics dm = a.design_metrics(); bool typo = o.present && (o.sel & 0x80); int asc = typo ? o.typo_asc : f.asc, desc = std::abs(typo ? o.typo_desc : f.desc), gap = typo ? o.typo_gap : f.gap; REQUIRE(c, dm.units_per_em == f.upem && dm.lowest_ppem == f.lowest && dm.ascent == asc && dm.descent == desc && dm.line_gap == gap && dm.h_max_advance == f.max_adv && dm.h_min_lsb == f.min_lsb && dm.h_min_tsb == f.min_rsb, "design metrics: ascent %d descent %d gap %d, expected %d %d %d", dm.ascent, dm.descent, dm.line_gap, asc, desc, gap);
  REQUIRE(c, dm.glyph_bounding_box == BLBoxI(f.head_bb[0], -f.head_bb[3], f.head_bb[2], -f.head_bb[1]), "bounding box"); if (f.has_post) REQUIRE(c, dm.underline_thickness == f.post_thick && dm.underline_position == -(f.post_pos + f.post_thick), "underline"); else REQUIRE(c, dm.underline_thickness == 0 && dm.underline_position == 0, "underline without post");
  if (o.present) REQUIRE(c, dm.strikethrough_thickness == o.so_size && dm.strikethrough_position == -(o.so_pos + o.so_size), "strikethrough"); bool v2 = o.present && o.version >= 2; REQUIRE(c, dm.x_height == (v2 ? o.xh : 0) && dm.cap_height == (v2 ? o.cap : 0), "x-height %d cap-height %d", dm.x_height, dm.cap_height);
  if (o.present) { int w = o.weight >= 1 && o.weight <= 9 ? o.weight * 100 : o.weight ? o.weight : 400, s = o.width ? o.width : 5; REQUIRE(c, int(a.weight()) == w && int(a.stretch()) == s && a.style() == (o.sel & 1 ? BL_FONT_STYLE_ITALIC : o.sel & 0x200 ? BL_FONT_STYLE_OBLIQUE : BL_FONT_STYLE_NORMAL), "weight %u stretch %u style %u", unsigned(a.weight()), unsigned(a.stretch()), unsigned(a.style())); BLFontPanoseInfo p = a.panose_info(); REQUIRE(c, !memcmp(&p, o.panose, 10), "panose"); BLFontCoverageInfo ci = a.coverage_info(); for (int i = 0; i < 4; i++) REQUIRE(c, ci.data[i] == o.cov[i], "coverage bits"); }
  REQUIRE(c, a.has_typographic_metrics() == typo && a.is_symbol_font() == f.symbol && a.has_char_to_glyph_mapping() && a.has_baseline_y_at_0() == ((f.head_flags & 1) != 0) && a.has_lsb_point_x_at_0() == ((f.head_flags & 2) != 0), "face flags %X", unsigned(a.face_flags()));
  // Scaled metrics.
  float size = float(c.pickl<double>({12, 0.5, 1000, 33.3, 1e-3})); BLFont font; REQUIRE(c, font.create_from_face(a, size) == BL_SUCCESS, "font wasn't created"); BLFontMetrics m = font.metrics(); double k = double(size) / f.upem; auto near = [&](float v, double w) { return fabs(v - w) <= 1e-6 * fabs(w) + 1e-12; };
  REQUIRE(c, m.size == size && font.size() == size && near(m.ascent, asc * k) && near(m.descent, desc * k) && near(m.line_gap, gap * k) && near(m.x_height, dm.x_height * k) && near(m.cap_height, dm.cap_height * k) && near(m.x_min, f.head_bb[0] * k) && near(m.x_max, f.head_bb[2] * k) && near(m.underline_thickness, dm.underline_thickness * k) && near(m.underline_position, dm.underline_position * k) && near(m.strikethrough_position, dm.strikethrough_position * k), "scaled metrics");
  REQUIRE(c, font.weight() == a.weight() && font.stretch() == a.stretch() && font.style() == a.style(), "font reports weight %u stretch %u style %u, the face %u %u %u", unsigned(font.weight()), unsigned(font.stretch()), unsigned(font.style()), unsigned(a.weight()), unsigned(a.stretch()), unsigned(a.style()));
  // Character mapping.
  std::vector<uint32_t> text; int n = int(c.range(1, 80)); auto it = f.cmap.begin(); for (int i = 0; i < n; i++) { uint32_t u; switch (c.weighted({5, 3, 2})) { case 0: it = f.cmap.begin(); std::advance(it, c.below(uint32_t(f.cmap.size()))); u = it->first; break; case 1: it = f.cmap.begin(); std::advance(it, c.below(uint32_t(f.cmap.size()))); u = it->first + c.range(0, 6) - 3; break; default: u = c.pickl<uint32_t>({0, 0x20, 65, 0xFF, 0x100, 0xFFFE, 0xFFFF, 0x10000, 0x10041, 0x10FFFF, 0x20020}); } if (u > 0x10FFFF || (u >= 0xD800 && u < 0xE000)) u = 0; text.push_back(u); }
  BLGlyphBuffer gb; gb.set_utf32_text(text.data(), text.size()); BLGlyphMappingState st; REQUIRE(c, font.map_text_to_glyphs(gb, st) == BL_SUCCESS, "map_text_to_glyphs failed"); size_t undef = 0, first = SIZE_MAX; REQUIRE(c, gb.size() == text.size(), "size changed"); for (size_t i = 0; i < text.size(); i++) { auto e = f.cmap.find(text[i]); uint32_t want = e == f.cmap.end() ? 0 : e->second; if (!want) { undef++; if (first == SIZE_MAX) first = i; } REQUIRE(c, gb.content()[i] == want, "U+%04X maps to %u instead of %u (format %d)", text[i], gb.content()[i], want, f.cmap_format); }
  REQUIRE(c, st.glyph_count == text.size() && st.undefined_count == undef && st.undefined_first == first, "mapping state: %zu undefined, first %zu; expected %zu, %zu", st.undefined_count, st.undefined_first, undef, first);
  BLBitSet cov; REQUIRE(c, a.get_character_coverage(&cov) == BL_SUCCESS, "get_character_coverage failed"); for (auto& e : f.cmap) REQUIRE(c, cov.has_bit(e.first), "U+%04X isn't covered", e.first); if (f.cmap_format != 4) REQUIRE(c, cov.cardinality() == f.cmap.size(), "%u characters covered instead of %zu", cov.cardinality(), f.cmap.size()); else for (uint32_t u : text) if (cov.has_bit(u) && !f.cmap.count(u)) { auto e = f.cmap.lower_bound(u); REQUIRE(c, e != f.cmap.end() && e != f.cmap.begin() && e->first - std::prev(e)->first <= 3, "U+%04X is covered but not mapped", u); }
  // Advances and bounds.
  std::vector<uint32_t> ids; for (int i = 0; i < 20; i++) ids.push_back(c.below(uint32_t(f.g.size()))); std::vector<BLGlyphPlacement> pl(20); std::vector<BLBoxI> bx(20); REQUIRE(c, font.get_glyph_advances(ids.data(), 4, pl.data(), 20) == BL_SUCCESS && font.get_glyph_bounds(ids.data(), 4, bx.data(), 20) == BL_SUCCESS, "advances or bounds failed");
  for (size_t i = 0; i < 20; i++) { const Glyph& g = f.g[ids[i]]; REQUIRE(c, pl[i].advance == BLPointI(g.adv, 0) && pl[i].placement == BLPointI(0, 0), "advance of glyph %u is %d instead of %d", ids[i], pl[i].advance.x, g.adv); REQUIRE(c, bx[i] == BLBoxI(g.bb[0], -g.bb[3], g.bb[2], -g.bb[1]), "bounds of glyph %u", ids[i]); }
  // Tables are accessible as stored.
  BLFontTable t[2]; BLTag tags[2] = {BL_MAKE_TAG('c', 'm', 'a', 'p'), BL_MAKE_TAG('z', 'z', 'z', 'z')}; REQUIRE(c, l.data.get_tables(0, t, tags, 2) == 1 && t[1].size == 0 && t[0].data > l.mem.get() && t[0].data + t[0].size <= l.mem.get() + f.bytes.size(), "get_tables"); BLArray<BLTag> tt; REQUIRE(c, l.data.get_table_tags(0, tt) == BL_SUCCESS && tt.size() == size_t(f.bytes[5]), "get_table_tags");
  c.label(f.cmap_format == 4, "format 4"); c.label(f.cmap_format == 12, "format 12"); c.label(f.cmap_format == 6 || f.cmap_format == 10, "format 6/10"); c.label(f.cmap_format == 13, "format 13"); c.label(f.cmap_format == 0, "format 0"); c.nontrivial(undef < text.size());
}

struct RSeg { double x0, y0, cx, cy, x1, y1; bool q; };
typedef std::vector<std::vector<RSeg>> Figs;
static Figs figs_of_model(const std::vector<Seg>& s, const BLMatrix2D& m, double eps) { Figs r; double sx = 0, sy = 0, x = 0, y = 0; auto M = [&](double a, double b) { return m.map_point(BLPoint(a, b)); }; auto line = [&](double nx, double ny) { if (std::hypot(nx - x, ny - y) > eps) r.back().push_back({x, y, 0, 0, nx, ny, false}); x = nx; y = ny; }; for (auto& k : s) { BLPoint p = M(k.x[0], k.y[0]), q = M(k.x[1], k.y[1]); if (k.k == 'M') { r.emplace_back(); x = sx = p.x; y = sy = p.y; } else if (k.k == 'L') line(p.x, p.y); else if (k.k == 'Q') { r.back().push_back({x, y, p.x, p.y, q.x, q.y, true}); x = q.x; y = q.y; } else line(sx, sy); } return r; }
static bool figs_of_path(const BLPath& p, Figs& r, double eps) { double sx = 0, sy = 0, x = 0, y = 0; BLPathView v = p.view(); bool open = false; auto line = [&](double nx, double ny) { if (std::hypot(nx - x, ny - y) > eps) r.back().push_back({x, y, 0, 0, nx, ny, false}); x = nx; y = ny; }; for (size_t i = 0; i < v.size; i++) { BLPoint a = v.vertex_data[i]; switch (v.command_data[i]) { case BL_PATH_CMD_MOVE: if (open) { if (r.back().empty()) r.pop_back(); else return false; } r.emplace_back(); open = true; x = sx = a.x; y = sy = a.y; break; case BL_PATH_CMD_ON: if (!open) return false; line(a.x, a.y); break; case BL_PATH_CMD_QUAD: { if (!open || i + 1 >= v.size || v.command_data[i + 1] != BL_PATH_CMD_ON) return false; BLPoint b = v.vertex_data[++i]; r.back().push_back({x, y, a.x, a.y, b.x, b.y, true}); x = b.x; y = b.y; break; } case BL_PATH_CMD_CLOSE: if (!open) return false; line(sx, sy); open = false; break; default: return false; } } if (open && !r.empty() && r.back().empty()) r.pop_back(); else if (open) return false; return true; }
static bool same_fig(const std::vector<RSeg>& a, const std::vector<RSeg>& b, double e) { if (a.size() != b.size()) return false; if (a.empty()) return true; for (size_t r = 0; r < b.size(); r++) { bool ok = true; for (size_t i = 0; i < a.size() && ok; i++) { const RSeg& p = a[i]; const RSeg& q = b[(i + r) % b.size()]; ok = p.q == q.q && std::hypot(p.x0 - q.x0, p.y0 - q.y0) <= e && std::hypot(p.x1 - q.x1, p.y1 - q.y1) <= e && (!p.q || std::hypot(p.cx - q.cx, p.cy - q.cy) <= e); } if (ok) return true; } return false; }

static void outlines(Case& c) {
  Font f; model(c, f, 10, false); Loaded l; c.note("upem %d glyphs %zu loca %d", f.upem, f.g.size(), f.loca); load(c, f, l); float size = float(c.pickl<double>({double(f.upem), 16, 1, 300, 7.25})); BLFont font; font.create_from_face(l.face, size); bool nt = false, offstart = false, comp = false;
  for (size_t i = 0; i < f.g.size(); i++) {
    BLMatrix2D m(1, 0, 0, 1, 0, 0); bool ident = c.coin(); if (!ident) m = BLMatrix2D(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-100, 100), c.real(-100, 100)); BLPath p; bool pre = c.chance(1, 6); if (pre) { p.move_to(1, 2); p.line_to(3, 4); p.close(); } BLResult r = ident && c.coin() ? font.get_glyph_outlines(BLGlyphId(i), p) : font.get_glyph_outlines(BLGlyphId(i), m, p);
    REQUIRE(c, r == BL_SUCCESS, "get_glyph_outlines(%zu) failed: %u", i, unsigned(r)); if (pre) { REQUIRE(c, p.size() >= 3 && p.vertex_data()[1] == BLPoint(3, 4), "outline replaced the content of the path"); BLPath q; p.remove_range(BLRange{0, 3}); }
    double k = double(size) / f.upem; BLMatrix2D t(k, 0, 0, -k, 0, 0); BLMatrix2D full; full.reset(t.m00 * m.m00 + t.m01 * m.m10, t.m00 * m.m01 + t.m01 * m.m11, t.m10 * m.m00 + t.m11 * m.m10, t.m10 * m.m01 + t.m11 * m.m11, m.m20, m.m21); std::vector<Seg> s; outline(f, int(i), Mat(), s); double scale = 1; for (auto& g : s) { BLPoint q = full.map_point(BLPoint(g.x[0], g.y[0])); scale = std::max(scale, std::max(fabs(q.x), fabs(q.y))); } double eps = 1e-9 * scale; Figs want = figs_of_model(s, full, eps), got; REQUIRE(c, figs_of_path(p, got, eps), "outline of glyph %zu isn't made of closed quadratic figures", i);
    auto strip = [](Figs& x) { x.erase(std::remove_if(x.begin(), x.end(), [](const std::vector<RSeg>& v) { return v.empty(); }), x.end()); }; strip(want); strip(got); REQUIRE(c, want.size() == got.size(), "glyph %zu has %zu figures instead of %zu", i, got.size(), want.size());
    for (size_t j = 0; j < want.size(); j++) if (!same_fig(want[j], got[j], 1e-7 * scale)) { std::string d; for (auto& q : got[j]) d += pbt::fmt("%s(%.3f,%.3f %.3f,%.3f %.3f,%.3f) ", q.q ? "Q" : "L", q.x0, q.y0, q.q ? q.cx : 0.0, q.q ? q.cy : 0.0, q.x1, q.y1); d += "expected: "; for (auto& q : want[j]) d += pbt::fmt("%s(%.3f,%.3f %.3f,%.3f %.3f,%.3f) ", q.q ? "Q" : "L", q.x0, q.y0, q.q ? q.cx : 0.0, q.q ? q.cy : 0.0, q.x1, q.y1); std::string src; if (f.g[i].comps.empty()) for (auto& pt : f.g[i].contours[j < f.g[i].contours.size() ? j : 0]) src += pbt::fmt("%s(%d,%d) ", pt.on ? "on" : "off", pt.x, pt.y); REQUIRE(c, false, "%s", pbt::fmt("figure %zu of glyph %zu differs: %s; font points: %s", j, i, d.substr(0, 900).c_str(), src.substr(0, 500).c_str()).c_str()); }
    nt |= !want.empty(); comp |= !f.g[i].comps.empty(); for (auto& v : f.g[i].contours) offstart |= !v[0].on;
  }
  BLPath p; REQUIRE(c, font.get_glyph_outlines(BLGlyphId(f.g.size() + c.below(5)), p) != BL_SUCCESS && p.is_empty(), "a glyph out of range has an outline"); c.nontrivial(nt); c.label(comp, "composite"); c.label(offstart, "starts off-curve");
}

// Exact bounds of a drawing (only of its figures).
static bool draw_bounds(const cffg::Drawing& d, double bb[4]) {
  bool any = false; double x = 0, y = 0; auto add = [&](double a, double b) { if (!any) { bb[0] = bb[2] = a; bb[1] = bb[3] = b; any = true; } bb[0] = std::min(bb[0], a); bb[1] = std::min(bb[1], b); bb[2] = std::max(bb[2], a); bb[3] = std::max(bb[3], b); };
  for (auto& s : d) { if (s.k == 'Z') continue; if (s.k == 'C') { double p[2][4] = {{x, s.x[0], s.x[1], s.x[2]}, {y, s.y[0], s.y[1], s.y[2]}}; for (int k = 0; k < 2; k++) { double a = -p[k][0] + 3 * p[k][1] - 3 * p[k][2] + p[k][3], b = 2 * (p[k][0] - 2 * p[k][1] + p[k][2]), e = p[k][1] - p[k][0]; double t[2]; int nt = 0; if (fabs(a) * 3 < 1e-9) { if (b != 0) t[nt++] = -e / b; } else { double q = b * b - 4 * a * e; if (q >= 0) { t[nt++] = (-b + sqrt(q)) / (2 * a); t[nt++] = (-b - sqrt(q)) / (2 * a); } } for (int i = 0; i < nt; i++) if (t[i] > 0 && t[i] < 1) { double u = 1 - t[i], v = t[i]; add(u * u * u * p[0][0] + 3 * u * u * v * p[0][1] + 3 * u * v * v * p[0][2] + v * v * v * p[0][3], u * u * u * p[1][0] + 3 * u * u * v * p[1][1] + 3 * u * v * v * p[1][2] + v * v * v * p[1][3]); } } x = s.x[2]; y = s.y[2]; } else { x = s.x[0]; y = s.y[0]; } add(x, y); }
  return any;
}

static void cff(Case& c) {
  Font f; model(c, f, 9, true); cffg::Table t; cffg::generate(c, t, f.g.size(), c.chance(2, 3)); f.extra["CFF "] = cffg::assemble(c, t); Loaded l; c.note("upem %d glyphs %zu cid %d operators %u calls %u computed %u subroutine classes %u", f.upem, f.g.size(), t.cid, t.ops, t.calls, t.arith, t.global.cls); load(c, f, l);
  REQUIRE(c, l.face.outline_type() == BL_FONT_OUTLINE_TYPE_CFF && l.face.glyph_count() == f.g.size(), "outline type or glyph count is wrong"); float size = float(c.pickl<double>({double(f.upem), 16, 1, 300, 7.25})); BLFont font; REQUIRE(c, font.create_from_face(l.face, size) == BL_SUCCESS, "font wasn't created"); double k = double(size) / f.upem;
  for (size_t i = 0; i < f.g.size(); i++) {
    BLMatrix2D m(1, 0, 0, 1, 0, 0); bool ident = c.coin(); if (!ident) m = BLMatrix2D(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-100, 100), c.real(-100, 100)); BLPath p; BLResult r = ident && c.coin() ? font.get_glyph_outlines(BLGlyphId(i), p) : font.get_glyph_outlines(BLGlyphId(i), m, p); REQUIRE(c, r == BL_SUCCESS, "get_glyph_outlines(%zu) failed: %u", i, unsigned(r));
    const cffg::Drawing& d = t.d[i]; size_t at = 0; BLPathView v = p.view(); double scale = 1; for (auto& s : d) for (int j = 0; j < (s.k == 'C' ? 3 : 1); j++) scale = std::max(scale, fabs(s.x[j]) + fabs(s.y[j])); double eps = 1e-9 * (scale * k * 4 + 200);
    for (size_t q = 0; q < d.size(); q++) { const cffg::CSeg& s = d[q]; int n = s.k == 'C' ? 3 : 1; REQUIRE(c, at + size_t(n) <= v.size, "outline of glyph %zu ends at segment %zu of %zu", i, q, d.size()); for (int j = 0; j < n; j++) { uint8_t want = s.k == 'Z' ? BL_PATH_CMD_CLOSE : s.k == 'M' ? BL_PATH_CMD_MOVE : s.k == 'L' || j == 2 ? BL_PATH_CMD_ON : BL_PATH_CMD_CUBIC; REQUIRE(c, v.command_data[at + size_t(j)] == want, "segment %zu ('%c') of glyph %zu has command %u", q, s.k, i, v.command_data[at + size_t(j)]); if (s.k != 'Z') { BLPoint e = m.map_point(BLPoint(s.x[j] * k, -s.y[j] * k)), g = v.vertex_data[at + size_t(j)]; REQUIRE(c, fabs(e.x - g.x) <= eps && fabs(e.y - g.y) <= eps, "point %d of segment %zu ('%c') of glyph %zu is (%.6f %.6f) instead of (%.6f %.6f)", j, q, s.k, i, g.x, g.y, e.x, e.y); } } at += size_t(n); }
    REQUIRE(c, at == v.size, "outline of glyph %zu has %zu vertices more than expected", i, v.size - at);
    uint32_t id = uint32_t(i); BLBoxI bx; REQUIRE(c, font.get_glyph_bounds(&id, 4, &bx, 1) == BL_SUCCESS, "get_glyph_bounds failed"); double bb[4] = {0, 0, 0, 0}; draw_bounds(d, bb); double e = 1e-6; auto fl = [&](int got, double x) { return got == int(floor(x - e)) || got == int(floor(x + e)); }; auto ce = [&](int got, double x) { return got == int(ceil(x - e)) || got == int(ceil(x + e)); };
    REQUIRE(c, fl(bx.x0, bb[0]) && fl(bx.y0, -bb[3]) && ce(bx.x1, bb[2]) && ce(bx.y1, -bb[1]), "bounds of glyph %zu are (%d %d %d %d), its outline spans x %.4f..%.4f, y %.4f..%.4f", i, bx.x0, bx.y0, bx.x1, bx.y1, bb[0], bb[2], bb[1], bb[3]);
  }
  c.nontrivial(t.ops > 0); c.label(t.calls > 0, "subroutines"); c.label(t.cid, "cid"); c.label(t.arith > 0, "computed operands"); c.label(t.global.cls > 0, "many subroutines");
}

int main(int argc, char** argv) {
  pbt::Suite s("C27", "tables: at least one character of the text is mapped; outlines: at least one glyph has a figure; cff: at least one drawing operator", argc, argv);
  s.add("tables", tables, {.quick = 60000, .thorough = 1500000});
  s.add("cff", cff, {.quick = 60000, .thorough = 2000000});
  s.add("outlines", outlines, {.quick = 80000, .thorough = 600000});
  s.assume("fonts are well formed; underline and strikethrough positions follow the library's convention -(position + thickness)");
  return s.run();
}
