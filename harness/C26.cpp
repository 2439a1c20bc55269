// C26: fonts with arbitrary bytes never crash or hang the library.
#include "layoutgen.h"
#include "cffgen.h"
using namespace fg;
typedef std::vector<uint8_t> Bytes;
struct Rng { uint64_t s; explicit Rng(uint64_t v) : s(v | 1) {} uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ull; } };

static const Bytes& abeezee() { static Bytes b = [] { Bytes v; std::string p = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf"; if (FILE* f = fopen(p.c_str(), "rb")) { v.resize(1 << 20); v.resize(fread(v.data(), 1, v.size(), f)); fclose(f); } return v; }(); return b; }
static uint32_t be(const Bytes& b, size_t at, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (at + size_t(i) < b.size() ? b[at + size_t(i)] : 0); return v; }
struct Rec { size_t at, off, len; std::string tag; };
static std::vector<Rec> directory(const Bytes& b) { std::vector<Rec> r; size_t n = be(b, 4, 2); for (size_t i = 0; i < n && 12 + 16 * (i + 1) <= b.size(); i++) { Rec q; q.at = 12 + 16 * i; q.tag.assign(b.begin() + long(q.at), b.begin() + long(q.at + 4)); q.off = be(b, q.at + 8, 4); q.len = be(b, q.at + 12, 4); if (q.off <= b.size() && q.len <= b.size() - q.off) r.push_back(q); } return r; }

static void mutate(Case& c, Bytes& d) {
  static const uint32_t nice[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 1023, 4095, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x00FFFFFF, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
  std::vector<Rec> dir = directory(d); int ops = 1 + int(c.size(7)); Rng r(c.u64()); std::string text; std::string focus; if (!dir.empty() && c.chance(2, 3)) focus = dir[c.below(uint32_t(dir.size()))].tag;
  for (int k = 0; k < ops; k++) {
    if (d.size() < 16) { d.push_back(c.byte()); continue; }
    size_t n = d.size(), lo = 0, hi = n; for (auto& q : dir) if (q.tag == focus && q.len && q.off + q.len <= n) { lo = q.off; hi = lo + q.len; } if (hi - lo > 64 && c.coin()) hi = lo + 64; size_t at = lo + c.below(uint32_t(hi - lo)); if (c.coin()) at &= ~size_t(1); int op = int(c.weighted({3, 3, 8, 2, 2, 1, 2, 2, 2, 1, 1})); text += pbt::fmt(" %d@%s+%zu", op, focus.c_str(), at - lo);
    switch (op) {
      case 0: d[at] ^= uint8_t(1u << c.below(8)); break;
      case 1: d[at] = c.byte(); break;
      case 2: { uint32_t v = c.chance(1, 3) ? c.below(64) : c.chance(1, 3) ? uint32_t(hi - lo) + c.below(5) - 2 : c.chance(1, 3) ? be(d, at, 2) + c.below(9) - 4 : c.pick(nice); if (at + 2 <= n) { d[at] = uint8_t(v >> 8); d[at + 1] = uint8_t(v); } break; }
      case 3: { uint32_t v = c.chance(1, 3) ? uint32_t(n) + c.below(5) - 2 : c.chance(1, 2) ? be(d, at, 4) + c.below(9) - 4 : c.pick(nice); if (at + 4 <= n) for (int i = 0; i < 4; i++) d[at + size_t(i)] = uint8_t(v >> (24 - 8 * i)); break; }
      case 4: { size_t m = std::min<size_t>(n - at, 1 + c.size(60)); for (size_t i = 0; i < m; i++) d[at + i] = uint8_t(r.next()); break; }
      case 5: { size_t m = std::min<size_t>(n - at, 1 + c.size(60)); uint8_t v = c.pickl<uint8_t>({0, 0xFF}); for (size_t i = 0; i < m; i++) d[at + i] = v; break; }
      case 6: { size_t from = lo + c.below(uint32_t(hi - lo)), m = std::min<size_t>({hi - at, hi - from, 1 + c.size(40)}); Bytes x(d.begin() + long(from), d.begin() + long(from + m)); std::copy(x.begin(), x.end(), d.begin() + long(at)); break; }
      case 7: if (!dir.empty()) { Rec& q = dir[c.below(uint32_t(dir.size()))]; if (q.at + 16 <= n) { size_t len = c.chance(1, 2) ? c.below(uint32_t(q.len + 1)) : c.chance(1, 2) ? q.len + c.below(3) - 1 : c.below(40); for (int i = 0; i < 4; i++) d[q.at + 12 + size_t(i)] = uint8_t(len >> (24 - 8 * i)); } } break;
      case 8: if (!dir.empty()) { Rec& q = dir[c.below(uint32_t(dir.size()))]; if (q.at + 16 <= n) { if (c.coin()) d[q.at] = 'z'; else { uint32_t off = c.chance(1, 2) ? c.below(uint32_t(n)) : uint32_t(n - std::min<size_t>(n, c.below(40))); for (int i = 0; i < 4; i++) d[q.at + 8 + size_t(i)] = uint8_t(off >> (24 - 8 * i)); } } } break;
      case 9: d.resize(c.coin() ? at : n - std::min<size_t>(n, c.below(60))); break;
      default: { size_t m = std::min<size_t>(n - at, 1 + c.size(30)); if (c.coin()) d.erase(d.begin() + long(at), d.begin() + long(at + m)); else d.insert(d.begin() + long(at), m, uint8_t(r.next())); break; }
    }
  }
  c.note("mutations:%s", text.c_str());
}

static size_t count_of(const BLPath& p) { return p.size(); }
static void exercise(Case& c, const Bytes& d) {
  size_t n = d.size(); std::unique_ptr<uint8_t[]> mem(new uint8_t[n]); if (n) memcpy(mem.get(), d.data(), n); if (const char* dump = getenv("C26_DUMP")) { FILE* f = fopen(dump, "wb"); fwrite(d.data(), 1, n, f); fclose(f); }
  BLFontData data; BLResult r = data.create_from_data(mem.get(), n); c.note("%zu bytes: create_from_data %X", n, unsigned(r)); bool ok = false; size_t produced = 0;
  if (r == BL_SUCCESS) for (uint32_t fi = 0; fi < std::min(data.face_count(), 2u); fi++) {
    BLArray<BLTag> tags; if (data.get_table_tags(fi, tags) == BL_SUCCESS) { std::vector<BLFontTable> t(tags.size()); data.get_tables(fi, t.data(), tags.data(), tags.size()); for (auto& q : t) REQUIRE(c, !q.size || (q.data >= mem.get() && q.data + q.size <= mem.get() + n), "a table lies outside the data"); }
    BLFontFace face; BLResult fr = face.create_from_data(data, fi); c.note("face %u: %X", fi, unsigned(fr)); if (fr != BL_SUCCESS) { REQUIRE(c, face.is_empty(), "creation failed, but the face isn't empty"); continue; } ok = true;
    uint32_t gc = face.glyph_count(); REQUIRE(c, gc >= 1 && gc <= 65535, "glyph count is %u", gc); REQUIRE(c, face.units_per_em() > 0, "units per em is 0"); (void)face.full_name().size(); (void)face.family_name().size(); (void)face.post_script_name().size(); for (const BLString& s : {face.full_name(), face.family_name(), face.subfamily_name(), face.post_script_name()}) for (size_t i = 0; i < s.size(); i++) produced += uint8_t(s.data()[i]);
    BLFontFaceInfo info = face.face_info(); BLFontDesignMetrics dm = face.design_metrics(); (void)info; (void)dm; (void)face.panose_info(); (void)face.coverage_info(); BLBitSet cov; if (face.get_character_coverage(&cov) == BL_SUCCESS && !cov.is_empty()) { uint32_t a, b; cov.get_range(&a, &b); (void)cov.cardinality(); } BLArray<BLTag> st; face.get_script_tags(&st); face.get_feature_tags(&st); face.get_variation_tags(&st);
    BLFont font; BLFontFeatureSettings fs; if (c.coin()) for (const char* t : {"salt", "ss01", "smcp", "dlig", "zzzz", "zero"}) if (c.coin()) fs.set_value(BL_MAKE_TAG(uint8_t(t[0]), uint8_t(t[1]), uint8_t(t[2]), uint8_t(t[3])), 1); float size = c.pickl<float>({16.f, 1.f, 0.f, 1000.f, 40.f}); BLResult cr = font.create_from_face(face, size, fs); REQUIRE(c, cr == BL_SUCCESS, "font wasn't created: %X", unsigned(cr)); (void)font.metrics();
    // Text.
    std::vector<uint32_t> text; int m = int(c.range(1, 60)); for (int i = 0; i < m; i++) { uint32_t u = c.weighted({5, 1, 1, 1}) == 0 ? c.range(0x20, 0x60) : c.chance(1, 3) ? c.range(0x60, 0x250) : c.pickl<uint32_t>({0, 0xFFFF, 0x10000, 0x1F600, 0x1F610, 0x10FFFF, 0xF041, 0x400, 0x410, 0xFE00, 0xFFF5}); if (!cov.is_empty() && c.coin()) { uint32_t a, b; cov.get_range(&a, &b); u = a + c.below(std::min<uint32_t>(b - a ? b - a : 1, 200)); } text.push_back(std::min(u, 0x10FFFFu)); }
    BLGlyphBuffer gb; gb.set_utf32_text(text.data(), text.size()); if (c.coin()) { std::vector<uint32_t> ids; for (int i = 0; i < m; i++) ids.push_back(c.chance(1, 30) ? c.pickl<uint32_t>({0x80000004u, 0xFFFFFFFFu, 0x10000, gc, 0xFFFF}) : c.below(std::min(gc + 1, 40u))); gb.set_glyphs(ids.data(), ids.size()); }
    BLResult sr; if (c.coin()) sr = font.shape(gb); else { BLGlyphMappingState ms; sr = gb.has_text() ? font.map_text_to_glyphs(gb, ms) : BL_SUCCESS; if (sr == BL_SUCCESS) { BLBitArray look; look.assign_words(std::vector<uint32_t>(2, c.u32()).data(), 2); if (c.coin()) (void)font.apply_gsub(gb, look); if (c.coin()) { (void)font.position_glyphs(gb); if (c.coin()) (void)font.apply_gpos(gb, look); if (c.coin()) (void)font.apply_kerning(gb); } } }
    c.note("shape %X -> %zu glyphs", unsigned(sr), gb.size()); REQUIRE(c, gb.size() <= 4000000, "shaping %d glyphs has made %zu", m, gb.size()); BLTextMetrics tm; (void)font.get_text_metrics(gb, tm);
    // Glyphs.
    std::vector<uint32_t> ids; for (uint32_t i = 0; i < std::min(gc + 2, 12u); i++) ids.push_back(i); for (int i = 0; i < 6; i++) ids.push_back(c.below(gc + 3)); ids.push_back(0xFFFF); ids.push_back(0x10000); ids.push_back(0xFFFFFFFFu); std::vector<BLBoxI> bx(ids.size()); std::vector<BLGlyphPlacement> pl(ids.size()); (void)font.get_glyph_bounds(ids.data(), 4, bx.data(), ids.size()); (void)font.get_glyph_advances(ids.data(), 4, pl.data(), ids.size());
    BLPath path; for (uint32_t id : ids) { BLResult o = font.get_glyph_outlines(id, path); if (o == BL_SUCCESS) produced += count_of(path); path.clear(); } BLPath run; (void)font.get_glyph_run_outlines(gb.glyph_run(), run); produced += count_of(run);
    if (c.chance(1, 3)) { BLImage img(40, 40, BL_FORMAT_PRGB32); BLContext ctx(img); ctx.fill_utf32_text(BLPoint(2, 20), font, text.data(), std::min<size_t>(text.size(), 10)); if (gb.size() < 100) ctx.stroke_glyph_run(BLPoint(2, 20), font, gb.glyph_run()); ctx.end(); }
  }
  c.label(ok, "face created"); c.label(produced > 1000, "outlines or names"); c.nontrivial(r == BL_SUCCESS);
}

static void real_font(Case& c) { Bytes d = abeezee(); if (d.empty()) c.discard(); if (c.chance(1, 12)) d.resize(c.below(uint32_t(d.size()))); mutate(c, d); exercise(c, d); }
static Font valid_font(Case& c) { Font f; model(c, f, 14, c.coin()); int ng = int(f.g.size()); if (c.chance(2, 3)) f.extra["GSUB"] = lg::table(c, lg::make(c, false, ng, true)); if (c.chance(2, 3)) f.extra["GPOS"] = lg::table(c, lg::make(c, true, ng, true)); if (c.chance(1, 2)) f.extra["kern"] = lg::kern_table(c, lg::make_kern(c, ng)); return f; }
static void truetype(Case& c) { Font f = valid_font(c); assemble(c, f); Bytes d(f.bytes.begin(), f.bytes.end()); if (!c.chance(1, 12)) mutate(c, d); exercise(c, d); }
static void cff(Case& c) { Font f; model(c, f, 10, true); cffg::Table t; cffg::generate(c, t, f.g.size(), c.coin()); f.extra["CFF "] = cffg::assemble(c, t); assemble(c, f); Bytes d(f.bytes.begin(), f.bytes.end()); if (!c.chance(1, 12)) mutate(c, d); exercise(c, d); }
// Fonts whose layout tables were damaged.
static void layout(Case& c) {
  Font f; model(c, f, 14, true); int ng = int(f.g.size()); const char* tag = c.pickl<const char*>({"GSUB", "GPOS", "kern"}); bool pos = tag[1] == 'P'; Buf t = *tag == 'k' ? lg::kern_table(c, lg::make_kern(c, ng)) : lg::table(c, lg::make(c, pos, ng, true)); int ops = int(c.below(5)); for (int k = 0; k < ops; k++) { size_t at = c.below(uint32_t(t.size() / 2)) * 2; if (at + 2 > t.size()) break; uint32_t v = (uint32_t(t[at]) << 8) | t[at + 1]; switch (c.below(5)) { case 0: v = c.below(16); break; case 1: v += c.below(9) - 4; break; case 2: v = uint32_t(t.size()) - c.below(12); break; case 3: v = c.pickl<uint32_t>({0xFFFF, 0x8000, 0x7FFF, 0x100}); break; default: v = c.below(uint32_t(t.size())); break; } t.set16(at, v); } if (c.chance(1, 5)) t.resize(c.below(uint32_t(t.size() + 1)));
  f.extra[tag] = t; assemble(c, f); Bytes d(f.bytes.begin(), f.bytes.end()); if (c.coin()) { for (auto& q : directory(d)) if (q.tag == tag && q.off + q.len < d.size()) { Bytes tail(d.begin() + long(q.off), d.begin() + long(q.off + q.len)); size_t off = d.size(); d.insert(d.end(), tail.begin(), tail.end()); for (int i = 0; i < 4; i++) d[q.at + 8 + size_t(i)] = uint8_t(off >> (24 - 8 * i)); break; } } exercise(c, d);   // (the table may end where the data end)
}
static void bytes(Case& c) { Rng r(c.u64()); Bytes d(c.size(600)); for (auto& x : d) x = uint8_t(r.next()); const char* sig = c.pickl<const char*>({"\0\1\0\0", "OTTO", "ttcf", "true", "wOFF"}); for (size_t i = 0; i < 4 && i < d.size(); i++) d[i] = uint8_t(sig[i]); if (d.size() > 12 && c.coin()) { d[4] = 0; d[5] = uint8_t(c.below(12)); } exercise(c, d); }
// Deeply nested composite glyphs, cycles included, take a bounded time.
static void nested(Case& c) {
  Font f; model(c, f, 24, true); int ng = int(f.g.size()); bool cyclic = c.chance(1, 4); int k = int(c.range(1, 6)); for (int i = 1; i < ng; i++) { Glyph& g = f.g[size_t(i)]; g.comps.clear(); g.contours.clear(); if (i == 1) { g.contours.push_back({{0, 0, true}, {50, 0, true}, {50, 50, true}}); continue; } int n = c.chance(1, 10) ? int(c.range(1, 300)) : k; for (int j = 0; j < n; j++) { Comp m{}; m.glyph = cyclic ? int(c.below(uint32_t(ng))) : c.chance(9, 10) ? i - 1 : int(c.below(uint32_t(i))); m.a = m.d = 1; m.dx = j; m.dy = i; g.comps.push_back(m); } }
  assemble(c, f); exercise(c, Bytes(f.bytes.begin(), f.bytes.end()));
}
// Collections.
static void collection(Case& c) {
  Font a = valid_font(c); assemble(c, a); Bytes body(a.bytes.begin(), a.bytes.end()); Buf b; b.tag("ttcf"); b.u32(0x10000); uint32_t n = c.range(1, 3); b.u32(c.chance(1, 6) ? c.pickl<uint32_t>({0, 100, 0xFFFFFFFFu, 0x40000000u}) : n); size_t head = 12 + 4 * n; for (uint32_t i = 0; i < n; i++) b.u32(c.chance(1, 6) ? c.below(uint32_t(head + body.size() + 4)) : uint32_t(head)); for (auto& q : directory(body)) for (int i = 0; i < 4; i++) body[q.at + 8 + size_t(i)] = uint8_t((q.off + head) >> (24 - 8 * i)); b.put(body); Bytes d(b.begin(), b.end()); if (c.coin()) mutate(c, d); exercise(c, d);
}

int main(int argc, char** argv) {
  pbt::Suite s("C26", "data accepted as a font", argc, argv);
  s.add("real", real_font, {.quick = 16000, .thorough = 600000, .chunk = 200, .guided = true});
  s.add("truetype", truetype, {.quick = 16000, .thorough = 600000, .chunk = 200, .guided = true});
  s.add("cff", cff, {.quick = 16000, .thorough = 600000, .chunk = 200, .guided = true});
  s.add("layout", layout, {.quick = 30000, .thorough = 800000, .chunk = 200, .guided = true});
  s.add("nested", nested, {.quick = 600, .thorough = 20000, .chunk = 20, .cpu_limit = 10});
  s.add("collection", collection, {.quick = 1500, .thorough = 100000, .chunk = 200});
  s.add("bytes", bytes, {.quick = 3000, .thorough = 100000, .chunk = 200});
  return s.run();
}
