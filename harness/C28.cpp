// C28: shaping applies the lookups and kerning of a font as the font defines them.
#include "layoutgen.h"
using namespace fg;
using lg::Item; using lg::Place;

static bool by_default(const std::string& t) { return t == "calt" || t == "clig" || t == "cpsp" || t == "kern" || t == "liga"; }
struct Ctx { Font f; lg::Layout gsub, gpos; lg::Kern kern; bool has_sub = false, has_pos = false, has_kern = false; BLFontData data; BLFontFace face; BLFont font; int ng = 0; std::vector<uint32_t> text; std::map<std::string, int> set; float size = 0; };

static void build(Case& c, Ctx& x, int mode) {
  model(c, x.f, int(c.pickl<int>({6, 14, 30})), true); x.ng = int(x.f.g.size()); x.f.cmap.clear(); x.f.cmap_format = c.coin() ? 4 : 12; x.f.symbol = false; for (int i = 1; i < x.ng; i++) x.f.cmap[uint32_t(0x4E00 + i)] = uint32_t(i);
  auto tune = [&](lg::Layout& l) { if (mode) l.required = 0xFFFF; if (c.chance(4, 5)) for (auto& k : l.lookups) k.subs.resize(1); };
  if (mode == 0 ? c.chance(3, 4) : mode == 1) { x.has_sub = true; x.gsub = lg::make(c, false, x.ng, false); tune(x.gsub); x.f.extra["GSUB"] = lg::table(c, x.gsub); }
  if (mode == 0 ? c.chance(3, 4) : mode == 2) { x.has_pos = true; x.gpos = lg::make(c, true, x.ng, false); tune(x.gpos); x.f.extra["GPOS"] = lg::table(c, x.gpos); }
  if (mode == 0 ? c.chance(1, 2) : mode == 3) { x.has_kern = true; x.kern = lg::make_kern(c, x.ng); x.f.extra["kern"] = lg::kern_table(c, x.kern); }
  assemble(c, x.f); if (const char* p = getenv("C28_DUMP")) { FILE* o = fopen(p, "wb"); fwrite(x.f.bytes.data(), 1, x.f.bytes.size(), o); fclose(o); }
  REQUIRE(c, x.data.create_from_data(x.f.bytes.data(), x.f.bytes.size()) == BL_SUCCESS && x.face.create_from_data(x.data, 0) == BL_SUCCESS, "the font was not loaded");
  int n = int(c.chance(1, 20) ? c.range(250, 520) : c.range(1, 24)); for (int i = 0; i < n; i++) { uint32_t g = c.chance(1, 30) ? 0 : c.below(uint32_t(x.ng)); x.text.push_back(g ? 0x4E00 + g : 'A'); }
  BLFontFeatureSettings fs; std::set<std::string> tags; for (auto& f : x.gsub.features) tags.insert(f.tag); for (auto& f : x.gpos.features) tags.insert(f.tag); tags.insert("kern");
  for (auto& t : tags) if (!by_default(t) || c.chance(1, 3)) { x.set[t] = c.chance(2, 3); REQUIRE(c, fs.set_value(BL_MAKE_TAG(uint32_t(t[0]), uint32_t(t[1]), uint32_t(t[2]), uint32_t(t[3])), uint32_t(x.set[t])) == BL_SUCCESS, "set_value failed"); }
  x.size = float(c.pickl<double>({10, 16, 100, 33.5})); REQUIRE(c, x.font.create_from_face(x.face, x.size, fs) == BL_SUCCESS, "font wasn't created");
}
static std::set<int> plan(const Ctx& x, const lg::Layout& l) {
  std::set<int> r; auto put = [&](int i) { for (int k : l.features[size_t(i)].lookups) r.insert(k); }; if (l.required != 0xFFFF) put(l.required);
  for (int i : l.langsys) { const std::string& t = l.features[size_t(i)].tag; auto it = x.set.find(t); if (it != x.set.end() ? it->second != 0 : by_default(t)) put(i); } return r;
}
struct Result { std::vector<Item> b; std::vector<Place> p; uint64_t sub = 0, pos = 0, kern = 0; };
static std::string diff(const Result& r, const BLGlyphBuffer& gb) {
  if (gb.size() != r.b.size()) return pbt::fmt("%zu glyphs instead of %zu", gb.size(), r.b.size()); const uint32_t* g = gb.content(); const BLGlyphInfo* in = gb.info_data(); const BLGlyphPlacement* pl = gb.placement_data();
  for (size_t i = 0; i < r.b.size(); i++) {
    if (g[i] != r.b[i].g) return pbt::fmt("glyph #%zu is %u instead of %u", i, g[i], r.b[i].g); if (in[i].cluster != r.b[i].cluster) return pbt::fmt("cluster of glyph #%zu is %u instead of %u", i, in[i].cluster, r.b[i].cluster);
    if (pl && (pl[i].placement != BLPointI(r.p[i].ox, r.p[i].oy) || pl[i].advance != BLPointI(r.p[i].ax, 0))) return pbt::fmt("placement of glyph #%zu (%u) is offset %d,%d advance %d,%d instead of offset %d,%d advance %d,0", i, g[i], pl[i].placement.x, pl[i].placement.y, pl[i].advance.x, pl[i].advance.y, r.p[i].ox, r.p[i].oy, r.p[i].ax);
  }
  return "";
}
static std::string describe(const lg::Layout& l) { std::string s; for (size_t i = 0; i < l.lookups.size(); i++) { s += pbt::fmt(" %zu:type %d%s", i, l.lookups[i].type, l.lookups[i].ext ? "x" : ""); for (auto& q : l.lookups[i].subs) s += pbt::fmt(".%d", q.format); } for (auto& f : l.features) { s += " " + f.tag + "("; for (int k : f.lookups) s += pbt::fmt("%d,", k); s += ")"; } return s; }
static bool reference(Ctx& x, bool first, const std::set<int>& sp, const std::set<int>& pp, Result& r) {
  for (size_t i = 0; i < x.text.size(); i++) r.b.push_back({x.text[i] == 'A' ? 0 : x.text[i] - 0x4E00, uint32_t(i)}); if (x.has_sub && !lg::apply(x.gsub, sp, r.b, r.p, first, 3000, &r.sub)) return false;
  for (auto& i : r.b) { Place p; p.ax = x.f.g[i.g].adv; r.p.push_back(p); } if (x.has_pos && !r.b.empty()) lg::apply(x.gpos, pp, r.b, r.p, first, 100000, &r.pos);
  bool gk = false; if (x.has_pos) for (auto& f : x.gpos.features) gk |= f.tag == "kern"; auto it = x.set.find("kern"); if (x.has_kern && !gk && (it == x.set.end() || it->second)) lg::apply_kern(x.kern, r.b, r.p, &r.kern); return true;
}
static void check(Case& c, Ctx& x, const std::set<int>& sp, const std::set<int>& pp, bool explicit_) {
  Result spec, seq; if (!reference(x, true, sp, pp, spec) || !reference(x, false, sp, pp, seq)) c.discard(); std::string t; for (uint32_t u : x.text) t += pbt::fmt("%u ", u == 'A' ? 0 : u - 0x4E00); std::string st; for (auto& s : x.set) st += pbt::fmt("%s=%d ", s.first.c_str(), s.second);
  c.note("%d glyphs; GSUB:%s; GPOS:%s; kern %d%s; settings %s; text %s", x.ng, describe(x.gsub).c_str(), describe(x.gpos).c_str(), int(x.kern.groups.size()), x.kern.mac ? " (mac)" : "", st.c_str(), t.c_str());
  BLGlyphBuffer gb; REQUIRE(c, gb.set_utf32_text(x.text.data(), x.text.size()) == BL_SUCCESS, "set text failed");
  if (!explicit_) REQUIRE(c, x.font.shape(gb) == BL_SUCCESS, "shape failed");
  else {
    auto bits = [](const lg::Layout& l, const std::set<int>& p) { BLBitArray b; b.resize(uint32_t(l.lookups.size())); for (int i : p) b.set_bit(uint32_t(i)); return b; }; REQUIRE(c, x.font.map_text_to_glyphs(gb) == BL_SUCCESS, "map_text_to_glyphs failed"); if (x.has_sub) REQUIRE(c, x.font.apply_gsub(gb, bits(x.gsub, sp)) == BL_SUCCESS, "apply_gsub failed");
    if (!gb.is_empty()) { BLFontFeatureSettings off; off.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 0); for (auto& f : x.gpos.features) off.set_value(BL_MAKE_TAG(uint32_t(f.tag[0]), uint32_t(f.tag[1]), uint32_t(f.tag[2]), uint32_t(f.tag[3])), 0); BLFont plain; REQUIRE(c, plain.create_from_face(x.face, x.size, off) == BL_SUCCESS && plain.position_glyphs(gb) == BL_SUCCESS, "position_glyphs failed"); if (x.has_pos) REQUIRE(c, x.font.apply_gpos(gb, bits(x.gpos, pp)) == BL_SUCCESS, "apply_gpos failed"); bool gk = false; if (x.has_pos) for (auto& f : x.gpos.features) gk |= f.tag == "kern"; auto it = x.set.find("kern"); if (x.has_kern && !gk && (it == x.set.end() || it->second)) { bool any = false; for (auto& g : x.kern.groups) any |= !g.vertical; BLResult kr = x.font.apply_kerning(gb); REQUIRE(c, !any || kr == BL_SUCCESS, "apply_kerning failed: %u", unsigned(kr)); } }
  }
  std::string d = diff(spec, gb); if (!d.empty()) { std::string d2 = diff(seq, gb); REQUIRE(c, !d2.empty(), "each sub-table of a lookup processed the whole run: %s", d.c_str()); REQUIRE(c, false, "%s (if sub-tables were applied one after another: %s)", d.c_str(), d2.c_str()); }
  bool flags_ok = !gb.has_text() && gb.is_empty() == spec.b.empty(); REQUIRE(c, flags_ok, "the buffer still has text");
  if (!spec.b.empty()) { BLTextMetrics tm; REQUIRE(c, x.font.get_text_metrics(gb, tm) == BL_SUCCESS, "get_text_metrics failed"); double w = 0; for (auto& p : spec.p) w += p.ax; double k = double(x.size) / x.f.upem; REQUIRE(c, std::fabs(tm.advance.x - w * k) <= 1e-6 * (std::fabs(w * k) + 1) && tm.advance.y == 0, "text width is %g instead of %g", tm.advance.x, w * k); }
  c.nontrivial(spec.sub + spec.pos + spec.kern > 0); c.label(spec.sub > 0, "substituted"); c.label(spec.pos > 0, "positioned"); c.label(spec.kern > 0, "kerned"); c.label(spec.b.size() > x.text.size(), "run grew"); c.label(spec.b.empty(), "run vanished"); c.label(spec.pos > 0 && spec.kern > 0, "GPOS and kern"); if (x.gsub.required != 0xFFFF) c.label(true, "required feature");
}
static void shape(Case& c) { Ctx x; build(c, x, 0); bool gk = false, in = false; for (size_t i = 0; i < x.gpos.features.size(); i++) if (x.gpos.features[i].tag == "kern") { gk = true; for (int k : x.gpos.langsys) in |= size_t(k) == i; } if (gk && !in && x.has_kern) c.discard(); check(c, x, plan(x, x.gsub), plan(x, x.gpos), false); }
static void lookups(Case& c) { Ctx x; build(c, x, int(c.range(1, 3))); auto some = [&](const lg::Layout& l) { std::set<int> s; for (size_t i = 0; i < l.lookups.size(); i++) if (c.chance(2, 3)) s.insert(int(i)); return s; }; std::set<int> a = some(x.gsub), b = some(x.gpos); check(c, x, a, b, true); }

int main(int argc, char** argv) {
  pbt::Suite s("C28", "at least one lookup or kerning pair matched", argc, argv);
  s.add("shape", shape, {.quick = 50000, .thorough = 1500000, .chunk = 200, .guided = true});
  s.add("lookups", lookups, {.quick = 50000, .thorough = 1500000, .chunk = 200, .guided = true});
  s.assume("Lookup flags are 0; context lookups (no nested lookups are implemented), GPOS types 3 to 6 and cross-stream or minimum kerning are not generated.");
  return s.run();
}
