// C33: font feature and variation settings act as ordered maps from a tag to a value, inline or on the heap.
#include "pbt.h"
#include <blend2d/blend2d.h>
#include <map>
#include <optional>
#include <set>
using pbt::Case;
#ifndef RES
#define RES "/blend2d-testing/resources/ABeeZee-Regular.ttf"
#endif
// Registered features, and those the documentation restricts to 0 and 1.
static const char kTags[] = "aalt abvf abvm abvs afrc akhn blwf blwm blws c2pc c2sc calt case ccmp cfar chws cjct clig cpct cpsp cswh curs cv01 cv02 cv03 cv04 cv05 cv06 cv07 cv08 cv09 cv10 cv11 cv12 cv13 cv14 cv15 cv16 cv17 cv18 cv19 cv20 cv21 cv22 cv23 cv24 cv25 cv26 cv27 cv28 cv29 cv30 cv31 cv32 cv33 cv34 cv35 cv36 cv37 cv38 cv39 cv40 cv41 cv42 cv43 cv44 cv45 cv46 cv47 cv48 cv49 cv50 cv51 cv52 cv53 cv54 cv55 cv56 cv57 cv58 cv59 cv60 cv61 cv62 cv63 cv64 cv65 cv66 cv67 cv68 cv69 cv70 cv71 cv72 cv73 cv74 cv75 cv76 cv77 cv78 cv79 cv80 cv81 cv82 cv83 cv84 cv85 cv86 cv87 cv88 cv89 cv90 cv91 cv92 cv93 cv94 cv95 cv96 cv97 cv98 cv99 dist dlig dnom dtls expt falt fin2 fin3 fina flac frac fwid half haln halt hist hkna hlig hngl hojo hwid init isol ital jalt jp04 jp78 jp83 jp90 kern lfbd liga ljmo lnum locl ltra ltrm mark med2 medi mgrk mkmk mset nalt nlck nukt numr onum opbd ordn ornm palt pcap pkna pnum pref pres pstf psts pwid qwid rand rclt rkrf rlig rphf rtbd rtla rtlm ruby rvrn salt sinf size smcp smpl ss01 ss02 ss03 ss04 ss05 ss06 ss07 ss08 ss09 ss10 ss11 ss12 ss13 ss14 ss15 ss16 ss17 ss18 ss19 ss20 ssty stch subs sups swsh titl tjmo tnam tnum trad twid unic valt vatu vchw vert vhal vjmo vkna vkrn vpal vrt2 vrtr zero";
static const char kBool[] = "case clig cpct cpsp dlig dnom expt falt frac fwid halt hist hwid jalt kern liga lnum onum ordn palt pcap ruby smcp subs sups titl tnam tnum unic valt vkrn zero";
static std::vector<BLTag> words(const char* s) { std::vector<BLTag> v; for (; *s; s += s[4] ? 5 : 4) v.push_back(BL_MAKE_TAG(uint8_t(s[0]), uint8_t(s[1]), uint8_t(s[2]), uint8_t(s[3]))); return v; }
static const std::vector<BLTag>& known() { static const std::vector<BLTag> v = words(kTags); return v; }
static const std::vector<BLTag>& boolean() { static const std::vector<BLTag> v = words(kBool); return v; }
static bool is_bool(BLTag t) { static const std::set<BLTag> s(boolean().begin(), boolean().end()); return s.count(t) != 0; }
static bool valid(BLTag t) { for (int s = 0; s < 32; s += 8) { uint32_t b = t >> s & 255; if (b < 32 || b > 126) return false; } return true; }
static std::string name(BLTag t) { std::string s; for (int k = 24; k >= 0; k -= 8) { uint8_t b = uint8_t(t >> k); if (b >= 32 && b < 127) s += char(b); else s += pbt::fmt("\\x%02X", b); } return s; }
static BLTag other(Case& c) { switch (c.below(4)) { case 0: return BL_MAKE_TAG('a', 'a', 'a', 'a' + c.below(4)); case 1: { BLTag t = 0; for (int i = 0; i < 4; i++) t = t << 8 | uint32_t(c.range(32, 126)); return t; } case 2: return c.pickl<BLTag>({0x20202020u, 0x7E7E7E7Eu, BL_MAKE_TAG('z', 'z', 'z', 'z'), BL_MAKE_TAG('w', 'g', 'h', 'u'), BL_MAKE_TAG('k', 'e', 'r', 'o')}); default: { BLTag t = 0x61616161u; uint32_t s = c.below(4) * 8; return (t & ~(0xFFu << s)) | c.pickl<uint32_t>({0, 0x1F, 0x7F, 0x80, 0xA0, 0xFF, 0x20, 0x7E}) << s; } } }
struct Features {
  using S = BLFontFeatureSettings; static BLResult shrink(S* s) { return bl_font_feature_settings_shrink(s); } using V = uint32_t; using View = BLFontFeatureSettingsView; static const char* title() { return "features"; } static constexpr V missing = 0xFFFFFFFFu; static bool absent(V v) { return v == missing; } static std::string str(V v) { return pbt::fmt("%u", v); }
  static BLTag tag(Case& c, int mode) { switch (mode == 0 ? 0 : mode == 1 ? int(c.below(2)) : int(c.weighted({4, 5, 2}))) { case 0: return boolean()[c.below(uint32_t(boolean().size()))]; case 1: return c.chance(1, 2) ? known()[(c.below(8) * 29) % known().size()] : known()[c.below(uint32_t(known().size()))]; default: return other(c); } }
  static V value(Case& c, int mode) { switch (mode < 2 ? c.weighted({6, 3, 1}) : c.weighted({4, 4, 3})) { case 0: return c.below(2); case 1: return c.below(16); default: return c.pickl<V>({2, 15, 16, 17, 31, 240, 255, 256, 65535, 65536, 0x7FFFFFFF, 0xFFFFFFFEu, 0xFFFFFFFFu}); } }
  static bool fine(BLTag t, V v) { return valid(t) && v <= 65535 && (v <= 1 || !is_bool(t)); } };
struct Variations {
  using S = BLFontVariationSettings; static BLResult shrink(S* s) { return bl_font_variation_settings_shrink(s); } using V = float; using View = BLFontVariationSettingsView; static const char* title() { return "variations"; } static bool absent(V v) { return v != v; } static std::string str(V v) { return pbt::fmt("%g", double(v)); }
  static BLTag tag(Case& c, int mode) { static const BLTag t[] = {BL_MAKE_TAG('i', 't', 'a', 'l'), BL_MAKE_TAG('o', 'p', 's', 'z'), BL_MAKE_TAG('s', 'l', 'n', 't'), BL_MAKE_TAG('w', 'd', 't', 'h'), BL_MAKE_TAG('w', 'g', 'h', 't')}; return mode < 2 || c.chance(2, 3) ? t[c.below(5)] : other(c); }
  static V value(Case& c, int mode) { switch (mode < 2 ? c.weighted({6, 6, 1}) : c.weighted({4, 4, 3})) { case 0: return c.pickl<V>({0.0f, 1.0f, 0.5f}); case 1: return float(c.range(0, 1000)) / 1000.0f; default: return c.pickl<V>({1.5f, 2.0f, 100.0f, 65535.0f, 65536.0f, 1e20f}); } }
  static bool fine(BLTag t, V v) { return valid(t) && v <= 65535.0f; } };
template<typename K> struct Slot { typename K::S s; std::map<BLTag, typename K::V> m; };
template<typename K> static void check(Case& c, const Slot<K>& x, const char* op) {
  REQUIRE(c, x.s.size() == x.m.size() && x.s.is_empty() == x.m.empty(), "%s: size is %zu instead of %zu", op, x.s.size(), x.m.size()); REQUIRE(c, x.s.capacity() >= x.s.size(), "%s: capacity %zu of size %zu", op, x.s.capacity(), x.s.size()); typename K::View v; memset(static_cast<void*>(&v), 0xEE, sizeof(v)); REQUIRE(c, x.s.get_view(&v) == BL_SUCCESS && v.size == x.m.size() && v.is_empty() == x.m.empty(), "%s: the view has %zu items instead of %zu", op, v.size, x.m.size()); size_t i = 0;
  for (auto& e : x.m) { REQUIRE(c, v.data[i].tag == e.first && v.data[i].value == e.second, "%s: item %zu is '%s' = %s instead of '%s' = %s", op, i, name(v.data[i].tag).c_str(), K::str(v.data[i].value).c_str(), name(e.first).c_str(), K::str(e.second).c_str()); REQUIRE(c, x.s.has_value(e.first), "%s: has_value('%s') is false", op, name(e.first).c_str()); auto g = x.s.get_value(e.first); REQUIRE(c, g == e.second, "%s: get_value('%s') is %s instead of %s", op, name(e.first).c_str(), K::str(g).c_str(), K::str(e.second).c_str()); i++; } REQUIRE(c, v.end() - v.begin() == ptrdiff_t(i), "%s: view iterators", op); }
template<typename K> static void history(Case& c) {
  Slot<K> o[3]; int mode = int(c.below(3)), ops = int(c.range(4, mode == 2 && c.chance(1, 8) ? 300 : 40)); size_t most = 0; bool heap = false, shared = false, refused = false; c.note("%s mode %d", K::title(), mode);
  for (int i = 0; i < ops; i++) {
    int a = c.chance(2, 3) ? 0 : int(c.below(3)), b = int(c.below(3)); Slot<K>& x = o[a]; std::string op;
    switch (c.weighted({12, 5, 3, 1, 1, 1, 2, 1, 1, 2, 1})) {
      case 0: { BLTag t = K::tag(c, mode); auto v = K::value(c, mode); if (c.chance(1, 4) && !x.m.empty()) { auto it = x.m.begin(); std::advance(it, c.below(uint32_t(x.m.size()))); t = it->first; } op = pbt::fmt("set_value('%s', %s)", name(t).c_str(), K::str(v).c_str()); bool fine = K::fine(t, v); BLResult r = x.s.set_value(t, v); REQUIRE(c, r == (fine ? BL_SUCCESS : BL_ERROR_INVALID_VALUE), "%s returned %u", op.c_str(), unsigned(r)); if (fine) x.m[t] = v; else refused = true; break; }
      case 1: { BLTag t = K::tag(c, mode); if (c.chance(2, 3) && !x.m.empty()) { auto it = x.m.begin(); std::advance(it, c.below(uint32_t(x.m.size()))); t = it->first; } op = pbt::fmt("remove_value('%s')", name(t).c_str()); REQUIRE(c, x.s.remove_value(t) == BL_SUCCESS, "%s failed", op.c_str()); x.m.erase(t); break; }
      case 2: { BLTag t = K::tag(c, mode); op = pbt::fmt("get_value('%s')", name(t).c_str()); auto it = x.m.find(t); auto v = x.s.get_value(t); REQUIRE(c, x.s.has_value(t) == (it != x.m.end()), "has_value('%s') is %d", name(t).c_str(), x.s.has_value(t)); REQUIRE(c, it == x.m.end() ? K::absent(v) : v == it->second, "%s is %s", op.c_str(), K::str(v).c_str()); break; }
      case 3: op = "clear"; REQUIRE(c, x.s.clear() == BL_SUCCESS, "clear failed"); x.m.clear(); break;
      case 4: op = "reset"; REQUIRE(c, x.s.reset() == BL_SUCCESS, "reset failed"); x.m.clear(); break;
      case 5: op = "shrink"; REQUIRE(c, K::shrink(&x.s) == BL_SUCCESS, "shrink failed"); break;
      case 6: op = pbt::fmt("= %d", b); if (c.coin()) x.s = o[b].s; else REQUIRE(c, x.s.assign(o[b].s) == BL_SUCCESS, "assign failed"); x.m = o[b].m; shared |= a != b && x.m.size() > 4; break;
      case 7: op = pbt::fmt("move from %d", b); if (a == b) break; if (c.coin()) x.s = std::move(o[b].s); else { typename K::S t(std::move(o[b].s)); x.s.swap(t); } x.m = o[b].m; o[b].m.clear(); break;
      case 8: op = pbt::fmt("swap with %d", b); x.s.swap(o[b].s); std::swap(x.m, o[b].m); break;
      case 9: { op = pbt::fmt("compare with %d", b); bool e = x.m == o[b].m; REQUIRE(c, x.s.equals(o[b].s) == e && (x.s == o[b].s) == e && (x.s != o[b].s) != e, "comparing with object %d gives %d instead of %d", b, x.s.equals(o[b].s), e); break; }
      default: { op = "rebuild"; typename K::S t; std::vector<std::pair<BLTag, typename K::V>> v(x.m.begin(), x.m.end()); for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[c.below(uint32_t(k))]); bool force = c.coin(); BLTag extra = BL_MAKE_TAG('~', '~', '~', '!'); if (force) t.set_value(extra, 0); for (auto& e : v) REQUIRE(c, t.set_value(e.first, e.second) == BL_SUCCESS, "set_value failed"); if (force && !x.m.count(extra)) t.remove_value(extra); else if (force) t.set_value(extra, x.m[extra]); REQUIRE(c, t.equals(x.s) && x.s.equals(t), "settings of equal content built in another order aren't equal"); break; }
    }
    most = std::max(most, x.m.size()); heap |= x.m.size() > 0 && !x.s._d.sso(); c.note("%d: %s -> %zu %s", a, op.c_str(), x.m.size(), x.s._d.sso() ? "inline" : "heap"); for (int k = 0; k < 3; k++) check<K>(c, o[k], op.c_str()); }
  c.nontrivial(most >= 3); c.label(heap, "heap"); c.label(!heap, "inline only"); c.label(shared, "shared"); c.label(refused, "refused"); }
static void features(Case& c) { history<Features>(c); }
static void variations(Case& c) { history<Variations>(c); }

// Settings handed to a font are a value of their own.
static void in_font(Case& c) {
  static BLFontFace face; if (face.is_empty()) { const char* r = getenv("VERIF_REPO"); REQUIRE(c, face.create_from_file((std::string(r ? r : "/repo") + RES).c_str()) == BL_SUCCESS, "the font file was not loaded"); } std::map<BLTag, uint32_t> m; BLFontFeatureSettings s; int n = int(c.range(0, 10)); for (int i = 0; i < n; i++) { BLTag t = Features::tag(c, 2); uint32_t v = Features::value(c, 2); if (Features::fine(t, v)) { s.set_value(t, v); m[t] = v; } } std::map<BLTag, float> vm; BLFontVariationSettings vs; for (int i = 0; i < n; i++) { BLTag t = Variations::tag(c, 2); float v = Variations::value(c, 2); if (Variations::fine(t, v)) { vs.set_value(t, v); vm[t] = v; } }
  BLFont f, g; bool with = c.coin(); REQUIRE(c, (with ? c.coin() ? f.create_from_face(face, 12.0f, s) : f.create_from_face(face, 12.0f, s, vs) : f.create_from_face(face, 12.0f)) == BL_SUCCESS, "font"); g = f; REQUIRE(c, f.set_feature_settings(s) == BL_SUCCESS && f.set_variation_settings(vs) == BL_SUCCESS, "set_feature_settings failed"); s.set_value(BL_MAKE_TAG('x', 'y', 'z', '1'), 9); s.clear(); vs.clear();
  auto eq = [&](const BLFontFeatureSettings& x, const std::map<BLTag, uint32_t>& want) { BLFontFeatureSettingsView v; x.get_view(&v); size_t i = 0; bool ok = v.size == want.size(); for (auto& e : want) if (ok) { ok = v.data[i].tag == e.first && v.data[i].value == e.second; i++; } return ok; }; c.note("%zu features, %zu variations", m.size(), vm.size()); REQUIRE(c, eq(f.feature_settings(), m), "the font lost its features"); REQUIRE(c, f.variation_settings().size() == vm.size(), "the font has %zu variations instead of %zu", f.variation_settings().size(), vm.size()); for (auto& e : vm) REQUIRE(c, f.variation_settings().get_value(e.first) == e.second, "the font lost a variation"); if (!with) REQUIRE(c, g.feature_settings().is_empty() && g.variation_settings().is_empty(), "a copy of the font was changed"); else REQUIRE(c, eq(g.feature_settings(), m), "a copy of the font was changed");
  REQUIRE(c, f.reset_feature_settings() == BL_SUCCESS && f.feature_settings().is_empty() && f.reset_variation_settings() == BL_SUCCESS && f.variation_settings().is_empty(), "reset_feature_settings failed"); c.nontrivial(!m.empty()); }
int main(int argc, char** argv) {
  pbt::Suite s("C33", "Non-trivial: some settings object held at least three values (fonts: features were set).", argc, argv);
  s.add("features", features, {.quick = 60000, .thorough = 2000000, .chunk = 500});
  s.add("variations", variations, {.quick = 30000, .thorough = 1000000, .chunk = 500});
  s.add("in_font", in_font, {.quick = 10000, .thorough = 200000, .chunk = 500});
  s.assume("Negative and NaN variation values aren't generated: the code accepts them, and NaN also means a missing value.");
  return s.run();
}
