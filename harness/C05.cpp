// C05: copies are independent values.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "objgen.h"
#include "alloc_track.h"
using pbt::Case;

static void warm_up() { og::font_bytes(); og::shared_face(); { BLImage w(2, 2, BL_FORMAT_PRGB32); BLContext x(w); x.fill_all(BLRgba32(5)); x.end(); } { BLImage a(3, 3, BL_FORMAT_PRGB32), b; BLImage::scale(b, a, BLSizeI(2, 2), BL_IMAGE_SCALE_FILTER_BILINEAR); } }
// Only a copy of a font is equal to it; fonts created separately aren't.
template<class T> static constexpr bool by_content() { return !std::is_same_v<T, BLFont> && !std::is_same_v<T, BLFontFace> && !std::is_same_v<T, BLFontData> && !std::is_same_v<T, BLImageCodec> && !std::is_same_v<T, BLVar>; }
template<class T> static constexpr bool movable() { return !std::is_same_v<T, BLImageCodec> && !std::is_same_v<T, BLStrokeOptions>; }
template<class T> static constexpr bool object() { return std::is_base_of_v<BLObjectCore, T>; }
template<class T> static void set(T& a, const T& b) { if constexpr (std::is_same_v<T, BLVar>) a.assign(b); else a = b; }
template<class T, class = void> struct has_eq : std::false_type {}; template<class T> struct has_eq<T, std::void_t<decltype(std::declval<const T&>() == std::declval<const T&>())>> : std::true_type {};
template<class T, class = void> struct has_swap : std::false_type {}; template<class T> struct has_swap<T, std::void_t<decltype(std::declval<T&>().swap(std::declval<T&>()))>> : std::true_type {};
template<class T, class = void> struct has_reset : std::false_type {}; template<class T> struct has_reset<T, std::void_t<decltype(std::declval<T&>().reset())>> : std::true_type {};
template<class T> static bool same(const T& a, const T& b) { if constexpr (has_eq<T>::value) return a == b && !(a != b); else return true; }

// Four variables of a type, a replayed (never copied) object for each of them is the model.
template<class T> static void pool(Case& c) {
  const int N = 4; c.note("%s", __PRETTY_FUNCTION__ + 17); warm_up();
  long before = at::live; bool shared_mutation = false; int ops = 0;
  {
    std::vector<std::unique_ptr<T>> v(N); for (auto& p : v) p.reset(new T()); std::vector<std::vector<og::Op<T>>> log(N); std::vector<std::string> m(N); std::string empty = og::fp(*v[0]); for (auto& s : m) s = empty;
    std::vector<int> group(N); for (int i = 0; i < N; i++) group[i] = i; int next = N; auto shared = [&](int a) { for (int i = 0; i < N; i++) if (i != a && group[i] == group[a] && !log[a].empty()) return true; return false; };
    int n = c.i(2, 40);
    for (int s = 0; s < n; s++) {
      int a = int(c.below(N)), b = int(c.below(N));
      switch (c.below(12)) {
        case 0: case 1: case 2: case 3: case 4: {
          if (log[a].size() > 24) { v[a].reset(new T()); log[a].clear(); m[a] = empty; group[a] = next++; }
          auto o = og::op(c, static_cast<const T*>(nullptr)); c.note("v%d %s", a, o.text.c_str()); if (shared(a)) shared_mutation = true; T model; BLResult want = BL_SUCCESS; log[a].push_back(o); for (auto& l : log[a]) want = l.run(model); BLResult r = o.run(*v[a]);
          REQUIRE(c, r == want, "v%d %s returned %X instead of %X", a, o.text.c_str(), unsigned(r), unsigned(want)); m[a] = og::fp(model); group[a] = next++; ops++; break;
        }
        case 5: case 6: c.note("v%d = v%d", a, b); set<T>(*v[a], *v[b]); log[a] = std::vector<og::Op<T>>(log[b]); m[a] = m[b]; group[a] = group[b]; REQUIRE(c, same<T>(*v[a], *v[b]), "a copy isn't equal"); break;
        case 7: c.note("v%d: new copy of v%d", a, b); if (a != b) { T* t = new T(static_cast<const T&>(*v[b])); v[a].reset(t); log[a] = log[b]; m[a] = m[b]; group[a] = group[b]; REQUIRE(c, same<T>(*v[a], *v[b]), "a copy isn't equal"); } break;
        case 8: if constexpr (movable<T>()) if constexpr (!std::is_same_v<T, BLVar>) { c.note("v%d = move(v%d)", a, b); *v[a] = std::move(*v[b]); if (a != b) { log[a] = log[b]; m[a] = m[b]; group[a] = group[b]; log[b].clear(); m[b] = empty; group[b] = next++; } } break;
        case 9: if constexpr (movable<T>()) if constexpr (!std::is_same_v<T, BLVar>) { if (a == b) break; c.note("v%d: moved from v%d", a, b); T* t = new T(std::move(*v[b])); v[a].reset(t); log[a] = log[b]; m[a] = m[b]; group[a] = group[b]; log[b].clear(); m[b] = empty; group[b] = next++; } break;
        case 10: if constexpr (has_swap<T>::value) { c.note("swap v%d v%d", a, b); v[a]->swap(*v[b]); std::swap(log[a], log[b]); std::swap(m[a], m[b]); std::swap(group[a], group[b]); } break;
        default:
          if (c.coin()) { c.note("v%d through a variant to v%d", b, a); if constexpr (object<T>() && !std::is_same_v<T, BLVar>) { BLVar x; x.assign(static_cast<const T&>(*v[b])); T t(static_cast<const T&>(x.template as<T>())); if (c.coin()) x.reset(); set<T>(*v[a], t); log[a] = log[b]; m[a] = m[b]; group[a] = group[b]; } }
          else { c.note("v%d reset", a); if constexpr (has_reset<T>::value) v[a]->reset(); else v[a].reset(new T()); log[a].clear(); m[a] = empty; group[a] = next++; }
      }
      for (int i = 0; i < N; i++) { std::string f = og::fp(*v[i]); REQUIRE(c, f == m[i], "v%d is %s instead of %s", i, f.substr(0, 400).c_str(), m[i].substr(0, 400).c_str()); }
      if constexpr (by_content<T>()) for (int i = 1; i < N; i++) { bool e = same<T>(*v[0], *v[i]); if (m[0] == m[i]) REQUIRE(c, e, "v0 and v%d have the same content, but aren't equal", i); else REQUIRE(c, !(e && has_eq<T>::value), "v0 and v%d differ, but are equal", i); }
    }
  }
  REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated", long(at::live) - before);
  c.label(shared_mutation, "shared object mutated"); c.nontrivial(shared_mutation && ops > 2);
}
static void containers(Case& c) { switch (c.below(6)) { case 0: pool<BLString>(c); break; case 1: pool<BLArray<int>>(c); break; case 2: pool<BLArray<double>>(c); break; case 3: pool<BLArray<BLString>>(c); break; case 4: pool<BLBitSet>(c); break; default: pool<BLBitArray>(c); } }
static void geometry(Case& c) { switch (c.below(2)) { case 0: pool<BLPath>(c); break; default: pool<BLStrokeOptions>(c); } }
static void styles(Case& c) { switch (c.below(3)) { case 0: pool<BLImage>(c); break; case 1: pool<BLGradient>(c); break; default: pool<BLPattern>(c); } }
static void fonts(Case& c) { switch (c.below(6)) { case 0: pool<BLFontFeatureSettings>(c); break; case 1: pool<BLFontVariationSettings>(c); break; case 2: pool<BLFontData>(c); break; case 3: pool<BLFontFace>(c); break; case 4: pool<BLFont>(c); break; default: pool<BLImageCodec>(c); } }
static void variants(Case& c) { pool<BLVar>(c); }

// Objects held by other objects: an image in patterns, variants, arrays and a rendering context.
static void nested(Case& c) {
  warm_up(); long before = at::live; int n = c.i(3, 40), links = 0;
  {
    BLImage img[2]; BLPattern pat[2]; BLGradient grad[2]; BLVar var[3]; BLArray<BLVar> arr[2]; BLPath path[2]; std::vector<std::string> ma[2]; BLImage target(8, 8, BL_FORMAT_PRGB32); BLContext ctx(target); int saves = 0; std::vector<std::string> style(1, "rgba32 ff000000"), style2(1, "rgba32 ff000000");
    ctx.set_fill_style(BLRgba32(0xFF000000u)); std::string mi[2], mp[2], mg[2], mv[3], mt[2]; auto snap = [&](int k, int i) { if (k == 0) mi[i] = og::fp(img[i]); if (k == 1) mp[i] = og::fp(pat[i]); if (k == 2) mg[i] = og::fp(grad[i]); if (k == 3) mv[i] = og::fp(var[i]); if (k == 4) mt[i] = og::fp(path[i]); };
    for (int k = 0; k < 5; k++) for (int i = 0; i < (k == 3 ? 3 : 2); i++) snap(k, i);
    for (int s = 0; s < n; s++) {
      int a = int(c.below(2)), b = int(c.below(2)), x = int(c.below(3));
      switch (c.below(19)) {
        case 0: case 1: { auto o = og::op(c, static_cast<const BLImage*>(nullptr)); c.note("img%d %s", a, o.text.c_str()); REQUIRE(c, o.run(img[a]) == BL_SUCCESS, "failed"); snap(0, a); break; }
        case 2: { auto o = og::op(c, static_cast<const BLGradient*>(nullptr)); c.note("grad%d %s", a, o.text.c_str()); o.run(grad[a]); snap(2, a); break; }
        case 3: { auto o = og::op(c, static_cast<const BLPath*>(nullptr)); c.note("path%d %s", a, o.text.c_str()); o.run(path[a]); snap(4, a); break; }
        case 4: c.note("pat%d.set_image(img%d)", a, b); pat[a].reset(); REQUIRE(c, pat[a].set_image(img[b]) == BL_SUCCESS, "set_image"); REQUIRE(c, og::fp(pat[a].get_image()) == mi[b], "pattern holds another image"); snap(1, a); links++; break;
        case 5: c.note("img%d = image of pat%d", b, a); img[b] = pat[a].get_image(); snap(0, b); REQUIRE(c, mp[a].find(mi[b]) != std::string::npos, "image of a pattern differs"); links++; break;
        case 6: c.note("var%d = img%d", x, a); var[x] = img[a]; mv[x] = mi[a]; links++; break;
        case 7: c.note("var%d = pat%d", x, a); var[x] = pat[a]; mv[x] = mp[a]; links++; break;
        case 8: c.note("var%d = grad%d", x, a); var[x] = grad[a]; mv[x] = mg[a]; links++; break;
        case 9: c.note("var%d = path%d", x, a); var[x] = path[a]; mv[x] = mt[a]; links++; break;
        case 10: c.note("mutate in var%d", x); switch (var[x].type()) { case BL_OBJECT_TYPE_IMAGE: { auto o = og::op(c, static_cast<const BLImage*>(nullptr)); o.run(var[x].as<BLImage>()); break; } case BL_OBJECT_TYPE_PATTERN: { auto o = og::op(c, static_cast<const BLPattern*>(nullptr)); o.run(var[x].as<BLPattern>()); break; } case BL_OBJECT_TYPE_GRADIENT: { auto o = og::op(c, static_cast<const BLGradient*>(nullptr)); o.run(var[x].as<BLGradient>()); break; } case BL_OBJECT_TYPE_PATH: { auto o = og::op(c, static_cast<const BLPath*>(nullptr)); o.run(var[x].as<BLPath>()); break; } default: break; } snap(3, x); break;
        case 11: c.note("arr%d.append(var%d)", a, x); if (arr[a].size() > 8) { arr[a].clear(); ma[a].clear(); } REQUIRE(c, arr[a].append(var[x]) == BL_SUCCESS, "append"); ma[a].push_back(mv[x]); links++; break;
        case 12: if (arr[a].size()) { size_t i = c.below(uint32_t(arr[a].size())); c.note("var%d = arr%d[%zu]", x, a, i); var[x].assign(static_cast<const BLVar&>(arr[a][i])); mv[x] = ma[a][i]; } break;
        case 13: if (arr[a].size()) { size_t i = c.below(uint32_t(arr[a].size())); c.note("arr%d[%zu] = var%d", a, i, x); REQUIRE(c, arr[a].replace(i, var[x]) == BL_SUCCESS, "replace"); ma[a][i] = mv[x]; } break;
        case 14: c.note("arr%d = arr%d", a, b); arr[a] = arr[b]; ma[a] = std::vector<std::string>(ma[b]); break;
        case 15: if (arr[a].size()) { size_t i = c.below(uint32_t(arr[a].size())); c.note("arr%d.remove(%zu)", a, i); REQUIRE(c, arr[a].remove(i) == BL_SUCCESS, "remove"); ma[a].erase(ma[a].begin() + long(i)); } break;
        case 16: {
          if (c.chance(1, 4)) { if (c.coin() && saves < 4) { c.note("save"); ctx.save(); saves++; style.push_back(style.back()); style2.push_back(style2.back()); } else if (saves) { c.note("restore"); ctx.restore(); saves--; style.pop_back(); style2.pop_back(); } break; }
          if (c.chance(1, 2)) {
            BLRgba32 k(c.u32()); switch (c.below(4)) { case 0: c.note("stroke style = grad%d", a); if (ctx.set_stroke_style(grad[a]) == BL_SUCCESS) style2.back() = mg[a]; break; case 1: c.note("stroke style = pat%d", a); if (ctx.set_stroke_style(pat[a]) == BL_SUCCESS) style2.back() = mp[a]; break; case 2: c.note("stroke style = color"); ctx.set_stroke_style(k); style2.back() = og::fp(BLVar(k)); break; default: c.note("fill style = color"); ctx.set_fill_style(k); style.back() = og::fp(BLVar(k)); }
            if (c.chance(1, 6)) { c.note("swap styles"); ctx.swap_styles(BL_CONTEXT_STYLE_SWAP_MODE_STYLES); std::swap(style.back(), style2.back()); } break;
          }
          if (c.coin() && var[x].is_style()) { c.note("fill style = var%d", x); if (ctx.set_fill_style(var[x]) == BL_SUCCESS) { BLVar got; ctx.get_fill_style(got); style.back() = og::fp(got); REQUIRE(c, got.type() == BL_OBJECT_TYPE_GRADIENT || got.type() == BL_OBJECT_TYPE_PATTERN || var[x].is_rgba() || got == var[x], "style differs"); } }
          else if (c.coin()) { c.note("fill style = grad%d", a); if (ctx.set_fill_style(grad[a]) == BL_SUCCESS) style.back() = mg[a]; } else { c.note("fill style = pat%d", a); if (ctx.set_fill_style(pat[a]) == BL_SUCCESS) style.back() = mp[a]; }
          links++; break;
        }
        case 17: { c.note("var%d = fill style", x); REQUIRE(c, ctx.get_fill_style(var[x]) == BL_SUCCESS, "get_fill_style"); snap(3, x); break; }
        default: c.note("fill"); ctx.fill_all(); if (c.coin()) { c.note("stroke"); ctx.stroke_line(BLLine(1, 1, 7, 6)); } break;
      }
      for (int i = 0; i < 2; i++) {
        REQUIRE(c, og::fp(img[i]) == mi[i], "img%d changed", i); REQUIRE(c, og::fp(pat[i]) == mp[i], "pat%d changed", i); REQUIRE(c, og::fp(grad[i]) == mg[i], "grad%d changed", i); REQUIRE(c, og::fp(path[i]) == mt[i], "path%d changed", i);
        REQUIRE(c, arr[i].size() == ma[i].size(), "arr%d has %zu items instead of %zu", i, arr[i].size(), ma[i].size()); for (size_t k = 0; k < ma[i].size(); k++) REQUIRE(c, og::fp(arr[i][k]) == ma[i][k], "arr%d[%zu] changed", i, k);
      }
      for (int i = 0; i < 3; i++) REQUIRE(c, og::fp(var[i]) == mv[i], "var%d changed: %s instead of %s", i, og::fp(var[i]).substr(0, 200).c_str(), mv[i].substr(0, 200).c_str());
      BLVar st; ctx.get_fill_style(st); REQUIRE(c, og::fp(st) == style.back(), "fill style changed: %s instead of %s", og::fp(st).substr(0, 200).c_str(), style.back().substr(0, 200).c_str());
      ctx.get_stroke_style(st); REQUIRE(c, og::fp(st) == style2.back(), "stroke style changed: %s instead of %s", og::fp(st).substr(0, 200).c_str(), style2.back().substr(0, 200).c_str());
    }
    if (c.coin()) ctx.end();
  }
  REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated", long(at::live) - before); c.nontrivial(links > 2);
}

// The C interface: functions that copy, construct and read objects agree with what the object holds.
template<class T, class F> static void c_copies(Case& c, const char* name, F get) {
  T a = og::build<T>(c, c.i(0, 6)), b = og::build<T>(c, c.i(0, 6)); bool shared = c.coin(), aliased = c.chance(1, 5); T keep; if (shared) keep = b; if (aliased) b = a; std::string fa = og::fp(a), fb = og::fp(b), fk = og::fp(keep); c.note("%s: %s over %s%s", name, fa.substr(0, 150).c_str(), fb.substr(0, 150).c_str(), shared ? " (shared)" : ""); get(a);
  if constexpr (std::is_same_v<T, BLPattern>) if (c.coin()) { c.note("assign_deep"); BLPattern s; bool self = c.chance(1, 8); REQUIRE(c, bl_pattern_assign_deep(&b, self ? &b : &a) == BL_SUCCESS, "assign_deep failed"); if (!self) fb = fa; REQUIRE(c, og::fp(b) == fb && og::fp(a) == fa && og::fp(keep) == fk, "assign_deep gave %s instead of %s", og::fp(b).substr(0, 200).c_str(), fb.substr(0, 200).c_str()); b.translate(3, 4); REQUIRE(c, og::fp(a) == fa && og::fp(keep) == fk, "a deep copy shares"); return; }
  switch (c.below(4)) {
    case 0: { alignas(T) unsigned char m[sizeof(T)]; T* t = reinterpret_cast<T*>(m); REQUIRE(c, bl_object_init_weak(t, &a) == BL_SUCCESS && og::fp(*t) == fa, "init_weak"); t->~T(); break; }
    case 1: { alignas(T) unsigned char m[sizeof(T)]; T* t = reinterpret_cast<T*>(m); T src(a); REQUIRE(c, bl_object_init_move(t, &src) == BL_SUCCESS && og::fp(*t) == fa && og::fp(src) == og::fp(T()), "init_move: %s", og::fp(src).substr(0, 200).c_str()); t->~T(); break; }
    case 2: { T src(a); REQUIRE(c, bl_object_assign_move(&b, &src) == BL_SUCCESS && og::fp(b) == fa && og::fp(src) == og::fp(T()), "assign_move"); break; }
    default: REQUIRE(c, bl_object_assign_weak(&b, &a) == BL_SUCCESS && og::fp(b) == fa, "assign_weak"); 
  }
  REQUIRE(c, og::fp(a) == fa && og::fp(keep) == fk, "another object changed");
}
static void on_destroyed(void*, void*, void* user) noexcept { ++*static_cast<int*>(user); }
static void c_initializers(Case& c) {
  switch (c.below(6)) {
    case 0: { BLObjectType t = BLObjectType(c.i(BL_OBJECT_TYPE_ARRAY_OBJECT, BL_OBJECT_TYPE_ARRAY_STRUCT_32)); BLArrayCore a; REQUIRE(c, bl_array_init(&a, t) == BL_SUCCESS, "bl_array_init"); c.note("array of type %d", int(t)); static const size_t sizes[] = { sizeof(BLObjectCore), 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1, 2, 3, 4, 6, 8, 10, 12, 16, 20, 24, 32 }; size_t z = sizes[t - BL_OBJECT_TYPE_ARRAY_OBJECT]; REQUIRE(c, a._d.raw_type() == t && bl_array_get_item_size(&a) == z && bl_array_get_size(&a) == 0, "an array of type %d has items of %zu bytes", int(t), bl_array_get_item_size(&a));
      if (t != BL_OBJECT_TYPE_ARRAY_OBJECT) { std::string m; int n = c.i(0, 30); for (int i = 0; i < n; i++) { unsigned char item[32]; for (auto& b : item) b = c.byte(); REQUIRE(c, bl_array_append_item(&a, item) == BL_SUCCESS, "append"); m.append(reinterpret_cast<char*>(item), z); } BLArrayCore b; REQUIRE(c, bl_array_init_move(&b, &a) == BL_SUCCESS && bl_array_get_size(&b) == size_t(n) && bl_array_get_size(&a) == 0 && a._d.raw_type() == t && (!n || !memcmp(bl_array_get_data(&b), m.data(), m.size())), "bl_array_init_move: %zu items, %zu remain", bl_array_get_size(&b), bl_array_get_size(&a));
        BLArrayCore w; REQUIRE(c, bl_array_init_weak(&w, &b) == BL_SUCCESS && bl_array_equals(&w, &b), "bl_array_init_weak"); unsigned char item[32]{}; bl_array_append_item(&w, item); REQUIRE(c, bl_array_get_size(&b) == size_t(n) && (!n || !memcmp(bl_array_get_data(&b), m.data(), m.size())), "the copy shares"); bl_array_destroy(&w); bl_array_destroy(&b); }
      bl_array_destroy(&a); break; }
    case 1: { BLString a = og::build<BLString>(c, 4), k(a); BLStringCore b; bl_string_init_move(&b, &a); REQUIRE(c, a.is_empty() && k.equals(static_cast<BLString&>(b)), "string moved"); bl_string_destroy(&b); BLBitArray ba = og::build<BLBitArray>(c, 4), kb(ba); BLBitArrayCore bb; bl_bit_array_init_move(&bb, &ba); REQUIRE(c, ba.is_empty() && kb.equals(static_cast<BLBitArray&>(bb)), "bit array moved"); bl_bit_array_destroy(&bb); BLBitSet bs = og::build<BLBitSet>(c, 4), ks(bs); BLBitSetCore bt; bl_bit_set_init_move(&bt, &bs); REQUIRE(c, bs.is_empty() && ks.equals(static_cast<BLBitSet&>(bt)), "bit set moved"); bl_bit_set_destroy(&bt);
      BLFontFeatureSettings f = og::build<BLFontFeatureSettings>(c, 4), kf(f); BLFontFeatureSettingsCore fb; bl_font_feature_settings_init_move(&fb, &f); REQUIRE(c, f.is_empty() && kf.equals(static_cast<BLFontFeatureSettings&>(fb)), "features moved"); bl_font_feature_settings_destroy(&fb); BLFontVariationSettings v = og::build<BLFontVariationSettings>(c, 4), kv(v); BLFontVariationSettingsCore vb; bl_font_variation_settings_init_move(&vb, &v); REQUIRE(c, v.is_empty() && kv.equals(static_cast<BLFontVariationSettings&>(vb)), "variations moved"); bl_font_variation_settings_destroy(&vb); break; }
    case 2: { // pixels of the application in an image
      int w = c.i(1, 9), h = c.i(1, 9); BLFormat f = c.pick({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); intptr_t stride = w * (f == BL_FORMAT_A8 ? 1 : 4) + (f == BL_FORMAT_A8 ? c.i(0, 5) : 4 * c.i(0, 2)); std::vector<uint32_t> mem(size_t(stride * h) / 4 + 1); for (auto& x : mem) x = c.u32() | 0xFF000000u; auto keep = mem; bool ro = c.coin(); int destroyed = 0; c.note("%dx%d of format %d%s", w, h, int(f), ro ? ", read only" : "");
      BLImageCore a; REQUIRE(c, bl_image_init_as_from_data(&a, w, h, f, mem.data(), stride, ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, on_destroyed, &destroyed) == BL_SUCCESS, "init_as_from_data"); BLImageData d; bl_image_get_data(&a, &d); REQUIRE(c, d.pixel_data == mem.data() && d.stride == stride && d.size.w == w && d.size.h == h && d.format == uint32_t(f), "the image doesn't have the given pixels");
      BLImage b(static_cast<BLImage&>(a)); bool write = c.coin(); if (write) { REQUIRE(c, b.make_mutable(&d) == BL_SUCCESS && d.pixel_data != mem.data(), "a copy of the image writes to its pixels"); memset(d.pixel_data, 77, size_t(w)); } if (ro) { BLImageData e; REQUIRE(c, bl_image_make_mutable(&a, &e) == BL_SUCCESS && e.pixel_data != mem.data(), "read only pixels became writable"); }
      REQUIRE(c, mem == keep, "the pixels changed"); bool gone = ro && write; REQUIRE(c, destroyed == int(gone), "the pixels were released %d times with %s", destroyed, gone ? "no user" : "a user"); bl_image_destroy(&a); REQUIRE(c, destroyed == int(write || gone), "released %d times after destroying the first image", destroyed); b.reset(); REQUIRE(c, destroyed == 1, "released %d times", destroyed); break; }
    case 3: { const char* n = c.pick({"BMP", "PNG", "QOI", "JPEG", "GIF", ""}); BLImageCodec k; BLResult r = k.find_by_name(n); BLImageCodecCore m; BLResult q = bl_image_codec_init_by_name(&m, n, c.coin() ? SIZE_MAX : strlen(n), nullptr); REQUIRE(c, q == r, "init_by_name(%s) returned %X instead of %X", n, unsigned(q), unsigned(r)); REQUIRE(c, static_cast<BLImageCodec&>(m) == k, "another codec was found for %s", n); BLImageCodec t; REQUIRE(c, bl_image_codec_assign_move(&t, &m) == BL_SUCCESS && t == k && !static_cast<BLImageCodec&>(m).is_valid(), "codec moved"); bl_image_codec_destroy(&m); BLArray<BLImageCodec> l; REQUIRE(c, bl_image_codec_array_assign_built_in_codecs(&l) == BL_SUCCESS && l.size() == BLImageCodec::built_in_codecs().size(), "built-in codecs"); break; }
    case 4: { BLMatrix2D a, b; double x = c.real(-9, 9), y = c.real(-9, 9); for (double* p : { &a.m00, &b.m00 }) for (int i = 0; i < 6; i++) p[i] = i; bl_matrix2d_set_identity(&a); REQUIRE(c, a == BLMatrix2D(1, 0, 0, 1, 0, 0), "identity"); bl_matrix2d_set_translation(&a, x, y); REQUIRE(c, a == BLMatrix2D(1, 0, 0, 1, x, y), "translation"); bl_matrix2d_set_scaling(&b, x, y); REQUIRE(c, b == BLMatrix2D(x, 0, 0, y, 0, 0), "scaling"); BLPattern p = og::build<BLPattern>(c, 4), q(p); BLExtendMode e = BLExtendMode(c.below(BL_EXTEND_MODE_COMPLEX_MAX_VALUE + 3)); bool ok = e <= BL_EXTEND_MODE_COMPLEX_MAX_VALUE; std::string fq = og::fp(q); BLExtendMode o = p.extend_mode(); REQUIRE(c, (bl_pattern_set_extend_mode(&p, e) == BL_SUCCESS) == ok && p.extend_mode() == (ok ? e : o) && og::fp(q) == fq, "set_extend_mode(%d) of a pattern with %d gave %d", int(e), int(o), int(p.extend_mode())); break; }
    default: { BLGlyphBuffer g; std::u32string t; int n = c.i(0, 20); for (int i = 0; i < n; i++) t += char32_t(c.coin() ? 65 + c.below(26) : 0x100 + c.below(3000)); g.set_utf32_text(reinterpret_cast<const uint32_t*>(t.data()), t.size()); if (c.coin()) { BLFont f; f.create_from_face(og::shared_face(), 20); REQUIRE(c, f.shape(g) == BL_SUCCESS, "shape"); } REQUIRE(c, bl_glyph_buffer_get_size(&g) == g.size() && bl_glyph_buffer_get_flags(&g) == g.flags() && bl_glyph_buffer_get_content(&g) == g.content() && bl_glyph_buffer_get_info_data(&g) == g.info_data() && bl_glyph_buffer_get_placement_data(&g) == g.placement_data() && bl_glyph_buffer_get_glyph_run(&g) == &g.glyph_run(), "glyph buffer getters"); BLGlyphBufferCore m; std::vector<uint32_t> k(g.content(), g.content() + g.size()); bl_glyph_buffer_init_move(&m, &g); REQUIRE(c, g.size() == 0 && bl_glyph_buffer_get_size(&m) == k.size() && (k.empty() || !memcmp(bl_glyph_buffer_get_content(&m), k.data(), k.size() * 4)), "glyph buffer moved"); bl_glyph_buffer_destroy(&m); }
  }
}
static void c_functions(Case& c) {
  og::shared_face(); long before = at::live; {
  switch (c.below(17)) {
    case 14: case 15: case 16: c_initializers(c); break;
    case 0: c_copies<BLString>(c, "string", [&](BLString& x) { REQUIRE(c, bl_string_get_size(&x) == x.size() && bl_string_get_capacity(&x) == x.capacity() && bl_string_get_data(&x) == x.data(), "getters"); }); break;
    case 1: c_copies<BLArray<int>>(c, "array of int", [&](BLArray<int>& x) { REQUIRE(c, bl_array_get_size(&x) == x.size() && bl_array_get_capacity(&x) == x.capacity() && bl_array_get_data(&x) == x.data() && bl_array_get_item_size(&x) == sizeof(int), "getters"); }); break;
    case 2: { c_copies<BLArray<double>>(c, "array of double", [&](BLArray<double>& x) { REQUIRE(c, bl_array_get_size(&x) == x.size() && bl_array_get_data(&x) == x.data() && bl_array_get_item_size(&x) == sizeof(double), "getters"); });
      BLArray<float> f, g; std::vector<float> m; int n = c.i(0, 9); for (int i = 0; i < n; i++) { float v = float(c.real(-9, 9)); if (c.coin()) bl_array_append_f32(&f, v); else { size_t at = c.below(m.size() + 1); bl_array_insert_f32(&f, at, v); m.insert(m.begin() + long(at), v); continue; } m.push_back(v); } if (c.coin()) g = f; if (m.size()) { size_t at = c.below(m.size()); float v = float(c.real(-9, 9)); REQUIRE(c, bl_array_replace_f32(&f, at, v) == BL_SUCCESS, "replace_f32"); REQUIRE(c, !g.size() || g[at] == m[at], "replace_f32 changed a copy"); m[at] = v; } REQUIRE(c, bl_array_replace_f32(&f, m.size(), 1) != BL_SUCCESS, "replace_f32 behind the end"); REQUIRE(c, f.size() == m.size() && (m.empty() || !memcmp(f.data(), m.data(), m.size() * 4)), "array of float differs"); break; }
    case 3: c_copies<BLArray<BLString>>(c, "array of strings", [](BLArray<BLString>&) {}); break;
    case 4: { c_copies<BLBitSet>(c, "bit set", [](BLBitSet&) {}); uint32_t a = c.coin() ? c.u32() : c.below(300), b = c.coin() ? c.u32() : c.below(300); BLBitSetCore s; bool ok = bl_bit_set_init_range(&s, a, b) == BL_SUCCESS; REQUIRE(c, ok == (a < b), "init_range %u %u", a, b); if (ok) { BLBitSet t; t.add_range(a, b); REQUIRE(c, bl_bit_set_equals(&s, &t) && bl_bit_set_get_cardinality_in_range(&s, 0, UINT32_MAX) == b - a, "init_range %u %u gave another set", a, b); } bl_bit_set_destroy(&s); break; }
    case 5: c_copies<BLBitArray>(c, "bit array", [&](BLBitArray& x) { REQUIRE(c, bl_bit_array_get_size(&x) == x.size() && bl_bit_array_get_capacity(&x) == x.capacity() && bl_bit_array_get_word_count(&x) == (x.size() + 31) / 32 && bl_bit_array_get_data(&x) == x.data(), "getters"); }); break;
    case 6: c_copies<BLPath>(c, "path", [&](BLPath& x) { REQUIRE(c, bl_path_get_size(&x) == x.size() && bl_path_get_capacity(&x) == x.capacity() && bl_path_get_command_data(&x) == x.command_data() && bl_path_get_vertex_data(&x) == x.vertex_data(), "getters"); }); break;
    case 7: c_copies<BLImage>(c, "image", [](BLImage&) {}); break;
    case 8: c_copies<BLGradient>(c, "gradient", [&](BLGradient& x) { BLMatrix2D m; REQUIRE(c, bl_gradient_get_type(&x) == x.type() && bl_gradient_get_extend_mode(&x) == x.extend_mode() && bl_gradient_get_size(&x) == x.size() && bl_gradient_get_capacity(&x) == x.capacity() && bl_gradient_get_stops(&x) == x.stops() && bl_gradient_get_transform_type(&x) == x.transform_type() && bl_gradient_get_transform(&x, &m) == BL_SUCCESS && m == x.transform(), "getters"); for (size_t i = 0; i < 6; i++) REQUIRE(c, bl_gradient_get_value(&x, i) == x.value(i), "value %zu", i); }); break;
    case 9: case 10: c_copies<BLPattern>(c, "pattern", [&](BLPattern& x) { BLMatrix2D m; BLRectI r; BLImage i; REQUIRE(c, bl_pattern_get_extend_mode(&x) == x.extend_mode() && bl_pattern_get_transform_type(&x) == x.transform_type() && bl_pattern_get_transform(&x, &m) == BL_SUCCESS && m == x.transform() && bl_pattern_get_area(&x, &r) == BL_SUCCESS && r == x.area() && bl_pattern_get_image(&x, &i) == BL_SUCCESS && i == x.get_image(), "getters"); }); break;
    case 11: c_copies<BLFont>(c, "font", [&](BLFont& x) { BLFontFace f; BLFontMetrics a, b(x.metrics()); BLFontMatrix ma, mb(x.matrix()); BLFontDesignMetrics d, e(x.design_metrics()); BLFontFeatureSettings fs; BLFontVariationSettings vs; REQUIRE(c, bl_font_get_size(&x) == x.size() && bl_font_get_face(&x, &f) == BL_SUCCESS && f == x.face(), "size or face"); REQUIRE(c, bl_font_get_metrics(&x, &a) == BL_SUCCESS && !memcmp(&a, &b, sizeof a) && bl_font_get_matrix(&x, &ma) == BL_SUCCESS && !memcmp(&ma, &mb, sizeof ma) && bl_font_get_design_metrics(&x, &d) == BL_SUCCESS && !memcmp(&d, &e, sizeof d), "metrics"); REQUIRE(c, bl_font_get_feature_settings(&x, &fs) == BL_SUCCESS && og::fp(fs) == og::fp(x.feature_settings()) && bl_font_get_variation_settings(&x, &vs) == BL_SUCCESS && og::fp(vs) == og::fp(x.variation_settings()), "settings");
        BLString n; if (f.is_valid()) { REQUIRE(c, bl_font_face_get_full_name(&f, &n) == BL_SUCCESS && n == f.full_name(), "full name"); REQUIRE(c, bl_font_face_get_family_name(&f, &n) == BL_SUCCESS && n == f.family_name(), "family name"); REQUIRE(c, bl_font_face_get_subfamily_name(&f, &n) == BL_SUCCESS && n == f.subfamily_name(), "subfamily name"); REQUIRE(c, bl_font_face_get_post_script_name(&f, &n) == BL_SUCCESS && n == f.post_script_name(), "postscript name"); BLFontFaceInfo fi; BLFontFaceInfo fj = f.face_info(); REQUIRE(c, bl_font_face_get_face_info(&f, &fi) == BL_SUCCESS && !memcmp(&fi, &fj, sizeof fi), "face info"); BLFontCoverageInfo ci, cj = f.coverage_info(); REQUIRE(c, bl_font_face_get_coverage_info(&f, &ci) == BL_SUCCESS && !memcmp(&ci, &cj, sizeof ci), "coverage info"); BLFontPanoseInfo pi, pj = f.panose_info(); REQUIRE(c, bl_font_face_get_panose_info(&f, &pi) == BL_SUCCESS && !memcmp(&pi, &pj, sizeof pi), "panose"); BLFontDesignMetrics fd, fe = f.design_metrics(); REQUIRE(c, bl_font_face_get_design_metrics(&f, &fd) == BL_SUCCESS && !memcmp(&fd, &fe, sizeof fd), "design metrics"); BLFontData data = f.data(); REQUIRE(c, bl_font_data_get_face_count(&data) == data.face_count() && bl_font_data_get_face_type(&data) == data.face_type() && bl_font_data_get_flags(&data) == data.flags(), "font data"); } }); break;
    case 12: if (c.coin()) c_copies<BLFontFeatureSettings>(c, "features", [&](BLFontFeatureSettings& x) { REQUIRE(c, bl_font_feature_settings_get_size(&x) == x.size() && bl_font_feature_settings_get_capacity(&x) == x.capacity(), "getters"); }); else c_copies<BLFontVariationSettings>(c, "variations", [&](BLFontVariationSettings& x) { REQUIRE(c, bl_font_variation_settings_get_size(&x) == x.size() && bl_font_variation_settings_get_capacity(&x) == x.capacity(), "getters"); }); break;
    default: { // values constructed through the C interface equal those of the C++ one
      BLVar a, b; double d = c.coin() ? c.real(-9, 9) : NAN; uint64_t u = c.u64(); BLRgba f(float(c.frac()), float(c.frac()), float(c.frac()), float(c.frac())); bl_var_destroy(&a);
      switch (c.below(10)) { case 0: bl_var_init_null(&a); break; case 1: bl_var_init_bool(&a, u & 1); b = bool(u & 1); break; case 2: bl_var_init_int32(&a, int32_t(u)); b = int32_t(u); break; case 3: bl_var_init_int64(&a, int64_t(u)); b = int64_t(u); break; case 4: bl_var_init_uint32(&a, uint32_t(u)); b = uint32_t(u); break; case 5: bl_var_init_uint64(&a, u); b = u; break; case 6: bl_var_init_double(&a, d); b = d; break; case 7: bl_var_init_rgba(&a, &f); b = f; break; case 8: bl_var_init_rgba32(&a, uint32_t(u)); b = BLRgba32(uint32_t(u)); break; default: bl_var_init_rgba64(&a, u); b = BLRgba64(u); }
      REQUIRE(c, a.type() == b.type() && memcmp(&a, &b, 16) == 0, "bl_var_init_* gave %s instead of %s", og::fp(a).c_str(), og::fp(b).c_str());
      // the generic property functions
      BLImageDecoder dec; BLImageCodec k; k.find_by_name("BMP"); k.create_decoder(&dec); int32_t i32; int64_t i64; uint64_t u64; double dd; bool bb; const char* none = "nothing"; size_t nz = c.coin() ? SIZE_MAX : 7; BLUnknown* o = &dec; REQUIRE(c, bl_object_get_property_bool(o, none, nz, &bb) != BL_SUCCESS && bl_object_get_property_int32(o, none, nz, &i32) != BL_SUCCESS && bl_object_get_property_int64(o, none, nz, &i64) != BL_SUCCESS && bl_object_get_property_uint64(o, none, nz, &u64) != BL_SUCCESS && bl_object_get_property_double(o, none, nz, &dd) != BL_SUCCESS, "an unknown property was read"); REQUIRE(c, bl_object_set_property_bool(o, none, nz, true) != BL_SUCCESS && bl_object_set_property_int32(o, none, nz, 1) != BL_SUCCESS && bl_object_set_property_int64(o, none, nz, 1) != BL_SUCCESS && bl_object_set_property_uint32(o, none, nz, 1) != BL_SUCCESS && bl_object_set_property_uint64(o, none, nz, 1) != BL_SUCCESS && bl_object_set_property_double(o, none, nz, 1) != BL_SUCCESS, "an unknown property was written");
      BLImageEncoder enc; k.find_by_name("PNG"); k.create_encoder(&enc); BLUnknown* e = &enc; int level = c.i(0, 12); const char* cn = "compression"; BLResult r = 1; switch (c.below(5)) { case 0: r = bl_object_set_property_int32(e, cn, SIZE_MAX, level); break; case 1: r = bl_object_set_property_int64(e, cn, 11, level); break; case 2: r = bl_object_set_property_uint32(e, cn, SIZE_MAX, uint32_t(level)); break; case 3: r = bl_object_set_property_uint64(e, cn, 11, uint64_t(level)); break; default: r = bl_object_set_property_double(e, cn, SIZE_MAX, level); }
      REQUIRE(c, r == BL_SUCCESS, "compression %d wasn't set: %X", level, unsigned(r)); REQUIRE(c, bl_object_get_property_int32(e, cn, SIZE_MAX, &i32) == BL_SUCCESS && i32 == level && bl_object_get_property_int64(e, cn, 11, &i64) == BL_SUCCESS && i64 == level && bl_object_get_property_uint64(e, cn, 11, &u64) == BL_SUCCESS && u64 == uint64_t(level) && bl_object_get_property_double(e, cn, 11, &dd) == BL_SUCCESS && dd == level, "compression %d isn't read back", level); }
  } }
  REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated", long(at::live) - before); c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Suite s("C05", "non-trivial = an object shared by several variables was mutated through one of them and more than two mutations were made (pools); more than two objects were put into others (nested)", argc, argv);
  s.add("containers", containers, {.quick = 20000, .thorough = 800000});
  s.add("geometry", geometry, {.quick = 10000, .thorough = 400000});
  s.add("styles", styles, {.quick = 15000, .thorough = 600000});
  s.add("fonts", fonts, {.quick = 12000, .thorough = 500000});
  s.add("variants", variants, {.quick = 6000, .thorough = 200000});
  s.add("nested", nested, {.quick = 15000, .thorough = 600000});
  s.add("c_functions", c_functions, {.quick = 15000, .thorough = 500000});
  s.assume("a moved-from object is a default one; for variants only the destination of a move is checked here (C07 checks the source)");
  s.assume("fonts, faces, font data and codecs are compared by identity, so only copies have to be equal");
  return s.run();
}
