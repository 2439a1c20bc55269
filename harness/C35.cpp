// C35: threads share immutable objects. Several threads run generated programs over shared objects (by reference or as
// copies) under ThreadSanitizer; then the same programs are run alone and must have seen the same values.
// VARIANT: tsan
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "alloc_track.h"
#include "pbt.h"
#include "objgen.h"
#include "scene.h"
#include "fontgen.h"
#include <tuple>
#include <thread>
#include <memory>
#include <set>
using pbt::Case; using pbt::fmt;
// ThreadSanitizer takes a failed compare-and-exchange for a write. The function stores the coverage the first time it's
// asked for it, in that way, and a thread that came second may fail to do so while the first one reads what it stored.
extern "C" const char* __tsan_default_suppressions() { return "race:bl_font_face_get_character_coverage\n"; }

typedef std::tuple<BLString, BLArray<int>, BLArray<BLString>, BLBitSet, BLBitArray, BLPath, BLImage, BLGradient, BLPattern, BLFontFeatureSettings, BLFontVariationSettings, BLFontData, BLFontFace, BLFont, BLStrokeOptions, BLVar, BLImageCodec> Set;
struct Thread { Set local; std::string log; };
struct Program { std::vector<std::function<void(const Set&, Thread&)>> steps; std::vector<std::string> text; };

struct Gate { std::atomic<int> n{0}; void wait(int total) { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < total) std::this_thread::yield(); } };
template<class F> static void together(int n, F f) { Gate g; std::vector<std::thread> t; for (int i = 0; i < n; i++) t.emplace_back([&, i] { g.wait(n); f(i); }); for (auto& x : t) x.join(); }

// Everything that can be asked about a shared object.
template<class T> static std::string ask(const T&, uint32_t) { return ""; }
static std::string ask(const BLPath& p, uint32_t k) {
  std::string r; BLBox b; BLPoint pt(double(k % 41) - 20, double(k / 41 % 41) - 20);
  switch (k % 6) {
    case 0: { b.reset(); BLResult e = p.get_bounding_box(&b); return fmt("bbox %X %a %a %a %a", unsigned(e), b.x0, b.y0, b.x1, b.y1); }
    case 1: { b.reset(); BLResult e = p.get_control_box(&b); return fmt("cbox %X %a %a %a %a", unsigned(e), b.x0, b.y0, b.x1, b.y1); }
    case 2: { uint32_t f = 0; BLResult e = p.get_info_flags(&f); return fmt("info %X %X", unsigned(e), f); }
    case 3: return fmt("hit %d", int(p.hit_test(pt, BLFillRule(k / 7 % 2))));
    case 4: { size_t i = 0; double d = 0; BLResult e = p.get_closest_vertex(pt, double(k / 11 % 30), &i, &d); return fmt("closest %X %zu", unsigned(e), e == BL_SUCCESS ? i : 0); }
    default: { BLPath q; BLResult e = q.add_path(p); e |= q.add_stroked_path(p, BLStrokeOptions(), bl_default_approximation_options); return fmt("stroked %X ", unsigned(e)) + og::fp(q); }
  }
}
static std::string ask(const BLFont& f, uint32_t k) {
  if (!f.is_valid()) return "no font"; const char* texts[] = {"fi", "AVATAR", "Blend2D ffi", "To", ""}; const char* t = texts[k % 5]; BLGlyphBuffer gb; gb.set_utf8_text(t); BLResult e = f.shape(gb); std::string r = fmt("shape %X %zu:", unsigned(e), gb.size());
  for (size_t i = 0; i < gb.size(); i++) r += fmt(" %u", gb.content()[i]); if (k % 3 == 0) { BLPath p; e = f.get_glyph_run_outlines(gb.glyph_run(), BLMatrix2D::make_identity(), p); r += og::fp(p); } else { BLTextMetrics tm{}; f.get_text_metrics(gb, tm); r += fmt(" %a", tm.advance.x); } return r;
}
static std::string ask(const BLFontFace& f, uint32_t k) {
  if (!f.is_valid()) return "no face"; BLFontCoverageInfo ci; (void)ci; BLBitSet cs; BLArray<BLTag> tags; if (k % 3 == 0) { f.get_character_coverage(&cs); return og::fp(cs); } if (k % 3 == 1) { f.get_feature_tags(&tags); return og::fp(tags); } f.get_script_tags(&tags); return og::fp(tags) + og::fp(f.full_name()) + og::fp(f.post_script_name());
}
static std::string ask(const BLFontData& d, uint32_t k) { if (!d.is_valid()) return "no data"; BLFontFace f; BLResult e = f.create_from_data(d, 0); std::string r = fmt("create %X ", unsigned(e)) + og::fp(f); BLArray<BLTag> t; if (k % 2) { d.get_table_tags(0, t); r += og::fp(t); } return r; }
static std::string ask(const BLImage& im, uint32_t k) {
  BLImage q; if (k % 3 == 0) { if (im.is_empty()) return "empty"; BLResult e = BLImage::scale(q, im, BLSizeI(int(k / 3 % 9) + 1, int(k / 29 % 9) + 1), BL_IMAGE_SCALE_FILTER_BILINEAR); return fmt("scale %X ", unsigned(e)) + og::fp(q); }
  if (k % 3 == 1) { q = im; BLResult e = q.convert(BLFormat(1 + k / 3 % 3)); return fmt("convert %X ", unsigned(e)) + og::fp(q); }
  if (im.is_empty()) return "empty"; BLImageCodec codec; codec.find_by_name(k / 3 % 2 ? "PNG" : "QOI"); BLArray<uint8_t> a; BLResult e = im.write_to_data(a, codec); std::string r = fmt("encode %X ", unsigned(e)); if (e == BL_SUCCESS) { e = q.read_from_data(a); r += fmt("decode %X ", unsigned(e)) + og::fp(q); } return r;
}
static std::string ask(const BLImageCodec& k, uint32_t v) { BLImage im(3, 2, BL_FORMAT_PRGB32); BLContext ctx(im); ctx.fill_all(BLRgba32(v | 0xFF000000u)); ctx.end(); BLArray<uint8_t> a; if (!k.is_valid() || !(k.features() & BL_IMAGE_CODEC_FEATURE_WRITE)) return "none"; BLResult e = im.write_to_data(a, k); return fmt("encode %X %zu", unsigned(e), a.size()); }
static std::string ask(const BLVar& v, uint32_t) { uint64_t u = 0; BLResult e = v.to_uint64(&u); BLVar w(v); return fmt("%X %d", unsigned(e), int(w == v)); }
// The cardinality of a bit set is cached in the object itself, see the sub-check "cardinality".
static std::string ask(const BLBitSet& shared, uint32_t k) { BLBitSet s(shared); return fmt("%d %u", int(s.has_bit(k % 200)), s.cardinality_in_range(k % 64, 64 + k % 999)); }
static std::string ask(const BLString& s, uint32_t k) { return fmt("%zu %d", s.index_of(char('a' + k % 26)), int(s == BLString(s))); }

// Draws with shared objects into an own image.
static std::string draw(const Set& S, uint32_t k, int threads, const BLRgba32& col) {
  BLImage im(24, 20, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); BLContext ctx(im, ci); if (!ctx.is_valid()) return "no context"; ctx.clear_all(); std::string r; ctx.set_gradient_quality((k >> 24) & 1 ? BL_GRADIENT_QUALITY_DITHER : BL_GRADIENT_QUALITY_NEAREST); ctx.set_pattern_quality((k >> 25) & 1 ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST);
  auto did = [&](BLResult e) { r += fmt("%X ", unsigned(e)); };
  const BLPath& p = std::get<BLPath>(S); const BLImage& src = std::get<BLImage>(S); const BLFont& font = std::get<BLFont>(S);
  for (int i = 0; i < 3; i++, k /= 12) switch (k % 12) {
    case 0: did(ctx.fill_path(BLPoint(3, 2), p, col)); break; case 1: did(ctx.fill_path(p, std::get<BLGradient>(S))); break; case 2: did(ctx.fill_path(BLPoint(9, 8), p, std::get<BLPattern>(S))); break;
    case 3: did(ctx.set_stroke_options(std::get<BLStrokeOptions>(S))); did(ctx.stroke_path(BLPoint(8, 8), p, std::get<BLGradient>(S))); break;
    case 4: did(ctx.fill_all(std::get<BLGradient>(S))); break; case 5: did(ctx.fill_rect(BLRect(2.5, 1, 12, 14.25), std::get<BLPattern>(S))); break;
    case 6: did(ctx.blit_image(BLPointI(2, 3), src)); break; case 7: if (!src.is_empty()) did(ctx.blit_image(BLRect(1.5, 2, 15, 9), src)); break; case 8: if (!src.is_empty()) did(ctx.fill_mask(BLPointI(1, 2), src, std::get<BLGradient>(S))); break;
    case 9: if (font.is_valid()) did(ctx.fill_utf8_text(BLPoint(1, 14), font, "fAg", SIZE_MAX, std::get<BLGradient>(S))); break;
    case 10: did(ctx.set_fill_style(std::get<BLVar>(S)) & 0); did(ctx.fill_circle(10, 9, 6.5)); break; default: did(ctx.set_stroke_style(std::get<BLPattern>(S))); did(ctx.stroke_line(1, 1, 20, 13)); break;
  }
  r += fmt("flags %X ", unsigned(ctx.accumulated_error_flags() & ~BL_CONTEXT_ERROR_FLAG_INVALID_VALUE)); ctx.end(); return r + og::fp(im);
}

template<class T> static void typed_step(Case& c, Program& p, const char* name) {
  uint32_t k = c.u32();
  switch (c.weighted({5, 3, 4, 2, 2})) {
    case 0: p.text.push_back(fmt("read the shared %s", name)); p.steps.push_back([k](const Set& S, Thread& t) { const T& o = std::get<T>(S); t.log += ask(o, k) + (k & 1 ? og::fp(T(o)) : "") + "\n"; }); break;
    case 1: p.text.push_back(fmt("copy the shared %s", name)); p.steps.push_back([](const Set& S, Thread& t) { bl_object_assign_weak(reinterpret_cast<BLObjectCore*>(&std::get<T>(t.local)), reinterpret_cast<const BLObjectCore*>(&std::get<T>(S))); }); break;
    case 2: { auto o = std::make_shared<og::Op<T>>(og::op(c, static_cast<const T*>(nullptr))); p.text.push_back(fmt("%s own %s", o->text.c_str(), name)); p.steps.push_back([o](const Set&, Thread& t) { BLResult r = o->run(std::get<T>(t.local)); t.log += fmt("%X ", unsigned(r)) + og::fp(std::get<T>(t.local)) + "\n"; }); break; }
    case 3: p.text.push_back(fmt("drop own %s", name)); p.steps.push_back([](const Set&, Thread& t) { bl_object_reset(reinterpret_cast<BLObjectCore*>(&std::get<T>(t.local))); }); break;
    default: p.text.push_back(fmt("read own %s", name)); p.steps.push_back([k](const Set&, Thread& t) { const T& o = std::get<T>(t.local); t.log += ask(o, k) + og::fp(o) + "\n"; });
  }
}
template<> void typed_step<BLStrokeOptions>(Case& c, Program& p, const char*) {
  auto o = std::make_shared<og::Op<BLStrokeOptions>>(og::op(c, static_cast<const BLStrokeOptions*>(nullptr))); bool copy = c.coin(); p.text.push_back(o->text + " own stroke options");
  p.steps.push_back([o, copy](const Set& S, Thread& t) { if (copy) std::get<BLStrokeOptions>(t.local) = std::get<BLStrokeOptions>(S); o->run(std::get<BLStrokeOptions>(t.local)); t.log += og::fp(std::get<BLStrokeOptions>(t.local)) + "\n"; });
}
static const char* names[] = {"string", "array", "array of strings", "bit set", "bit array", "path", "image", "gradient", "pattern", "features", "variations", "font data", "face", "font", "stroke options", "variant", "codec"};
template<size_t I> static void any_step(Case& c, Program& p, size_t i) { if (I == i) return typed_step<std::tuple_element_t<I, Set>>(c, p, names[I]); if constexpr (I + 1 < std::tuple_size_v<Set>) any_step<I + 1>(c, p, i); }
template<size_t... I> static void fill(Case& c, Set& s, std::index_sequence<I...>) { (([&] { typedef std::tuple_element_t<I, Set> T; int n = c.i(0, 4); for (int i = 0; i < n; i++) og::op(c, static_cast<const T*>(nullptr)).run(std::get<I>(s)); }()), ...); }

static void warm_up() { static bool done = false; if (done) return; done = true; BLBitSet cs; og::shared_face().get_character_coverage(&cs); BLImage im(8, 8, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; ci.thread_count = 7; { BLContext ctx(im, ci); ctx.fill_all(BLRgba32(1)); ctx.end(); } }

static void objects(Case& c) {
  warm_up(); long before = at::live.load(); bool async = false; bool reads = false;
  {
    std::unique_ptr<Set> S(new Set()); fill(c, *S, std::make_index_sequence<std::tuple_size_v<Set>>());
    int n = c.i(2, 4); std::vector<Program> P{size_t(n), Program()}; size_t focus = c.below(uint32_t(std::tuple_size_v<Set>)); bool focused = c.chance(1, 2);
    // Sometimes every thread starts with the same drawing, so that what the library computes on first use is computed by several at once.
    bool same_draw = c.chance(1, 4); uint32_t k0 = c.u32(); if (same_draw) { if (c.coin()) { k0 = (k0 & 0x03000000u) | c.pickl<uint32_t>({1, 3, 4, 9}); }
      for (int t = 0; t < n; t++) { P[size_t(t)].text.push_back(fmt("draw %u together", k0)); P[size_t(t)].steps.push_back([=](const Set& s, Thread& x) { x.log += draw(s, k0, 0, BLRgba32(0xFF102030u)) + "\n"; }); } }
    for (int t = 0; t < n; t++) { int m = c.i(1, 8); for (int i = 0; i < m; i++) {
      if (c.chance(1, 6)) { uint32_t k = c.u32(); int th = c.chance(1, 4) ? c.i(1, 2) : 0; async |= th > 0; BLRgba32 col(c.u32()); P[size_t(t)].text.push_back(fmt("draw with shared objects, %d threads", th)); P[size_t(t)].steps.push_back([=](const Set& s, Thread& x) { x.log += draw(s, k, th, col) + "\n"; }); }
      else any_step<0>(c, P[size_t(t)], focused ? focus : size_t(c.below(uint32_t(std::tuple_size_v<Set>))));
    } for (size_t i = 0; i < P[size_t(t)].text.size(); i++) c.note("thread %d: %s", t, P[size_t(t)].text[i].c_str()); }
    auto run = [&](int t, const Set& s, std::string& out) { Thread x; for (auto& st : P[size_t(t)].steps) st(s, x); out.swap(x.log); };
    std::vector<std::string> got((size_t(n))), alone((size_t(n)));
    bool copies = c.coin(); std::unique_ptr<Set> keep(new Set(*S)); // (the values for the run alone; deep copies aren't needed as nobody may change them)
    if (!copies) { c.note("threads share the objects by reference"); together(n, [&](int t) { run(t, *S, got[size_t(t)]); }); }
    else {
      c.note("each thread has a copy and releases it"); std::vector<std::unique_ptr<Set>> own; for (int t = 0; t < n; t++) own.emplace_back(new Set(*S)); S.reset(); bool last = c.coin(); if (last) keep.reset();
      together(n, [&](int t) { run(t, *own[size_t(t)], got[size_t(t)]); if (last && t == 0) return; own[size_t(t)].reset(); }); if (last) keep = std::move(own[0]);
    }
    for (int t = 0; t < n; t++) { run(t, *keep, alone[size_t(t)]); REQUIRE(c, got[size_t(t)] == alone[size_t(t)], "thread %d saw\n%.600s\nbut alone it sees\n%.600s", t, got[size_t(t)].c_str(), alone[size_t(t)].c_str()); reads |= !got[size_t(t)].empty(); }
  }
  REQUIRE(c, at::live.load() == before, "%ld blocks remain after all threads released their objects", long(at::live.load() - before)); c.nontrivial(reads); c.label(async, "asynchronous rendering");
}

// Copies that are made and dropped by all threads: each object is destroyed once, by whoever drops it last.
static void lifetime(Case& c) {
  warm_up(); long before = at::live.load(); int n = c.i(2, 6), rounds = c.i(1, 12); std::atomic<int> destroyed{0}; int made = 0;
  {
    std::vector<std::unique_ptr<Set>> own; std::unique_ptr<Set> S(new Set()); fill(c, *S, std::make_index_sequence<std::tuple_size_v<Set>>());
    BLArray<uint32_t> payload; payload.resize(64, 7u); BLImage ext; static thread_local uint32_t unused; (void)unused; std::vector<uint32_t> pixels(16 * 16, 0xFF00FF00u); bool external = c.coin();
    auto release = [](void*, void*, void* u) noexcept { static_cast<std::atomic<int>*>(u)->fetch_add(1, std::memory_order_relaxed); };
    if (external) { made++; REQUIRE(c, ext.create_from_data(16, 16, BL_FORMAT_PRGB32, pixels.data(), 64, BL_DATA_ACCESS_READ, release, &destroyed) == BL_SUCCESS, "create_from_data failed"); std::get<BLImage>(*S) = ext; std::get<BLPattern>(*S).set_image(ext); ext.reset(); }
    BLFontData fd; if (c.coin()) { made++; fd.create_from_data(og::font_bytes().data(), og::font_bytes().size(), release, &destroyed); BLFontFace ff; ff.create_from_data(fd, 0); std::get<BLFontData>(*S) = fd; std::get<BLFontFace>(*S) = ff; std::get<BLFont>(*S).create_from_face(ff, 12.0f); fd.reset(); }
    c.note("%d threads, %d rounds, %d external blocks", n, rounds, made);
    for (int t = 0; t < n; t++) own.emplace_back(new Set(*S)); S.reset();
    together(n, [&](int t) { for (int r = 0; r < rounds; r++) { Set copy(*own[size_t(t)]); Set two(copy); if (r & 1) { std::get<BLVar>(two).assign(std::get<BLPath>(copy)); std::get<BLPath>(two).move_to(1, 2); std::get<BLArray<BLString>>(two).append(std::get<BLString>(copy)); } } own[size_t(t)].reset(); });
  }
  REQUIRE(c, destroyed.load() == made, "%d of %d external blocks were released", destroyed.load(), made); REQUIRE(c, at::live.load() == before, "%ld blocks remain after all threads released their objects", long(at::live.load() - before)); c.nontrivial(true);
}

// The same scene rendered by several threads, each into an own image.
static void scenes(Case& c) {
  warm_up(); sc::Opt o; o.w = c.i(1, 48); o.h = c.i(1, 48); sc::Gen g(c, o); g.resources(); int n = c.i(2, 4); std::vector<sc::Step> steps; int m = c.i(1, 10); for (int i = 0; i < m; i++) { steps.push_back(c.chance(3, 5) ? g.draw() : g.state()); c.note("%s", steps.back().text.c_str()); }
  bool one_world = c.coin(); std::vector<int> th; std::vector<BLFormat> fm; for (int t = 0; t < n; t++) { th.push_back(c.chance(1, 2) ? 0 : c.i(1, 3)); fm.push_back(c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8})); } uint32_t seed = c.u32(); bool clean = c.chance(1, 6);
  sc::World W; g.build(W); c.note("%d threads, %s objects", n, one_world ? "shared" : "own copies of the"); std::vector<std::string> got((size_t(n)));
  auto render = [&](int t, const sc::World& V) { sc::World own = V; BLImage im(o.w, o.h, fm[size_t(t)]); sc::paint(im, seed, 0); BLContextCreateInfo ci{}; ci.thread_count = uint32_t(th[size_t(t)]); BLContext ctx; std::string r; BLResult e = ctx.begin(im, ci); if (e != BL_SUCCESS) return fmt("begin %X", unsigned(e)); for (auto& s : steps) r += fmt("%X ", unsigned(s.run(ctx, own))); r += fmt("end %X ", unsigned(ctx.end())); if (clean && t == 0) BLRuntime::cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); return r + og::fp(im); };
  together(n, [&](int t) { if (one_world) got[size_t(t)] = render(t, W); else { sc::World V; g.build(V); got[size_t(t)] = render(t, V); } });
  for (int t = 0; t < n; t++) { std::string alone = render(t, W); REQUIRE(c, got[size_t(t)] == alone, "thread %d rendered something else than it renders alone", t); } c.nontrivial(true); c.label(clean, "cleanup meanwhile");
}

// One font manager used by all threads, faces with identities, and the registry of codecs.
static std::string key(const BLFontFace& f) { return fmt("%u %u %u ", f.style(), f.weight(), f.stretch()) + og::fp(f.family_name()); }
static void registries(Case& c) {
  warm_up(); int n = c.i(2, 4); BLFontManager m; if (m.create() != BL_SUCCESS) c.discard(); std::vector<BLFontData> data(1); data[0].create_from_data(og::font_bytes()); std::vector<std::unique_ptr<fg::Font>> fonts; int nf = c.i(0, 4);
  for (int i = 0; i < nf; i++) { fonts.emplace_back(new fg::Font()); fg::model(c, *fonts.back(), 2, true); fg::assemble(c, *fonts.back()); BLFontData d; BLFontFace f; if (d.create_from_data(fonts.back()->bytes.data(), fonts.back()->bytes.size()) == BL_SUCCESS && f.create_from_data(d, 0) == BL_SUCCESS) data.push_back(d); }
  std::vector<std::string> keys; for (auto& d : data) { BLFontFace f; f.create_from_data(d, 0); keys.push_back(key(f)); }
  std::vector<std::vector<uint32_t>> prog{size_t(n), std::vector<uint32_t>()}; for (auto& p : prog) { int k = c.i(1, 10); for (int i = 0; i < k; i++) p.push_back(c.u32()); }
  std::vector<std::vector<BLFontFace>> mine((size_t(n))); std::vector<std::string> bad((size_t(n))); std::vector<std::set<std::string>> added((size_t(n))); std::set<std::string> all; bool seeded = c.coin(); BLFontFace first; first.create_from_data(data[0], 0); if (seeded) { m.add_face(first); all.insert(keys[0]); } c.note("%d threads, %zu fonts, %s", n, data.size(), seeded ? "manager with a face" : "empty manager");
  together(n, [&](int t) {
    auto& b = bad[size_t(t)]; auto present = [&](const BLFontFace& f) { BLArray<BLFontFace> a; if (m.query_faces_by_family_name(f.family_name().view(), a) != BL_SUCCESS) return false; for (auto& x : a) if (key(x) == key(f)) return m.has_face(x); return false; };
    for (uint32_t k : prog[size_t(t)]) { size_t w = k / 7 % data.size(); switch (k % 7) {
      case 0: { BLFontFace f; if (f.create_from_data(data[w], 0) != BL_SUCCESS) b = "create_from_data failed"; mine[size_t(t)].push_back(f); break; }
      case 1: { BLFontFace f; f.create_from_data(data[w], 0); if (m.add_face(f) != BL_SUCCESS) b = "add_face failed"; added[size_t(t)].insert(keys[w]); if (!present(f)) b = "an added face isn't there"; mine[size_t(t)].push_back(f); break; }
      case 2: { BLFontFace f; BLResult r = m.query_face(first.family_name().view(), f); if (r == BL_SUCCESS ? !m.has_face(f) : seeded) b = fmt("query_face returned %X or a face that isn't there", unsigned(r)); break; }
      case 3: { bool before = present(first); size_t x = m.face_count(); if ((seeded && !before) || (before && !present(first)) || x > m.face_count()) b = "a face disappeared"; break; }
      case 4: { BLFontManager copy(m); if (!(copy == m)) b = "a copied manager differs"; break; }
      case 5: { BLImageCodec k1; const char* codecs[] = {"PNG", "JPEG", "BMP", "QOI"}; if (k1.find_by_name(codecs[k / 7 % 4]) != BL_SUCCESS) b = "codec not found"; BLImageCodec k2; if (k2.find_by_extension("png") != BL_SUCCESS || BLImageCodec::built_in_codecs().size() < 4) b = "codecs missing"; break; }
      default: { BLRuntimeSystemInfo si; BLRuntime::query_system_info(&si); BLRuntimeResourceInfo ri; BLRuntime::query_resource_info(&ri); if (k / 7 % 2) BLRuntime::cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); }
    } }
  });
  for (auto& b : bad) REQUIRE(c, b.empty(), "%s", b.c_str()); for (auto& a : added) all.insert(a.begin(), a.end()); REQUIRE(c, m.face_count() == all.size(), "%zu different faces were added, the manager has %zu", all.size(), m.face_count());
  std::set<uint64_t> ids; size_t total = 0; for (auto& v : mine) for (auto& f : v) { ids.insert(f.unique_id()); total++; } REQUIRE(c, ids.size() == total, "%zu faces have only %zu different ids", total, ids.size()); c.nontrivial(total > 1);
}

// A bit set caches its cardinality, which is stored in the object that was asked for it.
static void cardinality(Case& c) {
  warm_up(); BLBitSet s; int n = c.i(2, 4), m = c.i(1, 6); s.add_range(0, 900); for (int i = 0; i < m; i++) s.add_bit(c.u32() % 100000); std::vector<uint32_t> want(size_t(n), 0), got(size_t(n), 1); std::vector<int> how; for (int i = 0; i < n; i++) how.push_back(c.i(0, 1)); c.note("%d threads ask for the cardinality of one bit set or copy it", n); BLBitSet alone(s); uint32_t card = alone.cardinality();
  together(n, [&](int t) { if (how[size_t(t)]) { BLBitSet copy(s); got[size_t(t)] = copy.cardinality(); } else got[size_t(t)] = s.cardinality(); }); for (uint32_t g : got) REQUIRE(c, g == card, "cardinality %u instead of %u", g, card); c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Suite s("C35", "non-trivial = at least two threads worked on the same objects and read something from them", argc, argv);
  s.add("objects", objects, {.quick = 3000, .thorough = 150000, .flaky = true});
  s.add("lifetime", lifetime, {.quick = 600, .thorough = 30000, .flaky = true});
  s.add("scenes", scenes, {.quick = 800, .thorough = 40000, .flaky = true});
  s.add("registries", registries, {.quick = 1000, .thorough = 50000, .flaky = true});
  s.add("cardinality", cardinality, {.quick = 8, .thorough = 40, .flaky = true});
  s.assume("races are found by happens-before analysis (ThreadSanitizer) of the schedules that were run");
  return s.run();
}
