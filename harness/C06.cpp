// C06: allocation failure at any point is reported cleanly and leaks nothing.
// LINK: -lz -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "objgen.h"
#include "alloc_track.h"
#include "scene.h"
#include "codecgen.h"
#include "jpeggen.h"
#include "fontgen.h"
#include "layoutgen.h"
#include <climits>
#define main c28_main
namespace c28 {
#include "C28.cpp"
}
#undef main
using pbt::Case;

static void warm_up() { static bool done = false; if (done) return; done = true; og::font_bytes(); og::shared_face(); sc::Gen::face(); { BLImage w(2, 2, BL_FORMAT_PRGB32); BLContext x(w); x.fill_all(BLRgba32(5)); x.end(); BLContextCreateInfo ci{}; ci.thread_count = 2; x.begin(w, ci); x.fill_all(BLRgba32(5)); x.end(); } { BLImage a(3, 3, BL_FORMAT_PRGB32), b; BLImage::scale(b, a, BLSizeI(2, 2), BL_IMAGE_SCALE_FILTER_BILINEAR); } }
static bool oom(BLResult r) { return r == BL_ERROR_OUT_OF_MEMORY; }

// An operation of an object, its k-th allocation fails, for every k (or every allocation from the k-th on).
template<class T> static void object(Case& c) {
  const char* name = __PRETTY_FUNCTION__ + 19; c.note("%s", name); warm_up(); long before = at::live; int failures = 0;
  {
    std::vector<og::Op<T>> log; int n = c.i(0, 12); for (int i = 0; i < n; i++) log.push_back(og::op(c, static_cast<const T*>(nullptr))); auto o = og::op(c, static_cast<const T*>(nullptr)), after = og::op(c, static_cast<const T*>(nullptr)); bool shared = c.coin(), sticky = c.chance(1, 3);
    for (auto& l : log) c.note("%s", l.text.c_str()); c.note("fail in: %s (%s%s)", o.text.c_str(), shared ? "shared" : "unique", sticky ? ", all following ones" : ""); c.note("then %s", after.text.c_str());
    T model; for (auto& l : log) l.run(model); std::string start = og::fp(model); BLResult want_r = o.run(model); std::string want = og::fp(model); BLResult after_r = after.run(model); std::string final = og::fp(model);
    for (long k = 0; k < 40; k++) {
      T v; for (auto& l : log) l.run(v); T w; if (shared) { if constexpr (std::is_same_v<T, BLVar>) w.assign(v); else w = v; }
      at::arm(k, sticky); BLResult r = o.run(v); at::disarm(); unsigned long failed = at::failed;
      REQUIRE(c, r == want_r || (failed && oom(r)), "result is %X instead of %X, %lu allocations failed (%ld)", unsigned(r), unsigned(want_r), failed, k);
      if (shared) REQUIRE(c, og::fp(w) == start, "another variable was changed by a failed operation (allocation %ld)", k);
      std::string got = og::fp(v);
      if (r == want_r) REQUIRE(c, got == want, "%lu allocations failed (%ld), the operation succeeded, but the object is %s instead of %s", failed, k, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
      else {
        bool kept = got == start; REQUIRE(c, kept || o.text == "add_stroked_path", "failed allocation %ld left the object as %s instead of %s", k, got.substr(0, 300).c_str(), start.substr(0, 300).c_str()); T copy; if constexpr (std::is_same_v<T, BLVar>) copy.assign(v); else copy = v; REQUIRE(c, og::fp(copy) == got, "copy of the object differs after a failure");
        BLResult r2 = o.run(v); REQUIRE(c, r2 == want_r, "retry returned %X (allocation %ld)", unsigned(r2), k); if (kept) REQUIRE(c, og::fp(v) == want, "retry after failed allocation %ld gave %s instead of %s", k, og::fp(v).substr(0, 300).c_str(), want.substr(0, 300).c_str());
        REQUIRE(c, og::fp(copy) == got, "a copy made after the failure changed"); failures++;
        if (kept) { REQUIRE(c, after.run(v) == after_r && og::fp(v) == final, "an operation after the retry gave %s instead of %s", og::fp(v).substr(0, 300).c_str(), final.substr(0, 300).c_str()); } else { after.run(v); og::fp(v); }
      }
      if (!failed) break;
    }
  }
  REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated", long(at::live) - before); c.nontrivial(failures > 0);
}
static void containers(Case& c) { switch (c.below(6)) { case 0: object<BLString>(c); break; case 1: object<BLArray<int>>(c); break; case 2: object<BLArray<double>>(c); break; case 3: object<BLArray<BLString>>(c); break; case 4: object<BLBitSet>(c); break; default: object<BLBitArray>(c); } }
static void graphics(Case& c) { switch (c.below(5)) { case 0: object<BLPath>(c); break; case 1: object<BLStrokeOptions>(c); break; case 2: object<BLImage>(c); break; case 3: object<BLGradient>(c); break; default: object<BLPattern>(c); } }
static void fonts(Case& c) { switch (c.below(5)) { case 0: object<BLFontFeatureSettings>(c); break; case 1: object<BLFontVariationSettings>(c); break; case 2: object<BLFontData>(c); break; case 3: object<BLFontFace>(c); break; default: object<BLFont>(c); } }


// Runs `f` with every (or a sample of) allocation of it failing. `f` returns the result of the whole and stores what it made to `out`.
template<class F> static void sweep(Case& c, F&& f, const char* what, int max_points) {
  warm_up(); std::string want, got; BLResult wr = f(want); f(want); long before = at::live; at::arm(LONG_MAX); got.clear(); BLResult r = f(got); unsigned long n = at::count; at::disarm();
  REQUIRE(c, r == wr && got == want, "%s isn't deterministic", what); REQUIRE(c, at::live == before, "%s: %ld blocks of memory remain allocated", what, long(at::live) - before);
  bool sticky = c.chance(1, 4); int failures = 0; std::vector<unsigned long> at_; if (n <= (unsigned long)max_points) for (unsigned long k = 0; k < n; k++) at_.push_back(k); else for (int i = 0; i < max_points; i++) at_.push_back(c.below(uint32_t(n)));
  for (unsigned long k : at_) {
    at::arm(long(k), sticky); got.clear(); r = f(got); at::disarm();
    REQUIRE(c, r == wr || oom(r), "%s: result is %X instead of %X when allocation %lu of %lu failed%s", what, unsigned(r), unsigned(wr), k, n, sticky ? " (and all following ones)" : "");
    if (r == wr) REQUIRE(c, got == want, "%s: allocation %lu of %lu failed, no error was reported, but the outcome is %s instead of %s", what, k, n, got.substr(0, 2000).c_str(), want.substr(0, 2000).c_str()); else failures++;
    REQUIRE(c, at::live == before, "%s: %ld blocks of memory remain allocated after allocation %lu of %lu failed%s", what, long(at::live) - before, k, n, sticky ? " (and all following ones)" : "");
  }
  got.clear(); r = f(got); REQUIRE(c, r == wr && got == want, "%s doesn't work after failures: result %X, %s instead of %s", what, unsigned(r), got.substr(0, 200).c_str(), want.substr(0, 200).c_str());
  c.nontrivial(failures > 0);
}
#define TRY(x) do { BLResult r_ = (x); if (r_ != BL_SUCCESS) return r_; } while (0)

static void codecs(Case& c) {
  gen::Bytes bytes; std::string text; switch (c.below(4)) { case 0: { auto f = gen::png(c, 24); bytes = f.data; text = f.text; break; } case 1: { auto f = gen::qoi(c, 20); bytes = f.data; text = f.text; break; } case 2: { auto f = gen::bmp(c, 20); bytes = f.data; text = f.text; break; } default: { auto j = gen::jpeg(c, 30); bytes = j.data; text = j.text; } }
  c.note("%s", text.c_str()); BLImage start = c.coin() ? og::some_image(c) : BLImage(); std::string start_fp = og::fp(start); BLImage decoded; BLResult dr = decoded.read_from_data(bytes.data(), bytes.size()); if (dr != BL_SUCCESS) c.discard();
  sweep(c, [&](std::string& out) -> BLResult { BLImage x(start); BLResult r = x.read_from_data(bytes.data(), bytes.size()); out = og::fp(x); REQUIRE(c, og::fp(start) == start_fp, "another image was changed"); return r; }, "decoding", 24);
  static const char* names[] = {"PNG", "BMP", "QOI"}; const char* name = names[c.below(3)]; int level = c.i(0, 12);
  sweep(c, [&](std::string& out) -> BLResult { BLImageCodec k; TRY(k.find_by_name(name)); BLArray<uint8_t> a; BLImageEncoder e; TRY(k.create_encoder(&e)); (void)level; TRY(e.write_frame(a, decoded)); out = og::fp(a); return BL_SUCCESS; }, "encoding", 24);
  sweep(c, [&](std::string& out) -> BLResult { BLImage x; TRY(BLImage::scale(x, decoded, BLSizeI(7, 9), BLImageScaleFilter(1 + level % 4))); TRY(x.convert(level & 1 ? BL_FORMAT_A8 : BL_FORMAT_PRGB32)); out = og::fp(x); return BL_SUCCESS; }, "scaling", 24);
}

static std::string run_fp(const BLGlyphBuffer& gb) { std::string o; const BLGlyphRun& r = gb.glyph_run(); BLGlyphRunIterator it(r); for (size_t i = 0; i < gb.size(); i++) { o += pbt::fmt("%u@%u", gb.content()[i], gb.info_data() ? gb.info_data()[i].cluster : 0); if (gb.placement_data()) o += pbt::fmt("(%d %d %d %d)", gb.placement_data()[i].placement.x, gb.placement_data()[i].placement.y, gb.placement_data()[i].advance.x, gb.placement_data()[i].advance.y); o += " "; } return o; }
static void text(Case& c) {
  c28::Ctx x; c28::build(c, x, 0); std::vector<uint32_t> t = x.text; if (c.chance(1, 6)) for (int i = 0; i < 3000; i++) t.push_back(t[size_t(i) % x.text.size()]); BLFontFeatureSettings fs; fs.assign(x.font.feature_settings()); bool draw = c.chance(1, 3); c.note("%zu characters", t.size());
  sweep(c, [&](std::string& out) -> BLResult {
    BLFontData d; TRY(d.create_from_data(x.f.bytes.data(), x.f.bytes.size())); BLFontFace f; TRY(f.create_from_data(d, 0)); BLFont font; TRY(font.create_from_face(f, x.size, fs)); BLGlyphBuffer gb; TRY(gb.set_utf32_text(t.data(), t.size())); TRY(font.shape(gb)); out = run_fp(gb);
    BLTextMetrics tm; TRY(font.get_text_metrics(gb, tm)); BLPath p; TRY(font.get_glyph_run_outlines(gb.glyph_run(), BLMatrix2D::make_scaling(1.5), p)); out += og::fp(p); BLBitSet cov; TRY(f.get_character_coverage(&cov)); out += og::fp(cov);
    if (draw) { BLImage img; TRY(img.create(24, 24, BL_FORMAT_PRGB32)); { BLImageData dd; TRY(img.make_mutable(&dd)); for (int y = 0; y < 24; y++) memset(static_cast<uint8_t*>(dd.pixel_data) + y * dd.stride, 0, 96); } BLContext ctx; TRY(ctx.begin(img)); TRY(ctx.fill_glyph_run(BLPoint(3, 18), font, gb.glyph_run(), BLRgba32(0xFFFFFFFFu))); TRY(ctx.stroke_utf32_text(BLPoint(1, 20), font, t.data(), std::min<size_t>(t.size(), 4), BLRgba32(0xFF00FF00u))); TRY(ctx.end()); out += og::fp(img); }
    return BL_SUCCESS;
  }, "text", 16);
}

static void manager(Case& c) {
  int n = c.i(1, 6); std::vector<std::unique_ptr<fg::Font>> fonts; for (int i = 0; i < n; i++) { fonts.emplace_back(new fg::Font()); fg::model(c, *fonts.back(), 3, true); fg::assemble(c, *fonts.back()); }
  std::vector<BLFontFace> faces; for (auto& f : fonts) { BLFontData d; BLFontFace face; if (d.create_from_data(f->bytes.data(), f->bytes.size()) != BL_SUCCESS || face.create_from_data(d, 0) != BL_SUCCESS) c.discard(); faces.push_back(face); }
  sweep(c, [&](std::string& out) -> BLResult {
    BLFontManager m; TRY(m.create()); for (auto& f : faces) TRY(m.add_face(f)); out = pbt::fmt("%zu faces, %zu families ", m.face_count(), m.family_count());
    for (auto& f : faces) { BLFontFace g; BLFontQueryProperties q; q.reset(); BLResult r = m.query_face(f.family_name().view(), q, g); if (r != BL_SUCCESS) { if (oom(r)) return r; out += pbt::fmt("error %X ", unsigned(r)); } else out += og::fp(g); BLArray<BLFontFace> a; r = m.query_faces_by_family_name(f.family_name().view(), a); if (oom(r)) return r; out += pbt::fmt("%zu ", a.size()); }
    return BL_SUCCESS;
  }, "font manager", 24);
}

// A scene rendered with an allocation failing; the context is used again afterwards.
static void scene_with(Case& c, int threads) {
  warm_up(); sc::Opt o; o.w = c.i(1, 48); o.h = c.i(1, 48); o.text = c.chance(1, 3); sc::Gen g(c, o); g.resources(); BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); uint32_t seed = c.u32();
  std::vector<sc::Step> steps; int n = c.i(1, 14); for (int i = 0; i < n; i++) { steps.push_back(c.chance(3, 5) ? g.draw() : g.state()); c.note("%s", steps.back().text.c_str()); } c.note("%dx%d, %d threads", o.w, o.h, threads);
  sc::World W; g.build(W); for (auto& gr : W.grads) { BLImage tmp(4, 4, BL_FORMAT_PRGB32); BLContext ctx(tmp); ctx.fill_all(gr); } // (gradients cache their tables when used)
  struct Out { std::vector<BLResult> r; BLResult begin = 0; BLContextErrorFlags flags = BLContextErrorFlags(0); BLImage img; bool clean() const { return flags == 0; } };
  auto render = [&](BLContext& ctx, BLImage& img, Out& x, sc::World& W) { x.r.clear(); BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); x.begin = ctx.begin(img, ci); if (x.begin != BL_SUCCESS) return; for (auto& s : steps) x.r.push_back(s.run(ctx, W)); x.r.push_back(ctx.flush(BL_CONTEXT_FLUSH_SYNC)); x.flags = ctx.accumulated_error_flags(); x.r.push_back(ctx.end()); };
  auto fresh = [&] { BLImage im(o.w, o.h, fmt); sc::paint(im, seed, 0); return im; };
  Out ref; BLContext first; for (int i = 0; i < 2; i++) { BLImage im = fresh(); render(first, im, ref, W); ref.img = im; first.reset(); } REQUIRE(c, ref.begin == BL_SUCCESS, "begin failed"); std::string want = og::fp(ref.img);
  long before = at::live; unsigned long total; { BLImage im = fresh(); BLContext ctx; Out x; sc::World V; g.build(V); at::arm(LONG_MAX); render(ctx, im, x, V); ctx.reset(); total = at::count; at::disarm(); } REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated after rendering", long(at::live) - before); if (!total) return;
  int points = threads ? 3 : 8, failures = 0; bool sticky = c.chance(1, 4);
  for (int i = 0; i < points; i++) {
    long k = long(c.below(uint32_t(total)));
    {
      sc::World V; g.build(V); // (objects may cache what they need for rendering)
      BLImage im = fresh(); BLContext ctx; Out x; at::arm(k, sticky); render(ctx, im, x, V); at::disarm();
      if (x.begin != BL_SUCCESS) { REQUIRE(c, oom(x.begin), "begin returned %X (allocation %ld)", unsigned(x.begin), k); failures++; }
      else {
        bool reported = x.flags != 0; for (size_t s = 0; s < x.r.size(); s++) if (x.r[s] != ref.r[s]) { REQUIRE(c, reported || oom(x.r[s]), "'%s' returned %X instead of %X (allocation %ld of %lu)", s < steps.size() ? steps[s].text.c_str() : "flush or end", unsigned(x.r[s]), unsigned(ref.r[s]), k, total); reported = true; }
        if (!reported) { std::string got = og::fp(im); REQUIRE(c, got == want, "allocation %ld of %lu failed, no error was reported, but the image differs (%lu failed)", k, total, (unsigned long)at::failed); } else failures++;
      }
      if (c.coin()) { BLImage im2 = fresh(); Out y; render(ctx, im2, y, V); REQUIRE(c, y.begin == BL_SUCCESS && y.r == ref.r && og::fp(im2) == want, "the context doesn't render correctly after a failure (allocation %ld of %lu)", k, total); }
    }
    REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated after a failure (allocation %ld of %lu%s)", long(at::live) - before, k, total, sticky ? ", all following ones" : "");
  }
  { BLImage im = fresh(); BLContext ctx; Out y; render(ctx, im, y, W); REQUIRE(c, y.begin == BL_SUCCESS && y.r == ref.r && og::fp(im) == want, "rendering differs after failures"); }
  c.nontrivial(failures > 0);
}
static void scenes(Case& c) { scene_with(c, 0); }
static void async_scenes(Case& c) { scene_with(c, c.i(1, 4)); }

int main(int argc, char** argv) {
  pbt::Suite s("C06", "non-trivial = at least one allocation of the operation was made to fail and the operation reported it", argc, argv);
  s.add("containers", containers, {.quick = 10000, .thorough = 600000});
  s.add("graphics", graphics, {.quick = 10000, .thorough = 600000});
  s.add("fonts", fonts, {.quick = 7000, .thorough = 400000});
  s.add("codecs", codecs, {.quick = 3000, .thorough = 150000});
  s.add("text", text, {.quick = 1500, .thorough = 60000});
  s.add("manager", manager, {.quick = 1000, .thorough = 40000});
  s.add("scenes", scenes, {.quick = 4000, .thorough = 300000});
  s.add("async", async_scenes, {.quick = 600, .thorough = 30000, .flaky = true});
  s.assume("a failed operation leaves the object as it was, except for stroking of a path into a path, which may leave a part of the stroke");
  return s.run();
}
