// C36: results don't depend on which CPU features the library uses.
// LINK: -lz -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "codecgen.h"
#include "jpeggen.h"
#include "fontgen.h"
#include "scene.h"
#include "layoutgen.h"
#include "cffgen.h"
#include "alloc_track.h"
#define main c21_main
namespace c21 {
#include "C21.cpp"
}
#undef main
#define main c24_main
namespace c24 {
#include "C24.cpp"
}
#undef main
#define main c23_main
namespace c23 {
#include "C23.cpp"
}
#undef main
#define main c25_main
namespace c25 {
#include "C25.cpp"
}
#undef main
#define main c26_main
namespace c26 {
#include "C26.cpp"
}
#undef main
extern "C" void bl_verif_set_cpu_features(uint32_t features, uint32_t hints);
using pbt::Case;

static const uint32_t kFeatures[] = {0, BL_RUNTIME_CPU_FEATURE_X86_SSE2, BL_RUNTIME_CPU_FEATURE_X86_SSE3, BL_RUNTIME_CPU_FEATURE_X86_SSSE3, BL_RUNTIME_CPU_FEATURE_X86_SSE4_1, BL_RUNTIME_CPU_FEATURE_X86_SSE4_2, BL_RUNTIME_CPU_FEATURE_X86_AVX, BL_RUNTIME_CPU_FEATURE_X86_AVX2};
static const char* kNames[] = {"no features", "SSE2", "SSE3", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2"};
static int host() {
  static int n = [] { __builtin_cpu_init(); int k = 2; 
    if (__builtin_cpu_supports("sse3")) { k = 3; if (__builtin_cpu_supports("ssse3")) { k = 4; if (__builtin_cpu_supports("sse4.1")) { k = 5; if (__builtin_cpu_supports("sse4.2") && __builtin_cpu_supports("pclmul")) { k = 6; if (__builtin_cpu_supports("avx")) { k = 7; if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi") && __builtin_cpu_supports("bmi2") && __builtin_cpu_supports("popcnt")) k = 8; } } } } }
    return k; }();
  return n;
}
static void level(int l, bool fast_mul = false) { uint32_t f = 0; for (int i = 1; i <= l; i++) f |= kFeatures[i]; bl_verif_set_cpu_features(f, fast_mul ? 0x20u : 0u); }
struct Level { ~Level() { level(1); } };
// A level above the one all x86-64 builds use.
static int pick(Case& c) { int l = c.chance(1, 12) ? 0 : host() <= 2 ? 1 : c.chance(1, 2) ? host() - 1 : int(c.range(2, unsigned(host() - 1))); bool m = c.coin(); level(l, m); c.note("CPU level: %s%s", kNames[l], m ? ", fast multiplication" : ""); c.label(l == 7, "AVX2"); c.label(l == 5 || l == 6, "SSE4.2 or AVX"); c.label(l == 3 || l == 4, "SSSE3 or SSE4.1"); return l; }

static void convert(Case& c) { Level done; pick(c); c21::convert(c); }
static void sanitize(Case& c) { Level done; pick(c); c21::sanitize(c); }
static void tables(Case& c) { Level done; pick(c); c21::tables(c); }
static void png(Case& c) { Level done; pick(c); c24::png_case(c); }
static void bmp(Case& c) { Level done; pick(c); c24::bmp_case(c); }
static void qoi(Case& c) { Level done; pick(c); c24::qoi_case(c); }
static void roundtrip(Case& c) { Level done; pick(c); c23::roundtrip(c); }

static void image_bytes(Case& c) { Level done; pick(c); c25::fuzz(c, c.pickl<int>({0, 0, 0, 1, 2, 3})); }
static void font_bytes(Case& c) { Level done; pick(c); if (c.chance(1, 3)) c26::real_font(c); else c26::truetype(c); }

static void jpeg(Case& c) {
  Level done; gen::Jpeg j = gen::jpeg(c, 60); c.note("%s, %zu bytes", j.text.c_str(), j.data.size()); level(1); BLImage a, b; BLResult ra = a.read_from_data(j.data.data(), j.data.size()); pick(c); BLResult rb = b.read_from_data(j.data.data(), j.data.size());
  REQUIRE(c, ra == rb, "decoding returned %X and %X", unsigned(ra), unsigned(rb)); REQUIRE(c, a == b, "images differ"); c.nontrivial(ra == BL_SUCCESS);
}

// An encoded image doesn't depend on the level either.
static void encode(Case& c) {
  Level done; int w = c.i(1, 70), h = c.i(1, 40); BLFormat f = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); BLImage img(w, h, f); BLImageData d; img.make_mutable(&d); uint32_t kind = c.below(3), seed = c.u32();
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { seed = kind == 0 ? seed * 1664525u + 1013904223u : kind == 1 ? seed + 0x00010203u : (x & 7) ? seed : seed * 1664525u + 7; uint8_t* p = static_cast<uint8_t*>(d.pixel_data) + y * d.stride; if (f == BL_FORMAT_A8) p[x] = uint8_t(seed >> 24); else { uint32_t v = seed, al = f == BL_FORMAT_XRGB32 ? 255 : v >> 24; uint32_t q = al << 24; for (int s = 0; s < 24; s += 8) q |= (((v >> s) & 255) * al / 255) << s; reinterpret_cast<uint32_t*>(p)[x] = q; } }
  BLImageCodec codec; REQUIRE(c, codec.find_by_name(c.pickl<const char*>({"PNG", "QOI", "BMP"})) == BL_SUCCESS, "no codec"); BLArray<uint8_t> a, b; level(1); BLResult ra = img.write_to_data(a, codec); pick(c); BLResult rb = img.write_to_data(b, codec); REQUIRE(c, ra == rb && a == b, "encoded data differ: %X %X, %zu and %zu bytes", unsigned(ra), unsigned(rb), a.size(), b.size()); c.nontrivial(w * h > 3);
}

static void points(Case& c) {
  Level done; BLMatrix2D m; int k = c.i(0, 5); auto v = [&] { return c.chance(1, 5) ? double(c.i(-4, 4)) : c.real(-100, 100); };
  double t[6] = {1, 0, 0, 1, 0, 0}; if (k == 1 || k >= 4) { t[4] = v(); t[5] = v(); } if (k == 2 || k == 4) { t[0] = v(); t[3] = v(); } if (k == 3) { t[0] = t[3] = 0; t[1] = v(); t[2] = v(); t[4] = v(); t[5] = v(); } if (k == 5) for (double& x : t) x = v();
  m.reset(t[0], t[1], t[2], t[3], t[4], t[5]); size_t n = c.below(40), off = c.below(2); std::vector<double> src(2 * n + 3), a(2 * n + 3, -7), b(2 * n + 3, -7); for (auto& x : src) x = c.chance(1, 20) ? c.pickl<double>({0.0, -0.0, 1e300, -1e300, double(INFINITY), double(NAN), 5e-324}) : v();
  c.note("matrix %g %g %g %g %g %g, %zu points", t[0], t[1], t[2], t[3], t[4], t[5], n); bool inplace = c.coin();
  auto run = [&](std::vector<double>& d) { if (inplace) d = src; auto* p = reinterpret_cast<BLPoint*>(d.data() + off); return bl_matrix2d_map_pointd_array(&m, p, inplace ? p : reinterpret_cast<const BLPoint*>(src.data() + off), n); };
  level(1); BLResult ra = run(a); pick(c); BLResult rb = run(b); REQUIRE(c, ra == rb, "results differ");
  for (size_t i = 0; i < a.size(); i++) REQUIRE(c, (std::isnan(a[i]) && std::isnan(b[i])) || (a[i] == b[i] && std::signbit(a[i]) == std::signbit(b[i])), "coordinate %zu is %.17g and %.17g", i, a[i], b[i]);
  c.nontrivial(n > 0);
}

static void outlines(Case& c) {
  Level done; std::vector<uint8_t> bytes; bool file = c.chance(1, 4);
  if (file) { static std::vector<uint8_t> f = [] { std::vector<uint8_t> v; BLArray<uint8_t> a; const char* r = getenv("VERIF_REPO"); BLFileSystem::read_file((std::string(r ? r : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), a); v.assign(a.data(), a.data() + a.size()); return v; }(); bytes = f; }
  else { fg::Font f; fg::model(c, f, 12, c.coin()); fg::assemble(c, f); bytes.assign(f.bytes.begin(), f.bytes.end()); }
  uint32_t first = c.below(20); int n = c.i(1, 12); BLMatrix2D m; m.reset(); if (c.coin()) m = BLMatrix2D(c.real(-2, 2), c.real(-1, 1), c.real(-1, 1), c.real(-2, 2), c.real(-50, 50), c.real(-50, 50)); float size = float(c.pickl<int>({1, 9, 16, 100, 1000, 2048}));
  struct Out { BLResult r; std::vector<BLPath> p; std::vector<BLBoxI> bounds; std::vector<BLResult> rs; };
  auto run = [&](Out& o) { BLArray<uint8_t> a; a.append_data(bytes.data(), bytes.size()); BLFontData fd; BLFontFace ff; BLFont font; o.r = fd.create_from_data(a); if (o.r == BL_SUCCESS) o.r = ff.create_from_data(fd, 0); if (o.r == BL_SUCCESS) o.r = font.create_from_face(ff, size); if (o.r != BL_SUCCESS) return;
    for (int i = 0; i < n; i++) { uint32_t g = first + uint32_t(i); if (ff.glyph_count()) g %= ff.glyph_count(); BLPath p; if (i & 1) p.line_to(1, 1); o.rs.push_back(font.get_glyph_outlines(g, m, p)); o.p.push_back(p); BLBoxI b{}; o.rs.push_back(bl_font_get_glyph_bounds(&font, &g, 0, &b, 1)); o.bounds.push_back(b); } };
  Out a, b; level(1); run(a); pick(c); run(b); REQUIRE(c, a.r == b.r, "the face was created with %X and %X", unsigned(a.r), unsigned(b.r)); REQUIRE(c, a.rs == b.rs, "results of glyphs differ"); size_t total = 0;
  for (size_t i = 0; i < a.p.size(); i++) { REQUIRE(c, a.bounds[i] == b.bounds[i], "bounds of glyph %zu differ", i); const BLPath &x = a.p[i], &y = b.p[i]; total += x.size(); if (getenv("C36_DUMP")) for (const BLPath* q : {&x, &y}) { std::string t; for (size_t k = 0; k < q->size(); k++) t += pbt::fmt(" %d(%g %g)", q->command_data()[k], q->vertex_data()[k].x, q->vertex_data()[k].y); c.note("glyph %u:%s", unsigned(first + i), t.c_str()); } REQUIRE(c, x.size() == y.size() && (x.size() == 0 || memcmp(x.command_data(), y.command_data(), x.size()) == 0), "commands of glyph %u differ (%zu and %zu)", unsigned(first + i), x.size(), y.size());
    for (size_t k = 0; k < x.size(); k++) { BLPoint u = x.vertex_data()[k], w = y.vertex_data()[k]; if (x.command_data()[k] == BL_PATH_CMD_CLOSE) continue; double tol = 1e-9 * (1 + std::fabs(u.x) + std::fabs(u.y)); REQUIRE(c, (std::fabs(u.x - w.x) <= tol && std::fabs(u.y - w.y) <= tol) || (std::isnan(u.x) && std::isnan(w.x)), "vertex %zu of glyph %u is (%.17g %.17g) and (%.17g %.17g)", k, unsigned(first + i), u.x, u.y, w.x, w.y); } }
  c.nontrivial(total > 4);
}

static void rendering(Case& c) {
  Level done; sc::Opt o; o.w = c.i(1, 60); o.h = c.i(1, 40); o.text = c.chance(1, 3); sc::Gen g(c, o); g.resources(); std::vector<sc::Step> steps; for (int n = c.i(1, 8); n--;) { if (c.coin()) steps.push_back(g.state()); steps.push_back(g.draw()); c.note("%s", steps.back().text.c_str()); }
  auto run = [&](BLImage& img) { img.create(o.w, o.h, BL_FORMAT_PRGB32); sc::World W; g.build(W); BLContext ctx(img); ctx.clear_all(); for (auto& s : steps) s.run(ctx, W); ctx.end(); };
  BLImage a, b; level(1); run(a); pick(c); run(b); REQUIRE(c, a == b, "images differ"); c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Suite s("C36", "non-trivial = the operation succeeded and produced data at the CPU level chosen for the case (a level above SSE2 in 11 of 12 cases)", argc, argv);
  s.add("convert", convert, {.quick = 120000, .thorough = 3000000});
  s.add("sanitize", sanitize, {.quick = 40000, .thorough = 600000});
  s.add("tables", tables, {.quick = 4000, .thorough = 40000});
  s.add("png", png, {.quick = 12000, .thorough = 600000});
  s.add("bmp", bmp, {.quick = 8000, .thorough = 300000});
  s.add("qoi", qoi, {.quick = 4000, .thorough = 100000});
  s.add("jpeg", jpeg, {.quick = 4000, .thorough = 100000});
  s.add("roundtrip", roundtrip, {.quick = 12000, .thorough = 400000});
  s.add("encode", encode, {.quick = 6000, .thorough = 200000});
  s.add("points", points, {.quick = 40000, .thorough = 1000000});
  s.add("outlines", outlines, {.quick = 10000, .thorough = 300000});
  s.add("rendering", rendering, {.quick = 8000, .thorough = 300000});
  s.add("image_bytes", image_bytes, {.quick = 10000, .thorough = 600000, .chunk = 400, .guided = true});
  s.add("font_bytes", font_bytes, {.quick = 10000, .thorough = 400000, .chunk = 200, .guided = true});
  s.assume("levels the host CPU lacks are not reached; levels follow the order SSE2, SSE3, SSSE3, SSE4.1, SSE4.2 (with PCLMULQDQ), AVX, AVX2 (with BMI and BMI2) as detection produces them");
  return s.run();
}
