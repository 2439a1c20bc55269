// C19: patterns and image blits against inverse mapping in real arithmetic.
#include "scene.h"
using namespace rv;
typedef long double LD;
struct M6 { LD a, b, c, d, e, f; };   // x' = x*a + y*c + e ; y' = x*b + y*d + f
static M6 from(const BLMatrix2D& m) { return {m.m00, m.m01, m.m10, m.m11, m.m20, m.m21}; }
static M6 mul(const M6& p, const M6& q) { return {p.a * q.a + p.b * q.c, p.a * q.b + p.b * q.d, p.c * q.a + p.d * q.c, p.c * q.b + p.d * q.d, p.e * q.a + p.f * q.c + q.e, p.e * q.b + p.f * q.d + q.f}; }
static bool inv(const M6& m, M6& r) { LD D = m.a * m.d - m.b * m.c; if (std::fabs(D) < 1e-9L) return false; r = {m.d / D, -m.b / D, -m.c / D, m.a / D, (m.c * m.f - m.d * m.e) / D, (m.b * m.e - m.a * m.f) / D}; return true; }

struct Source { BLImage img; std::vector<uint8_t> mem; BLFormat fmt; int w, h, stride; std::vector<uint32_t> px; };   // px = the pixels as PRGB32
static void make(Case& c, Source& s, int maxw, int maxh) {
  s.fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); s.w = c.coin() ? c.i(1, 4) : c.i(1, maxw); s.h = c.coin() ? c.i(1, 4) : c.i(1, maxh);
  bool a8 = s.fmt == BL_FORMAT_A8; int bpp = a8 ? 1 : 4; s.stride = s.w * bpp + (c.coin() ? 0 : a8 ? c.i(0, 9) : 4 * c.i(0, 4)); int kind = c.weighted({3, 1, 1}); sc::Rng r(c.u32());
  s.px.resize(size_t(s.w * s.h)); s.mem.assign(size_t(s.stride) * size_t(s.h - 1) + size_t(s.w * bpp), 0x5A); bool flip = c.chance(1, 6);   // no byte more than the pixels need
  for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) {
    uint32_t v = r.next(); if (kind == 1) v = (v & 1) ? ~0u : 0; if (kind == 2) v = 0xFF000000u | uint32_t(x * 9) | uint32_t(y * 9) << 8;
    uint8_t* p = &s.mem[size_t(flip ? s.h - 1 - y : y) * size_t(s.stride)] + x * bpp; uint32_t& o = s.px[size_t(y * s.w + x)];
    if (a8) { *p = uint8_t(v >> 24); o = (v >> 24) * 0x01010101u; } else if (s.fmt == BL_FORMAT_XRGB32) { memcpy(p, &v, 4); o = v | 0xFF000000u; } else { uint32_t a = v >> 24, q = a << 24; for (int k = 0; k < 24; k += 8) q |= div255(((v >> k) & 255) * a) << k; memcpy(p, &q, 4); o = q; }
  }
  uint8_t* base = s.mem.data() + (flip ? size_t(s.h - 1) * size_t(s.stride) : 0); BLResult e = s.img.create_from_data(s.w, s.h, s.fmt, base, flip ? -s.stride : s.stride); if (e != BL_SUCCESS) c.fail("create_from_data failed: %u", unsigned(e));
  c.note("source %dx%d format %d stride %d%s", s.w, s.h, int(s.fmt), s.stride, flip ? " bottom-up" : "");
}
static long ext(long i, long n, int mode) { if (n == 1) return 0; if (mode == 0) return i < 0 ? 0 : i >= n ? n - 1 : i; long p = mode == 1 ? n : 2 * n; i %= p; if (i < 0) i += p; return i < n ? i : p - 1 - i; }
static int ext_x(int m) { static const int t[] = {0, 1, 2, 0, 0, 1, 1, 2, 2}; return t[m]; }
static int ext_y(int m) { static const int t[] = {0, 1, 2, 1, 2, 0, 2, 0, 1}; return t[m]; }

struct Fetch {
  const Source& s; BLRectI a; int mx, my; bool bil; M6 iv; LD qe; int steps;   // qe: quantisation of the position
  uint32_t at(long x, long y) const { return s.px[size_t((a.y + ext(y, a.h, my)) * s.w + a.x + ext(x, a.w, mx))]; }
  // all values the pixel may have: exact candidates (nearest) or channel ranges (bilinear)
  bool range(int x, int y, std::vector<uint32_t>& cand, LD* lo, LD* hi) const {
    LD px = x + 0.5L, py = y + 0.5L, u = px * iv.a + py * iv.c + iv.e, v = px * iv.b + py * iv.d + iv.f; if (!(std::fabs(u) < 1e8L && std::fabs(v) < 1e8L)) return false;
    LD base = LD(steps) * 0x1p-31L + 1e-9L, eu = base + std::fabs(u) * 1e-12L + qe + LD(a.w) * 1e-12L, ev = base + std::fabs(v) * 1e-12L + qe + LD(a.h) * 1e-12L; cand.clear();
    if (!bil) { for (int j = -1; j <= 1; j++) for (int i = -1; i <= 1; i++) { uint32_t q = at(long(std::floor(u + i * eu)), long(std::floor(v + j * ev))); if (std::find(cand.begin(), cand.end(), q) == cand.end()) cand.push_back(q); } return true; }
    u -= 0.5L; v -= 0.5L; eu += 1 / 256.0L; ev += 1 / 256.0L; LD us[4] = {u - eu, u, u + eu, std::floor(u + eu)}, vs[4] = {v - ev, v, v + ev, std::floor(v + ev)}; if (us[3] < us[0]) us[3] = u; if (vs[3] < vs[0]) vs[3] = v;
    for (int k = 0; k < 4; k++) { lo[k] = 1e9L; hi[k] = -1e9L; }
    for (LD vv : vs) for (LD uu : us) { long x0 = long(std::floor(uu)), y0 = long(std::floor(vv)); LD fx = uu - x0, fy = vv - y0; uint32_t p00 = at(x0, y0), p10 = at(x0 + 1, y0), p01 = at(x0, y0 + 1), p11 = at(x0 + 1, y0 + 1);
      for (int k = 0; k < 4; k++) { auto q = [&](uint32_t p) { return LD((p >> (8 * k)) & 255); }; LD r = (q(p00) * (1 - fx) + q(p10) * fx) * (1 - fy) + (q(p01) * (1 - fx) + q(p11) * fx) * fy; lo[k] = std::min(lo[k], r); hi[k] = std::max(hi[k], r); } }
    for (int k = 0; k < 4; k++) { lo[k] -= 2.3L; hi[k] += 1.3L; if (lo[k] < 0) lo[k] = 0; if (hi[k] > 255) hi[k] = 255; }
    return true;
  }
};
static uint32_t mixc(uint32_t s, uint32_t d, uint32_t m) { if (m == 255) return s; uint32_t o = 0; for (int k = 0; k < 32; k += 8) o |= div255(((d >> k) & 255) * (255 - m) + ((s >> k) & 255) * m) << k; return o; }

static void verify(Case& c, Fetch& f, bool blit, const BLImage& out, const std::vector<uint32_t>& before, const BLImage& cover, BLFormat fmt) {
  BLImageData d, k; out.get_data(&d); cover.get_data(&k); std::vector<uint32_t> cand; LD lo[4], hi[4]; uint32_t keep = fmt == BL_FORMAT_XRGB32 ? 0xFFFFFFu : ~0u;
  for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) {
    uint32_t m = px8(k, x, y), was = before[size_t(y * d.size.w + x)], got = fmt == BL_FORMAT_A8 ? px8(d, x, y) * 0x01010101u : px32(d, x, y); if (fmt == BL_FORMAT_A8) was *= 0x01010101u;
    if (m == 0) { REQUIRE(c, !((got ^ was) & keep), "pixel %d,%d is not covered but changed %08x -> %08x", x, y, was, got); continue; }
    // partially covered pixels of a blit may lie (with their centre) outside the source: repeating the border or reflecting are both fine
    LD u = (x + .5L) * f.iv.a + (y + .5L) * f.iv.c + f.iv.e, v = (x + .5L) * f.iv.b + (y + .5L) * f.iv.d + f.iv.f; std::string why; bool ok = false, skip = false;
    for (int var = 0; var < (blit ? 2 : 1) && !ok; var++) {
      if (var) f.mx = f.my = 2; else if (blit) f.mx = f.my = 0; if (!f.range(x, y, cand, lo, hi)) { skip = true; break; }
      if (fmt == BL_FORMAT_A8) { for (auto& q : cand) q = (q >> 24) * 0x01010101u; for (int z = 0; z < 3; z++) lo[z] = lo[3], hi[z] = hi[3]; }
      for (uint32_t mm = blit && m < 255 ? m - 1 : m; mm <= (blit && m < 255 ? m + 1 : m) && !ok; mm++) {   // equal geometry through another entry point: one coverage step
        if (!f.bil) { for (uint32_t q : cand) if (!((mixc(q, was, mm) ^ got) & keep)) ok = true; if (!ok && !var && mm == m) why = pbt::fmt("is %08x, expected %08x (%zu candidates)", got, mixc(cand[0], was, m), cand.size()); }
        else { bool all = true; for (int z = 0; z < (fmt == BL_FORMAT_XRGB32 ? 3 : 4); z++) { LD g = (got >> (8 * z)) & 255, w = (was >> (8 * z)) & 255, e = mm == 255 ? 0 : 0.51L, l = (w * (255 - mm) + lo[z] * mm) / 255 - e, h = (w * (255 - mm) + hi[z] * mm) / 255 + e; if (g < l || g > h) { all = false; if (!var && mm == m) why = pbt::fmt("has channel %d = %d, expected %.2Lf..%.2Lf", z, int(g), l, h); } } ok = all; }
      }
    }
    if (!ok && !skip) c.fail("pixel %d,%d (source position %.9Lg,%.9Lg, coverage %u, before %08x) %s", x, y, u, v, m, was, why.c_str());
  }
}
static std::vector<uint32_t> grab(const BLImage& im) { BLImageData d; im.get_data(&d); std::vector<uint32_t> v; for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) v.push_back(d.format == BL_FORMAT_A8 ? px8(d, x, y) : px32(d, x, y)); return v; }
// matrices of every class that patterns handle differently
static BLMatrix2D matrix(Case& c, int w, int h) {
  BLMatrix2D m; m.reset();
  switch (c.weighted({2, 3, 3, 3, 3, 2, 1, 1})) {
    case 0: break; case 1: m.translate(c.i(-60, 60), c.i(-60, 60)); break; case 2: m.translate(c.i(-6000, 6000) / 256.0, c.coin() ? c.i(-6000, 6000) / 256.0 : c.i(-20, 20)); break;
    case 3: m.translate(c.real(-30, 30), c.real(-30, 30)); m.scale(c.pickl<double>({1, 2, 0.5, -1, 3, 0.25, c.real(0.05, 5), c.real(-3, -0.1)}), c.pickl<double>({1, 2, 0.5, -1, 3, 0.25, c.real(0.05, 5), c.real(-3, -0.1)})); break;
    case 4: m.rotate(c.real(-4, 4), c.real(0, w), c.real(0, h)); if (c.coin()) m.scale(c.real(0.1, 4)); break; case 5: { static const double q[][4] = {{0, 1, 1, 0}, {-1, 0, 0, 1}, {1, 0, 0, -1}, {0, -1, 1, 0}, {-1, 0, 0, -1}, {0, 1, -1, 0}}; auto& e = q[c.below(6)]; m.reset(e[0], e[1], e[2], e[3], c.i(0, w), c.i(0, h)); break; }
    case 6: m.scale(std::pow(10.0, c.real(-2.5, 2.5)), std::pow(10.0, c.real(-2.5, 2.5))); m.translate(c.real(-100, 100), c.real(-100, 100)); break;
    default: m.reset(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-80, 80), c.real(-80, 80));
  }
  return m;
}
static BLRectI area_of(Case& c, const Source& s, bool& area) { BLRectI a; a.reset(0, 0, s.w, s.h); area = c.coin(); if (area) { int x = c.i(0, s.w - 1), y = c.i(0, s.h - 1); a.reset(x, y, c.i(1, s.w - x), c.i(1, s.h - y)); } return a; }
// a translation (after inversion) is snapped to 1/256 of a pixel
static LD quant(const M6& iv) { return std::fabs(iv.a - 1) < 1e-5L && std::fabs(iv.d - 1) < 1e-5L && std::fabs(iv.b) < 1e-5L && std::fabs(iv.c) < 1e-5L ? 1 / 256.0L + 1e-4L : 0; }

static void pattern(Case& c) {
  bool wide = c.chance(1, 20); int w = wide ? c.i(60, 400) : c.i(1, 48), h = wide ? c.i(1, 8) : c.i(1, 20); Source s; make(c, s, 24, 16); bool area; BLRectI a = area_of(c, s, area); int em = c.i(0, BL_EXTEND_MODE_MAX_VALUE); bool bil = c.coin();
  BLMatrix2D pm = matrix(c, w, h), cm; cm.reset(); int mode = 0; if (c.chance(1, 3)) { cm = matrix(c, w, h); mode = c.weighted({4, 1, 1}); }
  M6 total = mode == 0 ? mul(from(pm), from(cm)) : from(pm), iv; if (!inv(total, iv)) c.discard();
  BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); BLImage out(w, h, fmt), cover(w, h, BL_FORMAT_A8); sc::paint(out, c.u32(), 0); auto before = grab(out); int how = c.i(0, 3), threads = c.chance(1, 25) ? c.i(1, 3) : 0; bool expl = c.coin() && mode == 0;
  BLPattern p(s.img); if (area) REQUIRE(c, p.set_area(a) == BL_SUCCESS, "set_area failed"); p.set_extend_mode(BLExtendMode(em)); p.set_transform(pm); BLRectI r; r.reset(c.i(-3, w - 1), c.i(-3, h - 1), c.i(1, w + 4), c.i(1, h + 4));
  std::vector<BLPoint> poly; for (int i = 0; i < 4; i++) poly.push_back(BLPoint(c.real(-5, w + 5), c.real(-3, h + 3)));
  c.note("%dx%d format %d area %d (%d %d %d %d) extend %d %s pattern matrix [%.17g %.17g %.17g %.17g %.17g %.17g] context [%.17g %.17g %.17g %.17g %.17g %.17g] mode %d how %d threads %d", w, h, int(fmt), area, a.x, a.y, a.w, a.h, em, bil ? "bilinear" : "nearest", pm.m00, pm.m01, pm.m10, pm.m11, pm.m20, pm.m21, cm.m00, cm.m01, cm.m10, cm.m11, cm.m20, cm.m21, mode, how, threads);
  auto draw = [&](BLContext& x, const BLVar* v) { switch (how) { case 0: return v ? x.fill_all(*v) : x.fill_all(); case 1: return v ? x.fill_rect(r, *v) : x.fill_rect(r); case 2: return v ? x.fill_polygon(poly.data(), 4, *v) : x.fill_polygon(poly.data(), 4); default: return v ? x.fill_rect(BLRect(r.x + 0.25, r.y + 0.5, r.w, r.h), *v) : x.fill_rect(BLRect(r.x + 0.25, r.y + 0.5, r.w, r.h)); } };
  { BLContext x(cover); x.clear_all(); BLVar v(BLRgba32(~0u)); if (mode == 0 && expl) x.apply_transform(cm); draw(x, &v); x.end(); }
  BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); BLContext x(out, ci); x.set_comp_op(BL_COMP_OP_SRC_COPY); x.set_pattern_quality(bil ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST); x.apply_transform(cm); BLVar v(p); BLResult e;
  if (expl) e = draw(x, &v);
  else { if (mode == 0) e = x.set_fill_style(p); else { if (mode == 1) x.user_to_meta(), x.reset_transform(), total = mul(from(pm), from(cm)); e = x.set_fill_style(p, mode == 1 ? BL_CONTEXT_STYLE_TRANSFORM_MODE_META : BL_CONTEXT_STYLE_TRANSFORM_MODE_NONE); if (mode == 1) { x.reset_transform(); } } REQUIRE(c, e == BL_SUCCESS, "set_fill_style failed"); if (mode == 1) { BLMatrix2D back; if (BLMatrix2D::invert(back, cm) != BL_SUCCESS) { x.end(); c.discard(); } x.set_transform(back); } else x.set_transform(BLMatrix2D::make_identity()); if (mode == 1 && how != 0) { x.end(); c.discard(); } e = draw(x, nullptr); }
  x.end(); REQUIRE(c, e == BL_SUCCESS, "drawing failed: %u", unsigned(e)); if (mode == 1 && !inv(total, iv)) c.discard();
  Fetch f{s, a, ext_x(em), ext_y(em), bil, iv, quant(iv), w + h + 2}; verify(c, f, false, out, before, cover, fmt);
  c.label(bil, "bilinear"); c.label(area, "area"); c.label(quant(iv) > 0, "translation"); c.label(ext_x(em) != ext_y(em), "mixed extend"); c.nontrivial(grab(cover) != std::vector<uint32_t>(size_t(w * h)) && s.w * s.h > 1);
}

static void blit(Case& c) {
  int w = c.i(1, 48), h = c.i(1, 24); Source s; make(c, s, 30, 20); bool area; BLRectI a = area_of(c, s, area); bool bil = c.coin(); BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); int threads = c.chance(1, 25) ? c.i(1, 3) : 0;
  BLImage out(w, h, fmt), cover(w, h, BL_FORMAT_A8); sc::paint(out, c.u32(), 0); auto before = grab(out); BLMatrix2D cm; cm.reset(); int tk = c.weighted({3, 3, 1, 2}); if (tk == 1) cm.translate(c.i(-20, 20), c.i(-12, 12)); if (tk == 2) cm.translate(c.i(-600, 600) / 256.0, c.real(-3, 3)); if (tk == 3) cm = matrix(c, w, h);
  int kind = c.i(0, 3); double X, Y, W = a.w, H = a.h; bool whole = kind == 0 || kind == 2; if (whole) { X = c.i(-20, w); Y = c.i(-12, h); } else if (c.coin()) { X = c.i(-5000, w * 256) / 256.0; Y = c.i(-3000, h * 256) / 256.0; } else { X = c.i(-20, w); Y = c.i(-12, h); }
  if (kind >= 2) { if (whole) { W = c.i(1, w + 10); H = c.i(1, h + 10); } else { W = c.real(0.1, w + 8); H = c.real(0.1, h + 8); } if (c.chance(1, 4)) { W = a.w; H = a.h; } }
  if (c.chance(1, 2)) { X = c.i(0, 2); Y = c.i(0, 2); }
  M6 local{LD(W) / a.w, 0, 0, LD(H) / a.h, X, Y}, iv, total = mul(local, from(cm)); if (!inv(total, iv)) c.discard(); static const char* kn[] = {"point int", "point double", "rect int", "rect double"};
  c.note("%dx%d format %d blit %s at %.17g %.17g size %.17g %.17g area %d (%d %d %d %d) %s context [%.17g %.17g %.17g %.17g %.17g %.17g] threads %d", w, h, int(fmt), kn[kind], X, Y, W, H, area, a.x, a.y, a.w, a.h, bil ? "bilinear" : "nearest", cm.m00, cm.m01, cm.m10, cm.m11, cm.m20, cm.m21, threads);
  { BLContext x(cover); x.clear_all(); x.apply_transform(cm); if (kind == 0) { BLRectI q; q.reset(int(X), int(Y), a.w, a.h); x.fill_rect(q, BLRgba32(~0u)); } else x.fill_rect(BLRect(X, Y, W, H), BLRgba32(~0u)); x.end(); }
  BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); BLContext x(out, ci); x.set_comp_op(BL_COMP_OP_SRC_COPY); x.set_pattern_quality(bil ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST); x.apply_transform(cm); BLResult e;
  BLPointI pi; pi.reset(int(X), int(Y)); BLPoint pd(X, Y); BLRectI ri; ri.reset(int(X), int(Y), int(W), int(H)); BLRect rd(X, Y, W, H);
  switch (kind) { case 0: e = area ? x.blit_image(pi, s.img, a) : x.blit_image(pi, s.img); break; case 1: e = area ? x.blit_image(pd, s.img, a) : x.blit_image(pd, s.img); break; case 2: e = area ? x.blit_image(ri, s.img, a) : x.blit_image(ri, s.img); break; default: e = area ? x.blit_image(rd, s.img, a) : x.blit_image(rd, s.img); }
  x.end(); REQUIRE(c, e == BL_SUCCESS, "blit failed: %u", unsigned(e)); Fetch f{s, a, 0, 0, bil, iv, quant(iv), w + h + 2};
  bool exact = std::fabs(total.a - 1) < 1e-12L && std::fabs(total.d - 1) < 1e-12L && std::fabs(total.b) < 1e-12L && std::fabs(total.c) < 1e-12L && total.e == std::floor(total.e) && total.f == std::floor(total.f); if (exact) { f.qe = 0; f.bil = false; c.label(true, "whole-pixel copy"); }
  verify(c, f, true, out, before, cover, fmt); c.label(area, "area"); c.label(kind >= 2, "scaled"); c.nontrivial(grab(cover) != std::vector<uint32_t>(size_t(w * h)) && s.w * s.h > 1);
}

// source areas outside the image and degenerate destinations: refused or nothing
static void bad_area(Case& c) {
  Source s; make(c, s, 12, 12); BLImage out(16, 12, BL_FORMAT_PRGB32); sc::paint(out, c.u32(), 0); auto before = grab(out); auto v = [&](int n) { return c.weighted({4, 1}) == 0 ? c.i(-2, n + 2) : c.pickl<int>({INT_MAX, INT_MIN, INT_MAX - 1, -1, 0}); };
  BLRectI a; { int x = v(s.w), y = v(s.h); a.reset(x, y, v(s.w), v(s.h)); } bool valid = a.x >= 0 && a.y >= 0 && a.w >= 0 && a.h >= 0 && int64_t(a.x) + a.w <= s.w && int64_t(a.y) + a.h <= s.h; bool empty = valid && (a.w == 0 || a.h == 0);
  c.note("area %d %d %d %d", a.x, a.y, a.w, a.h); BLPattern p(s.img); BLResult e = p.set_area(a); REQUIRE(c, (e == BL_SUCCESS) == (valid && !empty) || (empty && e == BL_SUCCESS), "set_area returned %u", unsigned(e)); BLRectI g = p.area(); if (e == BL_SUCCESS) REQUIRE(c, g == a, "area() returns another area"); else { BLRectI full; full.reset(0, 0, s.w, s.h); REQUIRE(c, g == full, "a rejected area changed the pattern"); }
  { // the constructors and create() with all of their arguments, refused arguments leave a default pattern or the pattern as it was
    BLExtendMode em = BLExtendMode(c.below(BL_EXTEND_MODE_COMPLEX_MAX_VALUE + (c.chance(1, 5) ? 4 : 1))); bool em_ok = em <= BL_EXTEND_MODE_COMPLEX_MAX_VALUE, ok = em_ok; BLMatrix2D m(1, c.i(0, 1), c.i(0, 1), c.i(2, 4), c.i(-4, 4), c.i(-4, 4)), wm; int args = c.i(0, 3); bool ctor = c.coin(); BLRectI wa; wa.reset(0, 0, s.w, s.h);
    BLPattern def, old(s.img, BL_EXTEND_MODE_PAD_X_REPEAT_Y), n(old); BLResult r = BL_SUCCESS; if (ctor) switch (args) { case 0: n = BLPattern(s.img, em); break; case 1: n = BLPattern(s.img, em, m); break; case 2: n = BLPattern(s.img, a, em); break; default: n = BLPattern(s.img, a, em, m); }
    else switch (args) { case 0: r = n.create(s.img, em); break; case 1: r = n.create(s.img, em, m); break; case 2: r = n.create(s.img, a, em); break; default: r = n.create(s.img, a, em, m); }
    if (args >= 2) { ok = ok && e == BL_SUCCESS; wa = a; } if (args & 1) wm = m; else wm.reset(); c.note("%s %d, extend mode %d", ctor ? "constructor" : "create", args, int(em)); if (!ctor) REQUIRE(c, (r == BL_SUCCESS) == ok, "create %d returned %u", args, unsigned(r));
    if (ok) REQUIRE(c, n.get_image() == s.img && n.area() == wa && n.extend_mode() == em && n.transform() == wm && n.transform_type() == wm.type(), "%s %d gave another pattern: area %d %d %d %d, extend mode %d", ctor ? "constructor" : "create", args, n.area().x, n.area().y, n.area().w, n.area().h, int(n.extend_mode())); else REQUIRE(c, n == (ctor ? def : old), "refused arguments changed the pattern"); }
  BLPattern q; BLResult e2 = q.create(s.img, a, BL_EXTEND_MODE_REPEAT); REQUIRE(c, (e2 == BL_SUCCESS) == (e == BL_SUCCESS), "create with area returned %u, set_area %u", unsigned(e2), unsigned(e));
  BLContext x(out); int k = c.i(0, 3); BLPointI pi; pi.reset(c.i(-3, 12), c.i(-3, 9)); BLRectI ri; ri.reset(pi.x, pi.y, c.i(0, 12), c.i(0, 9)); BLResult b = k == 0 ? x.blit_image(pi, s.img, a) : k == 1 ? x.blit_image(BLPoint(pi.x, pi.y), s.img, a) : k == 2 ? x.blit_image(ri, s.img, a) : x.blit_image(BLRect(ri.x, ri.y, ri.w, ri.h), s.img, a); x.end();
  if (!valid) { REQUIRE(c, b != BL_SUCCESS, "a blit with an area outside the image succeeded (kind %d)", k); REQUIRE(c, grab(out) == before, "a refused blit changed the image"); } else if (empty) REQUIRE(c, grab(out) == before, "an empty source area painted something");
  c.nontrivial(!valid || empty);
}

int main(int argc, char** argv) {
  pbt::Suite s("C19", "pattern/blit: something is covered and the source has more than one pixel; bad-area: the area is invalid or empty", argc, argv);
  s.add("pattern", pattern, {.quick = 160000, .thorough = 4000000, .chunk = 250});
  s.add("blit", blit, {.quick = 100000, .thorough = 2500000, .chunk = 250});
  s.add("bad-area", bad_area, {.quick = 40000, .thorough = 600000, .chunk = 500});
  return s.run();
}
