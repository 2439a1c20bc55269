// C13: composition operators against their documented premultiplied formulas.
#include "render.h"
using namespace rv;
struct Px { double c[4]; };      // r g b a, premultiplied 0..1
static Px unp(uint32_t v) { return {{((v >> 16) & 255) / 255.0, ((v >> 8) & 255) / 255.0, (v & 255) / 255.0, (v >> 24) / 255.0}}; }
static double clamp01(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
// full coverage formula of one channel; sa/da alphas, s/d premultiplied colours
static double blend(int op, double s, double sa, double d, double da) {
  double base = s * (1 - da) + d * (1 - sa);
  switch (op) {
    case BL_COMP_OP_SRC_OVER: return s + d * (1 - sa); case BL_COMP_OP_SRC_COPY: return s; case BL_COMP_OP_SRC_IN: return s * da; case BL_COMP_OP_SRC_OUT: return s * (1 - da);
    case BL_COMP_OP_SRC_ATOP: return s * da + d * (1 - sa); case BL_COMP_OP_DST_OVER: return d + s * (1 - da); case BL_COMP_OP_DST_COPY: return d; case BL_COMP_OP_DST_IN: return d * sa;
    case BL_COMP_OP_DST_OUT: return d * (1 - sa); case BL_COMP_OP_DST_ATOP: return d * sa + s * (1 - da); case BL_COMP_OP_XOR: return base; case BL_COMP_OP_CLEAR: return 0;
    case BL_COMP_OP_PLUS: return clamp01(s + d); case BL_COMP_OP_MODULATE: return s * d; case BL_COMP_OP_MULTIPLY: return d * (s + 1 - sa) + s * (1 - da); case BL_COMP_OP_SCREEN: return d + s * (1 - d);
    case BL_COMP_OP_DARKEN: return std::min(s * da, d * sa) + base; case BL_COMP_OP_LIGHTEN: return std::max(s * da, d * sa) + base;
    case BL_COMP_OP_DIFFERENCE: return s + d - 2 * std::min(s * da, d * sa); case BL_COMP_OP_EXCLUSION: return s + d - 2 * s * d;
    case BL_COMP_OP_OVERLAY: return 2 * d < da ? 2 * s * d + base : sa * da - 2 * (sa - s) * (da - d) + base;
    case BL_COMP_OP_HARD_LIGHT: return 2 * s < sa ? 2 * s * d + base : sa * da - 2 * (sa - s) * (da - d) + base;
    default: return -1;
  }
}
// -1 = the formula of this operator is not modelled
static bool modelled(int op) { return blend(op, 0, 0, 0, 0) >= 0; }
static double alpha_of(int op, double sa, double da) {
  switch (op) { case BL_COMP_OP_OVERLAY: case BL_COMP_OP_HARD_LIGHT: case BL_COMP_OP_DARKEN: case BL_COMP_OP_LIGHTEN: case BL_COMP_OP_DIFFERENCE: case BL_COMP_OP_EXCLUSION: case BL_COMP_OP_MULTIPLY: return sa + da - sa * da; default: return blend(op, sa, sa, da, da); }
}
static bool typeA(int op) { switch (op) { case BL_COMP_OP_SRC_COPY: case BL_COMP_OP_SRC_IN: case BL_COMP_OP_SRC_OUT: case BL_COMP_OP_DST_IN: case BL_COMP_OP_DST_ATOP: case BL_COMP_OP_MODULATE: case BL_COMP_OP_CLEAR: case BL_COMP_OP_DST_COPY: return false; default: return true; } }

static uint32_t rnd_prgb(Case& c, bool opaque) {
  uint32_t a = opaque ? 255 : c.weighted({2, 2, 4}) == 0 ? 0 : c.coin() ? 255 : c.byte(); uint32_t v = a << 24;
  for (int k = 0; k < 3; k++) { uint32_t x = a ? uint32_t(c.below(a + 1)) : 0; if (c.chance(1, 5)) x = c.coin() ? a : 0; v |= x << (8 * k); }
  return v;
}
static uint32_t rnd_rgba(Case& c) { uint32_t v = c.u32(); int k = c.weighted({3, 3, 1, 1}); if (k == 1) v |= 0xFF000000u; if (k == 2) v &= 0xFFFFFFu; if (k == 3) v = c.pickl<uint32_t>({0xFFFFFFFFu, 0xFF000000u, 0, 0x80FFFFFFu, 0x01FFFFFFu, 0xFEFFFFFFu}); return v; }
static double rnd_alpha(Case& c) { switch (c.weighted({4, 1, 2, 1})) { case 0: return 1; case 1: return 0; case 2: return c.frac(); default: return c.below(256) / 255.0; } }

static void formula(Case& c) {
  int w = c.i(1, 24), h = c.i(1, 6); BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8});
  int op = c.weighted({3, 5}) == 0 ? c.i(0, 1) : c.i(0, BL_COMP_OP_MAX_VALUE);
  BLImage img(w, h, fmt), shape(w, h, BL_FORMAT_A8); BLImageData d, before; img.make_mutable(&d); std::vector<uint32_t> dst(size_t(w) * size_t(h));
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = rnd_prgb(c, fmt == BL_FORMAT_XRGB32); dst[size_t(y * w + x)] = v; uint8_t* row = (uint8_t*)d.pixel_data + y * d.stride; if (fmt == BL_FORMAT_A8) row[x] = uint8_t(v >> 24); else memcpy(row + 4 * x, &v, 4); }
  (void)before;
  // source
  int sk = c.weighted({4, 2, 2, 3}); BLVar style; double sr = 0, sg = 0, sb = 0, sa = 0; BLImage simg; BLImageData sd{}; BLFormat sf = BL_FORMAT_NONE; int ox = 0, oy = 0;
  if (sk == 0) { uint32_t v = rnd_rgba(c); style = BLRgba32(v); sr = ((v >> 16) & 255) / 255.0; sg = ((v >> 8) & 255) / 255.0; sb = (v & 255) / 255.0; sa = (v >> 24) / 255.0; c.note("solid rgba32 %08x", v); }
  else if (sk == 1) { uint64_t v = c.u64(); if (c.coin()) v |= 0xFFFF000000000000u; style = BLRgba64(v); auto q = [&](int s) { return double((v >> (s + 8)) & 0xFF) / 255.0; /* colours are 8-bit per channel in these formats */ }; sa = q(48); sr = q(32); sg = q(16); sb = q(0); c.note("solid rgba64 %016llx", (unsigned long long)v); }
  else if (sk == 2) { sr = c.frac(); sg = c.frac(); sb = c.frac(); sa = c.coin() ? 1 : c.frac(); if (c.chance(1, 8)) sr = c.real(-1, 2); style = BLRgba(float(sr), float(sg), float(sb), float(sa)); sr = clamp01(float(sr)); sa = float(sa); sg = float(sg); sb = float(sb); c.note("solid rgba %g %g %g %g", sr, sg, sb, sa); }
  else {
    sf = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); int sw = c.i(1, 30), sh = c.i(1, 8); simg.create(sw, sh, sf); simg.make_mutable(&sd); uint32_t same = rnd_prgb(c, sf == BL_FORMAT_XRGB32); bool one = c.coin();
    for (int y = 0; y < sh; y++) for (int x = 0; x < sw; x++) { uint32_t v = one ? same : rnd_prgb(c, false); if (sf == BL_FORMAT_XRGB32) v = (v & 0xFFFFFF) | (uint32_t(c.chance(1, 2) ? 255 : c.byte()) << 24); uint8_t* row = (uint8_t*)sd.pixel_data + y * sd.stride; if (sf == BL_FORMAT_A8) row[x] = uint8_t(v >> 24); else memcpy(row + 4 * x, &v, 4); }
    ox = c.i(-40, 40); oy = c.i(-10, 10); BLPattern p(simg); p.set_extend_mode(BL_EXTEND_MODE_REPEAT); p.translate(ox, oy); style = p; simg.get_data(&sd); c.note("pattern format %d %dx%d at %d,%d", int(sf), sw, sh, ox, oy);
  }
  bool explicit_style = c.coin(); double ga = rnd_alpha(c), fa = rnd_alpha(c); int how = c.i(0, 4), threads = c.chance(1, 16) ? c.i(1, 3) : 0;
  static const char* hows[] = {"fill_all", "int rect", "fractional rect", "triangle", "mask"};
  BLRectI ri; ri.reset(c.i(-2, w - 1), c.i(-2, h - 1), c.i(1, w + 3), c.i(1, h + 3)); BLRect rd(ri.x + c.below(256) / 256.0, ri.y + c.below(256) / 256.0, ri.w - c.below(256) / 256.0, ri.h - c.below(256) / 256.0);
  BLTriangle tr; tr.reset(c.real(-2, w + 2), c.real(-2, h + 2), c.real(-2, w + 2), c.real(-2, h + 2), c.real(-2, w + 2), c.real(-2, h + 2));
  BLImage mask; int mx = 0, my = 0; if (how == 4) { int mw = c.i(1, w + 4), mh = c.i(1, h + 4); mask.create(mw, mh, BL_FORMAT_A8); BLImageData md; mask.make_mutable(&md); for (int y = 0; y < mh; y++) for (int x = 0; x < mw; x++) ((uint8_t*)md.pixel_data)[y * md.stride + x] = uint8_t(c.weighted({1, 1, 3}) == 0 ? 0 : c.coin() ? 255 : c.byte()); mx = c.i(-3, w); my = c.i(-3, h); }
  c.note("%dx%d format %d operator %d %s alpha %.17g fill alpha %.17g threads %d", w, h, int(fmt), op, hows[how], ga, fa, threads);
  auto draw = [&](BLContext& ctx, const BLVar* s) -> BLResult {
    switch (how) {
      case 0: return s ? ctx.fill_all(*s) : ctx.fill_all(); case 1: return s ? ctx.fill_rect(ri, *s) : ctx.fill_rect(ri); case 2: return s ? ctx.fill_rect(rd, *s) : ctx.fill_rect(rd);
      case 3: return s ? ctx.fill_triangle(tr, *s) : ctx.fill_triangle(tr); default: { BLPointI o; o.reset(mx, my); return s ? ctx.fill_mask(o, mask, *s) : ctx.fill_mask(o, mask); }
    }
  };
  BLVar white(BLRgba32(0xFFFFFFFFu)); { BLContext ctx(shape); ctx.clear_all(); ctx.set_comp_op(BL_COMP_OP_SRC_COPY); BLResult r = draw(ctx, &white); REQUIRE(c, r == BL_SUCCESS, "drawing the coverage failed (%u)", unsigned(r)); ctx.end(); }
  BLImageData cov; shape.get_data(&cov);
  BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); BLContext ctx; REQUIRE(c, ctx.begin(img, ci) == BL_SUCCESS, "begin"); ctx.set_pattern_quality(BL_PATTERN_QUALITY_NEAREST);
  BLResult r = ctx.set_comp_op(BLCompOp(op)); REQUIRE(c, r == BL_SUCCESS, "set_comp_op(%d) %u", op, unsigned(r)); ctx.set_global_alpha(ga); ctx.set_fill_alpha(fa); if (!explicit_style) REQUIRE(c, ctx.set_fill_style(style) == BL_SUCCESS, "set_fill_style");
  r = draw(ctx, explicit_style ? &style : nullptr); BLResult r2 = ctx.flush(BL_CONTEXT_FLUSH_SYNC); uint32_t ef = ctx.accumulated_error_flags(); ctx.end(); bool refused = r != BL_SUCCESS || r2 != BL_SUCCESS || ef != 0;
  double al = ga * fa;    // the alpha of the fill slot applies to explicitly passed styles too
  img.get_data(&d); int changed = 0, partial = 0; bool supported = modelled(op);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    uint32_t o = dst[size_t(y * w + x)], g = fmt == BL_FORMAT_A8 ? uint32_t(px8(d, x, y)) << 24 : px32(d, x, y); if (fmt == BL_FORMAT_A8) o &= 0xFF000000u; int m = px8(cov, x, y);
    if (g != o) changed++; if (m > 0 && m < 255) partial++;
    if (refused) { REQUIRE(c, g == o, "operator %d was refused (%u), but pixel (%d,%d) changed from %08x to %08x", op, unsigned(r), x, y, o, g); continue; }
    if (m == 0) { REQUIRE(c, g == o, "pixel (%d,%d) has no coverage, but changed from %08x to %08x", x, y, o, g); continue; }
    if (fmt == BL_FORMAT_PRGB32) for (int k = 0; k < 3; k++) REQUIRE(c, ((g >> (8 * k)) & 255) <= (g >> 24), "pixel (%d,%d) %08x has a colour above its alpha (was %08x)", x, y, g, o);
    if (!supported) continue;
    Px S, D = unp(o); if (fmt == BL_FORMAT_A8) D.c[0] = D.c[1] = D.c[2] = 0;
    if (sk == 3) { int sx = ((x - ox) % simg.width() + simg.width()) % simg.width(), sy = ((y - oy) % simg.height() + simg.height()) % simg.height(); uint32_t v = sf == BL_FORMAT_A8 ? 0x01010101u * px8(sd, sx, sy) : px32(sd, sx, sy); if (sf == BL_FORMAT_XRGB32) v |= 0xFF000000u; S = unp(v); }
    else S = {{sr * sa, sg * sa, sb * sa, sa}};
    double mm = m / 255.0 * al; bool A = typeA(op);
    for (int k = 0; k < 4; k++) {
      if (fmt == BL_FORMAT_A8 && k < 3) continue; if (fmt == BL_FORMAT_XRGB32 && k == 3) continue;
      double e; if (A) e = k == 3 ? alpha_of(op, S.c[3] * mm, D.c[3]) : blend(op, S.c[k] * mm, S.c[3] * mm, D.c[k], D.c[3]); else e = (k == 3 ? alpha_of(op, S.c[3], D.c[3]) : blend(op, S.c[k], S.c[3], D.c[k], D.c[3])) * mm + D.c[k] * (1 - mm);
      double gv = double((g >> (k == 3 ? 24 : 16 - 8 * k)) & 255), tol = 1.05 + (sk == 1 || sk == 2 ? 1.3 : 0) + (al != 1 ? 1.6 : 0) + (m != 255 ? 1.1 : 0);   // quantisation of the source, of the alpha and of the coverage product
      REQUIRE(c, std::fabs(gv - e * 255) <= tol, "operator %d pixel (%d,%d): channel %d is %g, formula gives %.3f (source %.4f alpha %.4f, destination %08x, coverage %d, alpha %.4f)", op, x, y, k, gv, e * 255, S.c[k], S.c[3], o, m, al);
    }
  }
  static const char* on[] = {"src-over", "src-copy", "src-in", "src-out", "src-atop", "dst-over", "dst-copy", "dst-in", "dst-out", "dst-atop", "xor", "clear"};
  c.label(refused, "refused"); if (!refused && op < 12) c.label(on[op]); if (!refused && op >= 12) c.label("rendered blend operator"); c.label(partial > 0, "partial coverage"); c.label(sk == 3, "pattern source"); c.label(threads > 0, "asynchronous");
  c.nontrivial(!refused && changed > 0);
}
int main(int argc, char** argv) {
  pbt::Suite s("C13", "random operator, source (solid in three encodings, pattern in three formats), alphas, geometry (all, aligned, fractional, triangle, mask) and destination pixels in every format; non-trivial = the operation was rendered and changed at least one pixel", argc, argv);
  s.add("formula", formula, {.quick = 1500000, .thorough = 20000000, .chunk = 1000});
  s.assume("coverage is taken from the same shape drawn in white with SRC_COPY into an A8 image (C12 checks coverage itself)");
  s.assume("the sandbox builds Blend2D without the JIT compiler, so operators other than those the portable pipeline renders must be refused without touching the image");
  return s.run();
}
