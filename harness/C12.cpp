// C12: fill coverage against exact area accumulation.
#include "render.h"
using namespace rv;

static void describe(Case& c, const BLPath& p) { for (size_t i = 0; i < p.size(); i++) c.note("  cmd %u (%.9g, %.9g)", p.command_data()[i], p.vertex_data()[i].x, p.vertex_data()[i].y); }

static void run(Case& c, bool curves, bool weights = false) {
  int w = c.chance(1, 10) ? c.i(64, 400) : c.i(1, 48), h = c.chance(1, 10) ? c.i(64, 300) : c.i(1, 40);
  BLFormat fmt = c.chance(1, 3) ? BL_FORMAT_PRGB32 : BL_FORMAT_A8; BLFillRule rule = c.coin() ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO;
  int mode = curves ? c.weighted({2, 2, 5, 2, 1}) : c.weighted({3, 4, 4, 2, 1}); int figs = 1 + int(c.below(3)); BLPath path; int ncurve = 0; bool mixed = c.chance(1, 6), closed = false;
  c.note("%dx%d format %d rule %d mode %d", w, h, int(fmt), int(rule), mode);
  for (int f = 0; f < figs; f++) {
    auto pp = [&] { return pt(c, w, h, mixed ? int(c.below(5)) : mode); };
    BLPoint last = pp(); path.move_to(last); int n = 1 + int(c.below(c.chance(1, 6) ? 40 : 6));
    for (int k = 0; k < n; k++) {
      int kind = weights ? c.weighted({1, 0, 3, 0}) : curves ? c.weighted({3, 3, 2, 3}) : 0; BLPoint a = pp(); if (kind == 0 && c.chance(1, 5)) { if (c.coin()) a.x = last.x; else a.y = last.y; }
      if (kind == 0) path.line_to(a);
      else if (kind == 1) { BLPoint b = pp(); path.quad_to(a, b); a = b; ncurve++; }
      else if (kind == 2) { BLPoint b = pp(); double wg = weights ? c.pickl<double>({0.5, 0.70710678118654752, 2.0, 0.2, 5.0}) : 1.0; path.conic_to(a, b, wg); a = b; ncurve++; }
      else { BLPoint b = pp(), d = pp(); path.cubic_to(a, b, d); a = d; ncurve++; }
      last = a;
    }
    if (c.coin()) { path.close(); closed = true; }
  }
  BLMatrix2D m = BLMatrix2D::make_identity(); int tk = c.weighted({6, 2, 2, 1});
  if (tk == 1) m = BLMatrix2D::make_translation(c.real(-5, 5), c.real(-5, 5));
  if (tk == 2) { m = BLMatrix2D::make_scaling(c.real(0.25, 2), c.real(-2, 2)); m.post_translate(c.real(-3, 3), c.real(0, h)); }
  if (tk == 3) { m = BLMatrix2D::make_identity(); m.rotate(c.real(-3, 3), w / 2.0, h / 2.0); if (c.coin()) m.skew(c.real(-1, 1), 0); }
  describe(c, path); c.note("matrix %g %g %g %g %g %g", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21);
  BLImage img(w, h, fmt); BLContext ctx(img); double ftol = 0.01;
  ctx.clear_all(); ctx.set_flatten_tolerance(ftol); ctx.set_fill_rule(rule); ctx.set_transform(m); ctx.set_comp_op(c.coin() ? BL_COMP_OP_SRC_OVER : BL_COMP_OP_SRC_COPY);
  BLResult r = ctx.fill_path(path, BLRgba32(0xFFFFFFFF)); REQUIRE(c, r == BL_SUCCESS, "fill_path failed: %u", unsigned(r));
  REQUIRE(c, ctx.end() == BL_SUCCESS, "end");
  // model
  Polys ps = rings(path, m, 1); bool big = false; double ext = 0; for (size_t k = 0; k < path.size(); k++) { double vx = path.vertex_data()[k].x, vy = path.vertex_data()[k].y; if (std::isnan(vy) || path.command_data()[k] == BL_PATH_CMD_CLOSE) continue; P z = xf(m, P{vx, vy}); ext = std::max({ext, std::fabs(z.x), std::fabs(z.y)}); }
  big = ext > 5000;
  if (ncurve) { int n = ext > 20000 ? 0 : ext > 2000 ? 3000 : 500; if (!n) c.discard(); ps = rings(path, m, n); }
  Cover cov(w, h); cov.polys(ps);
  // edges of the un-sampled path, to count how many quantised segments meet a pixel
  BLImageData d; img.get_data(&d); int partial = 0, over = 0;
  Cover ctl(w, h); if (ncurve) ctl.polys(rings(path, m, 24)); const std::vector<int>& ne = ncurve ? ctl.edges : cov.edges;
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    size_t i = size_t(y) * size_t(w) + size_t(x); double S = cov.acc[i]; int v; if (fmt == BL_FORMAT_A8) v = px8(d, x, y); else { uint32_t p = px32(d, x, y); v = int(p >> 24); REQUIRE(c, p == uint32_t(v) * 0x01010101u, "pixel (%d,%d) %08x is not a coverage of white", x, y, p); }
    // Vertices are rounded to 1/256 pixel (area error up to len/512 + len of end shift), so the accumulated area of each
    // edge that meets the pixel may be off by about 1/256 + slope walking error.
    int ed = ncurve ? (cov.edges[i] ? std::min(cov.edges[i], ne[i] + 3) : 0) : ne[i]; double tol = 1.6 + 255.0 * (ed * (1.6 / 256.0)) + (ncurve ? 255.0 * cov.len[i] * ftol * 1.2 + 1 : 0);
    // row-wide effect: an edge to the left whose end was moved by rounding changes the cover of the whole row
    double left = 0; (void)left;
    double e0 = 255 * cov.at(x, y, rule), err = std::fabs(v - e0);
    // the accumulated sum may sit anywhere within tol of S, map the interval through the fill rule
    if (err > tol) {
      double lo = 1e9, hi = -1e9; for (int k = -8; k <= 8; k++) { double q = 255 * Cover::apply(S + k / 8.0 * tol / 255, rule); lo = std::min(lo, q); hi = std::max(hi, q); }
      REQUIRE(c, v >= lo - 1.6 && v <= hi + 1.6, "%spixel (%d,%d) is %d, exact coverage %.3f (signed area %.5f, tolerance %.2f, %d edges)", weights ? "conic with a weight other than one: " : "", x, y, v, e0, S, tol, ed);
    }
    if (v > 0 && v < 255) partial++; if (v) over++;
  }
  c.label(rule == BL_FILL_RULE_EVEN_ODD, "even-odd"); c.label(ncurve > 0, "curves"); c.label(big, "coordinates beyond 5000"); c.label(!closed, "open figures only"); c.label(tk >= 2, "scaled or rotated"); c.label(h > 64, "several bands"); c.label(fmt == BL_FORMAT_PRGB32, "PRGB32");
  c.nontrivial(partial > 0 && over > 1);
}
static void conic_weights(Case& c) { run(c, true, true); }
// One edge on the 1/256 grid at a time; the model is exact for these, so that the tolerance is only the rounding of a pixel.
static void edges(Case& c) {
  int w = c.i(4, 14), h = c.weighted({6, 1}) ? c.i(60, 160) : c.i(2, 6); int touched = 0, diag = 0;
  for (int k = 0; k < 24; k++) {
    int H = h * 256, W = w * 256; int dy = 1 + int(c.below(c.coin() ? 20u : unsigned(H))), dx = c.coin() ? dy + c.i(-4, 4) : c.coin() ? int(c.below(unsigned(W))) : dy * c.i(1, 8) + c.i(-2, 2); if (dx < 0) dx = 0;
    int x0 = c.i(1, W - 1), x1 = c.coin() ? x0 + dx : x0 - dx, y0 = c.i(0, H - 1); if (c.chance(1, 3)) y0 &= ~255; int y1 = y0 + dy; if (c.chance(1, 3)) y1 = (y1 + 255) & ~255;
    if (x1 < 0 || x1 > W || y1 > H) continue;
    if (dx && std::abs(dx - dy) < 5) diag++;
    BLPath p; p.move_to(x0 / 256.0, y0 / 256.0); p.line_to(x1 / 256.0, y1 / 256.0); p.line_to(0, y1 / 256.0); p.line_to(0, y0 / 256.0); p.close();
    BLImage img(w, h, BL_FORMAT_A8); BLContext ctx(img); ctx.clear_all(); BLResult r = ctx.fill_path(p, BLRgba32(0xFFFFFFFFu)); REQUIRE(c, r == BL_SUCCESS, "fill_path %u", unsigned(r)); ctx.end();
    Cover cov(w, h); cov.polys(rings(p, BLMatrix2D::make_identity(), 1)); BLImageData d; img.get_data(&d); touched++;
    for (int y = y0 / 256; y <= (y1 - 1) / 256; y++) for (int x = 0; x < w; x++) { double e = 255 * cov.at(x, y, BL_FILL_RULE_NON_ZERO); int v = px8(d, x, y); REQUIRE(c, std::fabs(v - e) <= 2.2, "edge (%d,%d)-(%d,%d)/256 in %dx%d: pixel (%d,%d) is %d, exact %.3f", x0, y0, x1, y1, w, h, x, y, v, e); }
  }
  c.label(diag > 0, "edge close to 45 degrees"); c.label(h >= 60, "several bands"); c.nontrivial(touched >= 4);
}
static void poly(Case& c) { run(c, false); }
static void curve(Case& c) { run(c, true); }

int main(int argc, char** argv) {
  pbt::Suite s("C12", "random paths (lines, quads, conics, cubics; in, near, far outside the image) filled with both rules into A8/PRGB32 images, every pixel compared with the exact signed-area accumulation; non-trivial = at least one partially covered and two touched pixels", argc, argv);
  s.add("polygons", poly, {.quick = 100000, .thorough = 2000000, .chunk = 400});
  s.add("edges", edges, {.quick = 60000, .thorough = 600000, .chunk = 200});
  s.add("curves", curve, {.quick = 60000, .thorough = 1000000, .chunk = 100});
  s.add("conic-weights", conic_weights, {.quick = 8000, .thorough = 200000, .chunk = 100});
  s.assume("in pixels crossed by several edges of opposite direction the coverage is the clamped (non-zero) or folded (even-odd) signed area, as the analytic rasterizer defines it");
  return s.run();
}
