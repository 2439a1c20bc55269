// C08: 2x3 affine algebra.
#include "render.h"
using namespace rv;
typedef long double L;
struct M { L a[6]; L mag; };     // value and accumulated magnitude for the tolerance
static M of(const BLMatrix2D& m) { M r; const double* p = m.m; r.mag = 0; for (int i = 0; i < 6; i++) { r.a[i] = p[i]; } return r; }
static M mul(const M& A, const M& B) {  // point row vector: p * A * B
  M r; r.mag = 0; const L* a = A.a; const L* b = B.a;
  r.a[0] = a[0] * b[0] + a[1] * b[2]; r.a[1] = a[0] * b[1] + a[1] * b[3]; r.a[2] = a[2] * b[0] + a[3] * b[2]; r.a[3] = a[2] * b[1] + a[3] * b[3];
  r.a[4] = a[4] * b[0] + a[5] * b[2] + b[4]; r.a[5] = a[4] * b[1] + a[5] * b[3] + b[5]; return r;
}
static M absm(const M& A) { M r = A; for (L& x : r.a) x = fabsl(x); return r; }
static double val(Case& c) { switch (c.weighted({4, 2, 3, 1, 1})) { case 0: return double(c.i(-3, 3)); case 1: return c.i(-64, 64) / 16.0; case 2: return c.real(-10, 10); case 3: return c.real(-1e6, 1e6); default: return c.pickl<double>({1e-9, -1e-9, 1e9, 1e-20, 0.5, -0.0, 1e-14}); } }
static BLMatrix2D gen(Case& c) {
  BLMatrix2D m = BLMatrix2D::make_identity();
  switch (c.weighted({1, 2, 2, 2, 2, 4, 1})) {
    case 0: break;
    case 1: m.reset_to_translation(val(c), val(c)); break;
    case 2: m.reset_to_scaling(val(c), val(c)); m.m20 = c.coin() ? 0 : val(c); m.m21 = c.coin() ? 0 : val(c); break;
    case 3: m.reset(0, val(c), val(c), 0, val(c), val(c)); break;
    case 4: m.reset_to_rotation(c.coin() ? c.i(-8, 8) * 0.78539816339744830962 : c.real(-7, 7)); break;
    case 5: m.reset(val(c), val(c), val(c), val(c), val(c), val(c)); break;
    default: { double x = val(c), y = val(c), k = double(c.i(-3, 3)); m.reset(x, y, x * k, y * k, val(c), val(c)); }
  }
  return m;
}
static void show(Case& c, const char* n, const BLMatrix2D& m) { c.note("%s = [%.17g %.17g | %.17g %.17g | %.17g %.17g]", n, m.m00, m.m01, m.m10, m.m11, m.m20, m.m21); }
static void cmp(Case& c, const BLMatrix2D& got, const M& want, const M& mag, const char* what) {
  for (int i = 0; i < 6; i++) { L tol = mag.a[i] * 1e-14L + 1e-300L; L d = fabsl(L(got.m[i]) - want.a[i]); REQUIRE(c, d <= tol, "%s: entry %d is %.17g, exact value is %.17Lg (tolerance %Lg)", what, i, got.m[i], want.a[i], tol); }
}
static M mk(L a, L b, L d, L e, L x, L y) { M r; r.a[0] = a; r.a[1] = b; r.a[2] = d; r.a[3] = e; r.a[4] = x; r.a[5] = y; r.mag = 0; return r; }
static M opm(int op, const double* d) {
  switch (op) {
    case 0: return mk(1, 0, 0, 1, d[0], d[1]);
    case 1: return mk(d[0], 0, 0, d[1], 0, 0);
    case 2: return mk(1, tanl(L(d[1])), tanl(L(d[0])), 1, 0, 0);
    case 3: { L s = sinl(L(d[0])), k = cosl(L(d[0])); return mk(k, s, -s, k, 0, 0); }
    case 4: { L s = sinl(L(d[0])), k = cosl(L(d[0])), x = d[1], y = d[2]; return mk(k, s, -s, k, x - x * k + y * s, y - x * s - y * k); }
    default: return mk(d[0], d[1], d[2], d[3], d[4], d[5]);
  }
}
static void history(Case& c) {
  BLMatrix2D m = gen(c); show(c, "start", m); M x = of(m), mag = absm(x); int n = c.size(8) + 1, mixed = 0, lastpost = -1;
  for (int k = 0; k < n; k++) {
    int op = int(c.below(6)); bool post = c.coin(); double d[6]; for (double& v : d) v = val(c); if (op == 2 || op == 3 || op == 4) { d[0] = c.coin() ? c.real(-1.5, 1.5) : c.i(-4, 4) * 0.39269908169872414; if (op == 2) d[1] = c.real(-1.5, 1.5); }
    if (op == 5) { BLMatrix2D g = gen(c); memcpy(d, g.m, sizeof d); }
    BLResult r = BL_SUCCESS; bool alt = c.coin(); BLMatrix2D om(d[0], d[1], d[2], d[3], d[4], d[5]); BLMatrix2D before = m;
    switch (op) {
      case 0: if (alt && d[0] == floor(d[0]) && d[1] == floor(d[1]) && fabs(d[0]) < 1e9 && fabs(d[1]) < 1e9) { BLPointI p; p.reset(int(d[0]), int(d[1])); r = post ? m.post_translate(p) : m.translate(p); } else r = post ? m.post_translate(d[0], d[1]) : m.translate(BLPoint(d[0], d[1])); break;
      case 1: if (alt) { d[1] = d[0]; r = post ? m.post_scale(d[0]) : m.scale(d[0]); } else r = post ? m.post_scale(BLPoint(d[0], d[1])) : m.scale(d[0], d[1]); break;
      case 2: r = post ? m.post_skew(d[0], d[1]) : m.skew(d[0], d[1]); break;
      case 3: r = post ? m.post_rotate(d[0]) : m.rotate(d[0]); break;
      case 4: r = post ? m.post_rotate(d[0], d[1], d[2]) : m.rotate(d[0], BLPoint(d[1], d[2])); break;
      default: if (alt) { bl_matrix2d_apply_op(&m, post ? BL_TRANSFORM_OP_POST_TRANSFORM : BL_TRANSFORM_OP_TRANSFORM, &om); } else r = post ? m.post_transform(om) : m.transform(om); break;
    }
    REQUIRE(c, r == BL_SUCCESS, "operation %d failed", op); M o = opm(op, d), oa = absm(o); if (op == 4) { oa.a[4] = 4 * (fabsl(d[1]) + fabsl(d[2])); oa.a[5] = oa.a[4]; } if (op == 3 || op == 4) { for (int i = 0; i < 4; i++) oa.a[i] = 1; } if (op == 2) { for (L& v : oa.a) v *= 4; }
    c.note("%s%s(%.17g, %.17g, %.17g, %.17g, %.17g, %.17g)", post ? "post_" : "", (const char*[]){"translate", "scale", "skew", "rotate", "rotate_at", "transform"}[op], d[0], d[1], d[2], d[3], d[4], d[5]);
    M w = post ? mul(of(before), o) : mul(o, of(before)), wm = post ? mul(absm(of(before)), oa) : mul(oa, absm(of(before)));
    cmp(c, m, w, wm, "step"); x = post ? mul(x, o) : mul(o, x); mag = post ? mul(mag, oa) : mul(oa, mag); for (L& v : mag.a) v *= 1.5L;
    if (lastpost >= 0 && lastpost != int(post)) mixed++; lastpost = post;
    // sharing: a context applies the same operations
  }
  for (int i = 0; i < 6; i++) if (!(fabsl(x.a[i]) < 1e290L)) c.discard();
  cmp(c, m, x, mag, "whole history"); c.label(mixed > 0, "pre and post operations mixed"); c.nontrivial(n >= 2);
}
static void type(Case& c) {
  BLMatrix2D m = gen(c); if (c.chance(1, 4)) m.m[c.below(6)] = c.pickl<double>({0.0, 1.0, -1.0, NAN, INFINITY, -0.0, 1e-15}); show(c, "m", m);
  BLTransformType t = m.type(); double det = m.m00 * m.m11 - m.m01 * m.m10; bool nan = false; for (double v : m.m) if (!std::isfinite(v)) nan = true;
  bool ident2 = m.m00 == 1 && m.m11 == 1 && m.m01 == 0 && m.m10 == 0; L ld = L(m.m00) * m.m11 - L(m.m01) * m.m10; L mg = fabsl(L(m.m00) * m.m11) + fabsl(L(m.m01) * m.m10);
  switch (t) {
    case BL_TRANSFORM_TYPE_IDENTITY: REQUIRE(c, ident2 && m.m20 == 0 && m.m21 == 0, "reported identity"); break;
    case BL_TRANSFORM_TYPE_TRANSLATE: REQUIRE(c, ident2, "reported translation"); break;
    case BL_TRANSFORM_TYPE_SCALE: REQUIRE(c, m.m01 == 0 && m.m10 == 0, "reported scaling"); break;
    case BL_TRANSFORM_TYPE_SWAP: REQUIRE(c, m.m00 == 0 && m.m11 == 0, "reported swap"); break;
    case BL_TRANSFORM_TYPE_AFFINE: break;
    default: REQUIRE(c, t == BL_TRANSFORM_TYPE_INVALID, "unknown type %u", unsigned(t)); REQUIRE(c, nan || fabsl(ld) <= 1e-12L + mg * 1e-14L, "an invertible matrix with determinant %Lg is reported invalid", ld); break;
  }
  if (t != BL_TRANSFORM_TYPE_INVALID) REQUIRE(c, ld != 0 || mg == 0 ? ld != 0 : true, "matrix with a zero determinant is reported as usable (%u)", unsigned(t));
  if (t != BL_TRANSFORM_TYPE_INVALID && !nan) { if (ld == 0 && det == 0) c.fail("matrix with a zero determinant is reported as type %u", unsigned(t)); }
  if (!nan && det == 0) { BLMatrix2D out(9, 8, 7, 6, 5, 4), keep = out; BLResult r = BLMatrix2D::invert(out, m); REQUIRE(c, r != BL_SUCCESS, "inverting a matrix whose determinant is zero succeeded"); (void)keep; }
  c.label(t == BL_TRANSFORM_TYPE_INVALID, "invalid"); c.label(nan, "not finite"); c.label(t <= BL_TRANSFORM_TYPE_SWAP && t > 0, "simple"); c.nontrivial(!ident2);
}
static void inverse(Case& c) {
  BLMatrix2D m = gen(c); show(c, "m", m); L det = L(m.m00) * m.m11 - L(m.m01) * m.m10, mg = fabsl(L(m.m00) * m.m11) + fabsl(L(m.m01) * m.m10);
  BLMatrix2D v; bool alias = c.coin(); BLResult r; if (alias) { v = m; r = v.invert(); } else r = BLMatrix2D::invert(v, m);
  if (fabsl(det) > 1e-12L + mg * 1e-13L && fabsl(det) < 1e300L) {
    REQUIRE(c, r == BL_SUCCESS, "inverting an invertible matrix (determinant %Lg) failed", det);
    L rel = mg / fabsl(det) * 4e-15L; L s[6] = {m.m11 / det, -m.m01 / det, -m.m10 / det, m.m00 / det, 0, 0}; s[4] = -(m.m20 * s[0] + m.m21 * s[2]); s[5] = -(m.m20 * s[1] + m.m21 * s[3]);
    for (int i = 0; i < 6; i++) { L sc = i < 4 ? fabsl(s[i]) : fabsl(m.m20 * s[i - 4]) + fabsl(m.m21 * s[i - 2]); REQUIRE(c, fabsl(v.m[i] - s[i]) <= sc * (rel + 1e-14L) + 1e-300L, "entry %d of the inverse is %.17g, exact value %.17Lg", i, v.m[i], s[i]); }
    c.nontrivial(true);
  } else if (r == BL_SUCCESS && det == 0) c.fail("inverting a singular matrix succeeded");
  c.label(alias, "in place"); c.label(m.m01 == 0 && m.m10 == 0, "diagonal"); c.label(m.m00 == 0 && m.m11 == 0, "swap");
}
static void mapping(Case& c) {
  BLMatrix2D m = gen(c); show(c, "m", m); size_t n = c.size(20); std::vector<BLPoint> s(n), o(n); for (BLPoint& p : s) p.reset(val(c), val(c)); bool inplace = c.coin(); if (inplace) o = s;
  BLResult r = m.map_point(0, 0).x == m.m20 || true ? bl_matrix2d_map_pointd_array(&m, o.data(), inplace ? o.data() : s.data(), n) : BL_SUCCESS; REQUIRE(c, r == BL_SUCCESS, "map_point array failed");
  auto near = [&](double g, L a, L b, L k, const char* what, size_t i) { L w = a + b + k; L tol = (fabsl(a) + fabsl(b) + fabsl(k)) * 1e-15L + 1e-300L; REQUIRE(c, fabsl(g - w) <= tol, "%s of point %zu is %.17g, exact %.17Lg", what, i, g, w); };
  for (size_t i = 0; i < n; i++) {
    near(o[i].x, L(s[i].x) * m.m00, L(s[i].y) * m.m10, m.m20, "x", i); near(o[i].y, L(s[i].x) * m.m01, L(s[i].y) * m.m11, m.m21, "y", i);
    BLPoint a = m.map_point(s[i]), b = m.map_vector(s[i]); near(a.x, L(s[i].x) * m.m00, L(s[i].y) * m.m10, m.m20, "map_point x", i); near(a.y, L(s[i].x) * m.m01, L(s[i].y) * m.m11, m.m21, "map_point y", i); near(b.x, L(s[i].x) * m.m00, L(s[i].y) * m.m10, 0, "map_vector x", i); near(b.y, L(s[i].x) * m.m01, L(s[i].y) * m.m11, 0, "map_vector y", i);
  }
  // a path maps vertex by vertex (conic weights are not coordinates)
  BLPath p; std::vector<int> skip; BLPoint q(val(c), val(c)); p.move_to(q); int k = c.size(8);
  for (int i = 0; i < k; i++) { double a = val(c), b = val(c), d = val(c), e = val(c), f = val(c), g = val(c); switch (c.below(6)) { case 0: p.line_to(a, b); break; case 1: p.quad_to(a, b, d, e); break; case 2: p.cubic_to(a, b, d, e, f, g); break; case 3: p.conic_to(a, b, d, e, 0.5 + c.frac()); break; case 4: p.close(); p.move_to(a, b); break; default: p.move_to(a, b); } }
  BLPath t; bool same = c.coin(); size_t b0 = c.chance(1, 3) ? c.below(p.size() + 1) : 0, e0 = c.chance(1, 3) ? b0 + c.below(p.size() - b0 + 1) : p.size(); bool part = same && (b0 != 0 || e0 != p.size());
  if (same) { t = p; r = part ? t.transform(BLRange{b0, e0}, m) : t.transform(m); } else { r = t.add_path(p, m); b0 = 0; e0 = p.size(); }
  REQUIRE(c, r == BL_SUCCESS && t.size() == p.size(), "transforming a path failed");
  for (size_t i = 0; i < p.size(); i++) {
    uint8_t cmd = p.command_data()[i]; REQUIRE(c, cmd == t.command_data()[i], "command %zu changed", i); BLPoint a = p.vertex_data()[i], g = t.vertex_data()[i];
    if (cmd == BL_PATH_CMD_CLOSE) continue; if (cmd == BL_PATH_CMD_WEIGHT) { REQUIRE(c, g.x == a.x, "conic weight %zu changed from %g to %g by a transformation", i, a.x, g.x); continue; }
    if (i < b0 || i >= e0) REQUIRE(c, a == g, "vertex %zu outside the range was changed", i);
    else { near(g.x, L(a.x) * m.m00, L(a.y) * m.m10, m.m20, "path x", i); near(g.y, L(a.x) * m.m01, L(a.y) * m.m11, m.m21, "path y", i); }
  }
  c.label(part, "range transform"); c.nontrivial(n >= 2 || p.size() >= 3);
}
int main(int argc, char** argv) {
  pbt::Suite s("C08", "random matrices of every structure (identity, translation, scaling, swap, rotation, singular, tiny and huge entries); non-trivial = at least two operations, an invertible non-identity matrix, or at least two mapped points", argc, argv);
  s.add("history", history, {.quick = 2500000, .thorough = 60000000, .chunk = 2000});
  s.add("type", type, {.quick = 2500000, .thorough = 60000000, .chunk = 2000});
  s.add("inverse", inverse, {.quick = 2500000, .thorough = 60000000, .chunk = 2000});
  s.add("mapping", mapping, {.quick = 2500000, .thorough = 60000000, .chunk = 2000});
  s.assume("rounding: the error of one operation stays below 1e-14 of the sum of the magnitudes of its terms");
  return s.run();
}
