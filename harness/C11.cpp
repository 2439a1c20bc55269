// C11: stroke outlines against the analytic union of segments, joins and caps (poly-lines) and distance to the centerline (curves).
#include <blend2d/blend2d.h>
#include <algorithm>
#include <cmath>
#include <functional>
#include <vector>
#include "pbt.h"
using pbt::Case;
typedef std::vector<BLPoint> Pts;
static double dot(BLPoint a, BLPoint b) { return a.x * b.x + a.y * b.y; }
static double crs(BLPoint a, BLPoint b) { return a.x * b.y - a.y * b.x; }
static double len(BLPoint a) { return std::hypot(a.x, a.y); }
static BLPoint nrm(BLPoint v) { return BLPoint(v.y, -v.x); }
static BLPoint unit(BLPoint v) { return v * (1.0 / len(v)); }
static const char* join_names[] = {"miter-clip", "miter-bevel", "miter-round", "bevel", "round"};
static const char* cap_names[] = {"butt", "square", "round", "round-rev", "triangle", "triangle-rev"};

// Signed distance to the edges of a convex polygon - positive inside.
static double convex(const Pts& p, BLPoint q) {
  double a = 0, m = 1e300; size_t n = p.size(); for (size_t i = 0; i < n; i++) a += crs(p[i] - p[0], p[(i + 1) % n] - p[0]);
  double s = a < 0 ? -1 : 1; if (std::fabs(a) < 1e-12) return -1e-300;
  for (size_t i = 0; i < n; i++) { BLPoint e = p[(i + 1) % n] - p[i]; double l = len(e); if (l > 1e-12) m = std::min(m, s * crs(e, q - p[i]) / l); }
  return m;
}
struct Model {
  struct Sh { std::function<double(BLPoint)> in, out; double tol; };
  std::vector<Sh> shapes; double d, ml; unsigned join; std::string why;
  void poly(const Pts& p, double tol) { auto f = [p](BLPoint q) { return convex(p, q); }; shapes.push_back({f, f, tol}); }
  void cap(BLPoint e, BLPoint dir, unsigned type, double lim) {
    BLPoint n = nrm(dir) * d, x = dir * d; Pts box{e + n, e + n + x, e - n + x, e - n}; double dd = d;
    switch (type) {
      case BL_STROKE_CAP_SQUARE: poly(box, lim); break;
      case BL_STROKE_CAP_ROUND: { auto f = [=](BLPoint q) { return std::min(dd - len(q - e), dot(q - e, dir)); }; shapes.push_back({f, f, lim + 1e-3 * d}); break; }
      case BL_STROKE_CAP_ROUND_REV: { auto f = [=](BLPoint q) { return std::min(convex(box, q), len(q - (e + x)) - dd); }; shapes.push_back({f, f, lim + 1e-3 * d}); break; }
      case BL_STROKE_CAP_TRIANGLE: poly(Pts{e + n, e + x, e - n}, lim); break;
      case BL_STROKE_CAP_TRIANGLE_REV: { Pts t{e + n + x, e, e - n + x}; auto f = [=](BLPoint q) { return std::min(convex(box, q), -convex(t, q)); }; shapes.push_back({f, f, lim}); break; }
    }
  }
  void joint(BLPoint p, BLPoint u0, BLPoint u1, double lim) {
    BLPoint n0 = nrm(u0), n1 = nrm(u1); if (n0.x == n1.x && n0.y == n1.y) return;
    double s = crs(n0, n1) >= 0 ? 1 : -1; BLPoint pa = p + n0 * (s * d), pb = p + n1 * (s * d), m = n0 + n1, k = m * (2 * s * d / dot(m, m)); double kl = len(k);
    bool mitered = join <= BL_STROKE_JOIN_MITER_ROUND, within = mitered && kl <= ml, sure = !mitered || !(std::fabs(kl - ml) <= 1e-9 * (kl + ml)); double dd = d;
    auto bevel = Pts{p, pa, pb}; auto sector = [=](BLPoint q) { double r = dd - len(q - p); if (len(m) < 1e-9) return std::min(r, dot(q - p, u0)); return std::min(r, std::min(crs(n0, q - p), -crs(n1, q - p))); };
    if (within && sure) { poly(Pts{p, pa, p + k, pb}, lim * (1 + kl / d)); return; }
    unsigned j = join == BL_STROKE_JOIN_MITER_BEVEL ? unsigned(BL_STROKE_JOIN_BEVEL) : join == BL_STROKE_JOIN_MITER_ROUND ? unsigned(BL_STROKE_JOIN_ROUND) : join;
    if (!sure) { auto in = [=](BLPoint q) { return convex(bevel, q); }; auto out = [=](BLPoint q) { return std::min(std::max(dd, ml) * 1.5 - len(q - p), 1e300); }; shapes.push_back({in, out, lim}); return; }
    if (j == BL_STROKE_JOIN_BEVEL) poly(bevel, lim);
    else if (j == BL_STROKE_JOIN_ROUND) shapes.push_back({sector, sector, lim + 1e-3 * d});
    else { double b = len(n1 - n0) * 0.5 * ml; poly(Pts{p, pa, pa + u0 * b, pb - u1 * b, pb}, lim * (1 + ml / d)); }
  }
  void figure(const Pts& in, bool closed, unsigned c0, unsigned c1, double lim) {
    Pts p; for (auto& q : in) if (p.empty() || len(q - p.back()) >= 1e-9) p.push_back(q);
    if (closed && p.size() > 1 && len(p[0] - p.back()) >= 1e-9) p.push_back(p[0]);
    if (p.size() < 2) return;
    Pts u; for (size_t i = 0; i + 1 < p.size(); i++) u.push_back(unit(p[i + 1] - p[i]));
    auto seglen = [&](size_t i) { return len(p[i + 1] - p[i]); };
    for (size_t i = 0; i < u.size(); i++) {
      // Where both inner offset lines intersect each segment ends at the bisector of the join.
      BLPoint n = nrm(u[i]) * d; Pts box{p[i] + n, p[i + 1] + n, p[i + 1] - n, p[i] - n}; Pts cp, cd; std::vector<double> side;
      auto cut = [&](size_t a, size_t b, BLPoint at, BLPoint keep) { BLPoint m = nrm(u[a]) + nrm(u[b]); double t = std::sqrt(std::max(0.0, 4 * d * d / dot(m, m) - d * d)); if (len(u[a] - u[b]) < 1e-12 || !(t <= std::min(seglen(a), seglen(b)) + 1e-6)) return; double sg = crs(u[a], u[b]) >= 0 ? 1 : -1; BLPoint bis = m * -sg; double s = crs(bis, keep) > 0 ? 1 : -1; cp.push_back(at); cd.push_back(unit(bis)); side.push_back(s); };
      if (i > 0) cut(i - 1, i, p[i], u[i]); else if (closed) cut(u.size() - 1, 0, p[0], u[0]);
      if (i + 1 < u.size()) cut(i, i + 1, p[i + 1], u[i] * -1.0); else if (closed) cut(i, 0, p[0], u[i] * -1.0);
      auto out = [box](BLPoint q) { return convex(box, q); }; auto in = [box, cp, cd, side](BLPoint q) { double m = convex(box, q); for (size_t k = 0; k < cp.size(); k++) if (dot(cd[k], q - cp[k]) > 0) m = std::min(m, side[k] * crs(cd[k], q - cp[k])); return m; };
      shapes.push_back({in, out, lim});
    }
    for (size_t i = 1; i < u.size(); i++) joint(p[i], u[i - 1], u[i], lim);
    if (closed) joint(p[0], u.back(), u[0], lim); else { cap(p[0], u[0] * -1.0, c0, lim); cap(p.back(), u.back(), c1, lim); }
  }
};
static std::string show(const BLPath& p) { std::string r; for (size_t i = 0; i < p.size() && i < 40; i++) r += pbt::fmt("%c%.6g,%.6g ", "MLQKCZW?"[std::min<int>(p.command_data()[i], 7)], p.vertex_data()[i].x, p.vertex_data()[i].y); return r; }
static double co(Case& c, bool ints) { return ints ? double(c.range(-6, 6)) * 8 : c.real(-80, 80); }
static BLStrokeOptions options(Case& c) {
  BLStrokeOptions o; o.width = c.pickl<double>({0.5, 1, 2, 4, 8, 10, 16, 30}); if (c.coin()) o.width *= c.real(0.5, 1.5); o.join = uint8_t(c.below(5)); o.start_cap = uint8_t(c.below(6)); o.end_cap = uint8_t(c.below(6)); o.miter_limit = c.pickl<double>({0.5, 1, 1.5, 2, 4, 4, 10, 20});
  c.note("width %g %s caps %s %s miter limit %g", o.width, join_names[o.join], cap_names[o.start_cap], cap_names[o.end_cap], o.miter_limit); return o;
}
static void same_prefix(Case& c, const BLPath& dst, const BLPath& before, const BLPath& ref, const char* what) {
  size_t n = before.size(); REQUIRE(c, dst.size() == n + ref.size(), "%s: the path has %zu commands instead of %zu + %zu", what, dst.size(), n, ref.size());
  for (size_t i = 0; i < dst.size(); i++) { const BLPath& s = i < n ? before : ref; size_t j = i < n ? i : i - n; BLPoint a = dst.vertex_data()[i], b = s.vertex_data()[j]; uint8_t k = s.command_data()[j]; REQUIRE(c, dst.command_data()[i] == k && (k == BL_PATH_CMD_CLOSE || (a.x == b.x && a.y == b.y) || (std::isnan(a.y) && std::isnan(b.y) && a.x == b.x)), "%s: command %zu is %u (%g,%g) instead of %u (%g,%g)", what, i, dst.command_data()[i], a.x, a.y, k, b.x, b.y); }
}

static void polyline(Case& c) {
  BLStrokeOptions o = options(c); BLApproximationOptions ap = bl_default_approximation_options; Model m; m.d = o.width / 2; m.ml = m.d * o.miter_limit; m.join = o.join; BLPath src; Pts anchors; bool ints = c.coin(); int figs = 1 + int(c.chance(1, 4)) + int(c.chance(1, 8));
  double lim = 1e-7 * (1 + o.width);
  for (int f = 0; f < figs; f++) {
    Pts p; size_t n = 1 + c.below(f ? 4 : 6) + (c.chance(1, 8) ? 0 : 1); bool closed = c.chance(2, 5); std::string t;
    for (size_t i = 0; i < n; i++) { BLPoint q; switch (i ? c.below(10) : 9) { case 0: q = p.back(); break; case 1: q = p[c.below(i)]; break; case 2: if (i > 1) { double k = c.pickl<double>({-1, -0.5, -2, 0.5, 1, 2, -1.7, -0.3, 3, 0.7}); q = p[i - 1] + (p[i - 1] - p[i - 2]) * k; break; } [[fallthrough]]; default: { double x = co(c, ints), y = co(c, ints); q = BLPoint(x, y); } } p.push_back(q); t += pbt::fmt(" %g,%g", q.x, q.y); }
    c.note("figure%s%s", t.c_str(), closed ? " closed" : ""); src.move_to(p[0]); for (size_t i = 1; i < n; i++) src.line_to(p[i]); if (closed) src.close();
    m.figure(p, closed, o.start_cap, o.end_cap, lim); anchors.insert(anchors.end(), p.begin(), p.end());
  }
  BLPath out; REQUIRE(c, out.add_stroked_path(src, o, ap) == BL_SUCCESS, "stroking failed");
  size_t in = 0, outn = 0; double ext = std::max(m.d, std::min(m.ml, 6 * m.d)) * 1.3;
  for (int i = 0; i < 60; i++) {
    BLPoint q; size_t a = c.below(anchors.size());
    if (c.coin() || anchors.size() < 2) { double an = c.real(-M_PI, M_PI), r = c.coin() ? c.real(0, 1.5 * m.d) : c.real(0, ext); q = anchors[a] + BLPoint(std::cos(an), std::sin(an)) * r; }
    else { BLPoint p0 = anchors[a], p1 = anchors[(a + 1) % anchors.size()], v = p1 - p0; if (len(v) < 1e-9) continue; double tt = c.real(-0.1, 1.1), s = c.real(-1.3, 1.3); q = p0 + v * tt + nrm(unit(v)) * (s * m.d); }
    bool is_in = false, is_out = true; for (auto& s : m.shapes) { if (s.in(q) > s.tol) is_in = true; if (s.out(q) > -s.tol) is_out = false; }
    if (!is_in && !is_out) continue;
    bool vertex = false; for (size_t v = 0; v < out.size(); v++) if (std::fabs(out.vertex_data()[v].x - q.x) < 1e-9 && std::fabs(out.vertex_data()[v].y - q.y) < 1e-9) vertex = true;
    if (vertex) continue; // Hit testing of vertices is subject to rounding.
    in += is_in; outn += is_out; auto h = out.hit_test(q, BL_FILL_RULE_NON_ZERO);
    REQUIRE(c, (h == BL_HIT_TEST_IN) == is_in, "point (%.9g,%.9g) %s the stroke, but hit test returned %d; stroke: %s", q.x, q.y, is_in ? "belongs to" : "is outside of", int(h), show(out).c_str());
  }
  c.nontrivial(in >= 5 && outn >= 2); c.label(figs > 1, "figures"); c.label(o.join == BL_STROKE_JOIN_ROUND, "round join"); c.label(o.start_cap == 3 || o.end_cap == 3, "round-rev cap");
}

struct Seg { int type; BLPoint p[4]; double w; bool flat = false; };
static BLPoint eval(const Seg& s, double t) {
  double u = 1 - t;
  switch (s.type) {
    case 1: return s.p[0] * u + s.p[1] * t;
    case 2: return s.p[0] * (u * u) + s.p[1] * (2 * u * t) + s.p[2] * (t * t);
    case 3: { double d = u * u + 2 * s.w * u * t + t * t; return (s.p[0] * (u * u) + s.p[1] * (2 * s.w * u * t) + s.p[2] * (t * t)) * (1 / d); }
    default: return s.p[0] * (u * u * u) + s.p[1] * (3 * u * u * t) + s.p[2] * (3 * u * t * t) + s.p[3] * (t * t * t);
  }
}
static void curves(Case& c) {
  BLStrokeOptions o = options(c); BLApproximationOptions ap = bl_default_approximation_options; ap.simplify_tolerance = c.pickl<double>({0.01, 0.05, 0.1}); double d = o.width / 2; bool ints = c.coin(); BLPath src; std::vector<Seg> segs; size_t n = 1 + c.below(3); bool closed = c.chance(1, 4); BLPoint cur; { double x = co(c, ints), y = co(c, ints); cur = BLPoint(x, y); } BLPoint first = cur; src.move_to(cur); bool collinear = false; std::string t = pbt::fmt("M%g,%g", cur.x, cur.y);
  auto rp = [&] { double x = co(c, ints), y = co(c, ints); return BLPoint(x, y); };
  for (size_t i = 0; i < n; i++) {
    Seg s; s.p[0] = cur; s.w = 1; s.type = int(1 + c.weighted({1, 4, 3, 4})); int np = s.type == 1 ? 1 : s.type == 4 ? 3 : 2;
    bool line = c.chance(1, 6); s.flat = line; if (line) { BLPoint v(1, 0); if (c.coin()) { BLPoint r = rp(); v = BLPoint(std::floor(r.x * 0.5) * 0.25, std::floor(r.y * 0.5) * 0.25); } for (int j = 1; j <= np; j++) s.p[j] = cur + v * double(c.range(-12, 12)) * (c.chance(1, 6) ? 1e-6 : c.coin() ? 1.0 : 0.5); collinear = true; } else for (int j = 1; j <= np; j++) s.p[j] = c.chance(1, 12) ? s.p[j - 1] : rp();
    switch (s.type) { case 1: src.line_to(s.p[1]); break; case 2: src.quad_to(s.p[1], s.p[2]); break; case 3: s.w = c.pickl<double>({0.3, 0.5, 0.70710678, 1, 2, 3}); src.conic_to(s.p[1], s.p[2], s.w); break; default: src.cubic_to(s.p[1], s.p[2], s.p[3]); }
    t += pbt::fmt(" %c", "?LQKC"[s.type]); for (int j = 1; j <= np; j++) t += pbt::fmt("%g,%g ", s.p[j].x, s.p[j].y); if (s.type == 3) t += pbt::fmt("w=%g ", s.w);
    cur = s.p[np]; segs.push_back(s);
  }
  if (closed) { src.close(); Seg s; s.type = 1; s.p[0] = cur; s.p[1] = first; s.w = 1; segs.push_back(s); }
  c.note("path %s%s tolerance %g", t.c_str(), closed ? "Z" : "", ap.simplify_tolerance);
  BLPath out; REQUIRE(c, out.add_stroked_path(src, o, ap) == BL_SUCCESS, "stroking failed");
  // Centerline samples, tangents and the smallest radius of curvature of each segment.
  const int N = 256; std::vector<Pts> sm; std::vector<bool> easy; double total = 0;
  for (auto& s : segs) { Pts p; for (int i = 0; i <= N; i++) p.push_back(eval(s, double(i) / N)); double l = 0, minr = 1e300; for (int i = 0; i < N; i++) l += len(p[size_t(i) + 1] - p[size_t(i)]); for (int i = 1; i < N; i++) { BLPoint a = p[size_t(i)] - p[size_t(i) - 1], b = p[size_t(i) + 1] - p[size_t(i)]; double an = std::fabs(std::atan2(crs(a, b), dot(a, b))); if (an > 1e-12 && !(s.flat && an > 3.14)) minr = std::min(minr, std::min(len(a), len(b)) / an); if (!(s.flat && an > 3.14) && len(a) < 1e-6 * l) minr = 0; }
    sm.push_back(p); easy.push_back(minr > 1.4 * d && l > 1e-3); total += l; }
  // Offsets of a tight curve can have the opposite direction, which may cancel coverage of other segments, so `inside` is only decided without them.
  bool all_easy = std::all_of(easy.begin(), easy.end(), [](bool b) { return b; });
  if (total < 1) c.discard();
  double slack = 0.02 * d + 2 * ap.simplify_tolerance + 1e-3 * d; size_t in = 0, outn = 0;
  auto dist = [&](BLPoint q) { double m = 1e300; for (auto& p : sm) for (int i = 0; i < N; i++) { BLPoint a = p[size_t(i)], v = p[size_t(i) + 1] - a; double l2 = dot(v, v), k = l2 > 0 ? std::max(0.0, std::min(1.0, dot(q - a, v) / l2)) : 0; m = std::min(m, len(q - a - v * k)); } return m; };
  double ml = d * o.miter_limit, je = o.join == BL_STROKE_JOIN_MITER_CLIP ? std::hypot(d, ml) : o.join <= BL_STROKE_JOIN_MITER_ROUND ? std::max(d, ml) : d, ce = d * 1.41422, ext = std::max(je, ce) * 1.02 + slack;
  Pts ends; for (auto& p : sm) { ends.push_back(p.front()); ends.push_back(p.back()); }
  for (int i = 0; i < 40; i++) {
    size_t k = c.below(segs.size()); double tt = c.real(0.02, 0.98); BLPoint a = eval(segs[k], tt), v = eval(segs[k], tt + 1e-4) - eval(segs[k], tt - 1e-4); double s = c.coin() ? c.real(-1, 1) : c.real(-3, 3); if (len(v) < 1e-9) continue; BLPoint q = a + nrm(unit(v)) * (s * d);
    q = q + BLPoint(3.1e-5, 1.7e-5); bool is_in = all_easy && std::fabs(s * d) < d - slack, is_out = false;
    if (!is_in) { if (dist(q) > d + slack) { is_out = true; for (auto& e : ends) if (len(q - e) < ext) is_out = false; } }
    if (!is_in && !is_out) continue;
    bool vertex = false; for (size_t v = 0; v < out.size(); v++) if (std::fabs(out.vertex_data()[v].x - q.x) < 1e-9 && std::fabs(out.vertex_data()[v].y - q.y) < 1e-9) vertex = true;
    if (vertex) continue; // Hit testing of vertices is subject to rounding.
    in += is_in; outn += is_out; auto h = out.hit_test(q, BL_FILL_RULE_NON_ZERO);
    REQUIRE(c, (h == BL_HIT_TEST_IN) == is_in, "point (%.9g,%.9g) is %g from the centerline (half width %g, segment %zu t=%g), but hit test returned %d; stroke: %s", q.x, q.y, dist(q), d, k, tt, int(h), show(out).c_str());
  }
  c.nontrivial(in + outn >= 8); c.label(collinear, "collinear curve"); c.label(closed, "closed");
}

// Appending keeps the destination, ranges and self-stroking work, the sink gets each figure.
static void append(Case& c) {
  BLStrokeOptions o = options(c); BLApproximationOptions ap = bl_default_approximation_options; BLPath src, dst, ref; auto rp = [&] { double x = co(c, false), y = co(c, false); return BLPoint(x, y); };
  auto fill = [&](BLPath& p, size_t figs) { std::vector<size_t> st; for (size_t f = 0; f < figs; f++) { st.push_back(p.size()); p.move_to(rp()); size_t n = 1 + c.below(4); for (size_t i = 0; i < n; i++) switch (c.below(4)) { case 0: { BLPoint a = rp(), b = rp(); p.quad_to(a, b); break; } case 1: { BLPoint a = rp(), b = rp(), d = rp(); p.cubic_to(a, b, d); break; } default: p.line_to(rp()); } if (c.coin()) p.close(); } st.push_back(p.size()); return st; };
  auto st = fill(src, 1 + c.below(3)); if (c.chance(3, 4)) fill(dst, 1 + c.below(2)); BLPath before(dst); bool shared = c.coin(); BLPath keep; if (shared) keep = dst; BLPath keep_deep; keep_deep.add_path(dst); BLPath src_deep; src_deep.add_path(src);
  REQUIRE(c, ref.add_stroked_path(src, o, ap) == BL_SUCCESS, "stroking failed");
  if (c.coin()) dst.reserve(dst.size() + c.below(200));
  REQUIRE(c, dst.add_stroked_path(src, o, ap) == BL_SUCCESS, "stroking failed"); same_prefix(c, dst, before, ref, "append"); REQUIRE(c, before.equals(keep_deep) && src.equals(src_deep), "stroking changed another path");
  // Sum of figures.
  BLPath sum; for (size_t i = 0; i + 1 < st.size(); i++) { if (c.coin()) REQUIRE(c, sum.add_stroked_path(src, BLRange{st[i], st[i + 1]}, o, ap) == BL_SUCCESS, "range failed"); else { BLPath f; f.add_path(src, BLRange{st[i], st[i + 1]}); REQUIRE(c, sum.add_stroked_path(f, o, ap) == BL_SUCCESS, "figure failed"); } }
  same_prefix(c, sum, BLPath(), ref, "sum of figures");
  BLPath self(src); if (c.coin()) self.reserve(self.size() + 500); REQUIRE(c, self.add_stroked_path(self, o, ap) == BL_SUCCESS, "stroking itself failed"); same_prefix(c, self, src_deep, ref, "self");
  struct Ctx { size_t next = 0; std::vector<size_t> at; bool ok = true; } cx; BLPath a, b, d; 
  auto fn = [](BLPathCore* pa, BLPathCore* pb, BLPathCore* pc, size_t s, size_t e, void* u) noexcept -> BLResult { Ctx* x = static_cast<Ctx*>(u); if (s != x->next || e <= s) x->ok = false; x->next = e; x->at.push_back(e); (void)pb; (void)pc; return static_cast<BLPath*>(pa)->clear(); };
  REQUIRE(c, bl_path_stroke_to_sink(&src, nullptr, &o, &ap, &a, &b, &d, fn, &cx) == BL_SUCCESS, "stroke_to_sink failed"); REQUIRE(c, cx.ok && cx.next == src.size() && cx.at.size() == st.size() - 1, "stroke_to_sink doesn't report figures properly: %zu figures until %zu of %zu", cx.at.size(), cx.next, src.size());
  for (size_t i = 0; i + 1 < st.size() && i < cx.at.size(); i++) REQUIRE(c, cx.at[i] == st[i + 1], "figure %zu ends at %zu instead of %zu", i, cx.at[i], st[i + 1]);
  c.nontrivial(!before.is_empty() || st.size() > 2);
}

// Context: stroking is the same as filling the stroked outline, with the transformation before or after.
static void context(Case& c) {
  BLStrokeOptions o = options(c); int w = int(30 + c.below(60)), h = int(30 + c.below(60)); BLMatrix2D m = BLMatrix2D::make_identity(); auto order = c.coin() ? BL_STROKE_TRANSFORM_ORDER_BEFORE : BL_STROKE_TRANSFORM_ORDER_AFTER;
  switch (c.below(4)) { case 0: break; case 1: { double x = c.real(-20, 20), y = c.real(-20, 20); m.translate(x, y); break; } case 2: { double x = c.real(0.4, 2), y = c.real(0.4, 2); m.scale(x, y); break; } default: { m.rotate(c.real(-3, 3), w / 2, h / 2); double x = c.real(0.5, 2), y = c.real(0.5, 2); m.scale(x, y); m.skew(c.real(-0.3, 0.3), 0); } }
  o.transform_order = uint8_t(order); BLPath p; size_t n = 2 + c.below(4); bool curved = c.chance(1, 3); auto rp = [&] { double x = c.real(-0.2, 1.2) * w, y = c.real(-0.2, 1.2) * h; return BLPoint(x, y); }; p.move_to(rp()); for (size_t i = 1; i < n; i++) if (curved && c.coin()) { BLPoint a = rp(), b = rp(); p.quad_to(a, b); } else p.line_to(rp()); if (c.chance(1, 3)) p.close();
  bool lines = !curved; int route = lines && n == 2 ? int(c.below(2)) : 0; c.note("%dx%d order %s matrix %g %g %g %g %g %g path %s", w, h, order ? "before" : "after", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21, show(p).c_str());
  BLImage a(w, h, BL_FORMAT_PRGB32), b(w, h, BL_FORMAT_PRGB32); BLApproximationOptions ap = bl_default_approximation_options; ap.flatten_tolerance = 0.02; ap.simplify_tolerance = 0.01;
  { BLContext x(a); x.clear_all(); x.set_transform(m); x.set_stroke_options(o); x.set_stroke_transform_order(order); x.set_approximation_options(ap); if (route) { BLLine l(p.vertex_data()[0].x, p.vertex_data()[0].y, p.vertex_data()[1].x, p.vertex_data()[1].y); if (p.size() > 2) x.stroke_path(p, BLRgba32(0xFFFFFFFF)); else x.stroke_line(l, BLRgba32(0xFFFFFFFF)); } else x.stroke_path(p, BLRgba32(0xFFFFFFFF)); x.end(); }
  { BLContext x(b); x.clear_all(); x.set_approximation_options(ap); x.set_fill_rule(BL_FILL_RULE_NON_ZERO); BLPath s; BLApproximationOptions ap2 = ap; if (order == BL_STROKE_TRANSFORM_ORDER_AFTER) { s.add_stroked_path(p, o, ap2); x.set_transform(m); } else { BLPath q(p); q.transform(m); s.add_stroked_path(q, o, ap2); } x.fill_path(s, BLRgba32(0xFFFFFFFF)); x.end(); }
  BLImageData da, db; a.get_data(&da); b.get_data(&db); size_t lit = 0; unsigned tol = curved || o.join == BL_STROKE_JOIN_ROUND || o.join == BL_STROKE_JOIN_MITER_ROUND || o.start_cap == 2 || o.start_cap == 3 || o.end_cap == 2 || o.end_cap == 3 ? 28u : 6u;
  // Inner joins may be represented in two ways, which differ in coverage of (few) pixels that are covered partially and more than once.
  size_t off = 0;
  for (int y = 0; y < h; y++) { auto pa = reinterpret_cast<uint32_t*>(static_cast<uint8_t*>(da.pixel_data) + y * da.stride), pb = reinterpret_cast<uint32_t*>(static_cast<uint8_t*>(db.pixel_data) + y * db.stride); for (int x = 0; x < w; x++) { unsigned u = pa[x] >> 24, v = pb[x] >> 24; lit += u > 0; unsigned df = u > v ? u - v : v - u; if (df > tol && df <= 200) { off++; continue; } REQUIRE(c, df <= tol, "pixel (%d,%d) has coverage %u, the filled outline has %u", x, y, u, v); } }
  REQUIRE(c, off <= 4 + lit / 8, "%zu of %zu covered pixels differ from the filled outline", off, lit);
  c.nontrivial(lit > 8);
}

int main(int argc, char** argv) {
  pbt::Suite s("C11", "non-trivial = at least 5 inside and 2 outside points were decided (poly-lines), 8 points (curves), a destination that had content or several figures (append), more than 8 covered pixels (context)", argc, argv);
  s.add("polylines", polyline, {.quick = 150000, .thorough = 1500000});
  s.add("curves", curves, {.quick = 90000, .thorough = 1500000});
  s.add("append", append, {.quick = 40000, .thorough = 400000});
  s.add("context", context, {.quick = 25000, .thorough = 200000});
  s.assume("points closer to the border of the stroke than the documented tolerance aren't decided");
  return s.run();
}
