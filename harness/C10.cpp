// C10: geometry of shapes, boxes and hit testing against analytic curves and dense sampling.
#include <blend2d/blend2d.h>
#include <algorithm>
#include <cmath>
#include <vector>
#include "pbt.h"
using pbt::Case;
typedef std::vector<BLPoint> Pts;
enum { M = 0, L = 1, Q = 2, K = 3, C = 4, Z = 5, W = 6 };

struct Seg { int type; BLPoint p[4]; double w; };   // L Q K C
struct Fig { BLPoint start; std::vector<Seg> segs; bool closed; };

static BLPoint eval(const Seg& s, double t) {
  double u = 1 - t;
  switch (s.type) {
    case L: return s.p[0] * u + s.p[1] * t;
    case Q: return s.p[0] * (u * u) + s.p[1] * (2 * u * t) + s.p[2] * (t * t);
    case K: { double d = u * u + 2 * s.w * u * t + t * t; return (s.p[0] * (u * u) + s.p[1] * (2 * s.w * u * t) + s.p[2] * (t * t)) / d; }
    default: return s.p[0] * (u * u * u) + s.p[1] * (3 * u * u * t) + s.p[2] * (3 * u * t * t) + s.p[3] * (t * t * t);
  }
}
static BLPoint endp(const Seg& s) { return s.type == L ? s.p[1] : s.type == C ? s.p[3] : s.p[2]; }

// Splits the stored commands into figures (fails on malformed sequences).
static std::vector<Fig> figures(Case& c, const BLPath& p) {
  std::vector<Fig> f; const uint8_t* cmd = p.command_data(); const BLPoint* v = p.vertex_data(); size_t n = p.size(); bool open = false; BLPoint last;
  for (size_t i = 0; i < n;) {
    if (cmd[i] == M) { f.push_back({v[i], {}, false}); last = v[i]; open = true; i++; continue; }
    REQUIRE(c, open, "command %u at %zu doesn't follow a MOVE", cmd[i], i);
    if (cmd[i] == Z) { f.back().closed = true; open = false; i++; continue; }
    Seg s; s.p[0] = last; s.w = 1; size_t k = cmd[i] == L ? 1 : cmd[i] == Q ? 2 : 3; s.type = cmd[i]; REQUIRE(c, i + k <= n && cmd[i] <= C && cmd[i + k - 1] == L, "malformed command %u at %zu", cmd[i], i);
    if (s.type == K) { s.p[1] = v[i]; s.w = v[i + 1].x; s.p[2] = v[i + 2]; } else for (size_t j = 0; j < k; j++) s.p[j + 1] = v[i + j];
    last = v[i + k - 1]; f.back().segs.push_back(s); i += k;
  }
  return f;
}
static std::string show(const BLPath& p) { std::string r; for (size_t i = 0; i < p.size() && i < 24; i++) r += pbt::fmt("%c%.6g,%.6g ", "MLQKCZW?"[std::min<int>(p.command_data()[i], 7)], p.vertex_data()[i].x, p.vertex_data()[i].y); return r; }
static double area(const Fig& f) { double a = 0; BLPoint o = f.start, prev = f.start; auto edge = [&](BLPoint q) { a += (prev.x - o.x) * (q.y - o.y) - (prev.y - o.y) * (q.x - o.x); prev = q; }; for (auto& s : f.segs) for (int i = 1; i <= 64; i++) edge(eval(s, i / 64.0)); edge(f.start); return a / 2; }
static bool near(BLPoint a, BLPoint b, double tol) { return std::hypot(a.x - b.x, a.y - b.y) <= tol; }

static double co(Case& c) { switch (c.below(4)) { case 0: return double(c.range(-50, 50)); case 1: return c.real(-2000, 2000); default: return c.real(-100, 100); } }
static BLPoint pt(Case& c) { double x = co(c), y = co(c); return BLPoint(x, y); }

// Every sample of `segs` lies on the ellipse and the angle goes monotonically from a0 to a0+sweep.
static void on_arc(Case& c, const char* what, const std::vector<Seg>& segs, BLPoint ctr, BLPoint r, double rot, double a0, double sweep, const BLPath& p) {
  double prev = a0, tol = 4e-4; BLPoint last{}; bool any = false; double cr = std::cos(rot), sr = std::sin(rot);
  for (auto& s : segs) for (int i = 0; i <= 32; i++) {
    BLPoint q = eval(s, i / 32.0); double dx = q.x - ctr.x, dy = q.y - ctr.y, ux = (dx * cr + dy * sr) / r.x, uy = (-dx * sr + dy * cr) / r.y, rad = std::hypot(ux, uy), a = std::atan2(uy, ux);
    double lim = tol + 1e-9 * (std::fabs(ctr.x) + std::fabs(ctr.y)) / std::min(std::fabs(r.x), std::fabs(r.y));
    REQUIRE(c, std::fabs(rad - 1) <= lim, "%s: point (%g,%g) is at relative distance %g from the ellipse; %s", what, q.x, q.y, rad, show(p).c_str());
    while (a - prev > M_PI) a -= 2 * M_PI;
    while (a - prev < -M_PI) a += 2 * M_PI;
    REQUIRE(c, (sweep >= 0 ? a - prev : prev - a) >= -2 * lim - 1e-7, "%s: the angle goes back from %g to %g, sweep %g; %s", what, prev, a, sweep, show(p).c_str());
    prev = a; last = q; any = true;
  }
  if (any) REQUIRE(c, std::fabs(prev - (a0 + sweep)) <= 2e-3 + 1e-6, "%s: the arc ends at angle %g instead of %g; %s", what, prev, a0 + sweep, show(p).c_str());
}

static double angle(Case& c) { switch (c.below(4)) { case 0: return double(c.range(-8, 8)) * (M_PI / 4); case 1: return double(c.range(-8, 8)) * (M_PI / 2) + c.real(-1e-6, 1e-6); default: return c.real(-6.5, 6.5); } }
static double clampsweep(double s) { return std::max(-2 * M_PI, std::min(2 * M_PI, s)); }
static double radius(Case& c) { return c.coin() ? c.real(0.5, 60) : double(1 + c.below(80)); }

static void shapes(Case& c) {
  BLPath p; auto dir = c.coin() ? BL_GEOMETRY_DIRECTION_CCW : BL_GEOMETRY_DIRECTION_CW; double sg = dir == BL_GEOMETRY_DIRECTION_CW ? 1 : -1; BLPoint o = pt(c); double rx = radius(c), ry = radius(c); int k = int(c.below(7)); BLResult res = BL_SUCCESS;
  if (c.coin()) p.move_to(1, 2), p.line_to(7, 9), p.close();
  size_t base = p.size(); BLArc arc(o.x, o.y, rx, ry, angle(c), angle(c) * (c.chance(1, 8) ? 3 : 1)); double sweep = clampsweep(arc.sweep) * sg; BLPoint a0(o.x + rx * std::cos(arc.start), o.y + ry * std::sin(arc.start)), a1(o.x + rx * std::cos(arc.start + sweep), o.y + ry * std::sin(arc.start + sweep)); double tol = 1e-6 * (1 + std::fabs(o.x) + std::fabs(o.y) + rx + ry);
  static const char* nm[] = {"circle", "ellipse", "round rect", "arc", "chord", "pie", "round rect"};
  c.note("%s at (%g,%g) radii %g,%g start %g sweep %g %s", nm[k], o.x, o.y, rx, ry, arc.start, arc.sweep, sg > 0 ? "cw" : "ccw");
  double w = c.real(1, 200), h = c.real(1, 200);
  switch (k) { case 0: res = p.add_circle(BLCircle(o.x, o.y, rx), dir); ry = rx; break; case 1: res = p.add_ellipse(BLEllipse(o.x, o.y, rx, ry), dir); break; case 3: res = p.add_arc(arc, dir); break; case 4: res = p.add_chord(arc, dir); break; case 5: res = p.add_pie(arc, dir); break; default: c.note("size %gx%g", w, h); res = p.add_round_rect(BLRoundRect(o.x, o.y, w, h, rx, ry), dir); }
  REQUIRE(c, res == BL_SUCCESS, "adding %s failed: %u", nm[k], unsigned(res));
  BLPath q; q.add_path(p, BLRange{base, p.size()}); auto fs = figures(c, q); REQUIRE(c, fs.size() == 1, "%s added %zu figures", nm[k], fs.size()); Fig& f = fs[0];
  if (k < 2) { REQUIRE(c, f.closed && near(f.start, BLPoint(o.x + rx, o.y), tol), "%s starts at (%g,%g) or isn't closed", nm[k], f.start.x, f.start.y); on_arc(c, nm[k], f.segs, o, BLPoint(rx, ry), 0, 0, 2 * M_PI * sg, q); }
  else if (k == 3) { REQUIRE(c, !f.closed && near(f.start, a0, tol), "arc starts at (%g,%g) instead of (%g,%g)", f.start.x, f.start.y, a0.x, a0.y); on_arc(c, "arc", f.segs, o, BLPoint(rx, ry), 0, arc.start, sweep, q); if (!f.segs.empty()) REQUIRE(c, near(endp(f.segs.back()), a1, tol), "arc ends at (%g,%g) instead of (%g,%g)", endp(f.segs.back()).x, endp(f.segs.back()).y, a1.x, a1.y); }
  else if (k == 4) { REQUIRE(c, f.closed && near(f.start, a0, tol), "chord starts at (%g,%g) instead of (%g,%g) or isn't closed", f.start.x, f.start.y, a0.x, a0.y); on_arc(c, "chord", f.segs, o, BLPoint(rx, ry), 0, arc.start, sweep, q); }
  else if (k == 5) { REQUIRE(c, f.closed && near(f.start, o, tol) && !f.segs.empty() && f.segs[0].type == L && near(f.segs[0].p[1], a0, tol), "pie doesn't go from its center to the start of the arc: %s", show(q).c_str()); std::vector<Seg> r(f.segs.begin() + 1, f.segs.end()); on_arc(c, "pie", r, o, BLPoint(rx, ry), 0, arc.start, sweep, q); }
  else {
    double ex = std::min(rx, w / 2), ey = std::min(ry, h / 2), want = sg * (w * h - (4 - M_PI) * ex * ey); REQUIRE(c, f.closed, "rounded rectangle isn't closed"); double a = area(f); REQUIRE(c, std::fabs(a - want) <= 1e-3 * w * h, "rounded rectangle has area %g instead of %g", a, want);
    for (auto& s : f.segs) for (int i = 0; i <= 16; i++) { BLPoint z = eval(s, i / 16.0); double x = std::fabs(z.x - (o.x + w / 2)) - (w / 2 - ex), y = std::fabs(z.y - (o.y + h / 2)) - (h / 2 - ey), d; if (x > 0 && y > 0) d = std::fabs(std::hypot(x / ex, y / ey) - 1); else d = std::min(std::fabs(x - ex), std::fabs(y - ey)) / std::max(ex, ey); REQUIRE(c, d <= 1e-3, "rounded rectangle point (%g,%g) is off the outline by %g; %s", z.x, z.y, d, show(q).c_str()); }
  }
  c.nontrivial(!f.segs.empty()); c.label(k == 2 || k == 6, "rounded rectangle"); c.label(k >= 3 && k <= 5, "arc");
}

// SVG endpoint arcs: implementation notes of SVG 1.1, F.6.5.
static void svg_arc(Case& c) {
  BLPoint p0 = pt(c), p1 = c.coin() ? pt(c) : BLPoint(p0.x + c.real(-30, 30), p0.y + c.real(-30, 30)); double rx = radius(c), ry = radius(c), phi = angle(c); bool large = c.coin(), sweep = c.coin(); if (c.chance(1, 6)) rx = -rx;
  c.note("from (%g,%g) to (%g,%g) radii %g,%g rotation %g large %d sweep %d", p0.x, p0.y, p1.x, p1.y, rx, ry, phi, int(large), int(sweep));
  if (std::hypot(p1.x - p0.x, p1.y - p0.y) < 0.05) c.discard();
  BLPath p; p.move_to(p0); REQUIRE(c, p.elliptic_arc_to(BLPoint(rx, ry), phi, large, sweep, p1) == BL_SUCCESS, "elliptic_arc_to failed");
  rx = std::fabs(rx); double cp = std::cos(phi), sp = std::sin(phi), dx = (p0.x - p1.x) / 2, dy = (p0.y - p1.y) / 2, x = cp * dx + sp * dy, y = -sp * dx + cp * dy, lam = x * x / (rx * rx) + y * y / (ry * ry);
  bool scaled = lam > 1; if (scaled) { rx *= std::sqrt(lam); ry *= std::sqrt(lam); }
  double num = rx * rx * ry * ry - rx * rx * y * y - ry * ry * x * x, den = rx * rx * y * y + ry * ry * x * x, co_ = std::sqrt(std::max(0.0, num / den)) * (large == sweep ? -1 : 1), cx1 = co_ * rx * y / ry, cy1 = -co_ * ry * x / rx; BLPoint ctr(cp * cx1 - sp * cy1 + (p0.x + p1.x) / 2, sp * cx1 + cp * cy1 + (p0.y + p1.y) / 2);
  if (std::fabs(lam - 1) < 1e-4 && !scaled) c.discard();   // the center is ill conditioned
  double t1 = std::atan2((y - cy1) / ry, (x - cx1) / rx), t2 = std::atan2((-y - cy1) / ry, (-x - cx1) / rx), d = t2 - t1; if (scaled) d = sweep ? M_PI : -M_PI; else { if (sweep && d < 0) d += 2 * M_PI; if (!sweep && d > 0) d -= 2 * M_PI; }
  auto f = figures(c, p); REQUIRE(c, f.size() == 1 && !f[0].segs.empty() && endp(f[0].segs.back()) == p1, "the arc doesn't end at the given point: %s", show(p).c_str());
  on_arc(c, "elliptic arc", f[0].segs, ctr, BLPoint(rx, ry), phi, t1, d, p); c.nontrivial(true); c.label(scaled, "scaled radii"); c.label(std::fabs(d) > M_PI + 0.01, "large arc");
}

static void arc_to(Case& c) {
  BLPath p; BLPoint s = pt(c), o = pt(c); double rx = radius(c), ry = radius(c), a = angle(c), sw = angle(c) * (c.chance(1, 8) ? 3 : 1); int pre = int(c.below(4)); bool force = c.coin(); BLPoint st(o.x + rx * std::cos(a), o.y + ry * std::sin(a)); double tol = 1e-6 * (1 + std::fabs(o.x) + std::fabs(o.y) + rx + ry);
  if (pre == 3) s = st;
  if (pre) p.move_to(s); if (pre == 2) p.close();
  c.note("prefix %d, arc_to (%g,%g) radii %g,%g start %g sweep %g force %d", pre, o.x, o.y, rx, ry, a, sw, int(force)); size_t base = p.size(); REQUIRE(c, p.arc_to(o, BLPoint(rx, ry), a, sw, force) == BL_SUCCESS, "arc_to failed");
  bool mv = force || pre == 0 || pre == 2; auto f = figures(c, p); size_t want = (pre ? 1u : 0u) + (mv ? 1u : 0u); REQUIRE(c, f.size() == want, "arc_to made %zu figures instead of %zu: %s", f.size(), want, show(p).c_str()); Fig g = f.back(); (void)base;
  if (mv) REQUIRE(c, near(g.start, st, tol), "the arc starts at (%g,%g) instead of (%g,%g)", g.start.x, g.start.y, st.x, st.y);
  else { if (!g.segs.empty() && g.segs[0].type == L) { REQUIRE(c, near(g.segs[0].p[1], st, tol), "arc_to doesn't lead to the start of the arc: %s", show(p).c_str()); g.segs.erase(g.segs.begin()); } else REQUIRE(c, near(s, st, tol), "arc_to doesn't connect the arc: %s", show(p).c_str()); }
  on_arc(c, "arc_to", g.segs, o, BLPoint(rx, ry), 0, a, clampsweep(sw), p);
  // A quadrant: affine image of a quarter of the unit circle.
  BLPath q; BLPoint a0 = pt(c), a1 = pt(c), a2 = pt(c); q.move_to(a0); REQUIRE(c, q.arc_quadrant_to(a1, a2) == BL_SUCCESS, "arc_quadrant_to failed"); auto h = figures(c, q); REQUIRE(c, h.size() == 1 && h[0].segs.size() == 1 && endp(h[0].segs[0]) == a2, "arc_quadrant_to: %s", show(q).c_str());
  BLPoint ctr = a0 + a2 - a1, u = a0 - ctr, v = a2 - ctr; double det = u.x * v.y - u.y * v.x; if (std::fabs(det) > 1) for (int i = 0; i <= 16; i++) { BLPoint z = eval(h[0].segs[0], i / 16.0) - ctr; double x = (z.x * v.y - z.y * v.x) / det, y = (u.x * z.y - u.y * z.x) / det; REQUIRE(c, std::fabs(std::hypot(x, y) - 1) < 1e-3 && x > -1e-6 && y > -1e-6, "arc_quadrant_to leaves the quarter of the ellipse at t=%d/16: %g,%g", i, x, y); }
  c.nontrivial(std::fabs(sw) > 0.01); c.label(!mv, "continues a figure");
}

// --- boxes and hit testing ---------------------------------------------------
static BLPath random_path(Case& c, bool conics, bool lattice) {
  BLPath p; int nf = 1 + int(c.below(3)); auto P = [&] { return lattice ? BLPoint(double(c.range(-6, 6)) * 4, double(c.range(-6, 6)) * 4) : BLPoint(c.real(-40, 40), c.real(-40, 40)); };
  for (int f = 0; f < nf; f++) {
    if (c.chance(1, 8)) { switch (c.below(4)) { case 0: p.add_circle(BLCircle(c.real(-20, 20), c.real(-20, 20), c.real(1, 30)), c.coin() ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW); break; case 1: { BLPoint a = P(); p.add_box(a.x, a.y, a.x + 10, a.y + 20); break; } case 2: p.add_pie(BLArc(0, 0, 20, 30, c.real(-4, 4), c.real(-6, 6))); break; default: p.add_round_rect(BLRoundRect(-10, -12, 30, 25, 5, 7)); } continue; }
    p.move_to(P()); int n = int(c.size(7)); BLPoint last; p.get_last_vertex(&last);
    for (int i = 0; i < n; i++) {
      auto N = [&] { BLPoint q = P(); if (c.chance(1, 4)) q.y = last.y; else if (c.chance(1, 4)) q.x = last.x; return q; };
      BLPoint a = N(), b = N(), d = N(); if (c.chance(1, 12)) a = last; if (c.chance(1, 12)) b = a; if (c.chance(1, 12)) d = b;
      switch (c.below(conics ? 5 : 4)) { case 0: p.line_to(d); break; case 1: p.quad_to(a, d); break; case 2: case 3: p.cubic_to(a, b, d); break; default: p.conic_to(a, d, c.coin() ? c.real(0.05, 4) : c.pickl<double>({1, M_SQRT1_2, 0.5, 2})); }
      last = d;
    }
    if (c.coin()) p.close();
  }
  return p;
}

static void extrema(const Seg& s, int axis, std::vector<double>& t) {   // parameters of interior extrema
  auto g = [&](int i) { return axis ? s.p[i].y : s.p[i].x; }; auto quad = [&](double a, double b, double d) { double scale = std::fabs(a) + std::fabs(b) + std::fabs(d); if (std::fabs(a) < 1e-12 * scale) { if (b != 0) t.push_back(-d / b); return; } double D = b * b - 4 * a * d; if (D < 0) return; double q = -0.5 * (b + std::copysign(std::sqrt(D), b)); t.push_back(q / a); if (q != 0) t.push_back(d / q); };
  if (s.type == Q) { double den = g(0) - 2 * g(1) + g(2); if (den != 0) t.push_back((g(0) - g(1)) / den); }
  else if (s.type == C) { double a = -g(0) + 3 * g(1) - 3 * g(2) + g(3), b = 2 * (g(0) - 2 * g(1) + g(2)), d = g(1) - g(0); quad(a, b, d); }
  else if (s.type == K) { double w = s.w, e1 = g(1) - g(0), e2 = g(2) - g(0); quad((w - 1) * e2, e2 - 2 * w * e1, w * e1); }
}

static void boxes(Case& c) {
  BLPath p = random_path(c, true, c.coin()); auto fs = figures(c, p); c.note("%s", show(p).c_str());
  double b[4] = {INFINITY, INFINITY, -INFINITY, -INFINITY}; auto add = [&](BLPoint q) { b[0] = std::min(b[0], q.x); b[1] = std::min(b[1], q.y); b[2] = std::max(b[2], q.x); b[3] = std::max(b[3], q.y); }; int curves = 0;
  for (auto& f : fs) { add(f.start); for (auto& s : f.segs) { if (s.type != L) curves++; for (int i = 0; i <= 40; i++) add(eval(s, i / 40.0)); for (int ax = 0; ax < 2; ax++) { std::vector<double> t; extrema(s, ax, t); for (double x : t) if (x > 0 && x < 1) add(eval(s, x)); } } }
  BLBox bb, cb; REQUIRE(c, p.get_bounding_box(&bb) == BL_SUCCESS && p.get_control_box(&cb) == BL_SUCCESS, "boxes of a valid path failed");
  double tol = 1e-7; const double* g = &bb.x0; for (int i = 0; i < 4; i++) REQUIRE(c, std::fabs(g[i] - b[i]) <= tol * 100, "bounding box (%.9g,%.9g,%.9g,%.9g) instead of (%.9g,%.9g,%.9g,%.9g)", bb.x0, bb.y0, bb.x1, bb.y1, b[0], b[1], b[2], b[3]);
  REQUIRE(c, cb.x0 <= b[0] + tol && cb.y0 <= b[1] + tol && cb.x1 >= b[2] - tol && cb.y1 >= b[3] - tol, "control box (%g,%g,%g,%g) doesn't enclose (%g,%g,%g,%g)", cb.x0, cb.y0, cb.x1, cb.y1, b[0], b[1], b[2], b[3]);
  c.nontrivial(curves > 0); c.label(curves > 2, "several curves");
}

static void hits(Case& c) {
  bool lattice = c.coin(); BLPath p = random_path(c, true, lattice); auto fs = figures(c, p); { std::string r; for (size_t i = 0; i < p.size(); i++) r += pbt::fmt("%c%.17g,%.17g ", "MLQKCZW?"[std::min<int>(p.command_data()[i], 7)], p.vertex_data()[i].x, p.vertex_data()[i].y); c.note("%s", r.c_str()); } if (fs.empty()) c.discard();
  std::vector<Pts> polys; double dev = 1e-9; for (auto& f : fs) { Pts q; q.push_back(f.start); for (auto& s : f.segs) { int n = s.type == L ? 1 : 200; for (int i = 1; i <= n; i++) { BLPoint e = eval(s, double(i) / n), m = eval(s, (i - 0.5) / n), h = (q.back() + e) * 0.5; if (n > 1) dev = std::max(dev, 2 * std::hypot(m.x - h.x, m.y - h.y)); if (i == n) e = endp(s); q.push_back(e); } } polys.push_back(q); }
  int tested = 0, inside = 0, level = 0;
  for (int k = 0; k < 24; k++) {
    BLPoint z; bool lv = false; BLBox bb; p.get_bounding_box(&bb); z = BLPoint(c.real(bb.x0 - 3, bb.x1 + 3), c.real(bb.y0 - 3, bb.y1 + 3));
    if (c.coin()) { auto& f = polys[c.below(polys.size())]; z.y = c.chance(1, 3) ? (c.coin() ? bb.y0 : bb.y1) : f[c.below(f.size())].y; lv = true; } else if (c.chance(1, 3)) z = BLPoint(std::round(z.x), std::round(z.y));
    double dist = INFINITY; long wn = 0;
    for (auto& q : polys) for (size_t i = 0; i < q.size(); i++) { BLPoint a = q[i], b = q[(i + 1) % q.size()]; double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy, t = l2 > 0 ? std::max(0.0, std::min(1.0, ((z.x - a.x) * dx + (z.y - a.y) * dy) / l2)) : 0; dist = std::min(dist, std::hypot(a.x + t * dx - z.x, a.y + t * dy - z.y)); if ((a.y <= z.y) != (b.y <= z.y)) { double ix = a.x + (z.y - a.y) * dx / dy; if (ix <= z.x) wn += b.y > a.y ? 1 : -1; } }
    if (dist <= dev + 1e-6) continue;
    tested++; if (lv) level++; if (wn) inside++;
    for (int eo = 0; eo < 2; eo++) { BLHitTest h = p.hit_test(z, eo ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO); bool in = eo ? (wn & 1) : wn != 0; REQUIRE(c, h == (in ? BL_HIT_TEST_IN : BL_HIT_TEST_OUT), "hit_test(%.17g,%.17g, %s) is %d, the winding number is %ld (distance %g from the outline)", z.x, z.y, eo ? "even-odd" : "non-zero", int(h), wn, dist); }
  }
  c.nontrivial(tested >= 5 && inside > 0); c.label(level > 0, "on the level of a vertex"); c.label(inside > 0 && tested > inside, "both sides");
}

int main(int argc, char** argv) {
  pbt::Suite s("C10", "shapes and arcs: the arc isn't empty; boxes: the path has a curve; hits: at least 5 points clear of the outline were tested and one is inside", argc, argv);
  s.add("shapes", shapes, {.quick = 150000, .thorough = 5000000});
  s.add("svg_arc", svg_arc, {.quick = 150000, .thorough = 5000000});
  s.add("arc_to", arc_to, {.quick = 150000, .thorough = 5000000});
  s.add("boxes", boxes, {.quick = 120000, .thorough = 4000000});
  s.add("hits", hits, {.quick = 30000, .thorough = 1000000});
  s.assume("arcs are allowed a relative radial error of 4e-4 (cubic approximation of a quadrant is 2.8e-4 off); points closer to the outline than the deviation of its polyline approximation are not hit tested; SVG arcs whose center is ill conditioned (end points within 1e-4 of a diameter apart) are skipped");
  return s.run();
}
