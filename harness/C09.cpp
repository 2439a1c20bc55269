// C09: histories of path construction and editing against a list of (command, vertex).
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include <blend2d/blend2d.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <vector>
#include "pbt.h"
#include "alloc_track.h"
using pbt::Case;
enum { M = 0, L = 1, Q = 2, K = 3, C = 4, Z = 5, W = 6 };
struct V { uint8_t c; double x, y; };
typedef std::vector<V> Seq;
static const double NaN = std::nan("");

static std::string show(const Seq& s, size_t from = 0, size_t n = 14) { std::string r; for (size_t i = from; i < s.size() && i < from + n; i++) r += pbt::fmt("%c%g,%g ", "MLQKCZW???????"[std::min<int>(s[i].c, 10)], s[i].x, s[i].y); if (s.size() > from + n) r += pbt::fmt("..(%zu)", s.size()); return r; }
static bool same(double a, double b, double tol) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (a == b) return true; return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }
static Seq grab(const BLPath& p) { Seq s(p.size()); for (size_t i = 0; i < s.size(); i++) s[i] = {p.command_data()[i], p.vertex_data()[i].x, p.vertex_data()[i].y}; return s; }

struct Model {
  static bool valid(const Seq& s) {           // structure the rest of the library understands
    bool prev = false; size_t i = 0;
    while (i < s.size()) switch (s[i].c) {
      case M: prev = true; i++; break;
      case L: if (!prev) return false; i++; break;
      case Q: if (!prev || i + 2 > s.size()) return false; i += 2; break;
      case K: case C: if (!prev || i + 3 > s.size()) return false; i += 3; break;
      case Z: prev = false; i++; break;
      default: return false;
    }
    for (auto& v : s) if (v.c < Z && (!std::isfinite(v.x) || !std::isfinite(v.y))) return false;
    return true;
  }
  // Every segment is followed by the right commands and every figure starts with MOVE.
  static bool well_formed(const Seq& s) {
    bool prev = false; size_t i = 0, n = s.size();
    while (i < n) switch (s[i].c) {
      case M: prev = true; i++; break;
      case L: if (!prev) return false; i++; break;
      case Q: if (!prev || i + 1 >= n || s[i + 1].c != L) return false; i += 2; break;
      case C: if (!prev || i + 2 >= n || s[i + 1].c != C || s[i + 2].c != L) return false; i += 3; break;
      case K: if (!prev || i + 2 >= n || s[i + 1].c != W || s[i + 2].c != L) return false; i += 3; break;
      case Z: if (!prev) return false; prev = false; i++; break;
      default: return false;
    }
    return true;
  }
  // Commands of every curve are followed by the vertices that belong to them (set_vertex_at and ranges can tear them apart).
  static bool curves_ok(const Seq& s) {
    size_t n = s.size(); auto at = [&](size_t i) { return i < n ? int(s[i].c) : 99; };
    for (size_t i = 0; i < n;) switch (s[i].c) { case Q: if (at(i + 1) != L) return false; i += 2; break; case C: if (at(i + 1) != C || at(i + 2) != L) return false; i += 3; break; case K: if (at(i + 1) != W || at(i + 2) != L) return false; i += 3; break; case W: return false; default: i++; }
    return true;
  }
  static Seq rev_figure(const Seq& f) {        // f is one well formed figure
    bool closed = f.back().c == Z; size_t n = f.size() - closed; Seq o;
    // points on the outline in reverse order, each segment with its control points reversed
    struct Seg { int c; std::vector<V> v; V end; }; std::vector<Seg> segs; V start = f[0];
    for (size_t i = 1; i < n;) { Seg g; g.c = f[i].c; if (g.c == L) { g.end = f[i++]; } else if (g.c == Q) { g.v = {f[i]}; g.end = f[i + 1]; i += 2; } else { g.v = {f[i], f[i + 1]}; g.end = f[i + 2]; i += 3; } segs.push_back(g); }
    V first = segs.empty() ? start : segs.back().end; first.c = M; o.push_back(first);
    for (size_t k = segs.size(); k--;) {
      Seg& g = segs[k]; V e = k ? segs[k - 1].end : start; e.c = L;
      if (g.c == C) { o.push_back(g.v[1]); o.push_back(g.v[0]); } else for (auto& v : g.v) o.push_back(v);
      o.push_back(e);
    }
    if (closed) o.push_back({Z, NaN, NaN});
    return o;
  }
  static Seq reversed(const Seq& s, bool complete) {
    std::vector<Seq> figs; for (auto& v : s) { if (v.c == M) figs.emplace_back(); figs.back().push_back(v); }
    if (complete) std::reverse(figs.begin(), figs.end());
    Seq o; for (auto& f : figs) { Seq r = rev_figure(f); o.insert(o.end(), r.begin(), r.end()); }
    return o;
  }
};

static double co(Case& c) { switch (c.below(8)) { case 0: return double(c.range(-4, 4)); case 1: case 2: return double(c.range(-100, 100)); case 3: return c.real(-1e6, 1e6); case 4: return 0.0; default: return c.real(-50, 50); } }
static BLPoint pt(Case& c) { double x = co(c), y = co(c); return BLPoint(x, y); }

static BLMatrix2D matrix(Case& c) {
  switch (c.below(6)) {
    case 0: return BLMatrix2D::make_identity();
    case 1: { BLPoint t = pt(c); return BLMatrix2D::make_translation(t.x, t.y); }
    case 2: return BLMatrix2D(c.real(-3, 3), 0, 0, c.real(-3, 3), c.real(-9, 9), c.real(-9, 9));
    case 3: return BLMatrix2D(0, c.real(-3, 3), c.real(-3, 3), 0, c.real(-9, 9), c.real(-9, 9));
    case 4: return BLMatrix2D(2, 0, 0, 2, 0, 0);
    default: return BLMatrix2D(c.real(-3, 3), c.real(-3, 3), c.real(-3, 3), c.real(-3, 3), c.real(-9, 9), c.real(-9, 9));
  }
}
static V mapv(const BLMatrix2D& m, V v) { if (v.c == W) return v; return {v.c, v.x * m.m00 + v.y * m.m10 + m.m20, v.x * m.m01 + v.y * m.m11 + m.m21}; }

static BLRange range(Case& c, size_t n, size_t& s, size_t& e) {
  BLRange r;
  switch (c.below(6)) {
    case 0: r = BLRange{size_t(0), size_t(SIZE_MAX)}; break;
    case 1: { size_t a = c.below(n + 2); r = BLRange{a, SIZE_MAX}; break; }
    case 2: r = BLRange{c.below(n + 3), c.below(n + 3)}; break;
    case 3: r = BLRange{size_t(0), c.below(n + 3)}; break;
    default: { size_t a = c.below(n + 1); r = BLRange{a, a + c.below(n - a + 3)}; }
  }
  e = std::min<size_t>(r.end, n); s = std::min<size_t>(r.start, e);
  return r;
}

static void box_seq(Seq& o, double x0, double y0, double x1, double y1, bool ccw) {
  o.push_back({M, x0, y0}); o.push_back(ccw ? V{L, x0, y1} : V{L, x1, y0}); o.push_back({L, x1, y1}); o.push_back(ccw ? V{L, x1, y0} : V{L, x0, y1}); o.push_back({Z, NaN, NaN});
}
static void poly_seq(Seq& o, std::vector<BLPoint> p, bool closed, bool ccw) { if (ccw) std::reverse(p.begin(), p.end()); for (size_t i = 0; i < p.size(); i++) o.push_back({uint8_t(i ? L : M), p[i].x, p[i].y}); if (closed && !p.empty()) o.push_back({Z, NaN, NaN}); }

// A shape without curves with its exact sequence. Views point into heap blocks of the exact size.
struct Shape {
  BLGeometryType type; std::vector<uint8_t> blob; BLArrayView<uint8_t> view{}; Seq seq;
  const void* data() const { return view.size ? static_cast<const void*>(&view) : static_cast<const void*>(blob.data()); }
  template<class T> void put(const T& t) { blob.assign(reinterpret_cast<const uint8_t*>(&t), reinterpret_cast<const uint8_t*>(&t) + sizeof(T)); }
  template<class T> void arr(const std::vector<T>& t) { blob.assign(reinterpret_cast<const uint8_t*>(t.data()), reinterpret_cast<const uint8_t*>(t.data()) + t.size() * sizeof(T)); blob.shrink_to_fit(); view.data = blob.data(); view.size = t.size(); }
};
static void shape(Case& c, Shape& s, bool ccw) {
  auto in = [&] { return int(c.range(-1000, 1000)); };
  switch (c.below(13)) {
    case 0: { BLBoxI b(in(), in(), in(), in()); s.type = BL_GEOMETRY_TYPE_BOXI; s.put(b); box_seq(s.seq, b.x0, b.y0, b.x1, b.y1, ccw); break; }
    case 1: { BLPoint p = pt(c), q = pt(c); BLBox b(p.x, p.y, q.x, q.y); s.type = BL_GEOMETRY_TYPE_BOXD; s.put(b); box_seq(s.seq, b.x0, b.y0, b.x1, b.y1, ccw); break; }
    case 2: { BLRectI b(in(), in(), in(), in()); if (c.chance(1, 6)) { b.x = INT_MAX - 3; b.w = 2000; } s.type = BL_GEOMETRY_TYPE_RECTI; s.put(b); box_seq(s.seq, b.x, b.y, double(b.x) + b.w, double(b.y) + b.h, ccw); break; }
    case 3: { BLPoint p = pt(c), q = pt(c); BLRect b(p.x, p.y, q.x, q.y); s.type = BL_GEOMETRY_TYPE_RECTD; s.put(b); box_seq(s.seq, b.x, b.y, b.x + b.w, b.y + b.h, ccw); break; }
    case 4: { BLPoint p = pt(c), q = pt(c); BLLine l(p.x, p.y, q.x, q.y); s.type = BL_GEOMETRY_TYPE_LINE; s.put(l); poly_seq(s.seq, {p, q}, false, ccw); break; }
    case 5: { BLPoint a = pt(c), b = pt(c), d = pt(c); BLTriangle t(a.x, a.y, b.x, b.y, d.x, d.y); s.type = BL_GEOMETRY_TYPE_TRIANGLE; s.put(t); poly_seq(s.seq, {a, b, d}, true, ccw); break; }
    case 6: case 7: { size_t n = 1 + c.size(20); bool poly = c.coin(); std::vector<BLPoint> p(n); for (auto& q : p) q = pt(c); s.type = poly ? BL_GEOMETRY_TYPE_POLYGOND : BL_GEOMETRY_TYPE_POLYLINED; s.arr(p); poly_seq(s.seq, p, poly, ccw); break; }
    case 8: { size_t n = 1 + c.size(20); bool poly = c.coin(); std::vector<BLPointI> p(n); std::vector<BLPoint> d(n); for (size_t i = 0; i < n; i++) { p[i] = BLPointI(in(), in()); d[i] = BLPoint(p[i].x, p[i].y); } s.type = poly ? BL_GEOMETRY_TYPE_POLYGONI : BL_GEOMETRY_TYPE_POLYLINEI; s.arr(p); poly_seq(s.seq, d, poly, ccw); break; }
    default: {
      size_t n = 1 + c.size(9); int k = int(c.below(4)); std::vector<BLBox> e(n); std::vector<BLBoxI> bi; std::vector<BLRectI> ri; std::vector<BLRect> rd; std::vector<BLBox> bd; std::vector<Seq> parts;
      for (size_t i = 0; i < n; i++) {
        double x, y, w, h; if (k < 2) { x = in(); y = in(); w = double(c.range(-2, 60)); h = double(c.range(-2, 60)); } else { BLPoint p = pt(c); x = p.x; y = p.y; w = c.real(-2, 60); h = c.real(-2, 60); }
        double x1 = x + w, y1 = y + h; bool good = x1 > x && y1 > y; Seq q;
        switch (k) { case 0: bi.emplace_back(int(x), int(y), int(x1), int(y1)); break; case 1: ri.emplace_back(int(x), int(y), int(w), int(h)); break; case 2: bd.emplace_back(x, y, x1, y1); break; default: rd.emplace_back(x, y, w, h); good = w > 0 && h > 0; }
        if (good) box_seq(q, x, y, x1, y1, ccw); parts.push_back(q);
      }
      switch (k) { case 0: s.type = BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI; s.arr(bi); break; case 1: s.type = BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI; s.arr(ri); break; case 2: s.type = BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXD; s.arr(bd); break; default: s.type = BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD; s.arr(rd); }
      if (ccw) std::reverse(parts.begin(), parts.end());
      for (auto& q : parts) s.seq.insert(s.seq.end(), q.begin(), q.end());
    }
  }
}

static void match(Case& c, const char* op, const BLPath& p, Seq& m, size_t from, double tol) {   // vertices before `from` are bit-equal, the rest within tolerance and adopted
  REQUIRE(c, p.size() == m.size(), "%s: size %zu instead of %zu\n   expected %s\n   got      %s", op, p.size(), m.size(), show(m, from).c_str(), show(grab(p), from).c_str());
  for (size_t i = 0; i < m.size(); i++) {
    V g{p.command_data()[i], p.vertex_data()[i].x, p.vertex_data()[i].y};
    bool any = i >= from && tol > 0 && m[i].c < Z && !(std::isfinite(m[i].x) && std::isfinite(m[i].y)); bool ok = g.c == m[i].c && (any || (same(g.x, m[i].x, i < from ? 0 : tol) && same(g.y, m[i].y, i < from ? 0 : tol)));
    REQUIRE(c, ok, "%s: vertex %zu of %zu (first new %zu) is %s instead of %s", op, i, m.size(), from, show({g}).c_str(), show({m[i]}).c_str());
    m[i] = g;
  }
}

static void history(Case& c) {
  long live0 = at::live;
  {
    const int NV = 3; BLPath a[NV]; Seq m[NV]; bool sharing = false, edits = false, reversal = false;
    int nops = 1 + int(c.size(30));
    for (int st = 0; st < nops; st++) {
      int v = int(c.below(NV)), w = int(c.below(NV)); Seq& s = m[v]; BLPath& p = a[v]; size_t n = s.size(); const char* op = "?"; double tol = 0; size_t from = n;
      auto ok = [&](BLResult r) { REQUIRE(c, r == BL_SUCCESS, "step %d %s: unexpected error %u", st, op, unsigned(r)); };
      switch (c.below(34)) {
        case 0: case 1: { op = "move_to"; BLPoint q = pt(c); c.note("p%d.move_to(%g,%g)", v, q.x, q.y); ok(c.coin() ? p.move_to(q) : p.move_to(q.x, q.y)); s.push_back({M, q.x, q.y}); break; }
        case 2: case 3: { op = "line_to"; BLPoint q = pt(c); if (!n && !c.chance(1, 8)) break; c.note("p%d.line_to(%g,%g)", v, q.x, q.y); ok(c.coin() ? p.line_to(q) : p.line_to(q.x, q.y)); s.push_back({L, q.x, q.y}); break; }
        case 4: { op = "quad_to"; BLPoint x = pt(c), y = pt(c); c.note("p%d.quad_to(%g,%g, %g,%g)", v, x.x, x.y, y.x, y.y); ok(c.coin() ? p.quad_to(x, y) : p.quad_to(x.x, x.y, y.x, y.y)); s.push_back({Q, x.x, x.y}); s.push_back({L, y.x, y.y}); break; }
        case 5: { op = "cubic_to"; BLPoint x = pt(c), y = pt(c), z = pt(c); c.note("p%d.cubic_to(%g,%g, %g,%g, %g,%g)", v, x.x, x.y, y.x, y.y, z.x, z.y); ok(c.coin() ? p.cubic_to(x, y, z) : p.cubic_to(x.x, x.y, y.x, y.y, z.x, z.y)); s.push_back({C, x.x, x.y}); s.push_back({C, y.x, y.y}); s.push_back({L, z.x, z.y}); break; }
        case 6: { op = "conic_to"; BLPoint x = pt(c), y = pt(c); double wt = c.real(0.1, 3); c.note("p%d.conic_to(%g,%g, %g,%g, %g)", v, x.x, x.y, y.x, y.y, wt); ok(c.coin() ? p.conic_to(x, y, wt) : p.conic_to(x.x, x.y, y.x, y.y, wt)); s.push_back({K, x.x, x.y}); s.push_back({W, wt, NaN}); s.push_back({L, y.x, y.y}); break; }
        case 7: { op = "smooth_quad_to"; BLPoint y = pt(c); c.note("p%d.smooth_quad_to(%g,%g)", v, y.x, y.y); BLResult r = c.coin() ? p.smooth_quad_to(y) : p.smooth_quad_to(y.x, y.y);
          if (!n || s.back().c >= Z) { REQUIRE(c, r == BL_ERROR_NO_MATCHING_VERTEX, "smooth_quad_to without a vertex to start at returned %u", unsigned(r)); break; } ok(r); V l = s.back(), x = l; if (n >= 2 && s[n - 2].c == Q) { x.x = 2 * l.x - s[n - 2].x; x.y = 2 * l.y - s[n - 2].y; } s.push_back({Q, x.x, x.y}); s.push_back({L, y.x, y.y}); tol = 1e-9; break; }
        case 8: { op = "smooth_cubic_to"; BLPoint y = pt(c), z = pt(c); c.note("p%d.smooth_cubic_to(%g,%g, %g,%g)", v, y.x, y.y, z.x, z.y); BLResult r = c.coin() ? p.smooth_cubic_to(y, z) : p.smooth_cubic_to(y.x, y.y, z.x, z.y);
          if (!n || s.back().c >= Z) { REQUIRE(c, r == BL_ERROR_NO_MATCHING_VERTEX, "smooth_cubic_to without a vertex to start at returned %u", unsigned(r)); break; } ok(r); V l = s.back(), x = l; if (n >= 2 && s[n - 2].c == C) { x.x = 2 * l.x - s[n - 2].x; x.y = 2 * l.y - s[n - 2].y; } s.push_back({C, x.x, x.y}); s.push_back({C, y.x, y.y}); s.push_back({L, z.x, z.y}); tol = 1e-9; break; }
        case 9: { op = "close"; c.note("p%d.close()", v); ok(p.close()); s.push_back({Z, NaN, NaN}); break; }
        case 10: { op = "poly_to"; size_t k = c.size(90); std::vector<BLPoint> q(k); for (auto& x : q) x = pt(c); c.note("p%d.poly_to(%zu points)", v, k); ok(p.poly_to(q.data(), k)); for (auto& x : q) s.push_back({L, x.x, x.y}); break; }
        case 11: { op = "add_segments"; BLPoint x = pt(c), y = pt(c), z = pt(c), u = pt(c), t = pt(c); c.note("p%d.add_segments(M L Q C M)", v);
          ok(p.add_segments(BLPath::MoveTo{x.x, x.y}, BLPath::LineTo{y.x, y.y}, BLPath::QuadTo{z.x, z.y, u.x, u.y}, BLPath::CubicTo{x.x, x.y, t.x, t.y, z.x, z.y}, BLPath::MoveTo{u.x, u.y}));
          for (V e : {V{M, x.x, x.y}, V{L, y.x, y.y}, V{Q, z.x, z.y}, V{L, u.x, u.y}, V{C, x.x, x.y}, V{C, t.x, t.y}, V{L, z.x, z.y}, V{M, u.x, u.y}}) s.push_back(e); break; }
        case 12: case 13: case 14: { op = "add_geometry"; bool ccw = c.coin(); Shape sh; shape(c, sh, ccw); c.note("p%d.add_geometry(type %d, %s) -> %s", v, int(sh.type), ccw ? "ccw" : "cw", show(sh.seq).c_str()); auto d = ccw ? BL_GEOMETRY_DIRECTION_CCW : BL_GEOMETRY_DIRECTION_CW;
          if (c.coin()) { BLMatrix2D t = matrix(c); ok(p.add_geometry(sh.type, sh.data(), &t, d)); for (auto& e : sh.seq) s.push_back(mapv(t, e)); tol = 1e-9; }
          else { if (sh.type == BL_GEOMETRY_TYPE_RECTD && c.coin()) ok(p.add_rect(*reinterpret_cast<const BLRect*>(sh.data()), d)); else if (sh.type == BL_GEOMETRY_TYPE_RECTI && c.coin()) ok(p.add_rect(*reinterpret_cast<const BLRectI*>(sh.data()), d)); else if (sh.type == BL_GEOMETRY_TYPE_BOXI && c.coin()) ok(p.add_box(*reinterpret_cast<const BLBoxI*>(sh.data()), d)); else ok(p.add_geometry(sh.type, sh.data(), nullptr, d)); for (auto& e : sh.seq) s.push_back(e); }
          break; }
        case 15: { op = "add curved shape"; BLPath f; BLPoint q = pt(c); double r1 = c.real(0.1, 30), r2 = c.real(0.1, 30); auto d = c.coin() ? BL_GEOMETRY_DIRECTION_CCW : BL_GEOMETRY_DIRECTION_CW; BLArc arc(q.x, q.y, r1, r2, c.real(-7, 7), c.real(-7, 7)); int k = int(c.below(6)); BLMatrix2D t = matrix(c); bool tr = c.coin(); c.note("p%d.add curved shape %d %s", v, k, tr ? "transformed" : "");
          auto add = [&](BLPath& to, bool mat) { switch (k) { case 0: return mat ? to.add_circle(BLCircle(q.x, q.y, r1), t, d) : to.add_circle(BLCircle(q.x, q.y, r1), d); case 1: return mat ? to.add_ellipse(BLEllipse(q.x, q.y, r1, r2), t, d) : to.add_ellipse(BLEllipse(q.x, q.y, r1, r2), d);
            case 2: return mat ? to.add_round_rect(BLRoundRect(q.x, q.y, r1, r2, 5, 6), t, d) : to.add_round_rect(BLRoundRect(q.x, q.y, r1, r2, 5, 6), d); case 3: return mat ? to.add_arc(arc, t, d) : to.add_arc(arc, d); case 4: return mat ? to.add_chord(arc, t, d) : to.add_chord(arc, d); default: return mat ? to.add_pie(arc, t, d) : to.add_pie(arc, d); } };
          ok(add(f, false)); ok(add(p, tr)); for (auto& e : grab(f)) s.push_back(tr ? mapv(t, e) : e); REQUIRE(c, Model::well_formed(grab(f)), "shape %d isn't well formed: %s", k, show(grab(f)).c_str()); if (tr) tol = 1e-9; break; }
        case 16: { op = "arc"; BLPoint q = pt(c); double r1 = c.real(0.1, 30), r2 = c.real(0.1, 30), a0 = c.real(-7, 7), sw = c.coin() ? c.real(-7, 7) : c.pickl<double>({0, M_PI / 2, M_PI, -M_PI, 2 * M_PI, -2 * M_PI, 1.5 * M_PI, 20}); int k = int(c.below(3)); c.note("p%d.arc %d (%g,%g r %g,%g start %g sweep %g)", v, k, q.x, q.y, r1, r2, a0, sw); bool cont = n && s.back().c <= L; BLResult r; V first{}, last{}; bool hf = false;
          if (k == 0) { bool mv = c.coin(); r = p.arc_to(q, BLPoint(r1, r2), a0, sw, mv); ok(r); double se = std::max(-2 * M_PI, std::min(2 * M_PI, sw)); first = {uint8_t(cont && !mv ? L : M), q.x + r1 * std::cos(a0), q.y + r2 * std::sin(a0)}; last = {L, q.x + r1 * std::cos(a0 + se), q.y + r2 * std::sin(a0 + se)}; hf = true;
            if (cont && !mv && p.size() > n && p.command_data()[n] != L) { hf = false; REQUIRE(c, same(s.back().x, first.x, 1e-9) && same(s.back().y, first.y, 1e-9), "arc_to didn't connect the last vertex %s with the start of the arc %s", show({s.back()}).c_str(), show({first}).c_str()); } }
          else if (k == 1) { BLPoint e = pt(c); r = p.arc_quadrant_to(q, e); if (!(n && s.back().c < Z)) { REQUIRE(c, r == BL_ERROR_NO_MATCHING_VERTEX, "arc_quadrant_to without a vertex returned %u", unsigned(r)); break; } ok(r); last = {L, e.x, e.y}; }
          else { bool la = c.coin(), sf = c.coin(); r = p.elliptic_arc_to(BLPoint(c.chance(1, 8) ? 0 : r1, r2), a0, la, sf, q); if (!cont) { REQUIRE(c, r == BL_ERROR_NO_MATCHING_VERTEX, "elliptic_arc_to without a vertex returned %u", unsigned(r)); break; } ok(r); if (q == BLPoint(s.back().x, s.back().y)) break; last = {L, q.x, q.y}; }
          Seq g = grab(p); REQUIRE(c, g.size() > n, "%s added nothing", op); V gl = g.back(); REQUIRE(c, gl.c == last.c && same(gl.x, last.x, 1e-6) && same(gl.y, last.y, 1e-6), "arc %d ends at %s instead of %s", k, show({gl}).c_str(), show({last}).c_str()); if (hf) REQUIRE(c, g[n].c == first.c && same(g[n].x, first.x, 1e-6) && same(g[n].y, first.y, 1e-6), "arc starts with %s instead of %s", show({g[n]}).c_str(), show({first}).c_str());
          Seq tail(g.begin() + long(n), g.end()); Seq whole; whole.push_back({M, 0, 0}); whole.insert(whole.end(), tail.begin(), tail.end()); REQUIRE(c, Model::well_formed(whole), "arc %d produced a malformed sequence %s", k, show(tail).c_str()); for (auto& e : tail) s.push_back(e); break; }
        case 17: case 18: { op = "add_path"; Seq o = m[w]; size_t b, e; int k = int(c.below(6)); BLRange r = range(c, o.size(), b, e); if (k & 1) { b = 0; e = o.size(); } BLPoint q = pt(c); BLMatrix2D t = matrix(c); c.note("p%d.add_path(p%d, [%zu,%zu) variant %d)", v, w, b, e, k);
          switch (k) { case 0: ok(p.add_path(a[w], r)); break; case 1: ok(p.add_path(a[w])); break; case 2: ok(p.add_path(a[w], r, q)); break; case 3: ok(p.add_path(a[w], q)); break; case 4: ok(p.add_path(a[w], r, t)); break; default: ok(p.add_path(a[w], t)); }
          if (k == 2 || k == 3) t = BLMatrix2D::make_translation(q.x, q.y); for (size_t i = b; i < e; i++) s.push_back(k < 2 ? o[i] : mapv(t, o[i])); if (k >= 2) tol = 1e-9; break; }
        case 19: case 20: { op = "add_reversed_path"; Seq o = m[w]; size_t b = 0, e = o.size(); bool comp = c.coin(); int k = int(c.below(4)); BLRange r = range(c, o.size(), b, e); if (k) { b = 0; e = o.size(); } Seq part(o.begin() + long(b), o.begin() + long(e)); bool wf = Model::well_formed(part); c.note("p%d.add_reversed_path(p%d [%zu,%zu) %s)", v, w, b, e, comp ? "complete" : "separate"); BLMatrix2D t = matrix(c);
          BLResult x = k == 0 ? a[v].add_reversed_path(a[w], r, comp ? BL_PATH_REVERSE_MODE_COMPLETE : BL_PATH_REVERSE_MODE_SEPARATE) : k == 1 ? a[v].add_reversed_path(a[w], comp ? BL_PATH_REVERSE_MODE_COMPLETE : BL_PATH_REVERSE_MODE_SEPARATE) : k == 2 ? a[v].add_geometry(BL_GEOMETRY_TYPE_PATH, &a[w], nullptr, BL_GEOMETRY_DIRECTION_CCW) : a[v].add_geometry(BL_GEOMETRY_TYPE_PATH, &a[w], &t, BL_GEOMETRY_DIRECTION_CCW); if (k >= 2) comp = true;
          if (wf) { ok(x); for (auto& q : Model::reversed(part, comp)) s.push_back(k == 3 ? mapv(t, q) : q); if (k == 3) tol = 1e-9; if (part.size() > 3) reversal = true; }
          else if (x == BL_SUCCESS) { Seq g = grab(p); REQUIRE(c, g.size() >= n, "%s shrunk the path", op); for (size_t i = n; i < g.size(); i++) s.push_back(g[i]); }
          break; }
        case 21: case 22: { op = "set_vertex_at"; size_t i = c.below(n + 2); BLPoint q = pt(c); if (c.chance(1, 20)) q.x = c.coin() ? INFINITY : NaN; bool keep = c.chance(5, 6); uint32_t cmd = keep ? uint32_t(BL_PATH_CMD_PRESERVE) : uint32_t(c.below(7)); uint32_t rc = keep ? (i < n ? s[i].c : 0) : cmd; if (rc == W) q = BLPoint(c.real(0.1, 3), NaN); else if (rc == Z) q = BLPoint(NaN, NaN); c.note("p%d.set_vertex_at(%zu, %u, %g,%g)", v, i, cmd, q.x, q.y); BLResult r = c.coin() ? p.set_vertex_at(i, cmd, q) : p.set_vertex_at(i, cmd, q.x, q.y); if (i >= n) { REQUIRE(c, r != BL_SUCCESS, "set_vertex_at out of range succeeded"); break; } ok(r); s[i] = {keep ? s[i].c : uint8_t(cmd), q.x, q.y}; from = i; edits = true; break; }
        case 23: { op = "remove_range"; size_t b, e; BLRange r = range(c, n, b, e); if (n > 40 && c.coin()) { b = 0; e = n; r = BLRange{size_t(0), size_t(n)}; } c.note("p%d.remove_range([%zu,%zu))", v, size_t(r.start), size_t(r.end)); ok(p.remove_range(r)); s.erase(s.begin() + long(b), s.begin() + long(e)); edits = true; break; }
        case 24: case 25: { op = "transform"; size_t b = 0, e = n; BLRange r = range(c, n, b, e); int k = int(c.below(4)); BLMatrix2D t = matrix(c); BLPoint q = pt(c); if (k & 1) { b = 0; e = n; } c.note("p%d.%s([%zu,%zu))", v, k < 2 ? "translate" : "transform", b, e); switch (k) { case 0: ok(p.translate(r, q)); break; case 1: ok(p.translate(q)); break; case 2: ok(p.transform(r, t)); break; default: ok(p.transform(t)); } if (k < 2) t = BLMatrix2D::make_translation(q.x, q.y); for (size_t i = b; i < e; i++) s[i] = mapv(t, s[i]); from = b; tol = 1e-9; edits = true; break; }
        case 26: { op = "fit_to"; if (!n) break; BLRect rc(co(c), co(c), c.real(-1, 100), c.real(-1, 100)); bool bad = !(rc.w > 0 && rc.h > 0); size_t b = 0, e = n; BLRange r = range(c, n, b, e); if (c.coin()) { r = BLRange{size_t(0), size_t(SIZE_MAX)}; b = 0; e = n; } BLPath part; part.add_path(p, r); BLBox bb{}; BLResult rb = part.get_bounding_box(&bb); c.note("p%d.fit_to([%zu,%zu), %g,%g %gx%g) box %g,%g %g,%g", v, b, e, rc.x, rc.y, rc.w, rc.h, bb.x0, bb.y0, bb.x1, bb.y1); BLResult x = p.fit_to(r, rc, 0); if (b == e) { ok(x); break; } if (bad) { REQUIRE(c, x == BL_ERROR_INVALID_VALUE, "fit_to an empty rectangle returned %u", unsigned(x)); break; }
          edits = true; Seq g = grab(p); REQUIRE(c, g.size() == n, "fit_to changed the size"); if (x != BL_SUCCESS) { REQUIRE(c, rb != BL_SUCCESS, "fit_to failed with %u", unsigned(x)); break; }
          if (rb == BL_SUCCESS && std::max(std::fabs(bb.x0), std::fabs(bb.y0)) < 1e5) { double sx = bb.x1 > bb.x0 ? rc.w / (bb.x1 - bb.x0) : 1, sy = bb.y1 > bb.y0 ? rc.h / (bb.y1 - bb.y0) : 1; BLMatrix2D t(sx, 0, 0, sy, rc.x - bb.x0 * sx, rc.y - bb.y0 * sy); if (sx < 1e3 && sy < 1e3) for (size_t i = b; i < e; i++) s[i] = mapv(t, s[i]); else for (size_t i = b; i < e; i++) { if (s[i].c < Z && std::isfinite(s[i].x) && std::isfinite(s[i].y)) REQUIRE(c, std::isfinite(g[i].x) && std::isfinite(g[i].y), "fit_to made vertex %zu not finite", i); s[i] = g[i]; } } else for (size_t i = b; i < e; i++) { REQUIRE(c, g[i].c == s[i].c, "fit_to changed a command"); s[i] = g[i]; } from = b; tol = 1e-6; break; }
        case 27: { op = "assign"; c.note("p%d = p%d", v, w); if (c.coin()) a[v] = a[w]; else ok(a[v].assign(a[w])); Seq t = m[w]; m[v] = t; from = t.size(); if (v != w && t.size()) sharing = true; break; }
        case 28: { op = "assign_deep"; c.note("p%d.assign_deep(p%d)", v, w); Seq t = m[w]; ok(a[v].assign_deep(a[w])); m[v] = t; from = t.size(); break; }
        case 29: { op = "move/swap"; if (v == w) break; if (c.coin()) { c.note("p%d = move(p%d)", v, w); a[v] = std::move(a[w]); m[v] = m[w]; m[w].clear(); } else { c.note("swap(p%d,p%d)", v, w); a[v].swap(a[w]); std::swap(m[v], m[w]); } from = m[v].size(); break; }
        case 30: { op = "reserve"; size_t k = c.chance(1, 8) ? c.pickl<size_t>({SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 17 + 2, SIZE_MAX / 16, size_t(1) << 60}) : c.size(300); c.note("p%d.reserve(%zu)", v, k); BLResult r = p.reserve(k); if (k > (size_t(1) << 40)) REQUIRE(c, r == BL_ERROR_OUT_OF_MEMORY, "reserve(%zu) returned %u", k, unsigned(r)); else { ok(r); REQUIRE(c, p.capacity() >= k, "capacity %zu after reserve(%zu)", p.capacity(), k); } break; }
        case 31: { int k = int(c.below(3)); op = k == 0 ? "shrink" : k == 1 ? "clear" : "reset"; if (k && n > 8 && !c.chance(1, 3)) { k = 0; op = "shrink"; } c.note("p%d.%s()", v, op); ok(k == 0 ? p.shrink() : k == 1 ? p.clear() : p.reset()); if (k) s.clear(); from = s.size(); break; }
        case 32: { op = "modify_op"; BLModifyOp mo = c.pickl({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}); uint8_t* cd = nullptr; BLPoint* vd = nullptr; bool app = mo >= BL_MODIFY_OP_APPEND_FIT;
          if (c.chance(1, 8)) { size_t k = c.pickl<size_t>({SIZE_MAX, SIZE_MAX / 17 + 2, SIZE_MAX / 16, SIZE_MAX - 1}); c.note("p%d.modify_op(%d, %zu)", v, int(mo), k); BLResult r = p.modify_op(mo, k, &cd, &vd); REQUIRE(c, r == BL_ERROR_OUT_OF_MEMORY, "modify_op(%zu) returned %u", k, unsigned(r)); break; }
          size_t k = c.size(100); c.note("p%d.modify_op(%d, %zu)", v, int(mo), k); ok(p.modify_op(mo, k, &cd, &vd)); if (!app) s.clear(); from = s.size(); for (size_t i = 0; i < k; i++) { BLPoint q = pt(c); V e{uint8_t(i == 0 ? M : L), q.x, q.y}; cd[i] = e.c; vd[i] = q; s.push_back(e); } break; }
        default: { op = "copy"; BLPath x(a[w]); REQUIRE(c, x == a[w] && !(x != a[w]), "copy of p%d differs", w); c.note("p%d = copy of p%d via a temporary", v, w); Seq t = m[w]; a[v] = std::move(x); m[v] = t; from = t.size(); break; }
      }
      match(c, op, a[v], m[v], from, tol);
      for (int i = 0; i < NV; i++) if (i != v) match(c, op, a[i], m[i], m[i].size(), 0);
      // Queries about a random path.
      int x = int(c.below(NV)), y = int(c.below(NV)); Seq& s1 = m[x]; BLPath& p1 = a[x]; size_t n1 = s1.size();
      if (c.coin()) {
        bool eq = n1 == m[y].size(); for (size_t i = 0; eq && i < n1; i++) eq = s1[i].c == m[y][i].c && !memcmp(&s1[i].x, &m[y][i].x, 16);
        REQUIRE(c, p1.equals(a[y]) == eq && (p1 == a[y]) == eq, "equals(p%d,p%d) is %d", x, y, int(p1.equals(a[y]))); REQUIRE(c, p1.is_empty() == (n1 == 0) && bool(p1) == (n1 != 0), "is_empty");
        uint32_t fl = 0; BLResult r = p1.get_info_flags(&fl); bool val = Model::valid(s1), anynan = false; for (auto& e : s1) if (e.c != Z && (std::isnan(e.x) || (e.c != W && std::isnan(e.y)))) anynan = true;
        bool odd = !Model::curves_ok(s1);
        if (!anynan && !odd) {
          REQUIRE(c, (r == BL_SUCCESS) == val, "get_info_flags of p%d returned %u, path is %s: %s", x, unsigned(r), val ? "valid" : "invalid", show(s1).c_str());
          if (val) {
            uint32_t ex = 0; size_t mv = 0, pts = 0; double x0 = INFINITY, y0 = x0, x1 = -x0, y1 = -x0;
            for (size_t i = 0; i < n1; i++) { if (s1[i].c == Z) continue; bool wt = s1[i].c == W; if (!wt) { pts++; x0 = std::min(x0, s1[i].x); y0 = std::min(y0, s1[i].y); x1 = std::max(x1, s1[i].x); y1 = std::max(y1, s1[i].y); } if (s1[i].c == M) mv++; }
            for (size_t i = 0; i < n1;) switch (s1[i].c) { case Q: ex |= BL_PATH_FLAG_QUADS; i += 2; break; case K: ex |= BL_PATH_FLAG_CONICS; i += 3; break; case C: ex |= BL_PATH_FLAG_CUBICS; i += 3; break; default: i++; }
            if (mv > 1) ex |= BL_PATH_FLAG_MULTIPLE; if (!pts) ex |= BL_PATH_FLAG_EMPTY;
            bool proper = Model::well_formed(s1);
            if (proper || !pts) { REQUIRE(c, fl == ex, "info flags 0x%x instead of 0x%x for %s", fl, ex, show(s1).c_str()); BLBox cb; REQUIRE(c, p1.get_control_box(&cb) == BL_SUCCESS, "get_control_box failed"); if (!pts) x0 = y0 = x1 = y1 = 0;
              REQUIRE(c, same(cb.x0, x0, 1e-9) && same(cb.y0, y0, 1e-9) && same(cb.x1, x1, 1e-9) && same(cb.y1, y1, 1e-9), "control box %g,%g %g,%g instead of %g,%g %g,%g for %s", cb.x0, cb.y0, cb.x1, cb.y1, x0, y0, x1, y1, show(s1).c_str()); BLBox bb; REQUIRE(c, p1.get_bounding_box(&bb) == BL_SUCCESS && (pts || (bb.x0 == 0 && bb.y0 == 0 && bb.x1 == 0 && bb.y1 == 0)), "bounding box of an empty path is %g,%g %g,%g", bb.x0, bb.y0, bb.x1, bb.y1); }
          } else REQUIRE(c, fl & BL_PATH_FLAG_INVALID, "flags 0x%x of an invalid path", fl);
        }
        size_t i = c.below(n1 + 1); BLRange fr; r = p1.get_figure_range(i, &fr);
        if (i >= n1) REQUIRE(c, r != BL_SUCCESS, "get_figure_range out of range succeeded");
        else { size_t b = 0, e = n1; for (size_t k = 0; k <= i; k++) { if (s1[k].c == M || (k && s1[k - 1].c == Z)) b = k; } for (size_t k = i; k < n1; k++) { if (k > i && s1[k].c == M) { e = k; break; } if (s1[k].c == Z) { e = k + 1; break; } } REQUIRE(c, r == BL_SUCCESS && fr.start == b && fr.end == e, "figure range of %zu is [%zu,%zu) instead of [%zu,%zu) in %s", i, size_t(fr.start), size_t(fr.end), b, e, show(s1).c_str()); }
        BLPoint lv; r = p1.get_last_vertex(&lv); const V* ex = nullptr; if (n1) { if (s1.back().c != Z) ex = &s1.back(); else for (size_t k = n1 - 1; k-- > 0 && s1[k].c != Z;) if (s1[k].c == M) { ex = &s1[k]; break; } }
        REQUIRE(c, ex ? r == BL_SUCCESS && same(lv.x, ex->x, 0) && same(lv.y, ex->y, 0) : r == BL_ERROR_NO_MATCHING_VERTEX, "get_last_vertex returned %u (%g,%g) instead of %s", unsigned(r), lv.x, lv.y, ex ? show({*ex}).c_str() : "an error");
        BLPoint q = pt(c); if (n1 && c.coin()) { V e = s1[c.below(n1)]; q = BLPoint(e.x + c.real(-3, 3), e.y + c.real(-3, 3)); } double md = c.coin() ? 0 : c.coin() ? c.real(0, 20) : INFINITY; size_t idx = 0; double dist = 0; r = p1.get_closest_vertex(q, md, &idx, &dist); double best = INFINITY; for (auto& e : s1) if (e.c != Z && e.c != W) { double d = std::hypot(e.x - q.x, e.y - q.y); if (d < best) best = d; } bool lim = md > 0 && std::isfinite(md);
        if (std::isfinite(q.x) && std::isfinite(q.y) && !(lim && (odd || anynan)) && !(lim && std::fabs(best - md) < 1e-6 * (1 + md))) { if (best == INFINITY || (lim && best > md)) REQUIRE(c, idx == SIZE_MAX, "closest vertex of (%g,%g) within %g is %zu, there is none", q.x, q.y, md, idx); else REQUIRE(c, r == BL_SUCCESS && idx < n1 && s1[idx].c < Z && same(dist, best, 1e-9) && same(std::hypot(s1[idx].x - q.x, s1[idx].y - q.y), best, 1e-9), "closest vertex of (%g,%g) within %g: result %u index %zu distance %g, best is %g; %s", q.x, q.y, md, unsigned(r), idx, dist, best, show(s1).c_str()); }
      }
    }
    size_t total = 0; for (auto& x : m) total += x.size();
    c.label(sharing, "shared"); c.label(edits, "edited"); c.label(reversal, "reversed"); c.nontrivial(nops >= 5 && total >= 5);
  }
  REQUIRE(c, at::live == live0, "%ld blocks leaked", at::live - live0);
}

int main(int argc, char** argv) {
  pbt::Suite s("C09", "the history has at least 5 calls and leaves at least 5 vertices in the paths", argc, argv);
  s.add("history", history, {.quick = 400000, .thorough = 12000000});
  s.assume("transformed and fitted vertices are compared within 1e-9 (1e-6) of their magnitude, everything else exactly; curves of shapes are compared with the same shape added to an empty path (their geometry is decided by C10); reversing is predicted only for ranges made of complete figures");
  return s.run();
}
