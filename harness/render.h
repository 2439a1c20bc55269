// Shared helpers for rendering checks: exact coverage of polygons, curve sampling, path generators, pixel formulas.
#pragma once
#include <blend2d/blend2d.h>
#include "pbt.h"

namespace rv {
using pbt::Case;

struct P { double x, y; };
typedef std::vector<P> Poly;                     // closed ring
typedef std::vector<Poly> Polys;

static inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
static inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
static inline P operator*(P a, double k) { return {a.x * k, a.y * k}; }
static inline P lerp(P a, P b, double t) { return a + (b - a) * t; }
static inline P xf(const BLMatrix2D& m, P p) { return {p.x * m.m00 + p.y * m.m10 + m.m20, p.x * m.m01 + p.y * m.m11 + m.m21}; }

// Signed area accumulation: acc[y*w+x] = integral of the winding number over the pixel; tol = per pixel sum of `w_edge` weights.
struct Cover {
  int w, h; std::vector<double> acc, len; std::vector<int> edges;
  Cover(int w_, int h_) : w(w_), h(h_), acc(size_t(w_) * size_t(h_)), len(acc.size()), edges(acc.size()) {}
  void edge(P a, P b) {
    if (a.y == b.y) {  // contributes nothing, but rounding may move it
      if (!(a.y > -1 && a.y < h + 1)) return; int r0 = int(std::floor(a.y - 1 / 256.0)), r1 = int(std::floor(a.y + 1 / 256.0)); double xl = std::min(a.x, b.x), xh = std::max(a.x, b.x);
      for (int r = std::max(r0, 0); r <= std::min(r1, h - 1); r++) for (int x = std::max(0, int(std::floor(std::max(-2.0, xl))) - 1); x <= std::min(w - 1, int(std::min(xh, w + 2.0)) + 1); x++) edges[size_t(r) * size_t(w) + size_t(x)]++;
      return;
    }
    double sg = 1; if (a.y > b.y) { std::swap(a, b); sg = -1; }
    int y0 = int(std::floor(std::max(0.0, a.y))), y1 = int(std::ceil(std::min(double(h), b.y)));
    if (a.y >= h || b.y <= 0) return;
    double k = (b.x - a.x) / (b.y - a.y);
    for (int y = y0; y < y1; y++) {
      double ya = std::max(double(y), a.y), yb = std::min(double(y + 1), b.y); if (yb <= ya) continue;
      double xa = a.x + (ya - a.y) * k, xb = a.x + (yb - a.y) * k;
      if (ya == a.y) xa = a.x; if (yb == b.y) xb = b.x;
      row(y, xa, xb, yb - ya, sg);
    }
  }
  void row(int y, double xa, double xb, double dy, double sg) {
    double lo = std::min(xa, xb), hi = std::max(xa, xb); double* A = &acc[size_t(y) * size_t(w)]; int* E = &edges[size_t(y) * size_t(w)]; double* L = &len[size_t(y) * size_t(w)];
    int first = lo <= 0 ? 0 : lo >= w ? w : int(std::floor(lo));
    int last = hi < 0 ? -1 : hi >= w ? w - 1 : int(std::floor(hi));
    // also neighbours can be touched by rounding
    for (int x = std::max(0, first - 1); x <= std::min(w - 1, last + 1); x++) { E[x]++; L[x] += dy; }
    for (int x = first; x < w; x++) {
      double f;   // average over the piece of the fraction of pixel [x,x+1) right of the edge
      if (hi <= x) f = 1;
      else if (lo >= x + 1) f = 0;
      else if (hi - lo < 1e-12) f = x + 1 - (lo + hi) / 2;
      else { // integrate clamp(x+1 - t, 0, 1) for t uniform over [lo,hi]
        auto I = [&](double t) { double v = x + 1 - t; return v <= 0 ? 0.0 : v >= 1 ? 0.5 + (v - 1) : v * v / 2; };  // antiderivative of clamp(v,0,1)
        f = (I(lo) - I(hi)) / (hi - lo);
      }
      A[x] += sg * dy * std::min(1.0, std::max(0.0, f));
    }
  }
  void polys(const Polys& ps) { for (auto& p : ps) for (size_t i = 0; i < p.size(); i++) edge(p[i], p[(i + 1) % p.size()]); }
  static double apply(double s, BLFillRule r) { s = std::fabs(s); if (r == BL_FILL_RULE_NON_ZERO) return std::min(1.0, s); s = std::fmod(s, 2.0); return s > 1 ? 2 - s : s; }
  double at(int x, int y, BLFillRule r) const { return apply(acc[size_t(y) * size_t(w) + size_t(x)], r); }
};

static inline void sample_curve(Poly& out, int kind, P p0, P p1, P p2, P p3, double wgt, int n) {
  for (int k = 1; k <= n; k++) {
    double t = double(k) / n, u = 1 - t; P r;
    if (k == n) r = kind == 3 ? p3 : p2;
    else if (kind == 2) r = p0 * (u * u) + p1 * (2 * u * t) + p2 * (t * t);
    else if (kind == 3) r = p0 * (u * u * u) + p1 * (3 * u * u * t) + p2 * (3 * u * t * t) + p3 * (t * t * t);
    else { double d = u * u + 2 * wgt * u * t + t * t; r = (p0 * (u * u) + p1 * (2 * wgt * u * t) + p2 * (t * t)) * (1 / d); }
    out.push_back(r);
  }
}
// Converts a path to rings using the definition of its commands (n samples per curve).
static inline Polys rings(const BLPath& path, const BLMatrix2D& m, int n, bool* closed_flags = nullptr, std::vector<bool>* closed = nullptr) {
  Polys r; Poly cur; bool cl = false; size_t i = 0, sz = path.size(); const uint8_t* c = path.command_data(); const BLPoint* v = path.vertex_data();
  auto g = [&](size_t k) { return xf(m, P{v[k].x, v[k].y}); };
  auto flush = [&](bool isclosed) { if (cur.size()) { r.push_back(cur); if (closed) closed->push_back(isclosed); } cur.clear(); };
  (void)cl; (void)closed_flags; P start{0, 0};
  while (i < sz) {
    switch (c[i]) {
      case BL_PATH_CMD_MOVE: flush(false); start = g(i); cur.push_back(start); i++; break;
      case BL_PATH_CMD_ON: cur.push_back(g(i)); i++; break;
      case BL_PATH_CMD_QUAD: { P a = cur.back(); sample_curve(cur, 2, a, g(i), g(i + 1), P{}, 1, n); i += 2; break; }
      case BL_PATH_CMD_CONIC: { P a = cur.back(); sample_curve(cur, 4, a, g(i), g(i + 2), P{}, v[i + 1].x, n); i += 3; break; }
      case BL_PATH_CMD_CUBIC: { P a = cur.back(); sample_curve(cur, 3, a, g(i), g(i + 1), g(i + 2), 1, n); i += 3; break; }
      case BL_PATH_CMD_CLOSE: flush(true); i++; break;
      default: i++; break;
    }
  }
  flush(false);
  return r;
}

static inline double coord(Case& c, double size, int mode) {
  switch (mode) {
    case 0: return double(c.range(-2, int64_t(size) + 2));
    case 1: return double(c.range(-512, int64_t(size * 256) + 512)) / 256.0;
    case 2: return c.real(-size * 0.3, size * 1.3);
    case 3: return c.real(-size * 30, size * 30);
    default: { double s = c.pickl<double>({1e3, 1e4, 1e6, 1e7}); return c.coin() ? c.real(-s, s) : c.real(-2, size + 2); }
  }
}
static inline BLPoint pt(Case& c, int w, int h, int mode) { double x = coord(c, w, mode); return BLPoint(x, coord(c, h, mode)); }

static inline uint32_t div255(uint32_t x) { return (x + 128 + ((x + 128) >> 8)) >> 8; }
static inline uint32_t px32(const BLImageData& d, int x, int y) { uint32_t v; memcpy(&v, (const uint8_t*)d.pixel_data + y * d.stride + x * 4, 4); return v; }
static inline uint8_t px8(const BLImageData& d, int x, int y) { return ((const uint8_t*)d.pixel_data)[y * d.stride + x]; }
}
