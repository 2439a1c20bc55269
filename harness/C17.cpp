// C17: metamorphic relations between different ways of drawing the same thing.
#include "scene.h"
using namespace rv;
typedef std::function<BLResult(BLContext&)> Draw;
struct Var { std::string name; Draw f; int tol; };

struct Base {   // everything that surrounds the drawing call
  int w, h; BLFormat fmt; uint32_t seed; BLCompOp op; double alpha, fa; BLMatrix2D m; bool clip; BLRect cr; BLFillRule rule; BLStrokeOptions so; int style; BLVar sv; bool async; double ft = 0;
};
static BLImage render(const Base& b, const Draw& f, BLResult* out, const std::function<void(BLContext&)>& pre = {}) {
  BLImage img(b.w, b.h, b.fmt); sc::paint(img, b.seed, 0); BLContextCreateInfo ci{}; if (b.async) ci.thread_count = 2; BLContext x(img, ci);
  x.set_comp_op(b.op); x.set_global_alpha(b.alpha); x.set_fill_rule(b.rule); x.set_stroke_options(b.so); if (b.clip) x.clip_to_rect(b.cr); x.apply_transform(b.m); x.set_fill_style(b.sv); x.set_stroke_style(b.sv); x.set_fill_alpha(b.fa); x.set_stroke_alpha(b.fa); if (b.ft > 0) x.set_flatten_tolerance(b.ft); if (pre) pre(x);
  BLResult r = f(x); x.end(); if (out) *out = r; return img;
}
static BLRectI posr(BLRectI r) { r.w = r.w < 0 ? (r.w == INT_MIN ? 1 : -r.w) : r.w; r.h = r.h < 0 ? (r.h == INT_MIN ? 1 : -r.h) : r.h; return r; }   // negative sizes are outside the property
struct Diff { int max = 0, x = 0, y = 0, n = 0; uint32_t a = 0, b = 0; };
static Diff diff(const BLImage& A, const BLImage& B, int dx = 0, int dy = 0, const std::function<bool(int, int)>& skip = {}) {
  BLImageData p, q; A.get_data(&p); B.get_data(&q); Diff d; int bpp = p.format == BL_FORMAT_A8 ? 1 : 4; uint32_t mask = p.format == BL_FORMAT_XRGB32 ? 0xFFFFFFu : ~0u;
  for (int y = 0; y < p.size.h; y++) for (int x = 0; x < p.size.w; x++) { int u = x + dx, v = y + dy; if (u < 0 || v < 0 || u >= q.size.w || v >= q.size.h) continue;
    uint32_t a = 0, b = 0; memcpy(&a, (uint8_t*)p.pixel_data + y * p.stride + x * bpp, size_t(bpp)); memcpy(&b, (uint8_t*)q.pixel_data + v * q.stride + u * bpp, size_t(bpp)); a &= mask; b &= mask; if (a == b || (skip && skip(x, y))) continue; d.n++;
    for (int k = 0; k < 32; k += 8) { int e = std::abs(int((a >> k) & 255) - int((b >> k) & 255)); if (e > d.max) { d.max = e; d.x = x; d.y = y; d.a = a; d.b = b; } } }
  return d;
}
static bool changed(const Base& b, const BLImage& img) { BLImage o(b.w, b.h, b.fmt); sc::paint(o, b.seed, 0); return diff(o, img).n > 0; }

static Base base(Case& c, sc::Gen& g, bool xf = true, bool plain_style = false) {
  Base b; b.w = g.o.w; b.h = g.o.h; b.fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); b.seed = c.u32(); b.op = c.chance(1, 3) ? BL_COMP_OP_SRC_COPY : BL_COMP_OP_SRC_OVER; b.alpha = c.chance(2, 3) ? 1 : c.frac(); b.fa = c.chance(2, 3) ? 1 : c.frac();
  b.m.reset(); if (xf && c.chance(1, 3)) b.m = g.matrix(); b.clip = c.chance(1, 3); if (b.clip) { b.cr = g.rectd(); if (c.coin()) { b.cr.x = std::floor(b.cr.x); b.cr.y = std::floor(b.cr.y); b.cr.w = std::ceil(b.cr.w); b.cr.h = std::ceil(b.cr.h); } if (!(b.cr.w > 0)) b.cr.w = 1; if (!(b.cr.h > 0)) b.cr.h = 1; }
  b.rule = c.coin() ? BL_FILL_RULE_NON_ZERO : BL_FILL_RULE_EVEN_ODD; b.async = c.chance(1, 20);
  b.so.width = c.coin() ? c.i(1, 6) : c.real(0.1, 12); b.so.set_caps(BLStrokeCap(c.i(0, BL_STROKE_CAP_MAX_VALUE))); b.so.join = uint8_t(c.i(0, BL_STROKE_JOIN_MAX_VALUE)); b.so.miter_limit = c.real(0.5, 10); b.so.transform_order = uint8_t(c.i(0, 1));
  b.style = plain_style ? c.i(0, 2) : c.weighted({3, 2, 1, 3, 2}); switch (b.style) { case 0: b.sv = BLVar(g.color()); break; case 1: b.sv = BLVar(BLRgba64(c.u64())); break; case 2: b.sv = BLVar(BLRgba(float(c.frac()), float(c.frac()), float(c.frac()), float(c.frac()))); break; case 3: { BLGradient q = g.gradient(); b.sv = BLVar(q); break; }
    default: { BLImage im(c.i(1, 12), c.i(1, 12), BL_FORMAT_PRGB32); sc::paint(im, c.u32(), 0); BLPattern p(im); p.set_extend_mode(BLExtendMode(c.i(0, BL_EXTEND_MODE_MAX_VALUE))); if (c.coin()) p.set_transform(g.matrix()); b.sv = BLVar(p); } }
  c.note("%dx%d format %d op %d alpha %.17g/%.17g rule %d style kind %d clip %d [%g %g %g %g] matrix [%.17g %.17g %.17g %.17g %.17g %.17g] stroke width %.17g cap %d join %d miter %g order %d", b.w, b.h, b.fmt, b.op, b.alpha, b.fa, b.rule, b.style, b.clip, b.cr.x, b.cr.y, b.cr.w, b.cr.h, b.m.m00, b.m.m01, b.m.m10, b.m.m11, b.m.m20, b.m.m21, b.so.width, b.so.start_cap, b.so.join, b.so.miter_limit, b.so.transform_order);
  return b;
}
static bool compare(Case& c, const Base& b, const std::vector<Var>& v) {
  BLResult r0; BLImage first = render(b, v[0].f, &r0); bool ch = changed(b, first);
  for (size_t i = 1; i < v.size(); i++) { BLResult r; BLImage o = render(b, v[i].f, &r); REQUIRE(c, r == r0, "%s returned %u but %s returned %u", v[0].name.c_str(), r0, v[i].name.c_str(), r); Diff d = diff(first, o); int tol = std::max(std::max(v[0].tol, v[i].tol), b.style == 2 ? 1 : 0);
    REQUIRE(c, d.max <= tol, "%s and %s differ at %d,%d: %08x / %08x (%d pixels, tolerance %d)", v[0].name.c_str(), v[i].name.c_str(), d.x, d.y, d.a, d.b, d.n, tol); }
  return ch;
}
template<typename T> static BLArrayView<T> view(const std::vector<T>& v) { BLArrayView<T> a; a.reset(v.data(), v.size()); return a; }

// ---------------------------------------------------------------- shapes through every overload
static void shapes(Case& c) {
  sc::Opt o; o.w = c.i(1, 70); o.h = c.i(1, 50); o.extreme = false; sc::Gen g(c, o); Base b = base(c, g); bool stroke = c.chance(2, 5); std::vector<Var> v; BLPath p; int kind = c.i(0, 15); BLVar& S = b.sv;
  #define SHAPE(NAME, ...) { if (stroke) { v.push_back({"stroke_" #NAME, [=](BLContext& x) { return x.stroke_##NAME(__VA_ARGS__); }, 0}); } else { v.push_back({"fill_" #NAME, [=](BLContext& x) { return x.fill_##NAME(__VA_ARGS__); }, 0}); } }
  #define STYLED(NAME, ...) { v.push_back({#NAME " with explicit style", [=](BLContext& x) { x.set_fill_style(BLRgba32(0x80FF00FFu)); x.set_stroke_style(BLRgba32(0x80FF00FFu)); return stroke ? x.stroke_##NAME(__VA_ARGS__, S) : x.fill_##NAME(__VA_ARGS__, S); }, 0}); }
  #define GEO(T, DATA) { v.push_back({"geometry " #T, [=](BLContext& x) { return stroke ? x.stroke_geometry(T, &DATA) : x.fill_geometry(T, &DATA); }, 0}); v.push_back({"geometry " #T " with style", [=](BLContext& x) { return stroke ? x.stroke_geometry(T, &DATA, S) : x.fill_geometry(T, &DATA, S); }, 0}); v.push_back({"path with geometry " #T, [=](BLContext& x) { BLPath zz; BLResult e = zz.add_geometry(T, &DATA); if (e) return e; return stroke ? x.stroke_path(zz) : x.fill_path(zz); }, PT}); }
  int PT = 0; const double PI = 3.14159265358979323846; auto rad = [&] { double r = g.co(o.w); return c.chance(9, 10) ? std::fabs(r) : r; }; auto ang = [&] { return c.coin() ? c.i(-9, 9) * PI / 4 : c.real(-8, 8); };
  std::string desc; std::vector<BLPoint> pts; std::vector<BLPointI> ptsi; std::vector<BLRect> rs; std::vector<BLRectI> ris; std::vector<BLBox> bs; std::vector<BLBoxI> bis;
  switch (kind) {
    case 0: { BLRect r = g.rectd(); PT = 2; SHAPE(rect, r) SHAPE(rect, r.x, r.y, r.w, r.h) SHAPE(box, r.x, r.y, r.x + r.w, r.y + r.h) STYLED(rect, r) STYLED(rect, r.x, r.y, r.w, r.h) GEO(BL_GEOMETRY_TYPE_RECTD, r) std::vector<BLRect> one{r}; if (r.w > 0 && r.h > 0) SHAPE(rect_array, one.data(), one.size()) v.back().tol = 2; desc = pbt::fmt("rect %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h); break; }
    case 1: { BLRectI r = posr(g.recti()); PT = 2; SHAPE(rect, r) SHAPE(rect, double(r.x), double(r.y), double(r.w), double(r.h)) STYLED(rect, r) GEO(BL_GEOMETRY_TYPE_RECTI, r) std::vector<BLRectI> one{r}; if (r.w > 0 && r.h > 0) SHAPE(rect_array, one.data(), one.size()) v.back().tol = 2; desc = pbt::fmt("recti %d %d %d %d", r.x, r.y, r.w, r.h); break; }
    case 2: { BLBox r(g.co(o.w), g.co(o.h), g.co(o.w), g.co(o.h)); if (c.chance(4, 5)) { if (r.x0 > r.x1) std::swap(r.x0, r.x1); if (r.y0 > r.y1) std::swap(r.y0, r.y1); } PT = 2; SHAPE(box, r) SHAPE(box, r.x0, r.y0, r.x1, r.y1) STYLED(box, r) STYLED(box, r.x0, r.y0, r.x1, r.y1) GEO(BL_GEOMETRY_TYPE_BOXD, r) desc = pbt::fmt("box %.17g %.17g %.17g %.17g", r.x0, r.y0, r.x1, r.y1); break; }
    case 3: { BLBoxI r; int x0 = g.ci(o.w), y0 = g.ci(o.h), x1 = g.ci(o.w), y1 = g.ci(o.h); { if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1); } r.reset(x0, y0, x1, y1); PT = 2; SHAPE(box, r) SHAPE(box, double(r.x0), double(r.y0), double(r.x1), double(r.y1)) STYLED(box, r) GEO(BL_GEOMETRY_TYPE_BOXI, r) desc = pbt::fmt("boxi %d %d %d %d", x0, y0, x1, y1); break; }
    case 4: { BLPoint q = g.pt(); BLCircle k(q.x, q.y, rad()); SHAPE(circle, k) SHAPE(circle, k.cx, k.cy, k.r) STYLED(circle, k) STYLED(circle, k.cx, k.cy, k.r) GEO(BL_GEOMETRY_TYPE_CIRCLE, k) if (k.r >= 0) SHAPE(ellipse, k.cx, k.cy, k.r, k.r) desc = pbt::fmt("circle %.17g %.17g %.17g", k.cx, k.cy, k.r); break; }
    case 5: { BLPoint q = g.pt(); BLEllipse k(q.x, q.y, rad(), rad()); SHAPE(ellipse, k) SHAPE(ellipse, k.cx, k.cy, k.rx, k.ry) STYLED(ellipse, k) STYLED(ellipse, k.cx, k.cy, k.rx, k.ry) GEO(BL_GEOMETRY_TYPE_ELLIPSE, k) desc = pbt::fmt("ellipse %.17g %.17g %.17g %.17g", k.cx, k.cy, k.rx, k.ry); break; }
    case 6: { BLRect r = g.rectd(); double rx = rad(), ry = c.coin() ? rx : rad(); BLRoundRect k(r.x, r.y, r.w, r.h, rx, ry); SHAPE(round_rect, k) SHAPE(round_rect, r, rx, ry) SHAPE(round_rect, r.x, r.y, r.w, r.h, rx, ry) STYLED(round_rect, k) STYLED(round_rect, r, rx, ry) STYLED(round_rect, r.x, r.y, r.w, r.h, rx, ry) GEO(BL_GEOMETRY_TYPE_ROUND_RECT, k) if (rx == ry) { SHAPE(round_rect, r, rx) SHAPE(round_rect, r.x, r.y, r.w, r.h, rx) } desc = pbt::fmt("round rect %.17g %.17g %.17g %.17g r %.17g %.17g", r.x, r.y, r.w, r.h, rx, ry); break; }
    case 7: case 8: { BLPoint q = g.pt(); double rx = rad(), ry = c.coin() ? rx : rad(), s = ang(), w = ang(); BLArc k(q.x, q.y, rx, ry, s, w); desc = pbt::fmt("%s %.17g %.17g %.17g %.17g %.17g %.17g", kind == 7 ? "chord" : "pie", q.x, q.y, rx, ry, s, w);
      if (kind == 7) { SHAPE(chord, k) SHAPE(chord, k.cx, k.cy, rx, ry, s, w) STYLED(chord, k) STYLED(chord, k.cx, k.cy, rx, ry, s, w) GEO(BL_GEOMETRY_TYPE_CHORD, k) if (rx == ry) SHAPE(chord, k.cx, k.cy, rx, s, w) } else { SHAPE(pie, k) SHAPE(pie, k.cx, k.cy, rx, ry, s, w) STYLED(pie, k) STYLED(pie, k.cx, k.cy, rx, ry, s, w) GEO(BL_GEOMETRY_TYPE_PIE, k) if (rx == ry) SHAPE(pie, k.cx, k.cy, rx, s, w) } break; }
    case 9: { BLPoint q[3] = {g.pt(), g.pt(), g.pt()}; BLTriangle k(q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y); std::vector<BLPoint> pv(q, q + 3); SHAPE(triangle, k) SHAPE(triangle, k.x0, k.y0, k.x1, k.y1, k.x2, k.y2) STYLED(triangle, k) STYLED(triangle, k.x0, k.y0, k.x1, k.y1, k.x2, k.y2) GEO(BL_GEOMETRY_TYPE_TRIANGLE, k) SHAPE(polygon, view(pv)) desc = pbt::fmt("triangle %.17g %.17g %.17g %.17g %.17g %.17g", k.x0, k.y0, k.x1, k.y1, k.x2, k.y2); break; }
    case 10: { size_t n = c.size(8); for (size_t i = 0; i < n; i++) pts.push_back(g.pt()); auto A = view(pts); SHAPE(polygon, A) SHAPE(polygon, pts.data(), pts.size()) STYLED(polygon, view(pts)) STYLED(polygon, pts.data(), pts.size()) GEO(BL_GEOMETRY_TYPE_POLYGOND, A) v.push_back({"path of the same vertices", [=](BLContext& x) { BLPath q; for (size_t i = 0; i < n; i++) { if (i) q.line_to(pts[i]); else q.move_to(pts[i]); } if (n) q.close(); return stroke ? x.stroke_path(q) : x.fill_path(q); }, 0}); break; }
    case 11: { size_t n = c.size(8); for (size_t i = 0; i < n; i++) { BLPointI q; q.reset(g.ci(o.w), g.ci(o.h)); ptsi.push_back(q); pts.push_back(BLPoint(q.x, q.y)); } auto A = view(ptsi); SHAPE(polygon, A) SHAPE(polygon, ptsi.data(), ptsi.size()) SHAPE(polygon, pts.data(), pts.size()) STYLED(polygon, ptsi.data(), ptsi.size()) GEO(BL_GEOMETRY_TYPE_POLYGONI, A) break; }
    case 12: { size_t n = c.size(6); for (size_t i = 0; i < n; i++) { rs.push_back(g.rectd()); bs.push_back(BLBox(rs[i].x, rs[i].y, rs[i].x + rs[i].w, rs[i].y + rs[i].h)); c.note("rect %.17g %.17g %.17g %.17g", rs[i].x, rs[i].y, rs[i].w, rs[i].h); } auto A = view(rs); SHAPE(rect_array, A) SHAPE(rect_array, rs.data(), rs.size()) STYLED(rect_array, rs.data(), rs.size()) GEO(BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD, A) if (!o.extreme) SHAPE(box_array, bs.data(), bs.size()) break; }
    case 13: { size_t n = c.size(6); for (size_t i = 0; i < n; i++) { ris.push_back(posr(g.recti())); rs.push_back(BLRect(ris[i].x, ris[i].y, ris[i].w, ris[i].h)); c.note("recti %d %d %d %d", ris[i].x, ris[i].y, ris[i].w, ris[i].h); } auto A = view(ris); SHAPE(rect_array, A) SHAPE(rect_array, ris.data(), ris.size()) SHAPE(rect_array, rs.data(), rs.size()) STYLED(rect_array, ris.data(), ris.size()) GEO(BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI, A) break; }
    case 14: { size_t n = c.size(6); for (size_t i = 0; i < n; i++) { BLBoxI q; int x = g.ci(o.w), y = g.ci(o.h), x2 = x < INT_MAX - 20 ? x + c.i(0, 12) : x, y2 = y < INT_MAX - 20 ? y + c.i(0, 12) : y; q.reset(x, y, x2, y2); bis.push_back(q); bs.push_back(BLBox(x, y, x2, y2)); c.note("boxi %d %d %d %d", x, y, x2, y2); } auto A = view(bis); SHAPE(box_array, A) SHAPE(box_array, bis.data(), bis.size()) SHAPE(box_array, bs.data(), bs.size()) STYLED(box_array, bis.data(), bis.size()) GEO(BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI, A) break; }
    default: { BLPath q = g.path(); g.dump(q); BLPoint at(g.co(o.w), g.co(o.h)); SHAPE(path, q) STYLED(path, q) GEO(BL_GEOMETRY_TYPE_PATH, q) if (!o.extreme) { v.push_back({"path at an origin", [=](BLContext& x) { BLPath z(q); z.translate(BLPoint(-at.x, -at.y)); return stroke ? x.stroke_path(at, z) : x.fill_path(at, z); }, 24}); } break; }
  }
  if (!desc.empty()) c.note("%s", desc.c_str()); c.note("%s kind %d", stroke ? "stroke" : "fill", kind);
  bool ch = compare(c, b, v); c.label(stroke, "stroke"); c.label(b.async, "async"); c.nontrivial(ch && v.size() > 2);
}

// ---------------------------------------------------------------- styles and settings
static void styles(Case& c) {
  sc::Opt o; o.w = c.i(1, 60); o.h = c.i(1, 40); sc::Gen g(c, o); Base b = base(c, g); BLPath p = g.path(); g.dump(p); bool stroke = c.chance(1, 3); auto go = [=](BLContext& x) { return stroke ? x.stroke_path(p) : x.fill_path(p); }; std::vector<Var> v; BLVar S = b.sv; Base q = b;
  int kind = c.i(0, 7); c.note("relation %d", kind);
  switch (kind) {
    case 0: v = {{"plain", go, 0}, {"style set through the slot", [=](BLContext& x) { BLContextStyleSlot s = stroke ? BL_CONTEXT_STYLE_SLOT_STROKE : BL_CONTEXT_STYLE_SLOT_FILL; x.set_style(s, BLRgba32(5)); x.set_style(s, S); return go(x); }, 0}, {"swapped styles", [=](BLContext& x) { double a = x.fill_alpha(); x.set_fill_style(BLRgba32(0xFF00FF00u)); x.set_stroke_style(BLRgba32(0xFF00FF00u)); if (stroke) x.set_fill_style(S); else x.set_stroke_style(S); x.swap_styles(BL_CONTEXT_STYLE_SWAP_MODE_STYLES); x.set_fill_alpha(a); x.set_stroke_alpha(a); return go(x); }, 0}, {"after other drawing state", [=](BLContext& x) { x.save(); x.set_fill_style(BLRgba32(7)); x.set_comp_op(BL_COMP_OP_SRC_COPY); x.set_global_alpha(0.3); x.translate(3, 4); x.clip_to_rect(1, 1, 2, 2); x.restore(); return go(x); }, 0}}; break;
    case 1: { double a = c.frac(); b.alpha = 1; b.fa = 1; v = {{"global alpha", [=](BLContext& x) { x.set_global_alpha(a); return go(x); }, 0}, {"slot alpha", [=](BLContext& x) { x.set_fill_alpha(a); x.set_stroke_alpha(a); return go(x); }, 0}}; break; }
    case 2: { uint32_t k = c.u32(); if (c.coin()) k |= 0xFF000000u; uint32_t pm = BLRgba32(k).value, A = pm >> 24, pr = A << 24; for (int s = 0; s < 24; s += 8) pr |= div255(((pm >> s) & 255) * A) << s; BLImage im(c.i(1, 9), c.i(1, 9), BL_FORMAT_PRGB32); BLImageData d; im.make_mutable(&d); for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) memcpy((uint8_t*)d.pixel_data + y * d.stride + x * 4, &pr, 4); int em = c.i(0, BL_EXTEND_MODE_MAX_VALUE); BLPattern P(im); P.set_extend_mode(BLExtendMode(em)); if (c.coin()) P.set_transform(g.matrix()); BLMatrix2D tot(P.transform()); tot.post_transform(b.m); if (std::fabs(tot.determinant()) < 1e-4) c.discard();
      BLGradient G = g.gradient(); G.reset_stops(); G.add_stop(0.25, BLRgba32(k)); if (c.coin()) G.add_stop(0.75, BLRgba32(k)); BLMatrix2D gt(G.transform()); gt.post_transform(b.m); bool gok = std::fabs(gt.determinant()) > 1e-4; auto with = [=](auto s) { return [=](BLContext& x) { x.set_fill_style(s); x.set_stroke_style(s); return go(x); }; };
      v = {{"solid colour", with(BLRgba32(k)), 0}, {"constant pattern", with(P), 2}, {"64-bit colour", with(BLRgba64(BLRgba32(k))), 0}, {"float colour", with(BLRgba(BLRgba32(k))), 1}}; if (gok) v.push_back({"constant gradient", with(G), 1}); c.note("colour %08x extend %d", k, em); break; }
    case 3: { b.m.reset(); double x0 = c.i(0, o.w), y0 = c.i(0, o.h), w = c.i(1, o.w), h = c.i(1, o.h); bool fr = c.coin(); if (fr) { x0 += c.i(0, 15) / 16.0; y0 += c.i(0, 15) / 16.0; w += c.i(0, 15) / 16.0; h += c.i(0, 15) / 16.0; } BLRect r(x0, y0, w, h); b.clip = false; c.note("rect %g %g %g %g", x0, y0, w, h); BLRectI ri; ri.reset(int(x0), int(y0), int(w), int(h));
      v = {{"fill_rect", [=](BLContext& x) { return x.fill_rect(r); }, 0}, {"clip_to_rect and fill_all", [=](BLContext& x) { x.clip_to_rect(r); return x.fill_all(); }, fr ? 1 : 0}, {"clip_to_rect and a larger rect", [=](BLContext& x) { x.clip_to_rect(r); return x.fill_rect(-10, -10, 500, 500); }, fr ? 1 : 0}, {"clip_to_rect and explicit style", [=](BLContext& x) { x.set_fill_style(BLRgba32(9)); x.clip_to_rect(r); return x.fill_all(S); }, fr ? 1 : 0}}; if (!fr) { v.push_back({"integer clip", [=](BLContext& x) { x.clip_to_rect(ri); return x.fill_all(); }, 0}); v.push_back({"two clips", [=](BLContext& x) { x.clip_to_rect(BLRect(r.x, -5, r.w, 500)); x.clip_to_rect(BLRect(-5, r.y, 500, r.h)); return x.fill_all(); }, 0}); } break; }
    case 4: { b.alpha = b.fa = 1; BLRect r = g.rectd(); BLRectI ri = posr(g.recti()); int which = c.i(0, 2); b.op = BL_COMP_OP_SRC_COPY; auto T = BLRgba32(0u); c.note("clear %d: %.17g %.17g %.17g %.17g / %d %d %d %d", which, r.x, r.y, r.w, r.h, ri.x, ri.y, ri.w, ri.h);
      v = {{"clear", [=](BLContext& x) { return which == 0 ? x.clear_all() : which == 1 ? x.clear_rect(r) : x.clear_rect(ri); }, 0}, {"copy of transparent", [=](BLContext& x) { return which == 0 ? x.fill_all(T) : which == 1 ? x.fill_rect(r, T) : x.fill_rect(ri, T); }, 0}, {"clear with another operator", [=](BLContext& x) { x.set_comp_op(BL_COMP_OP_SRC_OVER); return which == 0 ? x.clear_all() : which == 1 ? x.clear_rect(r.x, r.y, r.w, r.h) : x.clear_rect(BLRect(ri.x, ri.y, ri.w, ri.h)); }, 0}}; break; }
    case 5: { BLMatrix2D A = g.matrix(), B = g.matrix(); b.m.reset(); v = {{"two transforms", [=](BLContext& x) { x.apply_transform(A); x.apply_transform(B); return go(x); }, 0}, {"product of the transforms", [=](BLContext& x) { BLMatrix2D C(B); C.post_transform(A); x.apply_transform(C); return go(x); }, 0}, {"transform set", [=](BLContext& x) { x.rotate(1); BLMatrix2D C(B); C.post_transform(A); x.set_transform(C); return go(x); }, 0}, {"user_to_meta", [=](BLContext& x) { x.apply_transform(A); x.user_to_meta(); x.apply_transform(B); return go(x); }, 4}}; if (stroke && b.so.transform_order == BL_STROKE_TRANSFORM_ORDER_BEFORE) v.pop_back();
      if (b.style >= 3) { b.sv = BLVar(g.color()); } break; }
    case 6: { b.so.dash_array.reset(); bool ok = true; b.m.reset(); BLApproximationOptions ao = bl_default_approximation_options; BLPath s; if (!stroke) { v = {{"fill", go, 0}, {"default approximation set", [=](BLContext& x) { x.set_approximation_options(ao); return go(x); }, 0}, {"flatten tolerance kept", [=](BLContext& x) { x.set_flatten_tolerance(x.flatten_tolerance()); return go(x); }, 0}}; break; } (void)ok;
      for (size_t k = 0; k < p.size(); k++) if (p.command_data()[k] == BL_PATH_CMD_CONIC) c.discard();
      v = {{"stroke_path", go, 0}, {"fill of the stroked path", [=](BLContext& x) { BLPath t; BLResult e = t.add_stroked_path(p, b.so, x.approximation_options()); if (e) return e; x.set_fill_rule(BL_FILL_RULE_NON_ZERO); return x.fill_path(t); }, 3}}; break; }
    default: { v = {{"two fills under one context", go, 0}, {"flush before and after", [=](BLContext& x) { x.flush(BL_CONTEXT_FLUSH_SYNC); BLResult e = go(x); x.flush(BL_CONTEXT_FLUSH_SYNC); return e; }, 0}, {"geometry type", [=](BLContext& x) { return stroke ? x.stroke_geometry(BL_GEOMETRY_TYPE_PATH, &p) : x.fill_geometry(BL_GEOMETRY_TYPE_PATH, &p); }, 0}, {"copied path", [=](BLContext& x) { BLPath t; t.add_path(p); return stroke ? x.stroke_path(t) : x.fill_path(t); }, 0}}; }
  }
  bool ch = compare(c, b, v); c.label(true, std::to_string(kind).c_str()); c.nontrivial(ch);
}

// ---------------------------------------------------------------- path descriptions of the same region
static void regions(Case& c) {
  sc::Opt o; o.w = c.i(1, 70); o.h = c.i(1, 60); sc::Gen g(c, o); Base b = base(c, g, false); int nf = c.i(1, 4); std::vector<std::vector<BLPoint>> fig; std::vector<BLPath> parts; bool curves = c.chance(1, 3); b.ft = 0.01;
  for (int f = 0; f < nf; f++) { fig.push_back({}); int n = c.i(3, 6); BLPath p; if (curves) { p.move_to(g.pt()); for (int i = 0; i < n; i++) { if (c.coin()) p.line_to(g.pt()); else if (c.coin()) { BLPoint a = g.pt(); p.quad_to(a, g.pt()); } else { BLPoint a = g.pt(), d = g.pt(); p.cubic_to(a, d, g.pt()); } } p.close(); } else { for (int i = 0; i < n; i++) { BLPoint q = g.pt(); fig.back().push_back(q); if (i) p.line_to(q); else p.move_to(q); } p.close(); } g.dump(p); parts.push_back(p); }
  bool in = true; for (auto& q : parts) { BLBox bb; q.get_control_box(&bb); in = in && bb.x0 >= 0 && bb.y0 >= 0 && bb.x1 <= o.w && bb.y1 <= o.h; } in = in && !b.clip; int T = curves ? 8 : in ? 2 : 4; c.label(in, "inside");
  auto whole = [=](BLContext& x) { BLPath p; for (auto& q : parts) p.add_path(q); return x.fill_path(p); }; std::vector<Var> v{{"path", whole, 0}};
  v.push_back({"figures in another order", [=](BLContext& x) { BLPath p; for (size_t i = parts.size(); i-- > 0;) p.add_path(parts[i]); return x.fill_path(p); }, 0});
  v.push_back({"reversed", [=](BLContext& x) { BLPath p; for (auto& q : parts) p.add_path(q); BLPath z; z.add_reversed_path(p, BL_PATH_REVERSE_MODE_COMPLETE); return x.fill_path(z); }, T});
  v.push_back({"each figure reversed", [=](BLContext& x) { BLPath p; for (auto& q : parts) p.add_path(q); BLPath z; z.add_reversed_path(p, BL_PATH_REVERSE_MODE_SEPARATE); return x.fill_path(z); }, T});
  v.push_back({"open figures", [=](BLContext& x) { BLPath p; for (auto& q : parts) { BLPath z(q); z.remove_range(BLRange{z.size() - 1, z.size()}); p.add_path(z); } return x.fill_path(p); }, 0});
  v.push_back({"with degenerate figures", [=](BLContext& x) { BLPath p; p.move_to(3, 3); for (auto& q : parts) { p.add_path(q); p.move_to(1, 2); p.line_to(1, 2); p.move_to(9, 9); } return x.fill_path(p); }, 0});
  if (!curves) { v.push_back({"repeated vertices", [=](BLContext& x) { BLPath p; for (auto& f : fig) { p.move_to(f[0]); for (auto& q : f) { p.line_to(q); p.line_to(q); } p.line_to(f[0]); p.close(); } return x.fill_path(p); }, T}); v.push_back({"rotated start", [=](BLContext& x) { BLPath p; for (auto& f : fig) { for (size_t i = 0; i < f.size(); i++) { BLPoint q = f[(i + 1) % f.size()]; if (i) p.line_to(q); else p.move_to(q); } p.close(); } return x.fill_path(p); }, 0});
    if (fig.size() == 1) v.push_back({"polygon", [=](BLContext& x) { return x.fill_polygon(fig[0].data(), fig[0].size()); }, 0}); 
    v.push_back({"vertical mirror of a mirrored path", [=](BLContext& x) { BLPath p; for (auto& f : fig) { for (size_t i = 0; i < f.size(); i++) { BLPoint q(f[i].y, f[i].x); if (i) p.line_to(q); else p.move_to(q); } p.close(); } BLVar sv; if (b.style >= 3) return whole(x); BLMatrix2D m; m.reset(0, 1, 1, 0, 0, 0); x.apply_transform(m); return x.fill_path(p); }, T}); }
  if (b.rule == BL_FILL_RULE_NON_ZERO) v.push_back({"drawn twice over itself as one path", [=](BLContext& x) { BLPath p; for (auto& q : parts) p.add_path(q); bool simple = parts.size() == 1 && fig[0].size() == 3; if (simple) p.add_path(parts[0]); return x.fill_path(p); }, curves ? 0 : 255});
  if (v.back().tol == 255) v.pop_back();
  bool ch = compare(c, b, v); c.label(curves, "curves"); c.nontrivial(ch);
}

// ---------------------------------------------------------------- moving and transforming
static void moved(Case& c) {
  sc::Opt o; o.w = c.i(1, 80); o.h = c.i(1, 80); sc::Gen g(c, o); Base b = base(c, g, false, true); b.clip = false; bool stroke = c.chance(1, 3), curves = c.chance(1, 3); b.ft = 0.01; BLPath p; int nf = c.i(1, 3); bool ints = c.coin();
  auto q = [&](int s) { return ints ? double(c.i(-s / 2, s + s / 2)) : c.i(-s * 128, s * 384) / 256.0; }; auto pt = [&] { double x = q(o.w); return BLPoint(x, q(o.h)); };
  for (int f = 0; f < nf; f++) { p.move_to(pt()); int n = c.i(1, 5); for (int i = 0; i < n; i++) { if (!curves || c.coin()) p.line_to(pt()); else if (c.coin()) { BLPoint a = pt(); p.quad_to(a, pt()); } else { BLPoint a = pt(), d = pt(); p.cubic_to(a, d, pt()); } } if (c.coin()) p.close(); } g.dump(p);
  bool rect = c.chance(1, 5); BLRect R(q(o.w), q(o.h), std::fabs(q(o.w)), std::fabs(q(o.h))); if (rect) c.note("rect %.17g %.17g %.17g %.17g", R.x, R.y, R.w, R.h);
  auto go = [=](BLContext& x, const BLPath& z, double dx, double dy) { if (rect) { BLRect r(R.x + dx, R.y + dy, R.w, R.h); return stroke ? x.stroke_rect(r) : x.fill_rect(r); } return stroke ? x.stroke_path(z) : x.fill_path(z); };
  int dx = c.i(-40, 60), dy = c.i(-40, 60), way = c.i(0, 3); Base b2 = b; b2.w += c.i(0, 70); b2.h += c.i(0, 70); uint32_t bg = c.coin() ? 0 : c.u32() | 0xFF000000u; c.note("moved by %d,%d (way %d) into %dx%d, %s", dx, dy, way, b2.w, b2.h, stroke ? "stroke" : "fill");
  auto flat = [=](BLContext& x) { x.save(); x.set_comp_op(BL_COMP_OP_SRC_COPY); x.set_global_alpha(1); x.set_fill_alpha(1); x.fill_all(BLRgba32(bg)); x.restore(); }; bool xr = b.fmt == BL_FORMAT_XRGB32; (void)xr;
  BLResult r1, r2; BLImage A = render(b, [=](BLContext& x) { return go(x, p, 0, 0); }, &r1, flat); BLImage B = render(b2, [=](BLContext& x) {
    if (way == 0) { BLPath z(p); z.translate(BLPoint(dx, dy)); return go(x, z, dx, dy); } if (way == 1) { x.translate(dx, dy); return go(x, p, 0, 0); } if (way == 2) { x.translate(dx, dy); x.user_to_meta(); return go(x, p, 0, 0); } if (rect) { x.post_translate(dx, dy); return go(x, p, 0, 0); } return stroke ? x.stroke_path(BLPoint(dx, dy), p) : x.fill_path(BLPoint(dx, dy), p); }, &r2, flat);
  REQUIRE(c, r1 == r2, "results %u / %u", r1, r2);
  // Whether the inner side of a join is cut at the intersection of the offset lines is a matter of rounding, and pixels where the two sides overlap show it.
  auto near_join = [&](int x, int y) { if (!stroke) return false; double Q = b.so.width / 2 * 1.5 + 2.5; auto n = [&](double vx, double vy) { return std::fabs(vx - x - .5) < Q && std::fabs(vy - y - .5) < Q; }; if (rect) return n(R.x, R.y) || n(R.x + R.w, R.y) || n(R.x, R.y + R.h) || n(R.x + R.w, R.y + R.h); for (size_t i = 0; i < p.size(); i++) if (n(p.vertex_data()[i].x, p.vertex_data()[i].y)) return true; return false; };
  Diff d = diff(A, B, dx, dy, near_join); BLBox bb; if (rect) bb.reset(R.x, R.y, R.x + R.w, R.y + R.h); else p.get_control_box(&bb); bool inside = bb.x0 >= 0 && bb.y0 >= 0 && bb.x1 <= b.w && bb.y1 <= b.h && bb.x0 + dx >= 0 && bb.y0 + dy >= 0 && bb.x1 + dx <= b2.w && bb.y1 + dy <= b2.h;
  int tol = stroke ? 6 : curves ? 4 : inside ? 0 : 3; c.label(inside, "inside both"); REQUIRE(c, d.max <= tol, "moved image differs at %d,%d: %08x / %08x (%d pixels)", d.x, d.y, d.a, d.b, d.n);
  c.label(curves, "curves"); c.label(stroke, "stroke"); bool any = false; { BLImage E = render(b, [](BLContext&) { return BLResult(BL_SUCCESS); }, nullptr, flat); any = diff(A, E).n > 0; } c.nontrivial(any && (dx || dy));
}
static void pretransformed(Case& c) {
  sc::Opt o; o.w = c.i(2, 70); o.h = c.i(2, 70); sc::Gen g(c, o); Base b = base(c, g, false, true); bool curves = c.chance(1, 3); b.ft = 0.01; int exact = c.i(0, 2); BLMatrix2D m; m.reset();
  if (exact == 0) { static const double t[][4] = {{1, 0, 0, 1}, {0, 1, -1, 0}, {0, 1, 1, 0}, {-1, 0, 0, 1}, {2, 0, 0, 2}, {0.5, 0, 0, 4}, {1, 0.5, 0, 1}, {1, 1, -1, 1}}; auto& k = t[c.below(8)]; m.reset(k[0], k[1], k[2], k[3], c.i(-20, 60), c.i(-20, 60)); } else m = g.matrix();
  BLPath p; int nf = c.i(1, 2), nv = 0; for (int f = 0; f < nf; f++) { auto pt = [&] { double x = c.i(-o.w * 8, o.w * 16) / 16.0; return BLPoint(x, c.i(-o.h * 8, o.h * 16) / 16.0); }; p.move_to(pt()); int n = c.i(2, 4); for (int i = 0; i < n; i++, nv++) { if (!curves || c.coin()) p.line_to(pt()); else if (c.coin()) { BLPoint a = pt(); p.quad_to(a, pt()); } else { BLPoint a = pt(), d = pt(); p.cubic_to(a, d, pt()); } } p.close(); } g.dump(p); c.note("matrix [%.17g %.17g %.17g %.17g %.17g %.17g]", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21);
  std::vector<Var> v{{"transformed context", [=](BLContext& x) { x.set_transform(m); return x.fill_path(p); }, 0}}; int tol = exact == 0 && !curves ? 0 : curves ? 6 : 2 + nv; v.push_back({"transformed path", [=](BLContext& x) { BLPath z(p); z.transform(m); return x.fill_path(z); }, tol}); v.push_back({"path added with transform", [=](BLContext& x) { BLPath z; z.add_path(p, m); return x.fill_path(z); }, tol});
  b.clip = false; BLRect R(c.i(-5, o.w), c.i(-5, o.h), c.i(0, 160) / 8.0, c.i(0, 160) / 8.0); BLEllipse E(c.i(0, o.w), c.i(0, o.h), c.i(1, 80) / 4.0, c.i(1, 80) / 4.0); int sh = c.i(0, 2); if (sh == 1) { v.clear(); tol = exact == 0 ? 2 : 5; v = {{"fill_rect under transform", [=](BLContext& x) { x.set_transform(m); return x.fill_rect(R); }, 0}, {"transformed rect path", [=](BLContext& x) { BLPath z; z.add_rect(R); z.transform(m); return x.fill_path(z); }, tol}, {"rect path with transform", [=](BLContext& x) { BLPath z; z.add_geometry(BL_GEOMETRY_TYPE_RECTD, &R, &m); return x.fill_path(z); }, tol}}; c.note("rect %g %g %g %g", R.x, R.y, R.w, R.h); }
  if (sh == 2) { v.clear(); v = {{"fill_ellipse under transform", [=](BLContext& x) { x.set_transform(m); return x.fill_ellipse(E); }, 0}, {"transformed ellipse path", [=](BLContext& x) { BLPath z; z.add_ellipse(E); z.transform(m); return x.fill_path(z); }, 5}, {"ellipse path with transform", [=](BLContext& x) { BLPath z; z.add_geometry(BL_GEOMETRY_TYPE_ELLIPSE, &E, &m); return x.fill_path(z); }, 5}}; c.note("ellipse %g %g %g %g", E.cx, E.cy, E.rx, E.ry); }
  bool ch = compare(c, b, v); c.label(exact == 0, "exact matrix"); c.nontrivial(ch);
}

// Every function of the C interface does what the method of the same name does, for every state getter, setter and drawing call.
#define UNP(...) __VA_ARGS__
#define DRAW(CN, MEM, CA, ...) do { text = #CN; switch (v) { case 0: ra = A.MEM(__VA_ARGS__); rb = bl_context_##CN(&B, UNP CA); break; case 1: text += "_rgba32"; ra = A.MEM(__VA_ARGS__, BLRgba32(r32)); rb = bl_context_##CN##_rgba32(&B, UNP CA, r32); break; \
  case 2: text += "_rgba64"; ra = A.MEM(__VA_ARGS__, BLRgba64(r64)); rb = bl_context_##CN##_rgba64(&B, UNP CA, r64); break; default: text += "_ext"; ra = A.MEM(__VA_ARGS__, var); rb = bl_context_##CN##_ext(&B, UNP CA, &var); } } while (0)
#define BOTH(CN, MEM, CA, ...) do { text = #CN; ra = A.MEM(__VA_ARGS__); rb = bl_context_##CN(&B, UNP CA); } while (0)
#define TEXTS(K, E, T, Z) do { if (c.coin()) DRAW(K##_##E##_text_i, K##_##E##_text, (&pi, &f, T, Z), pi, f, T, Z); else DRAW(K##_##E##_text_d, K##_##E##_text, (&pd, &f, T, Z), pd, f, T, Z); } while (0)
static void c_functions(Case& c) {
  sc::Opt o; o.w = c.i(4, 48); o.h = c.i(4, 48); sc::Gen g(c, o); g.resources(); sc::World W; g.build(W); BLFont& f = W.font; int threads = c.chance(1, 20) ? c.i(1, 2) : 0;
  BLImage ia(o.w, o.h, BL_FORMAT_PRGB32), ib(o.w, o.h, BL_FORMAT_PRGB32); sc::paint(ia, 7, 2); sc::paint(ib, 7, 2); BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); BLContext A(ia, ci); BLContextCore B; REQUIRE(c, bl_context_init_as(&B, &ib, &ci) == BL_SUCCESS && A.is_valid(), "no context");
  struct End { BLContextCore& b; ~End() { bl_context_destroy(&b); } } end{B}; BLContextCookie ka{}, kb{}; bool cookie = false; int draws = 0, n = c.i(3, 24);
  auto same = [&](const char* when) {
    BLMatrix2D m, w; auto eqm = [&](const BLMatrix2D& x, const BLMatrix2D& y) { return memcmp(&x, &y, sizeof x) == 0; };
    REQUIRE(c, bl_context_get_meta_transform(&B, &m) == BL_SUCCESS && eqm(m, A.meta_transform()), "meta transform differs after %s", when); REQUIRE(c, bl_context_get_user_transform(&B, &m) == BL_SUCCESS && eqm(m, A.user_transform()), "user transform differs after %s", when); REQUIRE(c, bl_context_get_final_transform(&B, &w) == BL_SUCCESS && eqm(w, A.final_transform()), "final transform differs after %s", when);
    BLContextHints h{}; REQUIRE(c, bl_context_get_hints(&B, &h) == BL_SUCCESS, "get_hints"); BLContextHints ha = A.hints(); REQUIRE(c, h.rendering_quality == ha.rendering_quality && h.gradient_quality == ha.gradient_quality && h.pattern_quality == ha.pattern_quality, "hints differ after %s", when); for (int k = 0; k < 3; k++) REQUIRE(c, bl_context_get_hint(&B, BLContextHint(k)) == (k == 0 ? ha.rendering_quality : k == 1 ? ha.gradient_quality : ha.pattern_quality), "hint %d differs after %s", k, when);
    REQUIRE(c, bl_context_get_global_alpha(&B) == A.global_alpha() && bl_context_get_fill_alpha(&B) == A.fill_alpha() && bl_context_get_stroke_alpha(&B) == A.stroke_alpha(), "alpha differs after %s", when); REQUIRE(c, bl_context_get_comp_op(&B) == A.comp_op() && bl_context_get_fill_rule(&B) == A.fill_rule(), "operator or fill rule differs after %s", when);
    REQUIRE(c, bl_context_get_stroke_width(&B) == A.stroke_width() && bl_context_get_stroke_miter_limit(&B) == A.stroke_miter_limit() && bl_context_get_stroke_join(&B) == A.stroke_join() && bl_context_get_stroke_cap(&B, BL_STROKE_CAP_POSITION_START) == A.stroke_start_cap() && bl_context_get_stroke_cap(&B, BL_STROKE_CAP_POSITION_END) == A.stroke_end_cap() && bl_context_get_stroke_transform_order(&B) == A.stroke_transform_order() && bl_context_get_stroke_dash_offset(&B) == A.stroke_dash_offset(), "stroke options differ after %s", when);
    BLStrokeOptions so, sa(A.stroke_options()); REQUIRE(c, bl_context_get_stroke_options(&B, &so) == BL_SUCCESS && so == sa, "get_stroke_options differs after %s", when); BLArray<double> da; REQUIRE(c, bl_context_get_stroke_dash_array(&B, &da) == BL_SUCCESS && da == A.stroke_dash_array() && da == sa.dash_array, "dash array differs after %s", when);
    BLVar x, y; REQUIRE(c, bl_context_get_fill_style(&B, &x) == A.get_fill_style(y) && x == y, "fill style differs after %s", when); REQUIRE(c, bl_context_get_stroke_style(&B, &x) == A.get_stroke_style(y) && x == y, "stroke style differs after %s", when); REQUIRE(c, bl_context_get_transformed_fill_style(&B, &x) == A.get_transformed_fill_style(y) && x == y, "transformed fill style differs after %s", when); REQUIRE(c, bl_context_get_transformed_stroke_style(&B, &x) == A.get_transformed_stroke_style(y) && x == y, "transformed stroke style differs after %s", when);
    BLSize z; REQUIRE(c, bl_context_get_target_size(&B, &z) == BL_SUCCESS && z == A.target_size() && bl_context_get_type(&B) == A.context_type(), "target size or type"); BLImageCore* t = bl_context_get_target_image(&B); REQUIRE(c, t && t->_d.impl == ib._d.impl, "target image");
  };
  for (int i = 0; i < n; i++) {
    BLResult ra = 0, rb = 0; std::string text, t; int v = int(c.below(4)); uint32_t r32 = g.color().value; uint64_t r64 = c.u64(); BLVar var = g.style(t)(W); BLRectI ri = g.recti(); BLRect rd = g.rectd(); BLPointI pi(c.i(-5, o.w), c.i(-5, o.h)); BLPoint pd = g.pt(); const BLPath& path = W.paths[c.below(W.paths.size())]; const BLImage& img = W.imgs[c.below(W.imgs.size())]; const BLImage& mask = W.masks[c.below(W.masks.size())];
    auto area_of = [&](const BLImage& m) { BLRectI a; int ax = c.i(0, m.width() - 1), ay = c.i(0, m.height() - 1); a.reset(ax, ay, c.i(1, m.width() - ax), c.i(1, m.height() - ay)); return a; };
    char t8[10]; uint16_t t16[10]; uint32_t t32[10]; size_t tn = size_t(c.i(0, 8)); for (size_t k = 0; k < tn; k++) { t8[k] = char(c.i(' ', '~')); t16[k] = uint16_t(t8[k]); t32[k] = uint32_t(t8[k]); } t8[tn] = 0; t16[tn] = 0; t32[tn] = 0; size_t tz = c.coin() ? tn : SIZE_MAX; double d = c.coin() ? c.frac() : c.pickl<double>({0, 1, -1, 2, double(NAN)}); bool drew = true;
    switch (c.weighted({2, 3, 3, 3, 3, 6, 3, 4, 3, 3, 3, 2, 18})) {
      case 0: text = "fill_all"; switch (v) { case 0: ra = A.fill_all(); rb = bl_context_fill_all(&B); break; case 1: ra = A.fill_all(BLRgba32(r32)); rb = bl_context_fill_all_rgba32(&B, r32); break; case 2: ra = A.fill_all(BLRgba64(r64)); rb = bl_context_fill_all_rgba64(&B, r64); break; default: ra = A.fill_all(var); rb = bl_context_fill_all_ext(&B, &var); } break;
      case 1: if (c.coin()) DRAW(fill_rect_i, fill_rect, (&ri), ri); else DRAW(fill_rect_d, fill_rect, (&rd), rd); break;
      case 2: if (c.coin()) DRAW(stroke_rect_i, stroke_rect, (&ri), ri); else DRAW(stroke_rect_d, stroke_rect, (&rd), rd); break;
      case 3: if (c.coin()) DRAW(fill_path_d, fill_path, (&pd, &path), pd, path); else DRAW(stroke_path_d, stroke_path, (&pd, &path), pd, path); break;
      case 4: { BLCircle k(pd.x, pd.y, c.real(0, o.w)); BLTriangle tr(pd.x, pd.y, rd.x, rd.y, rd.w, rd.h); BLGeometryType ty = c.coin() ? BL_GEOMETRY_TYPE_CIRCLE : BL_GEOMETRY_TYPE_TRIANGLE; const void* data = ty == BL_GEOMETRY_TYPE_CIRCLE ? static_cast<const void*>(&k) : &tr; if (c.coin()) DRAW(fill_geometry, fill_geometry, (ty, data), ty, data); else DRAW(stroke_geometry, stroke_geometry, (ty, data), ty, data); break; }
      case 5: switch (c.below(6)) { case 0: TEXTS(fill, utf8, t8, tz); break; case 1: TEXTS(fill, utf16, t16, tz); break; case 2: TEXTS(fill, utf32, t32, tz); break; case 3: TEXTS(stroke, utf8, t8, tz); break; case 4: TEXTS(stroke, utf16, t16, tz); break; default: TEXTS(stroke, utf32, t32, tz); } break;
      case 6: { BLGlyphBuffer gb; gb.set_utf8_text(t8, tn); f.shape(gb); BLGlyphRun run = gb.glyph_run(); switch (c.below(4)) { case 0: DRAW(fill_glyph_run_i, fill_glyph_run, (&pi, &f, &run), pi, f, run); break; case 1: DRAW(fill_glyph_run_d, fill_glyph_run, (&pd, &f, &run), pd, f, run); break; case 2: DRAW(stroke_glyph_run_i, stroke_glyph_run, (&pi, &f, &run), pi, f, run); break; default: DRAW(stroke_glyph_run_d, stroke_glyph_run, (&pd, &f, &run), pd, f, run); } break; }
      case 7: { BLRectI a = area_of(mask); if (c.coin()) { if (c.coin()) DRAW(fill_mask_i, fill_mask, (&pi, &mask, &a), pi, mask, a); else DRAW(fill_mask_i, fill_mask, (&pi, &mask, nullptr), pi, mask); } else { if (c.coin()) DRAW(fill_mask_d, fill_mask, (&pd, &mask, &a), pd, mask, a); else DRAW(fill_mask_d, fill_mask, (&pd, &mask, nullptr), pd, mask); } break; }
      case 8: { BLRectI a = area_of(img); switch (c.below(4)) { case 0: BOTH(blit_image_i, blit_image, (&pi, &img, &a), pi, img, a); break; case 1: BOTH(blit_image_d, blit_image, (&pd, &img, &a), pd, img, a); break; case 2: BOTH(blit_image_i, blit_image, (&pi, &img, nullptr), pi, img); break; default: BOTH(blit_image_d, blit_image, (&pd, &img, nullptr), pd, img); } break; }
      case 9: { BLRectI a = area_of(img); switch (c.below(4)) { case 0: BOTH(blit_scaled_image_i, blit_image, (&ri, &img, &a), ri, img, a); break; case 1: BOTH(blit_scaled_image_d, blit_image, (&rd, &img, &a), rd, img, a); break; case 2: BOTH(blit_scaled_image_i, blit_image, (&ri, &img, nullptr), ri, img); break; default: BOTH(blit_scaled_image_d, blit_image, (&rd, &img, nullptr), rd, img); } break; }
      case 10: switch (c.below(3)) { case 0: text = "clear_all"; ra = A.clear_all(); rb = bl_context_clear_all(&B); break; case 1: BOTH(clear_rect_i, clear_rect, (&ri), ri); break; default: BOTH(clear_rect_d, clear_rect, (&rd), rd); } break;
      case 11: text = "flush"; ra = A.flush(BL_CONTEXT_FLUSH_SYNC); rb = bl_context_flush(&B, BL_CONTEXT_FLUSH_SYNC); break;
      default: drew = false; int k = c.i(0, 4), odd = c.chance(1, 12) ? 77 : 0; switch (c.below(38)) {
        case 0: BOTH(set_hint, set_hint, (BLContextHint(k + odd), uint32_t(v)), BLContextHint(k + odd), uint32_t(v)); break; case 1: { BLContextHints h{}; h.gradient_quality = uint8_t(k & 1); h.pattern_quality = uint8_t(v & 1); h.rendering_quality = uint8_t(odd); BOTH(set_hints, set_hints, (&h), h); break; }
        case 2: BOTH(set_flatten_mode, set_flatten_mode, (BLFlattenMode(k + odd)), BLFlattenMode(k + odd)); break; case 3: BOTH(set_flatten_tolerance, set_flatten_tolerance, (d), d); break; case 4: { BLApproximationOptions ao = bl_default_approximation_options; ao.flatten_tolerance = d; BOTH(set_approximation_options, set_approximation_options, (&ao), ao); break; }
        case 5: BOTH(set_fill_style, set_fill_style, (&var), var); break; case 6: BOTH(set_stroke_style, set_stroke_style, (&var), var); break; case 7: BOTH(set_fill_style_with_mode, set_fill_style, (&var, BLContextStyleTransformMode(v % 3)), var, BLContextStyleTransformMode(v % 3)); break; case 8: BOTH(set_stroke_style_with_mode, set_stroke_style, (&var, BLContextStyleTransformMode(v % 3)), var, BLContextStyleTransformMode(v % 3)); break;
        case 9: { BLRgba q(float(c.frac()), float(c.frac()), float(c.frac()), float(d)); if (c.coin()) BOTH(set_fill_style_rgba, set_fill_style, (&q), q); else BOTH(set_stroke_style_rgba, set_stroke_style, (&q), q); break; } case 10: if (c.coin()) BOTH(set_fill_style_rgba32, set_fill_style, (r32), BLRgba32(r32)); else BOTH(set_stroke_style_rgba32, set_stroke_style, (r32), BLRgba32(r32)); break; case 11: if (c.coin()) BOTH(set_fill_style_rgba64, set_fill_style, (r64), BLRgba64(r64)); else BOTH(set_stroke_style_rgba64, set_stroke_style, (r64), BLRgba64(r64)); break;
        case 12: text = "disable_fill_style"; ra = A.disable_fill_style(); rb = bl_context_disable_fill_style(&B); break; case 13: text = "disable_stroke_style"; ra = A.disable_stroke_style(); rb = bl_context_disable_stroke_style(&B); break;
        case 14: BOTH(set_fill_alpha, set_fill_alpha, (d), d); break; case 15: BOTH(set_stroke_alpha, set_stroke_alpha, (d), d); break; case 16: BOTH(set_global_alpha, set_global_alpha, (d), d); break; case 17: BOTH(swap_styles, swap_styles, (BLContextStyleSwapMode(v % 3)), BLContextStyleSwapMode(v % 3)); break;
        case 18: { int op = c.i(0, BL_COMP_OP_MAX_VALUE) + odd; BOTH(set_comp_op, set_comp_op, (BLCompOp(op)), BLCompOp(op)); break; } case 19: BOTH(set_fill_rule, set_fill_rule, (BLFillRule(v)), BLFillRule(v)); break; case 20: { double w = c.real(0, 9); BOTH(set_stroke_width, set_stroke_width, (w), w); break; } case 21: { double w = c.real(0, 9); BOTH(set_stroke_miter_limit, set_stroke_miter_limit, (w), w); break; }
        case 22: { BLStrokeCapPosition po = BLStrokeCapPosition(c.i(0, 1)); BLStrokeCap ca = BLStrokeCap(c.i(0, BL_STROKE_CAP_MAX_VALUE) + odd); BOTH(set_stroke_cap, set_stroke_cap, (po, ca), po, ca); break; } case 23: { BLStrokeCap ca = BLStrokeCap(c.i(0, BL_STROKE_CAP_MAX_VALUE) + odd); BOTH(set_stroke_caps, set_stroke_caps, (ca), ca); break; }
        case 24: BOTH(set_stroke_join, set_stroke_join, (BLStrokeJoin(k + odd)), BLStrokeJoin(k + odd)); break; case 25: BOTH(set_stroke_transform_order, set_stroke_transform_order, (BLStrokeTransformOrder(v)), BLStrokeTransformOrder(v)); break; case 26: { double w = c.real(-9, 9); BOTH(set_stroke_dash_offset, set_stroke_dash_offset, (w), w); break; }
        case 27: { BLArray<double> da; for (int q = 0; q < k; q++) da.append(c.real(0, 9)); BOTH(set_stroke_dash_array, set_stroke_dash_array, (&da), da); break; } case 28: { BLStrokeOptions so; so.width = c.real(0, 9); so.join = uint8_t(c.i(0, BL_STROKE_JOIN_MAX_VALUE)); so.start_cap = uint8_t(v); so.dash_offset = 2; BOTH(set_stroke_options, set_stroke_options, (&so), so); break; }
        case 29: BOTH(clip_to_rect_i, clip_to_rect, (&ri), ri); break; case 30: BOTH(clip_to_rect_d, clip_to_rect, (&rd), rd); break; case 31: text = "restore_clipping"; ra = A.restore_clipping(); rb = bl_context_restore_clipping(&B); break; case 32: text = "user_to_meta"; ra = A.user_to_meta(); rb = bl_context_user_to_meta(&B); break;
        case 33: case 34: { BLMatrix2D m = g.matrix(); switch (c.below(6)) { case 0: text = "transform assign"; ra = A.set_transform(m); rb = bl_context_apply_transform_op(&B, BL_TRANSFORM_OP_ASSIGN, &m); break; case 1: text = "transform op"; ra = A.apply_transform(m); rb = bl_context_apply_transform_op(&B, BL_TRANSFORM_OP_TRANSFORM, &m); break; case 2: text = "post transform op"; ra = A.post_transform(m); rb = bl_context_apply_transform_op(&B, BL_TRANSFORM_OP_POST_TRANSFORM, &m); break; case 3: { text = "translate op"; BLPoint q(m.m20, m.m21); ra = A.translate(q.x, q.y); rb = bl_context_apply_transform_op(&B, BL_TRANSFORM_OP_TRANSLATE, &q); break; } case 4: text = "rotate op"; ra = A.rotate(m.m00); rb = bl_context_apply_transform_op(&B, BL_TRANSFORM_OP_ROTATE, &m.m00); break; default: text = "reset op"; ra = A.reset_transform(); rb = bl_context_apply_transform_op(&B, BL_TRANSFORM_OP_RESET, nullptr); } break; }
        case 35: if (cookie || c.coin()) { text = "save"; ra = A.save(); rb = bl_context_save(&B, nullptr); } else { text = "save with cookie"; ra = A.save(ka); rb = bl_context_save(&B, &kb); cookie = true; } break;
        case 36: text = "restore"; ra = A.restore(); rb = bl_context_restore(&B, nullptr); break; default: if (cookie) { text = "restore with cookie"; ra = A.restore(ka); rb = bl_context_restore(&B, &kb); } }
    }
    c.note("%s (variant %d, style %s): %X", text.c_str(), v, t.c_str(), unsigned(ra)); REQUIRE(c, ra == rb, "%s returned %X, the C function %X", text.c_str(), unsigned(ra), unsigned(rb)); draws += drew && ra == BL_SUCCESS; same(text.c_str());
    if (threads == 0 || text == "flush" || i == n - 1) { if (threads) { A.flush(BL_CONTEXT_FLUSH_SYNC); bl_context_flush(&B, BL_CONTEXT_FLUSH_SYNC); } Diff df = diff(ia, ib); REQUIRE(c, df.n == 0, "%s draws something else than its C function at %d,%d: %08x / %08x", text.c_str(), df.x, df.y, df.a, df.b); }
  }
  REQUIRE(c, A.end() == BL_SUCCESS && bl_context_end(&B) == BL_SUCCESS, "end"); REQUIRE(c, diff(ia, ib).n == 0, "images differ at the end"); c.label(threads > 0, "threads"); c.nontrivial(draws >= 2);
}

int main(int argc, char** argv) {
  pbt::Suite s("C17", "at least two ways of drawing were compared and the drawing changed the image", argc, argv);
  s.add("shapes", shapes, {.quick = 50000, .thorough = 900000, .chunk = 100});
  s.add("styles", styles, {.quick = 50000, .thorough = 900000, .chunk = 100});
  s.add("regions", regions, {.quick = 40000, .thorough = 700000, .chunk = 100});
  s.add("moved", moved, {.quick = 60000, .thorough = 900000, .chunk = 100});
  s.add("pretransformed", pretransformed, {.quick = 60000, .thorough = 900000, .chunk = 100});
  s.add("c_functions", c_functions, {.quick = 12000, .thorough = 400000, .chunk = 100});
  return s.run();
}
