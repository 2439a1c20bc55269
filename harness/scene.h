// Random drawing scenes: resources, state-changing steps and drawing steps that can be replayed on any context.
#pragma once
#include "render.h"
#include <functional>
#include <climits>
#include <string>

namespace sc {
using pbt::Case;
struct Rng { uint64_t s; explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 1) {} uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return uint32_t((s * 0x2545F4914F6CDD1Dull) >> 32); } };

static inline void paint(BLImage& img, uint64_t seed, int kind) {   // fills the whole image with deterministic content
  Rng r(seed); BLImageData d; img.make_mutable(&d);
  for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) {
    uint32_t v = r.next(); if (kind == 1) v = (v & 1) ? 0xFFFFFFFFu : 0; if (kind == 2) v = 0xFF000000u | (uint32_t(x) * 7919u) | (uint32_t(y) * 104729u);
    uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride;
    if (d.format == BL_FORMAT_A8) p[x] = uint8_t(v >> 24);
    else { if (d.format == BL_FORMAT_PRGB32) { uint32_t a = v >> 24, o = a << 24; for (int k = 0; k < 24; k += 8) o |= rv::div255(((v >> k) & 255) * a) << k; v = o; } else v |= 0xFF000000u; memcpy(p + 4 * x, &v, 4); }
  }
}

struct World { std::vector<BLImage> imgs, masks; BLFont font; std::vector<BLPath> paths; std::vector<BLGradient> grads; std::vector<BLPattern> pats; };
typedef std::function<void(World&)> Init;
typedef std::function<BLResult(BLContext&, World&)> Run;
struct Step { std::string text; Run run; bool draw = false; };

struct Opt {
  int w = 32, h = 32; bool extreme = false; bool text = true; bool any_op = true; bool transforms = true; bool clip = true; bool saves = true; bool strokes = true; bool mutate = false; int geo_mode = -1; bool styles = true;
};

struct Gen {
  Case& c; Opt o; std::vector<Init> inits; int nimgs = 0, nmasks = 0, npaths = 0, ngrads = 0, npats = 0; std::vector<BLSizeI> isz, msz;
  Gen(Case& c_, Opt o_) : c(c_), o(o_) {}
  static BLFontFace& face() { static BLFontFace f = [] { BLFontFace ff; ff.create_from_file("/repo/blend2d-testing/resources/ABeeZee-Regular.ttf"); return ff; }(); return f; }
  static std::string S(const char* fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

  double co(int size) {
    if (o.extreme && c.chance(1, 8)) return c.pickl<double>({1e5, -1e5, 8388607, 8388608, -8388609, 2147483647.0, -2147483648.0, 4294967296.0, 1e15, -1e15, 1e30, -1e30, 1e300, double(INFINITY), -double(INFINITY), double(NAN), 0.5, 1e-300, -0.0});
    int m = o.geo_mode >= 0 ? o.geo_mode : c.weighted({3, 3, 3, 1}); return rv::coord(c, size, m);
  }
  int ci(int size) { if (o.extreme && c.chance(1, 8)) return c.pickl<int>({INT_MAX, INT_MIN, INT_MAX - 1, -1, 65536, -65536, 1 << 23, 1 << 30, -(1 << 30)}); return c.i(-size / 3 - 1, size + 2); }
  BLPoint pt() { double x = co(o.w); return BLPoint(x, co(o.h)); }
  BLRect rectd() { BLPoint p = pt(); double w = co(o.w), h = co(o.h); if (c.chance(7, 8)) { w = std::fabs(w); h = std::fabs(h); } return BLRect(p.x, p.y, w, h); }
  BLRectI recti() { BLRectI r; int x = ci(o.w), y = ci(o.h), w = ci(o.w), h = ci(o.h); if (c.chance(7, 8) && w > INT_MIN && h > INT_MIN) { w = std::abs(w); h = std::abs(h); } r.reset(x, y, w, h); return r; }

  void resources() {
    int n = c.i(1, 3); for (int i = 0; i < n; i++) { BLFormat f = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); int w = c.i(1, 24), h = c.i(1, 24); uint32_t seed = c.u32(); int k = c.i(0, 2); inits.push_back([=](World& W) { BLImage m(w, h, f); paint(m, seed, k); W.imgs.push_back(m); }); isz.push_back(BLSizeI(w, h)); nimgs++; }
    n = c.i(1, 2); for (int i = 0; i < n; i++) { int w = c.i(1, 24), h = c.i(1, 24); uint32_t seed = c.u32(); int k = c.i(0, 1); inits.push_back([=](World& W) { BLImage m(w, h, BL_FORMAT_A8); paint(m, seed, k); W.masks.push_back(m); }); msz.push_back(BLSizeI(w, h)); nmasks++; }
    n = c.i(1, 2); for (int i = 0; i < n; i++) { BLPath p = path(); dump(p); inits.push_back([=](World& W) { BLPath q; q.add_path(p); W.paths.push_back(q); }); npaths++; }
    n = c.i(1, 2); for (int i = 0; i < n; i++) { BLGradient g = gradient(); inits.push_back([=](World& W) { BLGradient q(g); W.grads.push_back(q); }); ngrads++; }
    n = c.i(1, 2); for (int i = 0; i < n; i++) { int im = c.i(0, nimgs - 1); int em = c.i(0, BL_EXTEND_MODE_MAX_VALUE); BLMatrix2D m = matrix(); bool area = c.coin(); BLSizeI z = isz[size_t(im)]; int ax = c.i(0, z.w - 1), ay = c.i(0, z.h - 1), aw = c.i(1, z.w - ax), ah = c.i(1, z.h - ay);
      inits.push_back([=](World& W) { BLPattern p(W.imgs[size_t(im)]); p.set_extend_mode(BLExtendMode(em)); p.set_transform(m); if (area) { BLRectI r; r.reset(ax, ay, aw, ah); p.set_area(r); } W.pats.push_back(p); }); npats++; }
    if (o.text) { float size = float(c.pickl<int>({6, 10, 14, 20, 40})); inits.push_back([=](World& W) { W.font.create_from_face(face(), size); }); }
  }
  void build(World& W) const { for (auto& f : inits) f(W); }

  void dump(const BLPath& p) {
    std::string t = S("path#%d:", npaths); for (size_t i = 0; i < p.size(); i++) t += S(" %c %.17g,%.17g", "MLQKCZW?"[p.command_data()[i] & 7], p.vertex_data()[i].x, p.vertex_data()[i].y); c.note("%s", t.c_str());
  }
  BLPath path() {
    BLPath p; int n = c.i(1, 6); BLPoint z = pt(); p.move_to(z);
    for (int i = 0; i < n; i++) switch (c.weighted({5, 2, 2, 1, 1, 1, 1})) {
      case 0: p.line_to(pt()); break; case 1: { BLPoint a = pt(); p.quad_to(a, pt()); break; } case 2: { BLPoint a = pt(), b = pt(); p.cubic_to(a, b, pt()); break; }
      case 3: { BLPoint a = pt(), b = pt(); p.conic_to(a, b, c.real(0, 4)); break; } case 4: p.close(); p.move_to(pt()); break; case 5: p.move_to(pt()); break;
      default: { BLRect r = rectd(); p.add_rect(r); p.move_to(pt()); break; }
    }
    if (c.coin()) p.close();
    return p;
  }
  BLGradient gradient() {
    BLGradient g; double W = o.w, H = o.h;
    switch (c.i(0, 2)) {
      case 0: g.create(BLLinearGradientValues(c.real(-W, 2 * W), c.real(-H, 2 * H), c.real(-W, 2 * W), c.real(-H, 2 * H))); break;
      case 1: { double x = c.real(0, W), y = c.real(0, H); g.create(BLRadialGradientValues(x, y, c.coin() ? x : c.real(0, W), c.coin() ? y : c.real(0, H), c.real(1, W), c.chance(1, 4) ? c.real(0, W) : 0)); break; }
      default: g.create(BLConicGradientValues(c.real(0, W), c.real(0, H), c.real(-7, 7), c.coin() ? 1 : c.i(1, 4))); break;
    }
    g.set_extend_mode(BLExtendMode(c.i(0, BL_EXTEND_MODE_SIMPLE_MAX_VALUE))); int n = c.weighted({1, 8}) == 0 ? c.i(0, 1) : c.i(2, 5);
    for (int i = 0; i < n; i++) g.add_stop(c.coin() ? double(i) / 4 : c.frac(), color()); if (c.chance(1, 3)) g.set_transform(matrix());
    return g;
  }
  BLRgba32 color() { uint32_t v = c.u32(); if (c.coin()) v |= 0xFF000000u; return BLRgba32(v); }
  BLMatrix2D matrix() {
    BLMatrix2D m; m.reset();
    switch (c.weighted({2, 2, 2, 2, 1, 1})) {
      case 0: m.translate(c.i(-8, 8), c.i(-8, 8)); break; case 1: m.translate(c.real(-9, 9), c.real(-9, 9)); break; case 2: m.scale(c.real(0.1, 4), c.real(0.1, 4)); break;
      case 3: m.rotate(c.real(-4, 4), c.real(0, o.w), c.real(0, o.h)); break; case 4: { static const double q[][4] = {{0, 1, 1, 0}, {-1, 0, 0, 1}, {1, 0, 0, -1}, {0, -1, 1, 0}, {-1, 0, 0, -1}}; auto& e = q[c.below(5)]; m.reset(e[0], e[1], e[2], e[3], c.i(0, o.w), c.i(0, o.h)); break; }
      default: if (o.extreme && c.coin()) m.reset(co(4), co(4), co(4), co(4), co(o.w), co(o.h)); else m.reset(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-2, 2), c.real(-8, o.w), c.real(-8, o.h));
    }
    return m;
  }
  // explicit or preset style; f(world) gives the style value
  std::function<BLVar(World&)> style(std::string& t) {
    switch (o.styles ? c.weighted({4, 1, 2, 2}) : 0) {
      case 0: { uint32_t v = color().value; t = S("rgba32 %08x", v); return [=](World&) { return BLVar(BLRgba32(v)); }; }
      case 1: { uint64_t v = c.u64(); t = S("rgba64 %016llx", (unsigned long long)v); return [=](World&) { return BLVar(BLRgba64(v)); }; }
      case 2: { size_t i = c.below(size_t(ngrads)); t = S("gradient#%zu", i); return [=](World& W) { return BLVar(W.grads[i]); }; }
      default: { size_t i = c.below(size_t(npats)); t = S("pattern#%zu", i); return [=](World& W) { return BLVar(W.pats[i]); }; }
    }
  }
  double alpha() { return c.weighted({3, 1}) == 0 ? 1.0 : c.pickl<double>({0.0, 0.5, 0.25, 0.003, 0.999}); }

  Step state() {
    Step s; std::string t;
    switch (c.weighted({o.transforms ? 6u : 0u, o.clip ? 6u : 0u, o.saves ? 4u : 0u, 5, o.strokes ? 3u : 0u, 2, o.any_op ? 2u : 0u, 1, 1, 1, 1})) {
      case 0: switch (c.i(0, 5)) {
        case 0: { BLMatrix2D m = matrix(); s = {S("set_transform %g %g %g %g %g %g", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21), [=](BLContext& x, World&) { return x.set_transform(m); }}; break; }
        case 1: { BLMatrix2D m = matrix(); s = {S("apply_transform %g %g %g %g %g %g", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21), [=](BLContext& x, World&) { return x.apply_transform(m); }}; break; }
        case 2: { BLMatrix2D m = matrix(); s = {S("post_transform %g %g %g %g %g %g", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21), [=](BLContext& x, World&) { return x.post_transform(m); }}; break; }
        case 3: { int x0 = ci(o.w), y0 = ci(o.h); s = {S("translate %d %d", x0, y0), [=](BLContext& x, World&) { return x.translate(x0, y0); }}; break; }
        case 4: s = {"reset_transform", [=](BLContext& x, World&) { return x.reset_transform(); }}; break;
        default: s = {"user_to_meta", [=](BLContext& x, World&) { return x.user_to_meta(); }}; break;
      } break;
      case 1: switch (c.i(0, 2)) {
        case 0: { BLRectI r = recti(); s = {S("clip_to_rect_i %d %d %d %d", r.x, r.y, r.w, r.h), [=](BLContext& x, World&) { return x.clip_to_rect(r); }}; break; }
        case 1: { BLRect r = rectd(); s = {S("clip_to_rect_d %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h), [=](BLContext& x, World&) { return x.clip_to_rect(r); }}; break; }
        default: s = {"restore_clipping", [=](BLContext& x, World&) { return x.restore_clipping(); }}; break;
      } break;
      case 2: if (c.coin()) s = {"save", [=](BLContext& x, World&) { return x.save(); }}; else s = {"restore", [=](BLContext& x, World&) { return x.restore(); }}; break;
      case 3: { auto f = style(t); bool st = o.strokes && c.chance(1, 3); s = {S("set_%s_style %s", st ? "stroke" : "fill", t.c_str()), [=](BLContext& x, World& W) { BLVar v = f(W); return st ? x.set_stroke_style(v) : x.set_fill_style(v); }}; break; }
      case 4: switch (c.i(0, 5)) {
        case 5: { int n = c.i(0, 3); double d = c.i(1, 9); s = {S("set_stroke_dash_array of %d", n), [=](BLContext& x, World&) { BLArray<double> a; for (int i = 0; i < n; i++) a.append(d + i); return x.set_stroke_dash_array(a); }}; break; }
        case 0: { double w = c.coin() ? c.real(0, 8) : std::fabs(co(8)); s = {S("set_stroke_width %.17g", w), [=](BLContext& x, World&) { return x.set_stroke_width(w); }}; break; }
        case 1: { int j = c.i(0, BL_STROKE_JOIN_MAX_VALUE); s = {S("set_stroke_join %d", j), [=](BLContext& x, World&) { return x.set_stroke_join(BLStrokeJoin(j)); }}; break; }
        case 2: { int j = c.i(0, BL_STROKE_CAP_MAX_VALUE); s = {S("set_stroke_caps %d", j), [=](BLContext& x, World&) { return x.set_stroke_caps(BLStrokeCap(j)); }}; break; }
        case 3: { double m = c.real(0, 10); s = {S("set_stroke_miter_limit %g", m), [=](BLContext& x, World&) { return x.set_stroke_miter_limit(m); }}; break; }
        default: { int m = c.i(0, 1); s = {S("set_stroke_transform_order %d", m), [=](BLContext& x, World&) { return x.set_stroke_transform_order(BLStrokeTransformOrder(m)); }}; break; }
      } break;
      case 5: { double a = alpha(); int k = c.i(0, 2); s = {S("set_alpha %d %g", k, a), [=](BLContext& x, World&) { return k == 0 ? x.set_global_alpha(a) : k == 1 ? x.set_fill_alpha(a) : x.set_stroke_alpha(a); }}; break; }
      case 6: { int op = c.weighted({4, 4, 2}) ; op = op < 2 ? op : c.i(0, BL_COMP_OP_MAX_VALUE); s = {S("set_comp_op %d", op), [=](BLContext& x, World&) { return x.set_comp_op(BLCompOp(op)); }}; break; }
      case 7: { int v = c.i(0, 1); s = {S("set_fill_rule %d", v), [=](BLContext& x, World&) { return x.set_fill_rule(BLFillRule(v)); }}; break; }
      case 8: { int v = c.i(0, 1); s = {S("set_pattern_quality %d", v), [=](BLContext& x, World&) { return x.set_pattern_quality(BLPatternQuality(v)); }}; break; }
      case 9: { int v = c.i(0, 1); s = {S("set_gradient_quality %d", v), [=](BLContext& x, World&) { return x.set_gradient_quality(BLGradientQuality(v)); }}; break; }
      default: { double v = c.pickl<double>({0.2, 0.05, 1, 3}); s = {S("set_flatten_tolerance %g", v), [=](BLContext& x, World&) { return x.set_flatten_tolerance(v); }}; break; }
    }
    return s;
  }

  typedef std::function<BLResult(BLContext&, World&, const BLVar*)> Draw;
  Step draw() {
    std::string t, d; Draw f; bool styled = true;
    switch (c.weighted({1, 1, 3, 3, 4, 4, 2, o.text ? 2u : 0u, 4, 3, o.strokes ? 6u : 0u, 2})) {
      case 0: d = "fill_all"; f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_all(*v) : x.fill_all(); }; break;
      case 1: styled = false; if (c.coin()) { d = "clear_all"; f = [=](BLContext& x, World&, const BLVar*) { return x.clear_all(); }; } else if (c.coin()) { BLRectI r = recti(); d = S("clear_rect_i %d %d %d %d", r.x, r.y, r.w, r.h); f = [=](BLContext& x, World&, const BLVar*) { return x.clear_rect(r); }; } else { BLRect r = rectd(); d = S("clear_rect_d %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h); f = [=](BLContext& x, World&, const BLVar*) { return x.clear_rect(r); }; } break;
      case 2: { BLRectI r = recti(); d = S("fill_rect_i %d %d %d %d", r.x, r.y, r.w, r.h); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_rect(r, *v) : x.fill_rect(r); }; break; }
      case 3: { BLRect r = rectd(); d = S("fill_rect_d %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_rect(r, *v) : x.fill_rect(r); }; break; }
      case 4: { size_t i = c.below(size_t(npaths)); if (c.coin()) { d = S("fill_path#%zu", i); f = [=](BLContext& x, World& W, const BLVar* v) { return v ? x.fill_path(W.paths[i], *v) : x.fill_path(W.paths[i]); }; } else { BLPoint p = pt(); d = S("fill_path#%zu at %.17g %.17g", i, p.x, p.y); f = [=](BLContext& x, World& W, const BLVar* v) { return v ? x.fill_path(p, W.paths[i], *v) : x.fill_path(p, W.paths[i]); }; } break; }
      case 5: switch (c.i(0, 6)) {
        case 0: { BLPoint p = pt(); double r = co(o.w); d = S("fill_circle %.17g %.17g %.17g", p.x, p.y, r); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_circle(p.x, p.y, r, *v) : x.fill_circle(p.x, p.y, r); }; break; }
        case 1: { BLRect r = rectd(); double q = co(8), q2 = co(8); BLRoundRect rr(r.x, r.y, r.w, r.h, q, q2); d = S("fill_round_rect %.17g %.17g %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h, q, q2); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_round_rect(rr, *v) : x.fill_round_rect(rr); }; break; }
        case 2: { BLPoint p = pt(); double r = co(o.w), q = co(o.h), st = c.real(-7, 7), sw = c.real(-7, 7); d = S("fill_pie %.17g %.17g %.17g %.17g %.17g %.17g", p.x, p.y, r, q, st, sw); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_pie(p.x, p.y, r, q, st, sw, *v) : x.fill_pie(p.x, p.y, r, q, st, sw); }; break; }
        case 3: { BLPoint p = pt(); double r = co(o.w), q = co(o.h), st = c.real(-7, 7), sw = c.real(-7, 7); d = S("fill_chord %.17g %.17g %.17g %.17g %.17g %.17g", p.x, p.y, r, q, st, sw); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_chord(p.x, p.y, r, q, st, sw, *v) : x.fill_chord(p.x, p.y, r, q, st, sw); }; break; }
        case 4: { BLPoint p = pt(), q = pt(), r = pt(); d = S("fill_triangle %.17g %.17g %.17g %.17g %.17g %.17g", p.x, p.y, q.x, q.y, r.x, r.y); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_triangle(p.x, p.y, q.x, q.y, r.x, r.y, *v) : x.fill_triangle(p.x, p.y, q.x, q.y, r.x, r.y); }; break; }
        case 5: { std::vector<BLPoint> q; int n = c.i(0, 7); d = "fill_polygon"; for (int i = 0; i < n; i++) { q.push_back(pt()); d += S(" %.17g,%.17g", q.back().x, q.back().y); } f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_polygon(q.data(), q.size(), *v) : x.fill_polygon(q.data(), q.size()); }; break; }
        default: { std::vector<BLPointI> q; int n = c.i(0, 7); d = "fill_polygon_i"; for (int i = 0; i < n; i++) { int X = ci(o.w); BLPointI p; p.reset(X, ci(o.h)); q.push_back(p); d += S(" %d,%d", p.x, p.y); } f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_polygon(q.data(), q.size(), *v) : x.fill_polygon(q.data(), q.size()); }; break; }
      } break;
      case 6: if (c.coin()) { std::vector<BLRect> q; int n = c.i(0, 5); d = "fill_rect_array_d"; for (int i = 0; i < n; i++) { q.push_back(rectd()); d += S(" %.17g,%.17g,%.17g,%.17g", q.back().x, q.back().y, q.back().w, q.back().h); } f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_rect_array(q.data(), q.size(), *v) : x.fill_rect_array(q.data(), q.size()); }; }
        else { std::vector<BLBoxI> q; int n = c.i(0, 5); d = "fill_box_array_i"; for (int i = 0; i < n; i++) { int a = ci(o.w), b = ci(o.h), e = ci(o.w), g = ci(o.h); BLBoxI bb; bb.reset(std::min(a, e), std::min(b, g), std::max(a, e), std::max(b, g)); q.push_back(bb); d += S(" %d,%d,%d,%d", bb.x0, bb.y0, bb.x1, bb.y1); } f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_box_array(q.data(), q.size(), *v) : x.fill_box_array(q.data(), q.size()); }; } break;
      case 7: { std::string s; int n = c.i(1, 8); for (int i = 0; i < n; i++) s += char(c.i(' ', '~')); BLPoint p = pt(); bool stroke = o.strokes && c.chance(1, 4), in = c.chance(1, 3); BLPointI pi; pi.reset(ci(o.w), ci(o.h)); d = S("%s_utf8_text%s '%s'", stroke ? "stroke" : "fill", in ? "_i" : "", s.c_str()) + (in ? S(" %d %d", pi.x, pi.y) : S(" %.17g %.17g", p.x, p.y));
        f = [=](BLContext& x, World& W, const BLVar* v) { if (stroke) { if (in) return v ? x.stroke_utf8_text(pi, W.font, s.data(), s.size(), *v) : x.stroke_utf8_text(pi, W.font, s.data(), s.size()); return v ? x.stroke_utf8_text(p, W.font, s.data(), s.size(), *v) : x.stroke_utf8_text(p, W.font, s.data(), s.size()); } if (in) return v ? x.fill_utf8_text(pi, W.font, s.data(), s.size(), *v) : x.fill_utf8_text(pi, W.font, s.data(), s.size()); return v ? x.fill_utf8_text(p, W.font, s.data(), s.size(), *v) : x.fill_utf8_text(p, W.font, s.data(), s.size()); }; break; }
      case 8: { styled = false; size_t i = c.below(size_t(nimgs)); bool area = c.coin(); BLSizeI z = isz[i]; BLRectI a; { int ax = c.i(0, z.w - 1), ay = c.i(0, z.h - 1); a.reset(ax, ay, c.i(1, z.w - ax), c.i(1, z.h - ay)); } if (area && c.chance(1, 12)) a.reset(ci(z.w), ci(z.h), ci(z.w), ci(z.h));
        switch (c.i(0, 2)) {
          case 0: { BLPointI p; p.reset(ci(o.w), ci(o.h)); d = S("blit_i#%zu at %d %d", i, p.x, p.y); f = [=](BLContext& x, World& W, const BLVar*) { return area ? x.blit_image(p, W.imgs[i], a) : x.blit_image(p, W.imgs[i]); }; break; }
          case 1: { BLPoint p = pt(); d = S("blit_d#%zu at %.17g %.17g", i, p.x, p.y); f = [=](BLContext& x, World& W, const BLVar*) { return area ? x.blit_image(p, W.imgs[i], a) : x.blit_image(p, W.imgs[i]); }; break; }
          default: { BLRect r = rectd(); d = S("blit_scaled#%zu %.17g %.17g %.17g %.17g", i, r.x, r.y, r.w, r.h); f = [=](BLContext& x, World& W, const BLVar*) { return area ? x.blit_image(r, W.imgs[i], a) : x.blit_image(r, W.imgs[i]); }; break; }
        }
        if (area) d += S(" area %d %d %d %d", a.x, a.y, a.w, a.h); break; }
      case 9: { size_t i = c.below(size_t(nmasks)); bool area = c.coin(); BLSizeI z = msz[i]; BLRectI a; { int ax = c.i(0, z.w - 1), ay = c.i(0, z.h - 1); a.reset(ax, ay, c.i(1, z.w - ax), c.i(1, z.h - ay)); } if (area && c.chance(1, 12)) a.reset(ci(z.w), ci(z.h), ci(z.w), ci(z.h));
        if (c.coin()) { BLPointI p; p.reset(ci(o.w), ci(o.h)); d = S("fill_mask_i#%zu at %d %d", i, p.x, p.y); f = [=](BLContext& x, World& W, const BLVar* v) { if (area) return v ? x.fill_mask(p, W.masks[i], a, *v) : x.fill_mask(p, W.masks[i], a); return v ? x.fill_mask(p, W.masks[i], *v) : x.fill_mask(p, W.masks[i]); }; }
        else { BLPoint p = pt(); d = S("fill_mask_d#%zu at %.17g %.17g", i, p.x, p.y); f = [=](BLContext& x, World& W, const BLVar* v) { if (area) return v ? x.fill_mask(p, W.masks[i], a, *v) : x.fill_mask(p, W.masks[i], a); return v ? x.fill_mask(p, W.masks[i], *v) : x.fill_mask(p, W.masks[i]); }; }
        if (area) d += S(" area %d %d %d %d", a.x, a.y, a.w, a.h); break; }
      case 10: switch (c.i(0, 5)) {
        case 0: { BLRect r = rectd(); d = S("stroke_rect %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.stroke_rect(r, *v) : x.stroke_rect(r); }; break; }
        case 1: { BLPoint p = pt(), q = pt(); d = S("stroke_line %.17g %.17g %.17g %.17g", p.x, p.y, q.x, q.y); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.stroke_line(p, q, *v) : x.stroke_line(p, q); }; break; }
        case 2: { BLPoint p = pt(); double r = co(o.w), q = co(o.h); d = S("stroke_ellipse %.17g %.17g %.17g %.17g", p.x, p.y, r, q); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.stroke_ellipse(p.x, p.y, r, q, *v) : x.stroke_ellipse(p.x, p.y, r, q); }; break; }
        case 3: { std::vector<BLPoint> q; int n = c.i(0, 6); d = "stroke_polyline"; for (int i = 0; i < n; i++) { q.push_back(pt()); d += S(" %.17g,%.17g", q.back().x, q.back().y); } f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.stroke_polyline(q.data(), q.size(), *v) : x.stroke_polyline(q.data(), q.size()); }; break; }
        case 4: { BLPoint p = pt(); double r = co(o.w), q = co(o.h), st = c.real(-7, 7), sw = c.real(-7, 7); d = S("stroke_arc %.17g %.17g %.17g %.17g %.17g %.17g", p.x, p.y, r, q, st, sw); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.stroke_arc(p.x, p.y, r, q, st, sw, *v) : x.stroke_arc(p.x, p.y, r, q, st, sw); }; break; }
        default: { size_t i = c.below(size_t(npaths)); BLPoint p = pt(); bool at = c.coin(); d = S("stroke_path#%zu", i) + (at ? S(" at %.17g %.17g", p.x, p.y) : std::string()); f = [=](BLContext& x, World& W, const BLVar* v) { if (at) return v ? x.stroke_path(p, W.paths[i], *v) : x.stroke_path(p, W.paths[i]); return v ? x.stroke_path(W.paths[i], *v) : x.stroke_path(W.paths[i]); }; break; }
      } break;
      default: { BLBox b; BLRect r = rectd(); b.reset(r.x, r.y, r.x + r.w, r.y + r.h); if (c.chance(1, 4)) std::swap(b.x0, b.x1); d = S("fill_box %.17g %.17g %.17g %.17g", b.x0, b.y0, b.x1, b.y1); f = [=](BLContext& x, World&, const BLVar* v) { return v ? x.fill_box(b, *v) : x.fill_box(b); }; break; }
    }
    Step s; s.draw = true;
    if (styled && c.coin()) { auto g = style(t); s.text = d + " with " + t; s.run = [=](BLContext& x, World& W) { BLVar v = g(W); return f(x, W, &v); }; }
    else { s.text = d; s.run = [=](BLContext& x, World& W) { return f(x, W, nullptr); }; }
    return s;
  }
  // changes a resource that earlier calls may have used
  Step mutate() {
    switch (c.i(0, 5)) {
      case 0: { size_t i = c.below(size_t(nimgs)); uint32_t seed = c.u32(); return {S("repaint image#%zu", i), [=](BLContext&, World& W) { paint(W.imgs[i], seed, 0); return BLResult(BL_SUCCESS); }}; }
      case 1: { size_t i = c.below(size_t(nmasks)); uint32_t seed = c.u32(); return {S("repaint mask#%zu", i), [=](BLContext&, World& W) { paint(W.masks[i], seed, 0); return BLResult(BL_SUCCESS); }}; }
      case 2: { size_t i = c.below(size_t(npaths)); BLPath p = path(); bool in = c.coin(); return {S("modify path#%zu", i), [=](BLContext&, World& W) { if (in) W.paths[i].translate(BLPoint(3, 1)); else W.paths[i] = p; return BLResult(BL_SUCCESS); }}; }
      case 3: { size_t i = c.below(size_t(ngrads)); uint32_t v = color().value; double of = c.frac(); return {S("modify gradient#%zu", i), [=](BLContext&, World& W) { W.grads[i].add_stop(of, BLRgba32(v)); return BLResult(BL_SUCCESS); }}; }
      case 4: { size_t i = c.below(size_t(npats)), j = c.below(size_t(nimgs)); return {S("modify pattern#%zu", i), [=](BLContext&, World& W) { W.pats[i].set_image(W.imgs[j]); return BLResult(BL_SUCCESS); }}; }
      default: { size_t i = c.below(size_t(nimgs)); BLSizeI z = isz[i]; uint32_t seed = c.u32(); return {S("replace image#%zu", i), [=](BLContext&, World& W) { W.imgs[i].reset(); BLImage m(z.w, z.h, BL_FORMAT_PRGB32); paint(m, seed, 0); W.imgs[i] = m; return BLResult(BL_SUCCESS); }}; }
    }
  }
};
}
