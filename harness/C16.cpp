// C16: context state: setters change exactly what they name; save/restore is exact (getters and drawing).
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "alloc_track.h"
#include "scene.h"
#include <map>
using pbt::Case; using namespace rv;
typedef std::map<std::string, std::string> Snap;
static std::string S(const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string str(const BLMatrix2D& m) { return S("%.17g %.17g %.17g %.17g %.17g %.17g", m.m00 + 0.0, m.m01 + 0.0, m.m10 + 0.0, m.m11 + 0.0, m.m20 + 0.0, m.m21 + 0.0); }
static std::string styleStr(const BLVar& v, bool xform) {
  std::string r = S("type %d", int(v.type()));
  if (v.is_rgba32()) r += S(" %08x", v.as<BLRgba32>().value); else if (v.is_rgba64()) r += S(" %016llx", (unsigned long long)v.as<BLRgba64>().value); else if (v.is_rgba()) { BLRgba x = v.as<BLRgba>(); r += S(" %.9g %.9g %.9g %.9g", x.r, x.g, x.b, x.a); }
  else if (v.is_gradient()) { const BLGradient& g = v.as<BLGradient>(); r += S(" gtype %d ext %d stops", int(g.type()), int(g.extend_mode())); for (size_t i = 0; i < g.size(); i++) r += S(" %.17g:%016llx", g.stops()[i].offset, (unsigned long long)g.stops()[i].rgba.value); for (int i = 0; i < 4; i++) r += S(" %.17g", g.value(size_t(i))); if (xform) r += " m " + str(g.transform()); }
  else if (v.is_pattern()) { const BLPattern& p = v.as<BLPattern>(); BLImage im(p.get_image()); BLRectI a = p.area(); r += S(" pext %d area %d %d %d %d img %dx%d %p", int(p.extend_mode()), a.x, a.y, a.w, a.h, im.width(), im.height(), (void*)im._d.impl); if (xform) r += " m " + str(p.transform()); }
  return r;
}
static Snap snap(const BLContext& x) {
  Snap s; s["global_alpha"] = S("%.17g", x.global_alpha()); s["comp_op"] = S("%d", int(x.comp_op())); s["fill_rule"] = S("%d", int(x.fill_rule()));
  s["rendering_quality"] = S("%d", int(x.rendering_quality())); s["gradient_quality"] = S("%d", int(x.gradient_quality())); s["pattern_quality"] = S("%d", int(x.pattern_quality()));
  const BLApproximationOptions& a = x.approximation_options(); s["flatten_mode"] = S("%d %d", int(x.flatten_mode()), a.flatten_mode); s["flatten_tolerance"] = S("%.17g %.17g", x.flatten_tolerance(), a.flatten_tolerance); s["offset_mode"] = S("%d", a.offset_mode); s["offset_parameter"] = S("%.17g", a.offset_parameter);
  for (int i = 0; i < 2; i++) { const char* n = i ? "stroke" : "fill"; BLContextStyleSlot sl = BLContextStyleSlot(i); BLVar v, t; x.get_style(sl, v); x.get_transformed_style(sl, t); s[S("%s_style", n)] = styleStr(v, true); s[S("%s_style_type", n)] = S("%d", int(x.style_type(sl))); s[S("%s_alpha", n)] = S("%.17g", x.style_alpha(sl)); s[S("%s_transformed", n)] = styleStr(t, true); }
  s["stroke_width"] = S("%.17g", x.stroke_width()); s["miter_limit"] = S("%.17g", x.stroke_miter_limit()); s["join"] = S("%d", int(x.stroke_join())); s["start_cap"] = S("%d", int(x.stroke_start_cap())); s["end_cap"] = S("%d", int(x.stroke_end_cap()));
  s["dash_offset"] = S("%.17g", x.stroke_dash_offset()); { BLArray<double> d = x.stroke_dash_array(); std::string t = S("%zu:", d.size()); for (size_t i = 0; i < d.size(); i++) t += S(" %.17g", d[i]); s["dash_array"] = t; } s["order"] = S("%d", int(x.stroke_transform_order()));
  const BLStrokeOptions& so = x.stroke_options(); s["start_cap"] += S(" %d", so.start_cap); s["end_cap"] += S(" %d", so.end_cap); s["join"] += S(" %d", so.join); s["order"] += S(" %d", so.transform_order); s["stroke_width"] += S(" %.17g", so.width);
  s["user"] = str(x.user_transform()); s["meta"] = str(x.meta_transform()); s["final"] = str(x.final_transform()); s["saved"] = S("%u", x.saved_state_count());
  return s;
}
static std::string diff(const Snap& a, const Snap& b) { std::string r; for (auto& kv : a) { auto it = b.find(kv.first); if (it == b.end() || it->second != kv.second) r += kv.first + ": [" + kv.second + "] vs [" + (it == b.end() ? "?" : it->second) + "]; "; } return r; }

typedef std::function<BLResult(BLContext&, sc::World&)> Fn;
struct Op { std::string text; Fn fn; bool clip = false, invalid = false; std::vector<std::string> keys; std::map<std::string, std::string> expect; BLMatrix2D user, meta; bool xf = false; int style_slot = -1; std::function<BLVar(sc::World&)> style; BLContextStyleTransformMode mode = BL_CONTEXT_STYLE_TRANSFORM_MODE_USER; };
static bool near_(const BLMatrix2D& a, const BLMatrix2D& b) { const double* p = &a.m00; const double* q = &b.m00; double s = 1; for (int i = 0; i < 6; i++) s = std::max(s, std::fabs(q[i])); for (int i = 0; i < 6; i++) if (!(std::fabs(p[i] - q[i]) <= 1e-11 * s)) return false; return true; }

static Op gen_op(Case& c, sc::Gen& g, const BLMatrix2D& user, const BLMatrix2D& meta) {
  Op o; auto S = sc::Gen::S; o.user = user; o.meta = meta; const double NaN = std::nan("");
  auto set = [&](std::string text, Fn fn, std::initializer_list<std::pair<const char*, std::string>> e) { o.text = text; o.fn = fn; for (auto& p : e) { o.keys.push_back(p.first); o.expect[p.first] = p.second; } };
  auto bad = [&](std::string text, Fn fn) { o.text = text + " (invalid)"; o.fn = fn; o.invalid = true; };
  auto alpha = [&] { return c.pickl<double>({0.0, 1.0, 0.5, 0.25, 0.001, 0.9999, -3.0, 7.5, double(INFINITY), -double(INFINITY)}); };
  auto f2 = [](double v) { return ::S("%.17g", v); };
  switch (c.weighted({2, 2, 2, 2, 3, 10, 6, 12, 10, 4, 2})) {
    case 0: { double v = alpha(), e = std::min(1.0, std::max(0.0, v)); if (c.chance(1, 8)) bad("set_global_alpha NaN", [=](BLContext& x, sc::World&) { return x.set_global_alpha(NaN); }); else set(S("set_global_alpha %g", v), [=](BLContext& x, sc::World&) { return x.set_global_alpha(v); }, {{"global_alpha", f2(e)}}); break; }
    case 1: { if (c.chance(1, 6)) { unsigned v = BL_COMP_OP_MAX_VALUE + 1 + c.below(9); bad(S("set_comp_op %u", v), [=](BLContext& x, sc::World&) { return x.set_comp_op(BLCompOp(v)); }); } else { int v = c.coin() ? c.i(0, BL_COMP_OP_MAX_VALUE) : c.i(0, 1); set(S("set_comp_op %d", v), [=](BLContext& x, sc::World&) { return x.set_comp_op(BLCompOp(v)); }, {{"comp_op", ::S("%d", v)}}); } break; }
    case 2: { int v = c.i(0, 3); Fn f = [=](BLContext& x, sc::World&) { return x.set_fill_rule(BLFillRule(v)); }; if (v > 1) bad(S("set_fill_rule %d", v), f); else set(S("set_fill_rule %d", v), f, {{"fill_rule", ::S("%d", v)}}); break; }
    case 3: { // hints
      if (c.coin()) { int h = c.i(0, 2), v = c.i(0, 4); static const int mx[] = {BL_RENDERING_QUALITY_MAX_VALUE, BL_GRADIENT_QUALITY_MAX_VALUE, BL_PATTERN_QUALITY_MAX_VALUE}; static const char* nm[] = {"rendering_quality", "gradient_quality", "pattern_quality"}; static const BLContextHint hh[] = {BL_CONTEXT_HINT_RENDERING_QUALITY, BL_CONTEXT_HINT_GRADIENT_QUALITY, BL_CONTEXT_HINT_PATTERN_QUALITY}; bool wrap = c.chance(1, 6); uint32_t val = uint32_t(v) + (wrap ? 256u : 0u); Fn f = [=](BLContext& x, sc::World&) { return x.set_hint(hh[h], val); }; if (int64_t(val) > mx[h]) bad(S("set_hint %s %u", nm[h], val), f); else set(S("set_hint %s %u", nm[h], val), f, {{nm[h], ::S("%u", val)}}); }
      else { int a = c.i(0, 2), b = c.i(0, 2), d = c.i(0, 2); BLContextHints h; h.reset(); h.rendering_quality = uint8_t(a); h.gradient_quality = uint8_t(b); h.pattern_quality = uint8_t(d); Fn f = [=](BLContext& x, sc::World&) { return x.set_hints(h); }; std::string t = S("set_hints %d %d %d", a, b, d); if (a > BL_RENDERING_QUALITY_MAX_VALUE || b > BL_GRADIENT_QUALITY_MAX_VALUE || d > BL_PATTERN_QUALITY_MAX_VALUE) bad(t, f); else set(t, f, {{"rendering_quality", ::S("%d", a)}, {"gradient_quality", ::S("%d", b)}, {"pattern_quality", ::S("%d", d)}}); }
      break; }
    case 4: { // approximation
      int k = c.i(0, 2); if (k == 0) { int v = c.i(0, BL_FLATTEN_MODE_MAX_VALUE + 2); Fn f = [=](BLContext& x, sc::World&) { return x.set_flatten_mode(BLFlattenMode(v)); }; if (v > BL_FLATTEN_MODE_MAX_VALUE) bad(S("set_flatten_mode %d", v), f); else set(S("set_flatten_mode %d", v), f, {{"flatten_mode", ::S("%d %d", v, v)}}); }
      else if (k == 1) { double v = c.pickl<double>({0.2, 0.05, 0.5, 0.1, NaN}); Fn f = [=](BLContext& x, sc::World&) { return x.set_flatten_tolerance(v); }; if (std::isnan(v)) bad("set_flatten_tolerance NaN", f); else set(S("set_flatten_tolerance %g", v), f, {{"flatten_tolerance", ::S("%.17g %.17g", v, v)}}); }
      else { BLApproximationOptions a; memset(&a, 0, sizeof a); int fm = c.i(0, BL_FLATTEN_MODE_MAX_VALUE + 1), om = c.i(0, BL_OFFSET_MODE_MAX_VALUE + 1); a.flatten_mode = uint8_t(fm); a.offset_mode = uint8_t(om); a.flatten_tolerance = c.pickl<double>({0.2, 0.1, 0.4}); a.simplify_tolerance = 0.1; a.offset_parameter = c.chance(1, 8) ? NaN : c.pickl<double>({0.25, 0.4, 0.5}); Fn f = [=](BLContext& x, sc::World&) { return x.set_approximation_options(a); }; std::string t = S("set_approximation_options %d %d %g %g", fm, om, a.flatten_tolerance, a.offset_parameter); if (fm > BL_FLATTEN_MODE_MAX_VALUE || om > BL_OFFSET_MODE_MAX_VALUE || std::isnan(a.offset_parameter)) bad(t, f); else set(t, f, {{"flatten_mode", ::S("%d %d", fm, fm)}, {"offset_mode", ::S("%d", om)}, {"flatten_tolerance", ::S("%.17g %.17g", a.flatten_tolerance, a.flatten_tolerance)}, {"offset_parameter", f2(a.offset_parameter)}}); }
      break; }
    case 5: { // styles
      int sl = c.i(0, 1); std::string n = sl ? "stroke" : "fill"; BLContextStyleSlot slot = BLContextStyleSlot(sl);
      switch (c.weighted({6, 2, 1, 2, 1, 1})) {
        case 0: { std::string t; auto st = g.style(t); int md = c.i(0, 2); bool with = c.coin(); o.mode = with ? BLContextStyleTransformMode(md) : BL_CONTEXT_STYLE_TRANSFORM_MODE_USER; o.style = st; o.style_slot = sl; o.keys = {n + "_style", n + "_style_type", n + "_transformed"}; BLContextStyleTransformMode mode = o.mode; o.text = S("set %s style %s mode %d%s", n.c_str(), t.c_str(), int(o.mode), with ? "" : " (default)"); bool named = c.coin(); o.fn = [=](BLContext& x, sc::World& W) { BLVar v = st(W); if (named) return with ? (sl ? x.set_stroke_style(v, mode) : x.set_fill_style(v, mode)) : (sl ? x.set_stroke_style(v) : x.set_fill_style(v)); return with ? x.set_style(slot, v, mode) : x.set_style(slot, v); }; break; }
        case 1: { double v = alpha(), e = std::min(1.0, std::max(0.0, v)); o.keys = {n + "_alpha"}; o.expect[n + "_alpha"] = f2(e); o.text = S("set %s alpha %g", n.c_str(), v); bool nm = c.coin(); o.fn = [=](BLContext& x, sc::World&) { return nm ? (sl ? x.set_stroke_alpha(v) : x.set_fill_alpha(v)) : x.set_style_alpha(slot, v); }; break; }
        case 2: bad(S("set %s alpha NaN", n.c_str()), [=](BLContext& x, sc::World&) { return x.set_style_alpha(slot, NaN); }); break;
        case 3: { o.keys = {n + "_style", n + "_style_type", n + "_transformed"}; std::string e = ::S("type %d", int(BL_OBJECT_TYPE_NULL)); o.expect[n + "_style"] = e; o.expect[n + "_transformed"] = e; o.expect[n + "_style_type"] = ::S("%d", int(BL_OBJECT_TYPE_NULL)); o.text = "disable " + n + " style"; o.fn = [=](BLContext& x, sc::World&) { return sl ? x.disable_stroke_style() : x.disable_fill_style(); }; break; }
        case 4: bad("set_style with a bad slot", [=](BLContext& x, sc::World& W) { (void)W; return x.set_style_alpha(BLContextStyleSlot(2), 0.5); }); break;
        default: { float r = float(c.frac()), gg = float(c.frac()), b = float(c.frac()), a = float(c.frac()); o.style = [=](sc::World&) { return BLVar(BLRgba(r, gg, b, a)); }; o.style_slot = sl; o.keys = {n + "_style", n + "_style_type", n + "_transformed"}; o.text = S("set %s style rgba(%g,%g,%g,%g)", n.c_str(), r, gg, b, a); o.fn = [=](BLContext& x, sc::World&) { return x.set_style(slot, BLRgba(r, gg, b, a)); }; }
      }
      break; }
    case 6: { int md = c.i(0, 2); Fn f = [=](BLContext& x, sc::World&) { return x.swap_styles(BLContextStyleSwapMode(md)); }; if (md == 2) bad("swap_styles 2", f); else { o.text = S("swap_styles %d", md); o.fn = f; o.keys = {"swap", md ? "alpha" : ""}; } break; }
    case 7: { // stroke options
      switch (c.i(0, 8)) {
        case 0: { double v = c.pickl<double>({0.0, 1, 2.5, 7, -1, 1e6}); set(S("set_stroke_width %g", v), [=](BLContext& x, sc::World&) { return x.set_stroke_width(v); }, {{"stroke_width", ::S("%.17g %.17g", v, v)}}); break; }
        case 1: { double v = c.pickl<double>({0.0, 1, 4, 10}); set(S("set_stroke_miter_limit %g", v), [=](BLContext& x, sc::World&) { return x.set_stroke_miter_limit(v); }, {{"miter_limit", f2(v)}}); break; }
        case 2: { int v = c.i(0, BL_STROKE_JOIN_MAX_VALUE + 1); Fn f = [=](BLContext& x, sc::World&) { return x.set_stroke_join(BLStrokeJoin(v)); }; if (v > BL_STROKE_JOIN_MAX_VALUE) bad(S("set_stroke_join %d", v), f); else set(S("set_stroke_join %d", v), f, {{"join", ::S("%d %d", v, v)}}); break; }
        case 3: { int v = c.i(0, BL_STROKE_CAP_MAX_VALUE + 1), k = c.i(0, 2); Fn f = [=](BLContext& x, sc::World&) { return k == 0 ? x.set_stroke_start_cap(BLStrokeCap(v)) : k == 1 ? x.set_stroke_end_cap(BLStrokeCap(v)) : x.set_stroke_caps(BLStrokeCap(v)); }; std::string t = S("set_stroke_cap[%d] %d", k, v); if (v > BL_STROKE_CAP_MAX_VALUE) bad(t, f); else { o.text = t; o.fn = f; std::string e = ::S("%d %d", v, v); if (k != 1) { o.keys.push_back("start_cap"); o.expect["start_cap"] = e; } if (k != 0) { o.keys.push_back("end_cap"); o.expect["end_cap"] = e; } } break; }
        case 4: { double v = c.pickl<double>({0, 1.5, -2, 30}); set(S("set_stroke_dash_offset %g", v), [=](BLContext& x, sc::World&) { return x.set_stroke_dash_offset(v); }, {{"dash_offset", f2(v)}}); break; }
        case 5: { if (c.chance(1, 5)) { bool all = c.coin(); set(all ? "set_stroke_options to its own" : "set_stroke_dash_array to its own", [=](BLContext& x, sc::World&) { return all ? x.set_stroke_options(x.stroke_options()) : x.set_stroke_dash_array(x.stroke_dash_array()); }, {}); break; }
          int n = c.i(0, 4); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(c.i(1, 9)); std::string e = ::S("%zu:", v.size()); for (double d : v) e += ::S(" %.17g", d); set("set_stroke_dash_array " + e, [=](BLContext& x, sc::World&) { BLArray<double> a; for (double d : v) a.append(d); return x.set_stroke_dash_array(a); }, {{"dash_array", e}}); break; }
        case 6: { int v = c.i(0, BL_STROKE_TRANSFORM_ORDER_MAX_VALUE + 1); Fn f = [=](BLContext& x, sc::World&) { return x.set_stroke_transform_order(BLStrokeTransformOrder(v)); }; if (v > BL_STROKE_TRANSFORM_ORDER_MAX_VALUE) bad(S("set_stroke_transform_order %d", v), f); else set(S("set_stroke_transform_order %d", v), f, {{"order", ::S("%d %d", v, v)}}); break; }
        default: { int j = c.i(0, BL_STROKE_JOIN_MAX_VALUE), a = c.i(0, BL_STROKE_CAP_MAX_VALUE), b = c.i(0, BL_STROKE_CAP_MAX_VALUE + (c.chance(1, 5) ? 1 : 0)), od = c.i(0, 1); double w = c.i(0, 9), ml = c.i(1, 9), off = c.i(0, 5); int n = c.i(0, 3); std::vector<double> dv; for (int i = 0; i < n; i++) dv.push_back(c.i(1, 9)); std::string e = ::S("%zu:", dv.size()); for (double d : dv) e += ::S(" %.17g", d);
          Fn f = [=](BLContext& x, sc::World&) { BLStrokeOptions so; so.width = w; so.miter_limit = ml; so.dash_offset = off; so.join = uint8_t(j); so.start_cap = uint8_t(a); so.end_cap = uint8_t(b); so.transform_order = uint8_t(od); for (double d : dv) so.dash_array.append(d); return x.set_stroke_options(so); };
          std::string t = S("set_stroke_options w %g ml %g off %g join %d caps %d %d order %d dash %s", w, ml, off, j, a, b, od, e.c_str());
          if (b > BL_STROKE_CAP_MAX_VALUE) bad(t, f); else set(t, f, {{"stroke_width", ::S("%.17g %.17g", w, w)}, {"miter_limit", f2(ml)}, {"dash_offset", f2(off)}, {"join", ::S("%d %d", j, j)}, {"start_cap", ::S("%d %d", a, a)}, {"end_cap", ::S("%d %d", b, b)}, {"order", ::S("%d %d", od, od)}, {"dash_array", e}}); }
      }
      break; }
    case 8: { // transforms
      o.xf = true; o.keys = {"user", "final"}; double a = c.coin() ? c.i(-5, 5) : c.real(-4, 4), b = c.coin() ? c.i(-5, 5) : c.real(-4, 4), an = c.real(-4, 4), px = c.real(-9, 9), py = c.real(-9, 9); BLMatrix2D m = g.matrix(); if (std::fabs(a) < 0.1) a = 1; if (std::fabs(b) < 0.1) b = 1;
      switch (c.i(0, 13)) {
        case 0: o.text = "set_transform " + str(m); o.user = m; o.fn = [=](BLContext& x, sc::World&) { return x.set_transform(m); }; break;
        case 1: o.text = "reset_transform"; o.user.reset(); o.fn = [=](BLContext& x, sc::World&) { return x.reset_transform(); }; break;
        case 2: o.text = S("translate %g %g", a, b); o.user.translate(a, b); o.fn = [=](BLContext& x, sc::World&) { return x.translate(a, b); }; break;
        case 3: o.text = S("scale %g %g", a, b); o.user.scale(a, b); o.fn = [=](BLContext& x, sc::World&) { return x.scale(a, b); }; break;
        case 4: o.text = S("skew %g %g", a / 9, b / 9); o.user.skew(a / 9, b / 9); o.fn = [=](BLContext& x, sc::World&) { return x.skew(a / 9, b / 9); }; break;
        case 5: o.text = S("rotate %g", an); o.user.rotate(an); o.fn = [=](BLContext& x, sc::World&) { return x.rotate(an); }; break;
        case 6: o.text = S("rotate %g around %g %g", an, px, py); o.user.rotate(an, px, py); o.fn = [=](BLContext& x, sc::World&) { return x.rotate(an, px, py); }; break;
        case 7: o.text = "apply_transform " + str(m); o.user.transform(m); o.fn = [=](BLContext& x, sc::World&) { return x.apply_transform(m); }; break;
        case 8: o.text = S("post_translate %g %g", a, b); o.user.post_translate(a, b); o.fn = [=](BLContext& x, sc::World&) { return x.post_translate(a, b); }; break;
        case 9: o.text = S("post_scale %g %g", a, b); o.user.post_scale(a, b); o.fn = [=](BLContext& x, sc::World&) { return x.post_scale(a, b); }; break;
        case 10: o.text = S("post_rotate %g around %g %g", an, px, py); o.user.post_rotate(an, px, py); o.fn = [=](BLContext& x, sc::World&) { return x.post_rotate(an, px, py); }; break;
        case 11: o.text = "post_transform " + str(m); o.user.post_transform(m); o.fn = [=](BLContext& x, sc::World&) { return x.post_transform(m); }; break;
        default: o.text = "user_to_meta"; o.keys.push_back("meta"); o.meta = user; o.meta.post_transform(meta); o.user.reset(); o.fn = [=](BLContext& x, sc::World&) { return x.user_to_meta(); }; break;
      }
      break; }
    case 9: { o.clip = true; if (c.coin()) { BLRectI r = g.recti(); o.text = S("clip_to_rect int %d %d %d %d", r.x, r.y, r.w, r.h); o.fn = [=](BLContext& x, sc::World&) { return x.clip_to_rect(r); }; } else { BLRect r = g.rectd(); o.text = S("clip_to_rect %.17g %.17g %.17g %.17g", r.x, r.y, r.w, r.h); o.fn = [=](BLContext& x, sc::World&) { return x.clip_to_rect(r); }; } break; }
    default: o.text = "restore_clipping"; o.clip = true; o.keys = {"<restore>"}; o.fn = [=](BLContext& x, sc::World&) { return x.restore_clipping(); };
  }
  return o;
}

static void history_(Case& c) {
  sc::Opt op; op.w = c.i(1, 40); op.h = c.i(1, 40); op.text = c.chance(1, 6); op.saves = false; sc::Gen g(c, op); g.resources(); sc::World W; g.build(W);
  BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); uint32_t seed = c.u32();
  BLContextCreateInfo ci{}; if (c.chance(1, 10)) ci.thread_count = uint32_t(c.i(1, 2)); if (c.chance(1, 4)) ci.saved_state_limit = uint32_t(c.i(1, 4));
  unsigned limit = ci.saved_state_limit ? ci.saved_state_limit : 4096;
  BLImage img(op.w, op.h, fmt); sc::paint(img, seed, 0); BLContext x; REQUIRE(c, x.begin(img, ci) == BL_SUCCESS, "begin failed"); BLImage other(4, 4, BL_FORMAT_PRGB32); BLContext ox(other); BLContextCookie foreign; ox.save(foreign);
  c.note("image %dx%d format %d threads %u saved state limit %u", op.w, op.h, int(fmt), ci.thread_count, ci.saved_state_limit);
  struct Level { Snap s; size_t mark; bool has_cookie; BLContextCookie ck; BLMatrix2D user, meta; }; std::vector<Level> st; std::vector<BLContextCookie> used;
  std::vector<Op> eff; BLMatrix2D user, meta; user.reset(); meta.reset(); Snap cur = snap(x); int restores = 0, draws = 0, multi = 0, changed_after_save = 0, bad = 0;
  int n = c.i(3, 40);
  for (int k = 0; k < n; k++) {
    switch (c.weighted({10, 4, 5, 3})) {
      case 0: { // a state change
        Op o = gen_op(c, g, user, meta); c.note("%s", o.text.c_str()); BLResult r = o.fn(x, W); Snap now = snap(x);
        if (o.invalid) { bad++; REQUIRE(c, r != BL_SUCCESS, "%s succeeded", o.text.c_str()); std::string d = diff(cur, now); REQUIRE(c, d.empty(), "failed %s changed the state: %s", o.text.c_str(), d.c_str()); break; }
        REQUIRE(c, r == BL_SUCCESS, "%s failed with %u", o.text.c_str(), r); Snap want = cur;
        if (o.xf) { BLMatrix2D f = o.user; f.post_transform(o.meta); REQUIRE(c, near_(x.user_transform(), o.user), "user transform after %s is [%s], expected [%s]", o.text.c_str(), now["user"].c_str(), str(o.user).c_str()); REQUIRE(c, near_(x.meta_transform(), o.meta), "meta transform after %s is [%s], expected [%s]", o.text.c_str(), now["meta"].c_str(), str(o.meta).c_str()); REQUIRE(c, near_(x.final_transform(), f), "final transform after %s is [%s], expected [%s]", o.text.c_str(), now["final"].c_str(), str(f).c_str()); user = x.user_transform(); meta = x.meta_transform(); for (auto& kk : o.keys) want[kk] = now[kk]; }
        else if (o.style_slot >= 0) { const char* nm = o.style_slot ? "stroke" : "fill"; BLVar v = o.style(W); want[S("%s_style", nm)] = styleStr(v, true); if (v.is_rgba() && now[S("%s_style", nm)] != want[S("%s_style", nm)]) { /* components are normalised */ BLRgba q = v.as<BLRgba>(); (void)q; } want[S("%s_style_type", nm)] = S("%d", int(v.type())); BLVar t; x.get_transformed_style(BLContextStyleSlot(o.style_slot), t);
          REQUIRE(c, styleStr(t, false) == styleStr(v, false), "transformed %s style is [%s], expected [%s]", nm, styleStr(t, false).c_str(), styleStr(v, false).c_str());
          if (v.is_gradient() || v.is_pattern()) { BLMatrix2D m = v.is_gradient() ? v.as<BLGradient>().transform() : v.as<BLPattern>().transform(), got = t.is_gradient() ? t.as<BLGradient>().transform() : t.as<BLPattern>().transform(); if (o.mode == BL_CONTEXT_STYLE_TRANSFORM_MODE_USER) m.post_transform(x.final_transform()); else if (o.mode == BL_CONTEXT_STYLE_TRANSFORM_MODE_META) m.post_transform(x.meta_transform()); REQUIRE(c, near_(got, m), "transformed %s style has transform [%s], expected [%s]", nm, str(got).c_str(), str(m).c_str()); }
          want[S("%s_transformed", nm)] = now[S("%s_transformed", nm)]; }
        else if (o.keys.size() && o.keys[0] == "swap") { for (const char* e : {"style", "style_type", "transformed", "alpha"}) { if (!strcmp(e, "alpha") && o.keys[1] != "alpha") continue; std::swap(want[S("fill_%s", e)], want[S("stroke_%s", e)]); } }
        else for (auto& e : o.expect) want[e.first] = e.second;
        std::string d = diff(want, now); REQUIRE(c, d.empty(), "after %s (expected vs got): %s", o.text.c_str(), d.c_str());
        if (o.keys.size() && o.keys[0] == "<restore>") { size_t m = st.empty() ? 0 : st.back().mark; for (size_t i = m; i < eff.size();) { if (eff[i].clip) eff.erase(eff.begin() + long(i)); else i++; } } else eff.push_back(o);
        if (st.size()) changed_after_save++; cur = now; break; }
      case 1: { // save
        Level l; l.s = cur; l.mark = eff.size(); l.has_cookie = c.chance(1, 3); l.user = user; l.meta = meta; BLResult r = l.has_cookie ? x.save(l.ck) : x.save(); c.note("save%s", l.has_cookie ? " with cookie" : "");
        if (st.size() >= limit) { REQUIRE(c, r == BL_ERROR_TOO_MANY_SAVED_STATES, "save #%zu over the limit %u returned %u", st.size() + 1, limit, r); REQUIRE(c, diff(cur, snap(x)).empty(), "failed save changed the state"); break; }
        REQUIRE(c, r == BL_SUCCESS, "save failed with %u", r); if (l.has_cookie) { for (auto& u : used) REQUIRE(c, !(u == l.ck), "the same cookie was issued twice"); used.push_back(l.ck); } st.push_back(l); cur["saved"] = S("%zu", st.size()); std::string d = diff(cur, snap(x)); REQUIRE(c, d.empty(), "save changed the state: %s", d.c_str()); break; }
      case 2: { // restore
        int how = c.weighted({5, 3, 1, 1}); size_t pop = 0; BLResult want = BL_SUCCESS, r; std::string t;
        if (how == 0 || (how == 1 && used.empty())) { if (st.empty()) want = BL_ERROR_NO_STATES_TO_RESTORE; else if (st.back().has_cookie) want = BL_ERROR_NO_MATCHING_COOKIE; else pop = 1; r = x.restore(); t = "restore"; }
        else if (how == 1) { size_t i = c.coin() ? used.size() - 1 : c.below(used.size()); BLContextCookie ck = used[i]; for (size_t q = st.size(); q-- > 0;) if (st[q].has_cookie && st[q].ck == ck) { pop = st.size() - q; break; } if (!pop) want = st.empty() ? BL_ERROR_NO_STATES_TO_RESTORE : BL_ERROR_NO_MATCHING_COOKIE; r = x.restore(ck); t = S("restore with cookie %zu", i); }
        else { BLContextCookie ck; if (how == 2) ck = foreign; else { ck.reset(); if (used.size()) { ck = used.back(); ck.data[1] += 1 + c.below(5); } } want = st.empty() ? BL_ERROR_NO_STATES_TO_RESTORE : BL_ERROR_NO_MATCHING_COOKIE; bool known = false; for (auto& u : used) known |= u == ck; if (known) break; r = x.restore(ck); t = "restore with an unknown cookie"; }
        c.note("%s -> %u", t.c_str(), r); REQUIRE(c, r == want, "%s returned %u, expected %u", t.c_str(), r, want); Snap now = snap(x);
        if (want != BL_SUCCESS) { std::string d = diff(cur, now); REQUIRE(c, d.empty(), "failed %s changed the state: %s", t.c_str(), d.c_str()); break; }
        if (pop > 1) multi++; Level l = st[st.size() - pop]; st.resize(st.size() - pop); std::string d = diff(l.s, now); REQUIRE(c, d.empty(), "%s (saved vs restored): %s", t.c_str(), d.c_str());
        eff.resize(std::min(eff.size(), l.mark)); user = l.user; meta = l.meta; cur = now; restores++; break; }
      default: { // draw on both contexts
        x.flush(BL_CONTEXT_FLUSH_SYNC); BLImage ref(op.w, op.h, fmt); { BLImageData a, b; img.get_data(&a); ref.make_mutable(&b); for (int y = 0; y < op.h; y++) memcpy((uint8_t*)b.pixel_data + y * b.stride, (const uint8_t*)a.pixel_data + y * a.stride, size_t(op.w) * (fmt == BL_FORMAT_A8 ? 1 : 4)); }
        int m = c.i(1, 2); std::vector<sc::Step> ds; for (int i = 0; i < m; i++) { ds.push_back(g.draw()); c.note("draw %s", ds.back().text.c_str()); }
        for (auto& s : ds) s.run(x, W); x.flush(BL_CONTEXT_FLUSH_SYNC);
        { BLContext y(ref); for (auto& o : eff) o.fn(y, W); for (auto& s : ds) s.run(y, W); y.end(); }
        BLImageData a, b; img.get_data(&a); ref.get_data(&b); for (int yy = 0; yy < op.h; yy++) for (int xx = 0; xx < op.w; xx++) { uint32_t p = fmt == BL_FORMAT_A8 ? px8(a, xx, yy) : px32(a, xx, yy), q = fmt == BL_FORMAT_A8 ? px8(b, xx, yy) : px32(b, xx, yy); if (fmt == BL_FORMAT_XRGB32) { p |= 0xFF000000u; q |= 0xFF000000u; } REQUIRE(c, p == q, "pixel (%d,%d) is %08x, a fresh context with the same effective state gives %08x", xx, yy, p, q); }
        std::string d = diff(cur, snap(x)); REQUIRE(c, d.empty(), "drawing changed the state: %s", d.c_str()); draws++; break; }
    }
  }
  if (c.coin()) x.end(); else x.reset(); ox.end();
  c.label(restores > 0, "restored"); c.label(multi > 0, "restored several levels by cookie"); c.label(draws > 0, "compared by drawing"); c.label(bad > 0, "invalid argument rejected"); c.label(ci.thread_count > 0, "asynchronous"); c.nontrivial(restores > 0 && changed_after_save > 0);
}
// Nothing of a context, its saved states and styles remains when all objects are gone.
static void history(Case& c) {
  static bool warm = [] { BLImage im(8, 8, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; ci.thread_count = 4; BLContext x(im, ci); x.fill_all(BLRgba32(1)); x.end(); sc::Gen::face(); return true; }(); (void)warm;
  long before = at::live.load(); history_(c); REQUIRE(c, at::live.load() == before, "%ld blocks of memory remain allocated", long(at::live.load() - before));
}

int main(int argc, char** argv) {
  pbt::Suite s("C16", "histories of setters, saves, restores (plain, by cookie, unknown cookie), clipping and drawing; every getter compared with the model after each step and drawing compared with a fresh context given only the effective operations; non-trivial = state changed after a save and restored", argc, argv);
  s.add("history", history, {.quick = 70000, .thorough = 3000000, .chunk = 300, .flaky = true, .cpu_limit = 60});
  return s.run();
}
