// C18: gradient stop editing against a model, and painted gradients against their geometric definition.
#include "scene.h"
using namespace rv;
typedef long double LD;
struct Stop { double o; uint64_t c; bool operator==(const Stop& s) const { return o == s.o && c == s.c; } };
typedef std::vector<Stop> Stops;

// ---------------------------------------------------------------- stop editing
static Stops normalised(Stops s) { std::stable_sort(s.begin(), s.end(), [](const Stop& a, const Stop& b) { return a.o < b.o; }); Stops r; for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && s[j].o == s[i].o) j++; r.push_back(s[i]); if (j - i > 1) r.push_back(s[j - 1]); i = j; } return r; }
static void m_add(Stops& s, double o, uint64_t c) { size_t i = 0, eq = 0; while (i < s.size() && s[i].o <= o) { if (s[i].o == o) eq++; i++; } if (eq == 2) s[i - 1].c = c; else s.insert(s.begin() + long(i), Stop{o, c}); }
struct GM { BLGradient g; Stops s; double val[6]; BLGradientType type; BLExtendMode em; BLMatrix2D m; };
static uint64_t c64(uint32_t v) { uint64_t r = 0; for (int k = 0; k < 4; k++) { uint64_t b = (v >> (8 * k)) & 255; r |= (b | b << 8) << (16 * k); } return r; }
static void same(Case& c, GM& x, const char* who) {
  REQUIRE(c, x.g.size() == x.s.size(), "%s has %zu stops, expected %zu", who, x.g.size(), x.s.size()); REQUIRE(c, x.g.capacity() >= x.g.size(), "capacity below size");
  for (size_t i = 0; i < x.s.size(); i++) { const BLGradientStop& t = x.g.stop_at(i); REQUIRE(c, t.offset == x.s[i].o && t.rgba.value == x.s[i].c, "%s stop %zu is %.17g:%016llx, expected %.17g:%016llx", who, i, t.offset, (unsigned long long)t.rgba.value, x.s[i].o, (unsigned long long)x.s[i].c); }
  for (size_t i = 0; i < 6; i++) REQUIRE(c, bl_gradient_get_value(&x.g, i) == x.val[i], "%s value %zu is %g, expected %g", who, i, bl_gradient_get_value(&x.g, i), x.val[i]);
  REQUIRE(c, x.g.type() == x.type && x.g.extend_mode() == x.em, "%s type/extend mode differ", who); REQUIRE(c, x.g.transform() == x.m, "%s transform differs", who);
}
static int nvals(BLGradientType t) { return t == BL_GRADIENT_TYPE_LINEAR ? 4 : t == BL_GRADIENT_TYPE_RADIAL ? 6 : 4; }
static void stops(Case& c) {
  std::vector<GM> v(3); for (auto& x : v) { x.type = BL_GRADIENT_TYPE_LINEAR; x.em = BL_EXTEND_MODE_PAD; x.m.reset(); for (auto& d : x.val) d = 0; }
  auto off = [&] { switch (c.weighted({6, 3, 1, 1})) { case 0: return double(c.i(0, 6)) / 6; case 1: return c.frac(); case 2: return c.pickl<double>({0.0, 1.0, -0.0}); default: return c.pickl<double>({-0.1, 1.0000001, double(NAN), double(INFINITY), -1e300}); } };
  auto ok = [](double o) { return o >= 0 && o <= 1; }; int n = c.i(3, 30); bool shared = false, dup = false;
  for (int k = 0; k < n; k++) {
    size_t i = c.below(3); GM& x = v[i]; BLResult r = BL_SUCCESS; bool want = true; std::string t;
    switch (c.weighted({10, 3, 4, 4, 3, 3, 5, 4, 4, 2, 2, 2, 2, 1, 1, 2})) {
      case 0: { double o = off(); uint64_t q = c.u64(); bool w = c.coin(); if (w) { uint32_t q32 = uint32_t(q); q = c64(q32); r = x.g.add_stop(o, BLRgba32(q32)); } else r = x.g.add_stop(o, BLRgba64(q)); want = ok(o); if (want) m_add(x.s, o, q); t = pbt::fmt("add %.17g", o); break; }
      case 1: r = x.g.reset_stops(); x.s.clear(); t = "reset_stops"; break;
      case 2: { size_t a = size_t(c.size(9)); if (a < x.s.size() + 1 || c.coin()) {} r = x.g.remove_stop(a); want = a < x.s.size(); if (want) x.s.erase(x.s.begin() + long(a)); else if (a == x.s.size()) want = r == BL_SUCCESS; t = pbt::fmt("remove_stop %zu", a); break; }
      case 3: { double o = off(); bool all = c.coin(); r = x.g.remove_stop_by_offset(o, all); want = ok(o); if (want) { for (size_t a = 0; a < x.s.size(); a++) if (x.s[a].o == o) { size_t b = a + 1; while (all && b < x.s.size() && x.s[b].o == o) b++; x.s.erase(x.s.begin() + long(a), x.s.begin() + long(b)); break; } } t = pbt::fmt("remove_stop_by_offset %g %d", o, all); break; }
      case 4: { size_t a = c.size(8), b = c.chance(1, 6) ? SIZE_MAX : a + c.size(4); if (c.chance(1, 8)) std::swap(a, b); r = x.g.remove_stops(BLRange{a, b}); size_t e = std::min(b, x.s.size()); want = a <= x.s.size() && a <= e; if (want) x.s.erase(x.s.begin() + long(a), x.s.begin() + long(e)); t = pbt::fmt("remove_stops %zu %zu", a, b); break; }
      case 5: { double a = off(), b = off(); if (c.chance(3, 4) && a > b) std::swap(a, b); r = x.g.remove_stops_by_offset(a, b); want = !(b < a); if (want && a == a && b == b) { x.s.erase(std::remove_if(x.s.begin(), x.s.end(), [&](const Stop& s) { return s.o >= a && s.o <= b; }), x.s.end()); } else if (want) { if (b == b && a != a) { /* lower bound missing */ c.discard(); } else if (a == a) c.discard(); } t = pbt::fmt("remove_stops_by_offset %g %g", a, b); break; }
      case 6: { size_t a = c.size(8); double o = c.chance(1, 3) && a < x.s.size() ? x.s[a].o : off(); uint64_t q = c.u64(); bool w = c.coin(); if (w) { uint32_t q32 = uint32_t(q); q = c64(q32); r = x.g.replace_stop(a, o, BLRgba32(q32)); } else r = x.g.replace_stop(a, o, BLRgba64(q)); want = a < x.s.size() && ok(o); if (want) { if (x.s[a].o == o) x.s[a].c = q; else { x.s.erase(x.s.begin() + long(a)); m_add(x.s, o, q); } } t = pbt::fmt("replace_stop %zu %g", a, o); break; }
      case 7: { if (!x.s.empty() && c.chance(1, 5)) { size_t p = c.below(x.s.size()), e = p + c.below(x.s.size() - p + 1); r = x.g.assign_stops(x.g.stops() + p, e - p); x.s = Stops(x.s.begin() + long(p), x.s.begin() + long(e)); t = pbt::fmt("assign_stops of its own [%zu, %zu)", p, e); break; } size_t m = c.size(9); std::vector<BLGradientStop> q(m); Stops s; bool good = true; bool sorted = c.coin(); for (size_t j = 0; j < m; j++) { double o = sorted ? double(j) / 9 : off(); if (c.coin() && !ok(o)) o = 0.5; good = good && ok(o); uint64_t cc = c.u64(); q[j].reset(o, BLRgba64(cc)); s.push_back({o, cc}); } r = x.g.assign_stops(q.data(), m); want = good; if (want) x.s = normalised(s); t = pbt::fmt("assign_stops %zu%s", m, sorted ? " sorted" : ""); break; }
      case 8: { size_t j = c.below(3); if (c.chance(3, 4)) { r = x.g.assign(v[j].g); BLGradient keep; (void)keep; if (i != j) { x.s = v[j].s; memcpy(x.val, v[j].val, sizeof x.val); x.type = v[j].type; x.em = v[j].em; x.m = v[j].m; } shared = true; t = pbt::fmt("assign #%zu", j); } else if (i != j) { r = x.g.assign(std::move(v[j].g)); x.s = v[j].s; memcpy(x.val, v[j].val, sizeof x.val); x.type = v[j].type; x.em = v[j].em; x.m = v[j].m; GM& y = v[j]; y.s.clear(); for (auto& d : y.val) d = 0; y.type = BL_GRADIENT_TYPE_LINEAR; y.em = BL_EXTEND_MODE_PAD; y.m.reset(); t = pbt::fmt("move #%zu", j); } break; }
      case 9: { int ty = c.i(0, 3); r = x.g.set_type(BLGradientType(ty)); want = ty <= BL_GRADIENT_TYPE_MAX_VALUE; if (want) x.type = BLGradientType(ty); t = pbt::fmt("set_type %d", ty); break; }
      case 10: { int e = c.i(0, 4); r = x.g.set_extend_mode(BLExtendMode(e)); want = e <= BL_EXTEND_MODE_SIMPLE_MAX_VALUE; if (want) x.em = BLExtendMode(e); t = pbt::fmt("set_extend_mode %d", e); break; }
      case 11: { size_t a = c.below(7); double d = c.i(-9, 9); r = x.g.set_value(a, d); want = a < 6; if (want) x.val[a] = d; t = pbt::fmt("set_value %zu %g", a, d); break; }
      case 12: { size_t a = c.below(7), m = c.below(7); double d[8]; for (auto& q : d) q = c.i(-9, 9); r = x.g.set_values(a, d, m); want = a < 6 && a + m <= 6; if (want) for (size_t j = 0; j < m; j++) x.val[a + j] = d[j]; else if (m == 0) want = r == BL_SUCCESS; t = pbt::fmt("set_values %zu %zu", a, m); break; }
      case 13: { if (c.coin()) r = x.g.reserve(c.size(20)); else r = x.g.shrink(); t = "reserve/shrink"; break; }
      case 14: { x.g.reset(); x.s.clear(); for (auto& d : x.val) d = 0; x.type = BL_GRADIENT_TYPE_LINEAR; x.em = BL_EXTEND_MODE_PAD; x.m.reset(); t = "reset"; break; }
      default: { if (c.coin()) { BLMatrix2D m; m.reset(1, c.i(0, 1), 0, c.i(1, 3), c.i(-5, 5), 2); r = x.g.set_transform(m); x.m = m; t = "set_transform"; } else { size_t m = c.size(5); std::vector<BLGradientStop> q(m); Stops s; for (size_t j = 0; j < m; j++) { double o = c.i(0, 4) / 4.0; uint64_t cc = c.u64(); q[j].reset(o, BLRgba64(cc)); s.push_back({o, cc}); } double d[6]; for (auto& z : d) z = c.i(-9, 9); int ty = c.i(0, 2); BLExtendMode e = BLExtendMode(c.i(0, 2)); for (auto& z : x.val) z = 0; memcpy(x.val, d, size_t(nvals(BLGradientType(ty))) * sizeof(double));
          auto values = [&](auto f) { if (ty == 0) f(BLLinearGradientValues(d[0], d[1], d[2], d[3])); else if (ty == 1) f(BLRadialGradientValues(d[0], d[1], d[2], d[3], d[4], d[5])); else f(BLConicGradientValues(d[0], d[1], d[2], d[3])); };
          int args = c.i(0, 2); bool bad = m && args && c.chance(1, 8); if (bad) q[c.below(m)].offset = c.pickl<double>({-0.5, 1.5, double(NAN)}); BLMatrix2D mt; mt.reset(1, c.i(0, 1), 0, c.i(1, 3), c.i(-5, 5), 2); bool ctor = c.coin(); if (ctor) { if (bad) { memset(x.val, 0, sizeof x.val); }
            values([&](auto v) { if (args == 0) x.g = BLGradient(v, e); else if (args == 1) x.g = BLGradient(v, e, q.data(), m); else x.g = BLGradient(v, e, q.data(), m, mt); }); if (args == 0) s.clear(); if (bad) { x.s.clear(); x.type = BL_GRADIENT_TYPE_LINEAR; x.em = BL_EXTEND_MODE_PAD; x.m.reset(); } }
          else { if (bad) for (size_t z = 0; z < 6; z++) x.val[z] = bl_gradient_get_value(&x.g, z); values([&](auto v) { if (args == 0) r = x.g.create(v, e); else if (args == 1) r = x.g.create(v, e, q.data(), m); else r = x.g.create(v, e, q.data(), m, mt); }); if (args == 0) s.clear(); want = !bad; }
          if (!bad) { x.s = normalised(s); x.type = BLGradientType(ty); x.em = e; if (args == 2) x.m = mt; else x.m.reset(); } t = pbt::fmt("%s type %d with %zu stops%s%s", ctor ? "constructor" : "create", ty, m, args == 2 ? " and a transformation" : "", bad ? ", one invalid" : ""); } break; }
    }
    c.note("#%zu %s -> %u", i, t.c_str(), unsigned(r)); REQUIRE(c, (r == BL_SUCCESS) == want, "#%zu %s returned %u, expected %s", i, t.c_str(), unsigned(r), want ? "success" : "an error");
    for (size_t j = 0; j < 3; j++) { same(c, v[j], pbt::fmt("#%zu", j).c_str()); for (size_t a = 1; a < v[j].s.size(); a++) if (v[j].s[a].o == v[j].s[a - 1].o) dup = true; }
    double q = off(); size_t w = SIZE_MAX; for (size_t a = x.s.size(); a-- > 0;) if (x.s[a].o == q) w = a; REQUIRE(c, x.g.index_of_stop(q) == w, "index_of_stop(%g) = %zu, expected %zu", q, x.g.index_of_stop(q), w);
    for (size_t j = 0; j < 3; j++) if (j != i) { bool eq = x.s == v[j].s && x.type == v[j].type && x.em == v[j].em && x.m == v[j].m; bool ve = true; if (eq) for (size_t a = 0; a < x.s.size(); a++) ve = ve && std::signbit(x.s[a].o) == std::signbit(v[j].s[a].o); for (int a = 0; a < 6; a++) ve = ve && x.val[a] == v[j].val[a]; if (eq && ve) REQUIRE(c, x.g.equals(v[j].g), "equal gradients compare unequal"); for (int a = 0; a < nvals(x.type); a++) if (x.val[a] != v[j].val[a]) eq = false; if (!eq) REQUIRE(c, !x.g.equals(v[j].g), "different gradients compare equal"); }
  }
  c.label(shared, "sharing"); c.label(dup, "equal offsets"); c.nontrivial(shared && n > 8);
}

// ---------------------------------------------------------------- painted colours
struct Ramp {
  Stops s;
  void col(LD t, LD out[4], bool right = true) const {   // premultiplied 0..255 at t in [0,1]
    LD q[4]; auto ch = [](uint64_t v, int k) { return LD((v >> (16 * k + 8)) & 255); }; size_t n = s.size();
    if (t < s[0].o || (!right && t <= s[0].o) || n == 1) for (int k = 0; k < 4; k++) q[k] = ch(s[0].c, k);
    else { size_t i = 0; while (i + 1 < n && (right ? s[i + 1].o <= t : s[i + 1].o < t)) i++; if (i + 1 == n) for (int k = 0; k < 4; k++) q[k] = ch(s[i].c, k); else { LD d = LD(s[i + 1].o) - s[i].o, f = d > 0 ? (t - s[i].o) / d : 1; if (f < 0) f = 0; for (int k = 0; k < 4; k++) q[k] = ch(s[i].c, k) * (1 - f) + ch(s[i + 1].c, k) * f; } }
    for (int k = 0; k < 3; k++) out[k] = q[k] * q[3] / 255; out[3] = q[3];
  }
  static LD fold(LD t, int em) { if (em == 0) return t < 0 ? 0 : t > 1 ? 1 : t; if (em == 1) return t - std::floor(t); LD u = t - 2 * std::floor(t / 2); return u > 1 ? 2 - u : u; }
  void range(LD a, LD b, int em, LD lo[4], LD hi[4]) const {
    for (int k = 0; k < 4; k++) lo[k] = 1e9L, hi[k] = -1e9L; LD q[4]; auto put = [&] { for (int k = 0; k < 4; k++) { lo[k] = std::min(lo[k], q[k]); hi[k] = std::max(hi[k], q[k]); } };
    bool whole = b - a >= 1; if (whole) { a = 0; b = 1; em = 0; }
    for (int i = 0; i <= 8; i++) { LD u = fold(a + (b - a) * i / 8, em); col(u, q); put(); col(u, q, false); put(); }
    for (size_t z = 0; z < s.size(); z++) { bool in = false; LD o = s[z].o; if (em == 0) in = o >= a && o <= b; else for (LD P = em == 2 ? 2 : 1, k = std::floor(a / P) - 2; k <= b / P + 2 && !in; k += 1) in = em == 1 ? (k + o >= a && k + o <= b) : (2 * k + o >= a && 2 * k + o <= b) || (2 * k - o >= a && 2 * k - o <= b); if (in) { Ramp one; one.s = {s[z]}; one.col(0, q); put(); for (size_t y = z ? z - 1 : 0; y <= z && y + 1 < s.size(); y++) if (s[y + 1].o - s[y].o < b - a) for (int i = 1; i < 16; i++) { LD f = i / 16.0L; one.s = s; one.col(s[y].o + (LD(s[y + 1].o) - s[y].o) * f, q); put(); } } }
    if (em == 0) { if (a <= 0) { col(0, q, false); put(); } if (b >= 1) { Ramp one; one.s = {s.back()}; one.col(0, q); put(); } } else for (LD k = std::floor(a); k <= b; k += 1) if (k >= a) { col(0, q, false); put(); col(1, q); put(); }
  }
};
static void ramp(Case& c, Ramp& r, BLGradient& g) {
  int n = c.weighted({1, 6, 3, 3}) ; n = n == 3 ? c.i(4, 9) : n + 1; int kind = c.i(0, 2); Stops s;
  for (int i = 0; i < n; i++) { double o = kind == 0 ? (n == 1 ? 0 : double(i) / (n - 1)) : c.coin() ? c.frac() : c.i(0, 5) / 5.0; uint32_t v = c.u32(); int q = c.weighted({4, 2, 1, 1}); if (q == 0) v |= 0xFF000000u; if (q == 2) v = c.coin() ? 0xFFFFFFFFu : 0xFF000000u; if (q == 3) v &= 0xFFFFFFu; m_add(s, o, c64(v)); }
  r.s = s; for (auto& t : s) { g.add_stop(t.o, BLRgba64(t.c)); c.note("stop %.17g %08x", t.o, BLRgba32(BLRgba64(t.c)).value); } }
static bool invm(const BLMatrix2D& m, LD o[6]) { LD D = LD(m.m00) * m.m11 - LD(m.m01) * m.m10; if (std::fabs(D) < 1e-6L) return false; o[0] = m.m11 / D; o[1] = -m.m01 / D; o[2] = -m.m10 / D; o[3] = m.m00 / D; o[4] = (LD(m.m10) * m.m21 - LD(m.m11) * m.m20) / D; o[5] = (LD(m.m01) * m.m20 - LD(m.m00) * m.m21) / D; return true; }
static void gmatrix(Case& c, BLMatrix2D& m, int w, int h) {
  m.reset(); switch (c.weighted({5, 2, 2, 2, 2, 2})) { case 0: break; case 1: m.translate(c.real(-9, 9), c.real(-9, 9)); break; case 2: m.scale(c.real(0.4, 3), c.coin() ? 1 : c.real(0.4, 3)); if (c.chance(1, 4)) m.scale(-1, 1); break; case 3: m.rotate(c.real(-4, 4), w / 2.0, h / 2.0); if (c.coin()) m.scale(c.real(0.5, 2)); break;
    case 4: m.rotate(c.real(-4, 4)); m.scale(c.real(0.5, 2), c.real(0.5, 2)); m.rotate(c.real(-4, 4)); m.post_translate(c.i(0, w), c.i(0, h)); break; default: m.skew(c.real(-1, 1), c.real(-0.5, 0.5)); m.translate(c.real(-5, 5), c.real(-5, 5)); }
}
static void paint(Case& c, int type) {
  int w = c.i(1, 64), h = c.i(1, 24); BLGradient g; Ramp r; int em = c.i(0, BL_EXTEND_MODE_SIMPLE_MAX_VALUE); bool dither = c.chance(1, 4); BLMatrix2D gm, cm; gmatrix(c, gm, w, h); cm.reset(); if (c.chance(1, 4)) gmatrix(c, cm, w, h);
  LD x0 = 0, y0 = 0, x1 = 0, y1 = 0, r0 = 0, r1 = 0, ang = 0, rep = 1;
  if (type == 0) { double a = c.real(-w, 2 * w), b = c.real(-h, 2 * h), d = c.real(-w, 2 * w), e = c.real(-h, 2 * h); if (c.chance(1, 4)) { a = 0; d = w; e = b; } x0 = a; y0 = b; x1 = d; y1 = e; if ((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0) < 4) c.discard(); g.create(BLLinearGradientValues(a, b, d, e)); }
  else if (type == 1) { double a = c.real(-10, w + 10), b = c.real(-10, h + 10), R = c.real(3, 60), q = c.chance(1, 3) ? c.real(0, R * 0.6) : 0, l = c.coin() ? 0 : c.frac() * 0.9 * std::max(0.0, R - q - 1), th = c.real(0, 6.3), fx = a + l * std::cos(th), fy = b + l * std::sin(th); x0 = a; y0 = b; x1 = fx; y1 = fy; r0 = R; r1 = q; if (R - q < 2) c.discard(); g.create(BLRadialGradientValues(a, b, fx, fy, R, q)); }
  else { double a = c.real(-10, w + 10), b = c.real(-10, h + 10), t = c.coin() ? c.i(-4, 4) * 0.78539816339744831 : c.real(-9, 9), q = c.coin() ? 1 : c.i(1, 5); x0 = a; y0 = b; ang = t; rep = q; g.create(BLConicGradientValues(a, b, t, q)); em = 1; }
  g.set_extend_mode(BLExtendMode(em)); ramp(c, r, g); g.set_transform(gm); BLMatrix2D total(gm); total.post_transform(cm); LD iv[6]; if (!invm(total, iv)) c.discard();
  c.note("%dx%d type %d extend %d dither %d values %.17Lg %.17Lg %.17Lg %.17Lg r %.17Lg %.17Lg angle %.17Lg repeat %Lg gradient matrix [%.17g %.17g %.17g %.17g %.17g %.17g] context [%.17g %.17g %.17g %.17g %.17g %.17g]", w, h, type, em, dither, x0, y0, x1, y1, r0, r1, ang, rep, gm.m00, gm.m01, gm.m10, gm.m11, gm.m20, gm.m21, cm.m00, cm.m01, cm.m10, cm.m11, cm.m20, cm.m21);
  BLImage img(w, h, BL_FORMAT_PRGB32); int how = c.i(0, 3); { BLContextCreateInfo ci{}; if (c.chance(1, 25)) ci.thread_count = 2; BLContext x(img, ci); x.set_comp_op(BL_COMP_OP_SRC_COPY); x.fill_all(BLRgba32(0x12345678)); x.apply_transform(cm); x.set_gradient_quality(dither ? BL_GRADIENT_QUALITY_DITHER : BL_GRADIENT_QUALITY_NEAREST);
    BLResult e; if (how == 0) e = x.fill_all(g); else { x.set_fill_style(g); x.reset_transform(); if (how == 1) e = x.fill_all(); else if (how == 2) e = x.fill_rect(BLRect(0, 0, w, h)); else e = x.fill_triangle(-200, -200, 1000, -200, -200, 1000); } REQUIRE(c, e == BL_SUCCESS, "drawing failed"); x.end(); }
  BLImageData d; img.get_data(&d); bool varied = false; const LD PI = 3.14159265358979323846264L; LD gmag = 0; int checked = 0;
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    LD px = x + .5L, py = y + .5L, u = px * iv[0] + py * iv[2] + iv[4], v = px * iv[1] + py * iv[3] + iv[5], t, noise = 1e-5L;
    if (type == 0) t = ((u - x0) * (x1 - x0) + (v - y0) * (y1 - y0)) / ((x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0));
    else if (type == 1) { LD dx = x0 - x1, dy = y0 - y1, dr = r0 - r1, A = dr * dr - dx * dx - dy * dy, bx = u - x1, by = v - y1, B = dr * r1 + bx * dx + by * dy, C = bx * bx + by * by - r1 * r1, D = B * B + A * C; if (D < 0) continue; LD sq = std::sqrt(D); t = (-0 + B * -1 + sq) / A; t = (sq - B) / A;
      // evaluated incrementally in single precision: error of the square root argument
      LD mag = (B * B + std::fabs(A * C) + 1) + (std::fabs(u - x1) + std::fabs(v - y1) + 64 * (std::fabs(iv[0]) + std::fabs(iv[1]))) * (std::fabs(u - x1) + std::fabs(v - y1) + 64 * (std::fabs(iv[0]) + std::fabs(iv[1]))) * r0 * r0; LD e = mag * 1e-6L; noise += (sq > 1e-9L ? std::min(e / sq, std::sqrt(e)) : std::sqrt(e)) / A + 2e-6L * (std::fabs(B) + r0 * 64) / A; if (t < 0 && em != 0 && t > -0.02L) continue; }
    else { LD dx = u - x0, dy = v - y0; if (dx * dx + dy * dy < 0.04L) continue; t = (std::atan2(dy, dx) - ang) / (2 * PI) * rep; noise += rep * 1e-5L + rep / std::sqrt(dx * dx + dy * dy) * 1e-5L; }
    LD dl = 2.6L / 256 + noise, lo[4], hi[4]; r.range(t - dl, t + dl, em, lo, hi); uint32_t got = px32(d, x, y); gmag = std::max(gmag, std::fabs(t)); checked++;
    for (int k = 0; k < 4; k++) { LD gv = (got >> (8 * k)) & 255; if (gv < lo[k] - 2.01L || gv > hi[k] + 2.01L) c.fail("pixel %d,%d (gradient position %.6Lf, gradient space %.4Lf,%.4Lf) is %08x, channel %d expected %.2Lf..%.2Lf", x, y, t, u, v, got, k, lo[k] - 2, hi[k] + 2); }
    if (got != px32(d, 0, 0)) varied = true;
  }
  c.label(dither, "dither"); c.label(em == 2, "reflect"); c.label(!(gm == BLMatrix2D::make_identity()), "transformed"); c.nontrivial(varied && checked > 4);
}
static void linear(Case& c) { paint(c, 0); }
static void radial(Case& c) { paint(c, 1); }
static void conic(Case& c) { paint(c, 2); }

// ---------------------------------------------------------------- editing a gradient that was painted
// A gradient paints what a new gradient with the same data paints, whenever its tables were made.
static std::vector<uint32_t> painted(const BLGradient& g, bool dither) { BLImage i(24, 6, BL_FORMAT_PRGB32); { BLContext x(i); x.set_gradient_quality(dither ? BL_GRADIENT_QUALITY_DITHER : BL_GRADIENT_QUALITY_NEAREST); x.set_comp_op(BL_COMP_OP_SRC_COPY); x.fill_all(g); x.end(); } BLImageData d; i.get_data(&d); std::vector<uint32_t> r; for (int y = 0; y < 6; y++) { auto* p = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(d.pixel_data) + y * d.stride); r.insert(r.end(), p, p + 24); } return r; }
static void edited(Case& c) {
  BLGradient v[2]; v[0].create(BLLinearGradientValues(0, 0, 24, c.i(0, 6))); for (int i = c.i(1, 4); i > 0; i--) v[0].add_stop(c.i(0, 6) / 6.0, BLRgba32(c.u32())); v[1] = v[0]; int n = c.i(2, 12); bool drawn = false, changed = false;
  auto col = [&] { return c.coin() ? BLRgba64(c.u64()) : BLRgba64(BLRgba32(c.u32() | 0xFF000000u)); }; auto off = [&] { return c.i(0, 6) / 6.0; };
  for (int k = 0; k < n; k++) {
    BLGradient& g = v[c.below(2)]; BLGradient& o = &g == v ? v[1] : v[0]; size_t z = g.size(), at = z ? c.below(z) : 0; int op = c.i(0, 14);
    switch (op) {
      case 0: case 1: case 2: painted(g, c.coin()); drawn = true; c.note("paint %d", int(&g - v)); continue;
      case 3: { double a = off(); BLRgba64 q = col(); if (c.coin()) g.add_stop(a, q); else g.add_stop(a, BLRgba32(q)); break; }
      case 4: { double a = z && c.coin() ? g.stop_at(at).offset : off(); BLRgba64 q = col(); if (c.coin()) g.replace_stop(at, a, q); else g.replace_stop(at, a, BLRgba32(q)); break; }
      case 5: g.remove_stop(at); break;
      case 6: g.remove_stops(BLRange{at, at + c.below(3)}); break;
      case 7: g.remove_stop_by_offset(z ? g.stop_at(at).offset : 0.5, c.coin()); break;
      case 8: { double a = off(), b = off(); g.remove_stops_by_offset(std::min(a, b), std::max(a, b)); break; }
      case 9: { BLGradientStop s[4]; for (auto& t : s) t.reset(off(), col()); g.assign_stops(s, c.below(5)); break; }
      case 10: g.set_extend_mode(BLExtendMode(c.i(0, 2))); break;
      case 11: { size_t i = c.below(6); g.set_value(i, c.i(0, 24)); break; }
      case 12: switch (c.below(4)) { case 0: g.set_type(BLGradientType(c.i(0, 2))); break; case 1: g.rotate(c.real(-3, 3)); break; case 2: g.reset_transform(); break; default: { BLGradientStop s[3]; for (auto& t : s) t.reset(off(), col()); g.create(BLRadialGradientValues(12, 3, 12, 3, c.i(2, 20), 0), BLExtendMode(c.i(0, 2)), s, c.below(4)); } } break;
      case 13: if (c.coin()) g = o; else bl_gradient_assign_move(&g, &o); break;
      default: if (c.coin()) g.reserve(c.below(20)); else if (c.coin()) g.shrink(); else g.reset_stops();
    }
    c.note("edit %d of %d", op, int(&g - v)); if (drawn) changed = true;
    if (c.chance(1, 3) || k + 1 == n) for (auto& h : v) {
      double val[6]; for (size_t i = 0; i < 6; i++) val[i] = h.value(i); BLMatrix2D m = h.transform(); BLGradient f; std::vector<BLGradientStop> st(h.stops(), h.stops() + h.size()); REQUIRE(c, bl_gradient_create(&f, h.type(), val, h.extend_mode(), st.data(), st.size(), &m) == BL_SUCCESS && f.size() == h.size(), "create from the data of a gradient");
      bool d = c.coin(); drawn = true; auto a = painted(h, d), b = painted(f, d); for (size_t i = 0; i < a.size(); i++) REQUIRE(c, a[i] == b[i], "pixel %zu of gradient %d is %08x, a new gradient with the same data gives %08x (%s)", i, int(&h - v), a[i], b[i], d ? "dithered" : "not dithered"); }
  }
  c.nontrivial(changed);
}

int main(int argc, char** argv) {
  pbt::Suite s("C18", "stops: copies share data and the history has more than 8 steps; edited: a gradient was edited after it had been painted; painting: the painted colours vary over the image", argc, argv);
  s.add("stops", stops, {.quick = 150000, .thorough = 2000000, .chunk = 500});
  s.add("edited", edited, {.quick = 20000, .thorough = 500000, .chunk = 250});
  s.add("linear", linear, {.quick = 50000, .thorough = 900000, .chunk = 100});
  s.add("radial", radial, {.quick = 50000, .thorough = 900000, .chunk = 100});
  s.add("conic", conic, {.quick = 50000, .thorough = 900000, .chunk = 100});
  return s.run();
}
