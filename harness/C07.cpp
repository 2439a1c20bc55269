// C07: variants give back what they hold; conversions and comparisons are exact.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "objgen.h"
#include "alloc_track.h"
#include <climits>
#include <cfloat>
using pbt::Case;

struct Num { int kind; bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; };   // 0 null, 1 bool, 2 int, 3 uint, 4 double
static double any_double(Case& c) {
  switch (c.below(7)) {
    case 0: return c.pickl<double>({0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9223372036854775807.0, 9223372036854774784.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709551615.0, 18446744073709549568.0, 9007199254740992.0, 9007199254740993.0, 2147483647.5, -2147483648.5, 4294967295.5, -0.25, 1e300, -1e300});
    case 1: return c.pickl<double>({double(INFINITY), -double(INFINITY), double(NAN), 5e-324, DBL_MAX, -DBL_MAX});
    case 2: return double(c.i(-5, 5));
    case 3: return double(int64_t(c.u64()));
    case 4: return std::ldexp(c.real(-2, 2), c.i(-10, 70));
    case 5: return std::ldexp(1.0, c.i(0, 65)) + c.i(-2, 2);
    default: { uint64_t v = c.u64(); double d; memcpy(&d, &v, 8); return d; }
  }
}
static int64_t any_int(Case& c) { switch (c.below(5)) { case 0: return c.i(-3, 3); case 1: return c.pickl<int64_t>({INT32_MIN, INT32_MAX, int64_t(INT32_MIN) - 1, int64_t(INT32_MAX) + 1, UINT32_MAX, int64_t(UINT32_MAX) + 1, INT64_MIN, INT64_MAX, INT64_MIN + 1, INT64_MAX - 1, 1ll << 53, (1ll << 53) + 1, -(1ll << 53) - 1, INT64_MAX - 511, INT64_MAX - 1023}); case 2: return int64_t(uint64_t(1) << c.below(64)) + c.i(-1, 1) * 1; case 3: return int64_t(c.u32()); default: return int64_t(c.u64()); } }
static Num any(Case& c) { Num n; n.kind = c.weighted({1, 2, 5, 5, 7}); n.b = c.coin(); if (n.kind == 2) n.i = any_int(c); if (n.kind == 3) n.u = c.chance(1, 4) ? c.pickl<uint64_t>({UINT64_MAX, UINT64_MAX - 1, UINT64_MAX - 1023, UINT64_MAX - 2047, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1}) : uint64_t(any_int(c)); if (n.kind == 4) n.d = any_double(c); return n; }
// Sometimes a value that equals another one, of another type.
static Num like(Case& c, const Num& a) { Num n = any(c); if (!c.chance(2, 3)) return n; long double v = a.kind == 1 ? a.b : a.kind == 2 ? (long double)a.i : a.kind == 3 ? (long double)a.u : (long double)a.d; if (c.chance(1, 4)) v += c.i(-1, 1); if (std::isnan(a.d) && a.kind == 4) { n.kind = 4; n.d = c.coin() ? NAN : -double(NAN); return n; } n.kind = c.i(1, 4); n.b = v != 0; if (n.kind == 2) { if (v >= -9223372036854775808.0L && v <= 9223372036854775807.0L) n.i = int64_t(v); else n.i = any_int(c); } if (n.kind == 3) { if (v >= 0 && v <= 18446744073709551615.0L) n.u = uint64_t(v); else n.u = uint64_t(any_int(c)); } if (n.kind == 4) n.d = double(v); return n; }
static std::string show(const Num& n) { switch (n.kind) { case 0: return "null"; case 1: return n.b ? "true" : "false"; case 2: return pbt::fmt("int %lld", (long long)n.i); case 3: return pbt::fmt("uint %llu", (unsigned long long)n.u); default: return pbt::fmt("double %.17g (%a)", n.d, n.d); } }
static long double value(const Num& n) { return n.kind == 1 ? n.b : n.kind == 2 ? (long double)n.i : n.kind == 3 ? (long double)n.u : (long double)n.d; }
static bool equal(const Num& a, const Num& b) { if (!a.kind || !b.kind) return a.kind == b.kind; bool na = a.kind == 4 && std::isnan(a.d), nb = b.kind == 4 && std::isnan(b.d); if (na || nb) return na && nb; return value(a) == value(b); }
static void put(Case& c, BLVar& v, const Num& n) {
  bool narrow = c.coin(), ctor = c.chance(1, 3);
  switch (n.kind) {
    case 0: if (c.coin()) v.reset(); else bl_var_assign_null(&v); break;
    case 1: if (ctor) { v = BLVar(n.b); } else v.assign(n.b); break;
    case 2: if (narrow && n.i == int32_t(n.i)) { int32_t x = int32_t(n.i); if (ctor) v = BLVar(x); else v = x; } else { int64_t x = n.i; if (ctor) v = BLVar(x); else v = x; } break;
    case 3: if (narrow && n.u == uint32_t(n.u)) { uint32_t x = uint32_t(n.u); if (ctor) v = BLVar(x); else v = x; } else { uint64_t x = n.u; if (ctor) v = BLVar(x); else v = x; } break;
    default: if (ctor) { double x = n.d; v = BLVar(x); } else v = n.d;
  }
}
static void start(Case& c, BLVar& v) { switch (c.below(4)) { case 0: v.assign(BLString("a string that doesn't fit to the static storage of a variable")); break; case 1: v.assign(og::some_path(c)); break; case 2: v = 5; break; default: break; } }

template<class I> static void check_int(Case& c, const Num& n, BLResult r, I out, const char* what) {
  long double lo = (long double)std::numeric_limits<I>::min(), hi = (long double)std::numeric_limits<I>::max();
  if (n.kind == 4 && std::isnan(n.d)) { REQUIRE(c, r != BL_SUCCESS && out == 0, "%s of NaN: result %X, %lld", what, unsigned(r), (long long)out); return; }
  long double v = n.kind ? value(n) : 0, t = std::trunc(v); I want = t < lo ? std::numeric_limits<I>::min() : t > hi ? std::numeric_limits<I>::max() : I(t);
  REQUIRE(c, out == want, "%s gave %lld (%llu) instead of %lld, result %X", what, (long long)out, (unsigned long long)out, (long long)want, unsigned(r));
  REQUIRE(c, (r == BL_SUCCESS) == ((long double)want == v), "%s: result is %X", what, unsigned(r));
}

static void numbers(Case& c) {
  BLVar v; start(c, v); Num n = any(c); c.note("%s", show(n).c_str()); put(c, v, n); static const BLObjectType types[] = {BL_OBJECT_TYPE_NULL, BL_OBJECT_TYPE_BOOL, BL_OBJECT_TYPE_INT64, BL_OBJECT_TYPE_UINT64, BL_OBJECT_TYPE_DOUBLE};
  if (c.chance(1, 3)) { BLVar w; start(c, w); switch (c.below(3)) { case 0: w = v; v.reset(); v = w; break; case 1: w = std::move(v); REQUIRE(c, v.type() == types[n.kind] || v.is_null(), "type of a moved-from variant is %d", int(v.type())); v.assign(static_cast<const BLVar&>(w)); break; default: w.swap(v); v = std::move(w); } }
  REQUIRE(c, v.type() == types[n.kind] && bl_var_get_type(&v) == types[n.kind], "type is %d", int(v.type()));
  REQUIRE(c, v.is_null() == (n.kind == 0) && v.is_bool() == (n.kind == 1) && v.is_int64() == (n.kind == 2) && v.is_uint64() == (n.kind == 3) && v.is_double() == (n.kind == 4) && !v.is_string() && !v.is_array() && !v.is_style() == (n.kind != 0), "type predicates are wrong");
  bool b = true; BLResult r = v.to_bool(&b); bool wb = n.kind == 4 ? n.d != 0 && !std::isnan(n.d) : n.kind && value(n) != 0; REQUIRE(c, r == BL_SUCCESS && b == wb, "to_bool: result %X, %d", unsigned(r), int(b));
  int32_t i32 = 77; r = v.to_int32(&i32); check_int(c, n, r, i32, "to_int32"); int64_t i64 = 77; r = v.to_int64(&i64); check_int(c, n, r, i64, "to_int64"); uint32_t u32 = 77; r = v.to_uint32(&u32); check_int(c, n, r, u32, "to_uint32"); uint64_t u64 = 77; r = v.to_uint64(&u64); check_int(c, n, r, u64, "to_uint64");
  double d = 77; r = v.to_double(&d); double wd = n.kind == 4 ? n.d : n.kind ? double(value(n)) : 0; REQUIRE(c, memcmp(&d, &wd, 8) == 0, "to_double gave %a", d); bool exact = n.kind == 4 || n.kind == 0 || (long double)wd == value(n); REQUIRE(c, (r == BL_SUCCESS) == exact, "to_double: result %X", unsigned(r));
  BLRgba rg; BLRgba32 r32; BLRgba64 r64; REQUIRE(c, v.to_rgba(&rg) != BL_SUCCESS && v.to_rgba32(&r32) != BL_SUCCESS && v.to_rgba64(&r64) != BL_SUCCESS, "a number was converted to a color");
  c.label(n.kind == 4, "double"); c.label(n.kind == 4 && std::fabs(n.d) >= 9e18, "huge double"); c.nontrivial(n.kind > 1);
}

static void equality(Case& c) {
  Num a = any(c), b = like(c, a); c.note("%s, %s", show(a).c_str(), show(b).c_str()); BLVar x, y; put(c, x, a); put(c, y, b); bool want = equal(a, b);
  REQUIRE(c, x.equals(y) == want && y.equals(x) == want && (x == y) == want && (x != y) == !want, "equality of variants isn't %d (%d, %d)", want, x.equals(y), y.equals(x));
  REQUIRE(c, bl_var_equals_null(&x) == (a.kind == 0), "equals_null");
  Num q = b; q.kind = 1; REQUIRE(c, bl_var_equals_bool(&x, b.b) == (a.kind && equal(a, q)), "equals_bool(%d)", b.b);
  if (b.kind == 2) { REQUIRE(c, bl_var_equals_int64(&x, b.i) == want && (x == b.i) == want, "equals_int64"); if (b.i == int32_t(b.i)) REQUIRE(c, (x == int32_t(b.i)) == want, "== int32_t"); }
  if (b.kind == 3) { REQUIRE(c, bl_var_equals_uint64(&x, b.u) == want && (x == b.u) == want, "equals_uint64"); if (b.u == uint32_t(b.u)) REQUIRE(c, (x == uint32_t(b.u)) == want, "== uint32_t"); }
  if (b.kind == 4) { REQUIRE(c, bl_var_equals_double(&x, b.d) == want && (x == b.d) == want, "equals_double"); }
  bool same = a.kind == b.kind && (a.kind == 0 || (a.kind == 1 && a.b == b.b) || (a.kind == 2 && a.i == b.i) || (a.kind == 3 && a.u == b.u) || (a.kind == 4 && memcmp(&a.d, &b.d, 8) == 0)); REQUIRE(c, x.strict_equals(y) == same, "strict_equals");
  BLVar s(BLString("text")); REQUIRE(c, !x.equals(s) && !s.equals(x), "a number equals a string"); c.label(want, "equal"); c.label(want && a.kind != b.kind, "equal, other type"); c.nontrivial(a.kind > 1 && b.kind > 1);
}

static void colors(Case& c) {
  BLVar v; start(c, v); int k = c.i(0, 2); bool ctor = c.coin();
  if (k == 0) {
    BLRgba r; float* f = &r.r; for (int i = 0; i < 4; i++) { switch (c.below(4)) { case 0: f[i] = float(c.frac()); break; case 1: f[i] = c.pickl<float>({0.0f, -0.0f, 1.0f, -1.0f, 2.0f, -0.5f, INFINITY, -INFINITY, NAN, -NAN, FLT_MAX, -FLT_MAX, 1e-40f}); break; case 2: { uint32_t b = c.u32(); memcpy(&f[i], &b, 4); break; } default: f[i] = float(c.i(0, 255)) / 255.0f; } }
    c.note("rgba %g %g %g %g", double(r.r), double(r.g), double(r.b), double(r.a)); if (ctor) v = BLVar(r); else if (c.coin()) v = r; else bl_var_assign_rgba(&v, &r);
    REQUIRE(c, v.is_rgba() && v.type() == BL_OBJECT_TYPE_RGBA && v.is_style(), "type is %d", int(v.type())); bool neg = std::signbit(r.a); BLRgba want = r; if (neg) want.a = 0; BLRgba out; REQUIRE(c, v.to_rgba(&out) == BL_SUCCESS && memcmp(&out, &want, 12) == 0, "color components changed"); REQUIRE(c, memcmp(&out.a, &want.a, 4) == 0, "alpha is %g instead of %g", double(out.a), double(want.a)); REQUIRE(c, memcmp(&v.as<BLRgba>(), &want, 16) == 0, "as<BLRgba>() is wrong"); REQUIRE(c, v.equals(want) && bl_var_equals_rgba(&v, &want), "the color isn't equal to itself");
    BLRgba32 o32; REQUIRE(c, v.to_rgba32(&o32) == BL_SUCCESS && o32 == want.to_rgba32(), "to_rgba32 gave %08X", o32.value); BLRgba64 o64; REQUIRE(c, v.to_rgba64(&o64) == BL_SUCCESS && o64 == want.to_rgba64(), "to_rgba64 is wrong"); BLVar w(v); REQUIRE(c, w == v, "copy differs"); c.label(neg, "negative alpha");
  }
  else if (k == 1) {
    BLRgba32 r(c.u32()); c.note("rgba32 %08X", r.value); if (ctor) v = BLVar(r); else if (c.coin()) v = r; else bl_var_assign_rgba32(&v, r.value); REQUIRE(c, v.is_rgba32() && !v.is_rgba() && v.is_style() && v.as<BLRgba32>() == r, "rgba32 isn't held"); BLRgba32 o; REQUIRE(c, v.to_rgba32(&o) == BL_SUCCESS && o == r, "to_rgba32"); BLRgba64 q; uint64_t w64 = 0; for (int s = 0; s < 4; s++) w64 |= uint64_t((r.value >> (8 * s)) & 255) * 0x101u << (16 * s); REQUIRE(c, v.to_rgba64(&q) == BL_SUCCESS && q.value == w64, "to_rgba64 gave %016llX", (unsigned long long)q.value);
    BLRgba f; REQUIRE(c, v.to_rgba(&f) == BL_SUCCESS && f == BLRgba(r), "to_rgba"); REQUIRE(c, v.equals(r) && v.equals(BLRgba64(r)) && bl_var_equals_rgba(&v, &f), "equality"); BLRgba32 other(r.value ^ (1u << c.below(32))); REQUIRE(c, !v.equals(other) && !v.equals(BLVar(other)) && v.equals(BLVar(r)), "inequality"); REQUIRE(c, f.to_rgba32() == r, "round trip through BLRgba gave %08X", f.to_rgba32().value);
  }
  else {
    BLRgba64 r(c.u64()); c.note("rgba64 %016llX", (unsigned long long)r.value); if (ctor) v = BLVar(r); else if (c.coin()) v = r; else bl_var_assign_rgba64(&v, r.value); REQUIRE(c, v.is_rgba64() && v.is_style() && v.as<BLRgba64>() == r, "rgba64 isn't held"); BLRgba64 o; REQUIRE(c, v.to_rgba64(&o) == BL_SUCCESS && o == r, "to_rgba64"); BLRgba32 q; uint32_t w = 0; for (int s = 0; s < 4; s++) w |= uint32_t((r.value >> (16 * s + 8)) & 255) << (8 * s); REQUIRE(c, v.to_rgba32(&q) == BL_SUCCESS && q.value == w, "to_rgba32 gave %08X instead of %08X", q.value, w);
    BLRgba f; REQUIRE(c, v.to_rgba(&f) == BL_SUCCESS && f == BLRgba(r), "to_rgba"); REQUIRE(c, f.to_rgba64() == r, "round trip through BLRgba"); BLRgba64 other(r.value ^ (uint64_t(1) << c.below(64))); REQUIRE(c, v.equals(r) && !v.equals(other) && v.equals(BLVar(r)) && !v.equals(BLVar(other)), "equality");
  }
  // Numbers aren't colors, whatever their bits are.
  { BLVar n; switch (c.below(4)) { case 0: n = c.coin(); break; case 1: n = int64_t(v._d.u64_data[0]); break; case 2: n = uint64_t(v._d.u64_data[0]); break; default: if (c.coin()) n = double(c.u32()); } BLRgba f; memcpy(&f, &n, 16); REQUIRE(c, !bl_var_equals_rgba(&n, &f) && !bl_var_equals_rgba32(&n, n._d.u32_data[0]) && !bl_var_equals_rgba64(&n, n._d.u64_data[0]), "a number of type %d equals a color", int(n.type())); REQUIRE(c, !v.equals(n) && !n.equals(v), "variants of a color and a number are equal"); REQUIRE(c, !bl_var_equals_null(&v) && !bl_var_equals_bool(&v, true) && !bl_var_equals_int64(&v, v._d.i64_data[0]) && !bl_var_equals_uint64(&v, v._d.u64_data[0]) && !bl_var_equals_double(&v, v._d.f64_data[0]), "a color equals a number"); }
  bool b; REQUIRE(c, v.to_bool(&b) != BL_SUCCESS, "a color was converted to bool"); c.nontrivial(true);
}

template<class T> static void object(Case& c, BLObjectType type, const char* name) {
  T value = og::build<T>(c, c.i(0, 6)); std::string want = og::fp(value); c.note("%s: %s", name, want.substr(0, 300).c_str()); BLVar v; start(c, v);
  switch (c.below(4)) { case 0: v = value; break; case 1: { T t(value); v = std::move(t); REQUIRE(c, og::fp(t) == og::fp(T()), "a moved-from %s isn't a default one: %s", name, og::fp(t).c_str()); break; } case 2: v = BLVar(value); break; default: bl_var_assign_weak(&v, &value); }
  REQUIRE(c, v.type() == type, "type is %d", int(v.type())); REQUIRE(c, og::fp(v.as<T>()) == want && og::fp(v) == want, "held: %s", og::fp(v).c_str()); BLVar w(value); REQUIRE(c, v == w && v.equals(value), "variants holding the same %s aren't equal", name);
  { BLRgba f(0, 0, 0, 0); memcpy(&f, &v, c.coin() ? 16 : 8); REQUIRE(c, !bl_var_equals_null(&v) && !bl_var_equals_bool(&v, true) && !bl_var_equals_bool(&v, false) && !bl_var_equals_int64(&v, int64_t(v._d.u64_data[0])) && !bl_var_equals_uint64(&v, v._d.u64_data[0]) && !bl_var_equals_double(&v, v._d.f64_data[0]) && !bl_var_equals_rgba(&v, &f) && !bl_var_equals_rgba32(&v, v._d.u32_data[0]) && !bl_var_equals_rgba64(&v, v._d.u64_data[0]), "a %s equals a plain value", name); BLVar n = c.coin() ? BLVar(int64_t(c.u64())) : BLVar(BLRgba32(c.u32())); REQUIRE(c, !v.equals(n) && !n.equals(v) && !v.strict_equals(n), "a %s equals a plain variant", name); }
  double d; int64_t i; REQUIRE(c, v.to_double(&d) != BL_SUCCESS && v.to_int64(&i) != BL_SUCCESS, "an object was converted to a number");
  bool b = false; BLResult r = v.to_bool(&b); if (type == BL_OBJECT_TYPE_STRING) REQUIRE(c, r == BL_SUCCESS && b == (v.as<BLString>().size() != 0), "to_bool of a string: result %X, %d", unsigned(r), int(b)); else REQUIRE(c, r != BL_SUCCESS && !b, "an object was converted to bool");
  auto o = og::op(c, static_cast<const T*>(nullptr)); T model(value); BLResult r1 = o.run(v.template as<T>()); BLResult r2 = o.run(model); REQUIRE(c, r1 == r2 && og::fp(v) == og::fp(model), "%s through a variant: %s instead of %s", o.text.c_str(), og::fp(v).c_str(), og::fp(model).c_str()); REQUIRE(c, og::fp(value) == want && og::fp(w) == want, "another variant was changed by %s", o.text.c_str());
  if (og::fp(model) != want && type != BL_OBJECT_TYPE_FONT) REQUIRE(c, !(v == w), "variants holding different objects are equal");
  T back = v.template as<T>(); v.reset(); REQUIRE(c, v.is_null() && og::fp(back) == og::fp(model), "value was lost by a reset of the variant"); c.nontrivial(want.size() > 20);
}
static void objects(Case& c) {
  switch (c.below(13)) {
    case 0: object<BLString>(c, BL_OBJECT_TYPE_STRING, "string"); break; case 1: object<BLArray<int>>(c, BL_OBJECT_TYPE_ARRAY_INT32, "array of int"); break; case 2: object<BLArray<double>>(c, BL_OBJECT_TYPE_ARRAY_FLOAT64, "array of double"); break;
    case 3: object<BLArray<BLString>>(c, BL_OBJECT_TYPE_ARRAY_OBJECT, "array of strings"); break; case 4: object<BLBitSet>(c, BL_OBJECT_TYPE_BIT_SET, "bit set"); break; case 5: object<BLBitArray>(c, BL_OBJECT_TYPE_BIT_ARRAY, "bit array"); break;
    case 6: object<BLPath>(c, BL_OBJECT_TYPE_PATH, "path"); break; case 7: object<BLImage>(c, BL_OBJECT_TYPE_IMAGE, "image"); break; case 8: object<BLGradient>(c, BL_OBJECT_TYPE_GRADIENT, "gradient"); break; case 9: object<BLPattern>(c, BL_OBJECT_TYPE_PATTERN, "pattern"); break;
    case 10: object<BLFont>(c, BL_OBJECT_TYPE_FONT, "font"); break; case 11: object<BLFontFeatureSettings>(c, BL_OBJECT_TYPE_FONT_FEATURE_SETTINGS, "feature settings"); break; default: object<BLFontVariationSettings>(c, BL_OBJECT_TYPE_FONT_VARIATION_SETTINGS, "variation settings"); break;
  }
}

// Histories of assignments between variants.
static void histories(Case& c) {
  og::font_bytes(); og::shared_face(); { BLImage w(2, 2, BL_FORMAT_PRGB32); BLContext x(w); x.fill_all(BLRgba32(5)); x.end(); } long before = at::live;
  {
    std::vector<BLVar> v(4); std::vector<std::string> m(4, "null"); int n = c.i(1, 30);
    for (int s = 0; s < n; s++) {
      size_t a = c.below(4), b = c.below(4);
      switch (c.below(8)) {
        case 0: case 1: case 2: { auto o = og::op(c, static_cast<const BLVar*>(nullptr)); c.note("v%zu %s", a, o.text.c_str()); BLVar t; o.run(t); BLResult r = o.run(v[a]); REQUIRE(c, r == BL_SUCCESS, "assignment returned %X", unsigned(r)); m[a] = og::fp(t); break; }
        case 3: c.note("v%zu = v%zu", a, b); v[a].assign(static_cast<const BLVar&>(v[b])); m[a] = m[b]; break;
        case 4: { c.note("v%zu = move(v%zu)", a, b); BLObjectType t = v[b].type(); std::string old = m[b]; v[a] = std::move(v[b]); BLVar e; bl_var_init_type(&e, t); if (a != b) { m[a] = old; m[b] = og::fp(e); } else { m[a] = og::fp(v[a]); REQUIRE(c, m[a] == old || m[a] == og::fp(e), "self-move gave %s", m[a].c_str()); } break; }
        case 5: c.note("swap v%zu v%zu", a, b); v[a].swap(v[b]); std::swap(m[a], m[b]); break;
        case 6: c.note("v%zu reset", a); v[a].reset(); m[a] = "null"; break;
        default: { c.note("v%zu: new copy of v%zu", a, b); BLVar t(v[b]); v[a] = std::move(t); m[a] = m[b]; break; }
      }
      for (size_t i = 0; i < 4; i++) REQUIRE(c, og::fp(v[i]) == m[i], "v%zu is %s instead of %s", i, og::fp(v[i]).substr(0, 300).c_str(), m[i].substr(0, 300).c_str());
      REQUIRE(c, v[a] == v[a], "a variant isn't equal to itself"); if (m[a] == m[b] && v[a].type() == v[b].type() && v[a].type() != BL_OBJECT_TYPE_FONT && v[a].type() != BL_OBJECT_TYPE_FONT_FACE && v[a].type() != BL_OBJECT_TYPE_FONT_DATA) REQUIRE(c, v[a] == v[b], "equal variants differ");
    }
    c.nontrivial(n > 4);
  }
  REQUIRE(c, at::live == before, "%ld blocks of memory remain allocated", long(at::live) - before);
}

int main(int argc, char** argv) {
  pbt::Suite s("C07", "non-trivial = a value other than null and bool was converted (numbers), two such values compared (equality), every color, an object with content (objects), more than 4 assignments (histories)", argc, argv);
  s.add("numbers", numbers, {.quick = 400000, .thorough = 8000000});
  s.add("equality", equality, {.quick = 150000, .thorough = 6000000});
  s.add("colors", colors, {.quick = 100000, .thorough = 3000000});
  s.add("objects", objects, {.quick = 80000, .thorough = 1000000});
  s.add("histories", histories, {.quick = 40000, .thorough = 600000});
  s.assume("an inexact conversion (fraction, value out of range) returns an error and stores the truncated and clamped value; comparison of a BLRgba with other color types in BLVar::equals isn't checked (the C++ wrapper compares it bitwise, bl_var_equals_rgba converts)");
  s.assume("negative alpha of BLRgba is stored as zero (a variant cannot represent it)");
  return s.run();
}
