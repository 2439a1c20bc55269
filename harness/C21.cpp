// C21: pixel conversion against a per-pixel reference for generated pixel formats.
#include <blend2d/blend2d.h>
#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"
using pbt::Case;

struct Px { unsigned c[4]; };   // r g b a, 8-bit each
enum Kind { kNone, kStraight, kPremul };
static Kind kind(const BLFormatInfo& f) { return !(f.flags & BL_FORMAT_FLAG_ALPHA) ? kNone : (f.flags & BL_FORMAT_FLAG_PREMULTIPLIED) ? kPremul : kStraight; }
static bool indexed(const BLFormatInfo& f) { return (f.flags & BL_FORMAT_FLAG_INDEXED) != 0; }
static std::string show(const BLFormatInfo& f) {
  std::string s = pbt::fmt("depth %u flags", f.depth); for (auto p : {std::make_pair(1u, "rgb"), std::make_pair(2u, "alpha"), std::make_pair(4u, "lum"), std::make_pair(16u, "indexed"), std::make_pair(256u, "premultiplied"), std::make_pair(512u, "byte-swap")}) if (f.flags & p.first) s += std::string(" ") + p.second;
  if (!indexed(f)) s += pbt::fmt(" sizes %u %u %u %u shifts %u %u %u %u", f.sizes[0], f.sizes[1], f.sizes[2], f.sizes[3], f.shifts[0], f.shifts[1], f.shifts[2], f.shifts[3]);
  return s;
}
static uint64_t load(const uint8_t* p, const BLFormatInfo& f) { uint64_t v = 0; unsigned n = f.depth / 8; for (unsigned i = 0; i < n; i++) v |= uint64_t(p[i]) << (8 * ((f.flags & BL_FORMAT_FLAG_BYTE_SWAP) ? n - 1 - i : i)); return v; }
static unsigned comp(uint64_t v, const BLFormatInfo& f, int i) { return unsigned(v >> f.shifts[i]) & ((1u << f.sizes[i]) - 1); }
static unsigned widen(unsigned v, unsigned size) { if (size >= 8) return v >> (size - 8); unsigned r = 0, n = 0; while (n < 8) r = (r << size) | v, n += size; return r >> (n - 8); }
static unsigned narrow(unsigned v, unsigned size) { return size <= 8 ? v >> (8 - size) : (v * 0x0101u) >> (16 - size); }
static unsigned div255(unsigned x) { return (2 * x + 255) / 510; }

static void lay(Case& c, BLFormatInfo& f, std::vector<int> comps) {
  // Random order and gaps.
  for (size_t i = comps.size(); i > 1; i--) std::swap(comps[i - 1], comps[c.below(i)]);
  unsigned total = 0; for (int k : comps) total += f.sizes[k];
  unsigned spare = f.depth - total, at = 0; for (int k : comps) { unsigned g = c.coin() ? 0 : unsigned(c.below(spare + 1)); spare -= g; at += g; f.shifts[k] = uint8_t(at); at += f.sizes[k]; }
}
static BLFormatInfo format(Case& c, bool dst) {
  BLFormatInfo f{}; unsigned k = unsigned(c.below(20)); bool swap = c.chance(1, 4);
  auto set = [&](unsigned depth, unsigned flags, std::initializer_list<int> sz, std::initializer_list<int> sh) { f.depth = depth; f.flags = BLFormatFlags(flags); int i = 0; for (int s : sz) f.sizes[i++] = uint8_t(s); i = 0; for (int s : sh) f.shifts[i++] = uint8_t(s); };
  const unsigned R = BL_FORMAT_FLAG_RGB, A = BL_FORMAT_FLAG_RGBA, P = BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_PREMULTIPLIED; unsigned alpha = c.coin() ? A : P;
  switch (k) {
    case 0: set(32, P, {8, 8, 8, 8}, {16, 8, 0, 24}); break;
    case 1: set(32, R, {8, 8, 8, 0}, {16, 8, 0, 0}); break;
    case 2: set(32, A, {8, 8, 8, 8}, {16, 8, 0, 24}); break;
    case 3: set(8, BL_FORMAT_FLAG_ALPHA, {0, 0, 0, 8}, {0, 0, 0, 0}); break;
    case 4: set(16, R, {5, 6, 5, 0}, {11, 5, 0, 0}); break;
    case 5: set(16, alpha, {5, 5, 5, 1}, {10, 5, 0, 15}); break;
    case 6: set(16, alpha, {4, 4, 4, 4}, {8, 4, 0, 12}); break;
    case 7: if (c.coin()) set(24, R, {8, 8, 8, 0}, {16, 8, 0, 0}); else set(24, R, {8, 8, 8, 0}, {0, 8, 16, 0}); break;
    case 8: set(32, alpha, {10, 10, 10, 2}, {20, 10, 0, 30}); break;
    case 9: if (!dst) { if (c.coin()) set(8, BL_FORMAT_FLAG_LUM, {8, 8, 8, 0}, {0, 0, 0, 0}); else set(16, BL_FORMAT_FLAG_LUMA | (c.coin() ? unsigned(BL_FORMAT_FLAG_PREMULTIPLIED) : 0u), {8, 8, 8, 8}, {0, 0, 0, 8}); break; } [[fallthrough]];
    case 10: case 11: { f.depth = 32; f.flags = BLFormatFlags(c.pickl<unsigned>({R, A, P})); bool a = (f.flags & 2) != 0; for (int i = 0; i < 3 + a; i++) f.sizes[i] = 8; std::vector<int> pos{0, 1, 2, 3}; for (size_t i = 4; i > 1; i--) std::swap(pos[i - 1], pos[c.below(i)]); for (int i = 0; i < 3 + a; i++) f.shifts[i] = uint8_t(pos[size_t(i)] * 8); break; }
    case 12: if (!dst) { f.depth = c.pickl<unsigned>({1, 2, 4, 8}); f.flags = BLFormatFlags(unsigned(BL_FORMAT_FLAG_INDEXED) | c.pickl<unsigned>({R, A, P})); return f; } [[fallthrough]];
    default: { f.depth = c.pickl<unsigned>({16, 16, 24, 32, 32}); f.flags = BLFormatFlags(c.pickl<unsigned>({R, A, P})); std::vector<int> cs{0, 1, 2}; if (f.flags & 2) cs.push_back(3); unsigned left = f.depth; for (size_t i = 0; i < cs.size(); i++) { unsigned rest = unsigned(cs.size() - i - 1); unsigned hi = std::min(c.chance(1, 5) ? 12u : 8u, left - rest); unsigned s = 1 + unsigned(c.below(hi)); if (c.coin()) s = std::max(s, std::min(hi, f.depth / unsigned(cs.size()))); f.sizes[cs[i]] = uint8_t(s); left -= s; } lay(c, f, cs); }
  }
  if (swap && f.depth > 8) f.flags = BLFormatFlags(f.flags | BL_FORMAT_FLAG_BYTE_SWAP);
  return f;
}
// Converts an 8-bit pixel between alpha kinds; `exact` is cleared when the result isn't defined (invalid premultiplied input).
static Px conv(Px p, Kind s, Kind d, bool& exact) {
  if (s == kNone) { p.c[3] = 255; return p; }
  if (s == kStraight && d != kStraight) { for (int i = 0; i < 3; i++) p.c[i] = div255(p.c[i] * p.c[3]); return p; }
  if (s == kPremul && d == kStraight) { for (int i = 0; i < 3; i++) { if (p.c[i] > p.c[3]) exact = false; p.c[i] = p.c[3] ? std::min(255u, (2 * p.c[i] * 255 + p.c[3]) / (2 * p.c[3])) : 0; } return p; }
  return p;
}

static void convert(Case& c) {
  BLFormatInfo sf = format(c, false), df = format(c, true); if (c.chance(1, 8)) { df = sf; if (indexed(df)) df = format(c, true); else if (c.coin() && (df.flags & 2)) df.flags = BLFormatFlags(df.flags ^ BL_FORMAT_FLAG_PREMULTIPLIED); }
  c.note("src %s", show(sf).c_str()); c.note("dst %s", show(df).c_str());
  BLRgba32 pal[256]; std::vector<BLRgba32> pal_copy; bool dont_copy = false, alterable = false;
  if (indexed(sf)) { for (auto& p : pal) { p.value = c.u32(); if (c.chance(1, 4)) p.value |= 0xFF000000u; if (kind(sf) == kPremul) { unsigned a = p.value >> 24; p = BLRgba32(div255(p.r() * a), div255(p.g() * a), div255(p.b() * a), a); } } pal_copy.assign(pal, pal + 256); sf.palette = pal; dont_copy = c.chance(1, 3); alterable = dont_copy && c.coin(); c.note("%s", alterable ? "alterable palette" : dont_copy ? "palette isn't copied" : ""); }
  BLPixelConverter cvt; BLResult res = cvt.create(df, sf, BLPixelConverterCreateFlags((dont_copy ? 1 : 0) | (alterable ? 2 : 0)));
  bool same = !indexed(sf) && memcmp(&sf, &df, sizeof(sf)) == 0; bool rgb_s = (sf.flags & BL_FORMAT_FLAG_RGB) != 0, rgb_d = (df.flags & BL_FORMAT_FLAG_RGB) != 0; bool must = same || (rgb_s && rgb_d);
  if (res != BL_SUCCESS) { REQUIRE(c, !must, "create failed: %u", unsigned(res)); REQUIRE(c, !cvt.is_initialized(), "failed create initialized the converter"); c.label(true, "unsupported pair"); c.nontrivial(false); return; }
  // Copies of the converter have to work after the original is destroyed.
  BLPixelConverter* use = &cvt; BLPixelConverter copy; std::unique_ptr<BLPixelConverter> copy2;
  if (c.chance(1, 4)) { copy2.reset(new BLPixelConverter(cvt)); if (c.coin()) { copy.assign(*copy2); copy2.reset(); use = &copy; } else use = copy2.get(); cvt.reset(); }
  if (indexed(sf) && !alterable) REQUIRE(c, memcmp(pal, pal_copy.data(), sizeof(pal)) == 0, "create modified the palette");
  if (indexed(sf) && !dont_copy) memset(static_cast<void*>(pal), 0x5A, sizeof(pal));
  uint32_t w = uint32_t(c.chance(1, 12) ? c.below(1200) : c.below(70)), h = uint32_t(c.below(5)) + (w < 20 && c.chance(1, 10) ? 60 : 0); if (h == 0 && c.coin()) h = 1;
  size_t sl = (size_t(w) * sf.depth + 7) / 8, dl = size_t(w) * (df.depth / 8), gap = c.chance(1, 4) ? c.below(9) : 0, sp = c.coin() ? 0 : c.below(17), dp = c.coin() ? 0 : c.below(17), so = c.coin() ? 0 : c.below(16), dof = c.coin() ? 0 : c.below(16); size_t ss = sl + sp, ds = dl + gap + dp; bool sneg = c.chance(1, 5), dneg = c.chance(1, 5);
  c.note("%ux%u gap %zu strides %s%zu %s%zu offsets %zu %zu", w, h, gap, sneg ? "-" : "", ss, dneg ? "-" : "", ds, so, dof);
  size_t sn = so + (h ? ss * (h - 1) + sl : 0), dn = dof + (h ? ds * (h - 1) + dl + gap : 0); std::unique_ptr<uint8_t[]> src(new uint8_t[sn]), dst(new uint8_t[dn]);
  uint64_t rs = c.u64() | 1; auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return uint8_t(rs >> 32); };
  for (size_t i = 0; i < sn; i++) src[i] = rnd(); for (size_t i = 0; i < dn; i++) dst[i] = 0xA5;
  if (kind(sf) != kNone && !indexed(sf)) // Use a lot of special alpha values and mostly valid premultiplied data.
    for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) { uint8_t* p = src.get() + so + y * ss + size_t(x) * (sf.depth / 8); uint64_t v = load(p, sf); unsigned a = comp(v, sf, 3); switch (rnd() & 7) { case 0: a = 0; break; case 1: a = (1u << sf.sizes[3]) - 1; break; default: break; } v &= ~((((uint64_t(1) << sf.sizes[3]) - 1)) << sf.shifts[3]); v |= uint64_t(a) << sf.shifts[3]; if (kind(sf) == kPremul) for (int i = 0; i < 3; i++) if (sf.sizes[i]) { unsigned m = (1u << sf.sizes[i]) - 1, q = comp(v, sf, i); if (widen(q, sf.sizes[i]) > widen(a, sf.sizes[3])) q = narrow(widen(q, sf.sizes[i]) * widen(a, sf.sizes[3]) / 255, sf.sizes[i]); v &= ~(uint64_t(m) << sf.shifts[i]); v |= uint64_t(q) << sf.shifts[i]; if (sf.flags & BL_FORMAT_FLAG_LUM) break; }
      unsigned n = sf.depth / 8; for (unsigned i = 0; i < n; i++) p[i] = uint8_t(v >> (8 * ((sf.flags & BL_FORMAT_FLAG_BYTE_SWAP) ? n - 1 - i : i))); }
  std::vector<uint8_t> src_copy(src.get(), src.get() + sn);
  uint8_t* d0 = dst.get() + dof + (dneg && h ? ds * (h - 1) : 0); const uint8_t* s0 = src.get() + so + (sneg && h ? ss * (h - 1) : 0); intptr_t dstr = dneg ? -intptr_t(ds) : intptr_t(ds), sstr = sneg ? -intptr_t(ss) : intptr_t(ss);
  BLPixelConverterOptions opt{}; opt.gap = gap; bool span = h == 1 && c.coin();
  if (span) res = use->convert_span(d0, s0, w, gap || c.coin() ? &opt : nullptr); else res = use->convert_rect(d0, dstr, s0, sstr, w, h, gap || c.coin() ? &opt : nullptr);
  REQUIRE(c, res == BL_SUCCESS, "conversion failed: %u", unsigned(res)); REQUIRE(c, memcmp(src.get(), src_copy.data(), sn) == 0, "conversion modified the source");
  if (indexed(sf) && dont_copy && !alterable) REQUIRE(c, memcmp(pal, pal_copy.data(), sizeof(pal)) == 0, "conversion modified the palette");
  std::vector<bool> touched(dn, false); size_t checked = 0;
  for (uint32_t y = 0; y < h; y++) {
    const uint8_t* sr = s0 + intptr_t(y) * sstr; const uint8_t* dr = d0 + intptr_t(y) * dstr;
    for (uint32_t x = 0; x < w; x++) {
      Px p{}; bool exact = true; Kind sk = kind(sf), dk = kind(df); uint64_t sv = 0;
      if (indexed(sf)) { unsigned bit = x * sf.depth, i = (sr[bit / 8] >> (8 - sf.depth - bit % 8)) & ((1u << sf.depth) - 1); BLRgba32 q = pal_copy[i]; p = Px{{q.r(), q.g(), q.b(), q.a()}}; }
      else { sv = load(sr + size_t(x) * (sf.depth / 8), sf); if (!rgb_s && !(sf.flags & BL_FORMAT_FLAG_LUM)) { p = Px{{255, 255, 255, comp(sv, sf, 3)}}; sk = kStraight; } else for (int i = 0; i < 4; i++) p.c[i] = sf.sizes[i] ? widen(comp(sv, sf, i), sf.sizes[i]) : 255; }
      const uint8_t* dpx = dr + size_t(x) * (df.depth / 8); uint64_t dv = load(dpx, df); size_t at = size_t(dpx - dst.get()); for (unsigned i = 0; i < df.depth / 8; i++) touched[at + i] = true;
      Px q = conv(p, sk, dk, exact); if (!exact) continue;
      for (int i = 0; i < 4; i++) if (df.sizes[i]) {
        unsigned got = comp(dv, df, i), want = same ? comp(sv, df, i) : narrow(q.c[i], df.sizes[i]); bool ok = got == want;
        if (!ok && sk == kPremul && dk == kStraight && i < 3) { unsigned lo = narrow(q.c[i] ? q.c[i] - 1 : 0, df.sizes[i]), hi = narrow(std::min(255u, q.c[i] + 1), df.sizes[i]); ok = got >= lo && got <= hi; } // Un-premultiplication isn't exact.
        REQUIRE(c, ok, "pixel (%u,%u) component %d is %u instead of %u; source pixel %u %u %u %u (raw 0x%llX -> 0x%llX)", x, y, i, got, want, p.c[0], p.c[1], p.c[2], p.c[3], (unsigned long long)sv, (unsigned long long)dv);
      }
      if (!same && df.depth == 32 && !df.sizes[3] && df.sizes[0] == 8 && df.sizes[1] == 8 && df.sizes[2] == 8 && df.shifts[0] == 16 && df.shifts[1] == 8 && df.shifts[2] == 0 && !(df.flags & BL_FORMAT_FLAG_BYTE_SWAP)) REQUIRE(c, (dv >> 24) == 255, "pixel (%u,%u) of XRGB32 has 0x%02X in its unused byte", x, y, unsigned(dv >> 24));
      checked++;
    }
    for (size_t i = 0; i < gap; i++) { size_t at = size_t(dr - dst.get()) + dl + i; touched[at] = true; REQUIRE(c, dst[at] == 0, "byte %zu of the gap of row %u is 0x%02X", i, y, dst[at]); }
  }
  for (size_t i = 0; i < dn; i++) if (!touched[i]) REQUIRE(c, dst[i] == 0xA5, "byte %zu outside of the destination was overwritten", i);
  c.nontrivial(checked >= 4); c.label(indexed(sf), "indexed"); c.label(w > 768, "wide"); c.label(gap > 0, "gap"); c.label(((sf.flags | df.flags) & BL_FORMAT_FLAG_BYTE_SWAP) != 0, "byte swap"); c.label(kind(sf) == kPremul && kind(df) == kStraight, "unpremultiply"); c.label(kind(sf) == kStraight && kind(df) != kStraight, "premultiply");
}

// Sanitizing accepts exactly the valid formats and doesn't change what pixels mean.
static void sanitize(Case& c) {
  BLFormatInfo f = c.coin() ? format(c, false) : format(c, true); BLRgba32 pal[256]; if (indexed(f)) f.palette = pal;
  if (c.coin()) switch (c.below(6)) {
    case 0: f.depth = unsigned(c.below(70)); break;
    case 1: f.flags = BLFormatFlags(f.flags ^ (1u << c.below(5))); break;
    case 2: if (!indexed(f)) f.sizes[c.below(4)] = uint8_t(c.below(20)); break;
    case 3: if (!indexed(f)) f.shifts[c.below(4)] = uint8_t(c.below(40)); break;
    case 4: if (!indexed(f)) f.shifts[c.below(4)] = f.shifts[c.below(4)]; break;
    case 5: if (indexed(f)) f.palette = nullptr; break;
  }
  bool ok = true; unsigned d = f.depth; if (!(d == 1 || d == 2 || d == 4 || d == 8 || d == 16 || d == 24 || d == 32)) ok = false;
  if (indexed(f)) { if (d > 8) ok = false; void* p; memcpy(&p, &f.palette, sizeof(p)); if (!p) ok = false; }
  else { bool rgb = f.flags & BL_FORMAT_FLAG_RGB, lum = f.flags & BL_FORMAT_FLAG_LUM, al = f.flags & BL_FORMAT_FLAG_ALPHA; if ((rgb && lum) || !(rgb || lum || al)) ok = false; for (int i = 0; i < 4; i++) { bool need = i < 3 ? rgb || lum : al; if ((f.sizes[i] != 0) != need) ok = false; if (f.sizes[i] > 16 || (!f.sizes[i] && f.shifts[i]) || unsigned(f.sizes[i]) + f.shifts[i] > d) ok = false; }
    if (lum) { for (int i = 1; i < 3; i++) if (f.sizes[i] != f.sizes[0] || f.shifts[i] != f.shifts[0]) ok = false; }
    for (int i = 0; i < 4 && ok; i++) for (int j = i + 1; j < 4; j++) if (f.sizes[i] && f.sizes[j] && !(lum && j < 3) && f.shifts[i] < f.shifts[j] + f.sizes[j] && f.shifts[j] < f.shifts[i] + f.sizes[i]) ok = false; }
  c.note("%s: %s", show(f).c_str(), ok ? "valid" : "invalid"); if (indexed(f)) { void* p; memcpy(&p, &f.palette, sizeof(p)); if (p && p != pal) c.discard(); }
  BLFormatInfo g = f; BLResult r = g.sanitize(); REQUIRE(c, (r == BL_SUCCESS) == ok, "sanitize returned %u", unsigned(r));
  BLPixelConverter cv; if (!ok) { BLFormatInfo n = BLFormatInfo{}; n.query(BL_FORMAT_PRGB32); REQUIRE(c, cv.create(n, f) != BL_SUCCESS && cv.create(f, n) != BL_SUCCESS, "a converter of an invalid format was created"); uint8_t z[64] = {}; REQUIRE(c, cv.convert_span(z, z, 1) == BL_ERROR_NOT_INITIALIZED, "a converter that isn't initialized doesn't report it"); }
  if (ok && !indexed(f) && f.depth >= 8) for (int k = 0; k < 8; k++) { uint8_t b[8]; for (auto& x : b) x = c.byte(); uint64_t v = load(b, f), u = load(b, g); for (int i = 0; i < 4; i++) { REQUIRE(c, g.sizes[i] == f.sizes[i], "sanitize changed the size of component %d", i); if (f.sizes[i]) REQUIRE(c, comp(v, f, i) == comp(u, g, i), "component %d of the pixel 0x%llX is %u before and %u after sanitize (%s)", i, (unsigned long long)v, comp(v, f, i), comp(u, g, i), show(g).c_str()); } REQUIRE(c, kind(f) == kind(g), "sanitize changed alpha"); }
  c.nontrivial(true); c.label(!ok, "invalid"); c.label((f.flags & BL_FORMAT_FLAG_BYTE_SWAP) != 0, "byte swap");
}

// All 2^24 premultiply / unpremultiply combinations, and copies of every alpha / component pair by each native layout.
static void tables(Case& c) {
  BLFormatInfo a{}, p{}; unsigned pos = unsigned(c.below(4)); std::vector<unsigned> sh{0, 8, 16, 24}; std::swap(sh[3], sh[pos]); for (int i = 0; i < 4; i++) { a.sizes[i] = 8; a.shifts[i] = uint8_t(sh[size_t(i)]); } a.depth = 32; a.flags = BL_FORMAT_FLAG_RGBA; p = a; p.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_PREMULTIPLIED);
  unsigned al = unsigned(c.below(256)); std::vector<uint32_t> s(256), d(256), e(256); unsigned g = unsigned(c.below(256)), r = unsigned(c.below(256)); c.note("alpha %u at bit %u", al, sh[3]);
  for (unsigned v = 0; v < 256; v++) s[v] = (v << sh[0]) | (((v + g) & 255) << sh[1]) | (((v * 7 + r) & 255) << sh[2]) | (al << sh[3]);
  BLPixelConverter to, from; REQUIRE(c, to.create(p, a) == BL_SUCCESS && from.create(a, p) == BL_SUCCESS, "create failed"); to.convert_span(d.data(), s.data(), 256);
  for (unsigned v = 0; v < 256; v++) for (int i = 0; i < 4; i++) { unsigned in = (s[v] >> sh[size_t(i)]) & 255, out = (d[v] >> sh[size_t(i)]) & 255; REQUIRE(c, out == (i == 3 ? al : div255(in * al)), "premultiplied component %d of 0x%08X is %u", i, s[v], out); }
  from.convert_span(e.data(), d.data(), 256);
  for (unsigned v = 0; v < 256; v++) for (int i = 0; i < 4; i++) { int in = (d[v] >> sh[size_t(i)]) & 255, out = (e[v] >> sh[size_t(i)]) & 255, want = i == 3 ? int(al) : al ? int((2 * unsigned(in) * 255 + al) / (2 * al)) : 0; REQUIRE(c, std::abs(out - want) <= 0, "un-premultiplied component %d of 0x%08X is %d instead of %d", i, d[v], out, want); }
  c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Suite s("C21", "non-trivial = a converter was created and at least 4 pixels were compared (convert), every case (sanitize, tables)", argc, argv);
  s.add("convert", convert, {.quick = 200000, .thorough = 5000000});
  s.add("sanitize", sanitize, {.quick = 100000, .thorough = 2000000});
  s.add("tables", tables, {.quick = 4000, .thorough = 40000});
  s.assume("pairs that Blend2D reports as not implemented (luminance or alpha-only destinations) are outside the property");
  return s.run();
}
