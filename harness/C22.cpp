// C22: image creation, sharing, external memory, conversion and scaling against a model of images and a reference separable filter.
#include "pbt.h"
#include <blend2d/blend2d.h>
#include <memory>
#include <cmath>
using pbt::Case;

static int depth_of(int f) { return f == BL_FORMAT_A8 ? 1 : 4; }
static uint32_t rd(const BLImageData& d, int x, int y) { const uint8_t* p = static_cast<const uint8_t*>(d.pixel_data) + intptr_t(y) * d.stride; if (d.format == BL_FORMAT_A8) return p[x]; uint32_t v; memcpy(&v, p + x * 4, 4); return v; }
static void wr(const BLImageData& d, int x, int y, uint32_t v) { uint8_t* p = static_cast<uint8_t*>(d.pixel_data) + intptr_t(y) * d.stride; if (d.format == BL_FORMAT_A8) p[x] = uint8_t(v); else memcpy(p + x * 4, &v, 4); }
static uint32_t rnd_px(Case& c, int f) {
  if (f == BL_FORMAT_A8) return c.byte(); if (f == BL_FORMAT_XRGB32) return c.u32() | 0xFF000000u;
  uint32_t a = c.chance(1, 3) ? 255 : c.byte(); uint32_t v = a << 24; for (int i = 0; i < 3; i++) v |= c.below(a + 1) << (i * 8); return v;
}

// A block of caller-owned memory with guard bytes around the pixel rows.
struct Ext {
  std::vector<uint8_t> mem, shadow; int w, h, f; intptr_t stride; size_t first; int destroyed = 0; bool live = true, ro, has_destroy; void* px() { return mem.data() + first; }
  Ext(Case& c, int w, int h, int f, bool ro) : w(w), h(h), f(f), ro(ro) {
    intptr_t bpl = intptr_t(w) * depth_of(f), gap = f == BL_FORMAT_A8 ? c.below(9) : c.below(4) * 4; stride = bpl + gap; first = 16 + (f == BL_FORMAT_A8 ? c.below(8) : c.below(3) * 4); mem.assign(size_t(stride * h) + 48, 0); for (auto& b : mem) b = c.byte();
    if (c.chance(1, 3)) { first += size_t(stride * (h - 1)); stride = -stride; } has_destroy = c.chance(3, 4);
    BLImageData d{}; d.pixel_data = px(); d.stride = stride; d.format = uint8_t(f); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) wr(d, x, y, rnd_px(c, f)); shadow = mem;
  }
};
static void BL_CDECL destroy_ext(void* impl, void* external_data, void* user_data) noexcept { (void)impl; Ext* e = static_cast<Ext*>(user_data); if (external_data != e->px()) e->destroyed += 100; e->destroyed++; }

struct Impl { int w = 0, h = 0, f = 0; std::vector<uint32_t> px; std::shared_ptr<Ext> ext; ~Impl() { if (ext) ext->live = false; } };
typedef std::shared_ptr<Impl> M;
static M mk(int w, int h, int f) { M m = std::make_shared<Impl>(); m->w = w; m->h = h; m->f = f; m->px.resize(size_t(w) * size_t(h)); return m; }
static bool same(const Impl& a, const Impl& b) { return a.w == b.w && a.h == b.h && a.f == b.f && a.px == b.px; }

static uint32_t conv(uint32_t v, int from, int to, uint32_t* tol) {
  *tol = 0; uint32_t a = v >> 24;
  if (from == BL_FORMAT_PRGB32) { if (to == BL_FORMAT_A8) return a; return v | 0xFF000000u; }
  if (from == BL_FORMAT_XRGB32) return to == BL_FORMAT_A8 ? 255u : v | 0xFF000000u;
  return to == BL_FORMAT_PRGB32 ? v * 0x01010101u : (v * 0x010101u | 0xFF000000u);
}

// Reference filter.
static double filt(int f, double t) {
  switch (f) {
    case BL_IMAGE_SCALE_FILTER_NEAREST: return t <= 0.5 ? 1 : 0; case BL_IMAGE_SCALE_FILTER_BILINEAR: return t < 1 ? 1 - t : 0;
    case BL_IMAGE_SCALE_FILTER_BICUBIC: return t < 1 ? (0.5 * t - 1) * t * t + 2.0 / 3 : t < 2 ? (2 - t) * (2 - t) * (2 - t) / 6 : 0;
    default: { if (t == 0) return 1; if (t > 2) return 0; double x = M_PI * t; return sin(x) / x * (sin(x / 2) / (x / 2)); }
  }
}
struct Tap { int pos; std::vector<double> w; bool tie = false; double sum_abs = 0; };
static std::vector<Tap> taps(int dst, int src, int f) {
  std::vector<Tap> r; double s = double(dst) / src, k = s < 1 ? s : 1, rad = (f <= BL_IMAGE_SCALE_FILTER_BILINEAR ? 1.0 : 2.0) / k;
  for (int i = 0; i < dst; i++) {
    double p = (i + 0.5) / s - 0.5; int lo = int(floor(p - rad)), hi = int(ceil(p + rad)); Tap t; int a = std::max(lo, 0), b = std::min(hi, src - 1); t.pos = a; t.w.assign(size_t(b - a + 1), 0.0); double sum = 0;
    for (int j = lo; j <= hi; j++) { double d = fabs(p - j) * k; if (f == BL_IMAGE_SCALE_FILTER_NEAREST && fabs(d - 0.5) < 1e-9) t.tie = true; double w = filt(f, d); sum += w; t.w[size_t(std::min(std::max(j, a), b) - a)] += w; }
    for (auto& w : t.w) { w /= sum; t.sum_abs += fabs(w); } r.push_back(t);
  }
  return r;
}
// One pass: values and tolerance. The weights are multiples of 1/256, so each pass may deviate by (variation of the source pixels) / 256 and the rounding of the result.
struct Pass { std::vector<double> v, tol, lo, hi; };
static Pass pass(const Pass& in, int w, int h, const std::vector<Tap>& t, bool horz) {
  Pass o; int ow = horz ? int(t.size()) : w, oh = horz ? h : int(t.size()); o.v.resize(size_t(ow) * size_t(oh)); o.tol = o.lo = o.hi = o.v;
  for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) {
    const Tap& p = t[size_t(horz ? x : y)]; double s = 0, e = 0, tv = 0, prev = 0, lo = 1e9, hi = -1e9; int n = int(p.w.size());
    for (int j = 0; j < n; j++) { size_t i = size_t(horz ? y * w + p.pos + j : (p.pos + j) * w + x); double v = in.v[i]; s += v * p.w[size_t(j)]; e = std::max(e, in.tol[i]); if (j) tv += fabs(v - prev); prev = v; lo = std::min(lo, in.lo[i]); hi = std::max(hi, in.hi[i]); }
    size_t o_i = size_t(y * ow + x); o.v[o_i] = s; o.tol[o_i] = p.tie ? 1e9 : e * (p.sum_abs + 2.0 * n / 256.0) + (tv + 2 * e * n) / 256.0 + 0.6; o.lo[o_i] = lo; o.hi[o_i] = hi;
  }
  return o;
}
static void check_scale(Case& c, const Impl& s, const BLImageData& d, int f) {
  auto tx = taps(d.size.w, s.w, f), ty = taps(d.size.h, s.h, f); bool h = true, v = true; (void)h; (void)v; int nch = s.f == BL_FORMAT_A8 ? 1 : s.f == BL_FORMAT_XRGB32 ? 3 : 4; Pass alpha, a1;
  for (int ch = nch - 1; ch >= 0; ch--) {
    Pass p; p.v.resize(s.px.size()); p.tol.assign(s.px.size(), 0.0); for (size_t i = 0; i < s.px.size(); i++) p.v[i] = (s.px[i] >> (ch * 8)) & 255; p.lo = p.hi = p.v; bool prgb = s.f == BL_FORMAT_PRGB32 && ch != 3;
    auto clampit = [&](Pass& q, const Pass& al) { for (size_t i = 0; i < q.v.size(); i++) { double m = 255; if (prgb) { m = std::min(std::max(al.v[i], 0.0), 255.0); q.tol[i] = std::max(q.tol[i], al.tol[i]); } q.v[i] = std::min(std::max(q.v[i], 0.0), m); } };
    bool sh = d.size.w != s.w, sv = d.size.h != s.h; Pass q = p; int cw = s.w;
    if (sh || !sv) { q = pass(p, s.w, s.h, tx, true); cw = d.size.w; clampit(q, a1); if (!prgb && ch == 3) a1 = q; }
    if (sv) { q = pass(q, cw, s.h, ty, false); clampit(q, alpha); }
    if (ch == 3) alpha = q;
    for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) {
      size_t i = size_t(y * d.size.w + x); double g = (rd(d, x, y) >> (ch * 8)) & 255; REQUIRE(c, fabs(g - q.v[i]) <= q.tol[i], "channel %d of pixel (%d,%d) is %g, reference %.3f +- %.2f", ch, x, y, g, q.v[i], q.tol[i]);
      if (q.lo[i] == q.hi[i] && (!prgb || f != BL_IMAGE_SCALE_FILTER_LANCZOS || alpha.lo[i] == alpha.hi[i])) REQUIRE(c, g == q.lo[i], "constant content %g became %g at (%d,%d)", q.lo[i], g, x, y);
      if (f != BL_IMAGE_SCALE_FILTER_LANCZOS) REQUIRE(c, g >= q.lo[i] && g <= q.hi[i], "channel %d of pixel (%d,%d) is %g, out of the range %g..%g of the source", ch, x, y, g, q.lo[i], q.hi[i]);
      if (prgb) REQUIRE(c, g <= (rd(d, x, y) >> 24), "color exceeds alpha at (%d,%d)", x, y);
    }
  }
  c.label(s.w > 128 * d.size.w || s.h > 128 * d.size.h, "downscale over 128x");
}

static int fmt_of(Case& c) { return int(c.below(3)) + 1; }

static void histories(Case& c) {
  std::vector<std::shared_ptr<Ext>> exts; bool ext_used = false, shared_write = false, scaled = false, converted = false; int steps = 0;
  {
    const int N = 4; BLImage im[N]; M m[N]; for (auto& x : m) x = mk(0, 0, 0); int n = int(c.range(3, 24));
    for (int s = 0; s < n; s++) {
      int i = int(c.below(N)), j = int(c.below(N)); BLImageData d{}; steps++;
      switch (c.weighted({4, 4, 4, 2, 2, 6, 4, 4, 1, 3})) {
        case 0: { int w = int(c.range(1, c.chance(1, 10) ? 90 : 12)), h = int(c.range(1, 12)), f = fmt_of(c); c.note("%d: create(%d, %d, %d)", i, w, h, f); REQUIRE(c, im[i].create(w, h, BLFormat(f)) == BL_SUCCESS, "create failed"); M old = m[i]; m[i] = mk(w, h, f); old.reset(); im[i].make_mutable(&d); REQUIRE(c, d.size == BLSizeI(w, h) && int(d.format) == f && std::abs(d.stride) >= w * depth_of(f), "image data is wrong after create"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) wr(d, x, y, m[i]->px[size_t(y * w + x)] = rnd_px(c, f)); break; }
        case 1: { int w = int(c.range(1, 12)), h = int(c.range(1, 10)), f = fmt_of(c); auto e = std::make_shared<Ext>(c, w, h, f, c.coin()); c.note("%d: create_from_data(%d, %d, %d, stride %lld, %s, %s)", i, w, h, f, (long long)e->stride, e->ro ? "R" : "RW", e->has_destroy ? "destroy" : "no destroy"); exts.push_back(e);
          BLResult r = im[i].create_from_data(w, h, BLFormat(f), e->px(), e->stride, e->ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, e->has_destroy ? destroy_ext : nullptr, e->has_destroy ? e.get() : nullptr); REQUIRE(c, r == BL_SUCCESS, "create_from_data failed"); m[i] = mk(w, h, f); m[i]->ext = e; im[i].get_data(&d); REQUIRE(c, d.pixel_data == e->px() && d.stride == e->stride, "wrapped image doesn't refer to the given data"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m[i]->px[size_t(y * w + x)] = rd(d, x, y); ext_used = true; break; }
        case 2: c.note("%d = %d", i, j); REQUIRE(c, im[i].assign(im[j]) == BL_SUCCESS, "assign failed"); m[i] = m[j]; break;
        case 3: { c.note("%d deep= %d", i, j); REQUIRE(c, im[i].assign_deep(im[j]) == BL_SUCCESS, "assign_deep failed"); if (m[i] == m[j]) { if (m[i]->f && (m[i].use_count() > 1 || (m[i]->ext && m[i]->ext->ro))) { if (i != j || m[i].use_count() > 1 || m[i]->ext) { M k = mk(m[i]->w, m[i]->h, m[i]->f); k->px = m[i]->px; m[i] = k; } } } else { M k = mk(m[j]->w, m[j]->h, m[j]->f); k->px = m[j]->px; m[i] = k; } break; }
        case 4: { c.note("%d move= %d", i, j); if (i == j) break; REQUIRE(c, im[i].assign(std::move(im[j])) == BL_SUCCESS, "move failed"); m[i] = m[j]; m[j] = mk(0, 0, 0); break; }
        case 5: { c.note("%d: make_mutable and write", i); REQUIRE(c, im[i].make_mutable(&d) == BL_SUCCESS, "make_mutable failed"); if (!m[i]->f) break; bool copy = m[i].use_count() > 1 || (m[i]->ext && m[i]->ext->ro); shared_write |= copy; if (copy) { M k = mk(m[i]->w, m[i]->h, m[i]->f); k->px = m[i]->px; m[i] = k; } REQUIRE(c, (d.pixel_data == (m[i]->ext ? m[i]->ext->px() : d.pixel_data)), "writable external data isn't used in place"); REQUIRE(c, d.size.w == m[i]->w && d.size.h == m[i]->h && int(d.format) == m[i]->f, "data is wrong"); for (int k = 0; k < 4; k++) { int x = int(c.below(uint32_t(d.size.w))), y = int(c.below(uint32_t(d.size.h))); wr(d, x, y, m[i]->px[size_t(y * d.size.w + x)] = rnd_px(c, m[i]->f)); } break; }
        case 6: {
          int f = fmt_of(c); c.note("%d: convert(%d)", i, f); BLResult r = im[i].convert(BLFormat(f)); if (!m[i]->f) { REQUIRE(c, r == BL_ERROR_NOT_INITIALIZED, "conversion of an empty image returned %u", unsigned(r)); break; } REQUIRE(c, r == BL_SUCCESS, "convert failed: %u", unsigned(r)); if (f == m[i]->f) break;
          M k = mk(m[i]->w, m[i]->h, f); im[i].get_data(&d); bool inplace = m[i]->ext && d.pixel_data == m[i]->ext->px(); REQUIRE(c, !inplace || (m[i].use_count() == 1 && !m[i]->ext->ro), "shared or read-only data converted in place"); REQUIRE(c, d.size == BLSizeI(k->w, k->h) && int(d.format) == f, "converted image has a wrong size or format");
          for (int y = 0; y < k->h; y++) for (int x = 0; x < k->w; x++) { uint32_t tol, g = rd(d, x, y), o = m[i]->px[size_t(y * k->w + x)], want = conv(o, m[i]->f, f, &tol); for (int b = 0; b < 32; b += 8) { int df = int((g >> b) & 255) - int((want >> b) & 255); REQUIRE(c, unsigned(std::abs(df)) <= tol, "pixel (%d,%d) %08X of format %d was converted to %08X in format %d, expected %08X", x, y, o, m[i]->f, g, f, want); } k->px[size_t(y * k->w + x)] = g; }
          if (inplace) { k->ext = m[i]->ext; m[i]->ext.reset(); k->ext->f = f; } m[i] = k; converted = true; break;
        }
        case 7: {
          int w = int(c.range(1, c.chance(1, 4) ? 60 : 12)), h = int(c.range(1, c.chance(1, 4) ? 60 : 12)), f = int(c.range(1, 4)); if (m[j]->f) { if (c.chance(1, 5)) w = m[j]->w; if (c.chance(1, 5)) h = m[j]->h; } c.note("%d = scale(%d, %d, %d, filter %d)", i, j, w, h, f); BLResult r = BLImage::scale(im[i], im[j], BLSizeI(w, h), BLImageScaleFilter(f)); REQUIRE(c, r == BL_SUCCESS, "scale failed: %u", unsigned(r));
          M src = m[j]; if (!src->f) { m[i] = mk(0, 0, 0); break; } im[i].get_data(&d); REQUIRE(c, d.size == BLSizeI(w, h) && int(d.format) == src->f, "scaled image has a wrong size or format"); check_scale(c, *src, d, f); M k = mk(w, h, src->f); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) k->px[size_t(y * w + x)] = rd(d, x, y); m[i] = k; scaled = true; break;
        }
        case 8: c.note("%d: reset", i); REQUIRE(c, im[i].reset() == BL_SUCCESS, "reset failed"); m[i] = mk(0, 0, 0); break;
        case 9: {
          int k = int(c.below(6)); c.note("%d: invalid call %d", i, k); BLResult r = BL_SUCCESS; static uint32_t dummy[64]; int big = int(c.range(BL_RUNTIME_MAX_IMAGE_SIZE + 1, 0x7FFFFFFF)), neg = -int(c.below(5)), f = fmt_of(c), w = int(c.range(1, 8)), h = int(c.range(1, 8)); auto access = BL_DATA_ACCESS_RW;
          switch (k) {
            case 0: r = c.coin() ? im[i].create(neg, h, BLFormat(f)) : im[i].create(w, neg, BLFormat(f)); break;
            case 1: r = c.coin() ? im[i].create(big, h, BLFormat(f)) : im[i].create(w, big, BLFormat(f)); break;
            case 2: r = im[i].create(w, h, BLFormat(c.coin() ? 0 : c.range(4, 300))); break;
            case 3: { intptr_t mi = intptr_t(w) * depth_of(f), st = c.range(0, mi - 1); r = im[i].create_from_data(w, h, BLFormat(f), dummy, c.coin() ? st : -st, access); break; }
            case 4: { int v = int(c.below(4)); r = im[i].create_from_data(v == 0 ? neg : v == 1 ? big : w, v == 2 ? neg : h, BLFormat(v == 3 ? c.range(4, 300) : f), dummy, 64, access); break; }
            case 5: if (c.coin()) r = BLImage::scale(im[i], im[j], c.coin() ? BLSizeI(neg, h) : BLSizeI(w, neg), BL_IMAGE_SCALE_FILTER_BILINEAR); else if (c.coin()) r = BLImage::scale(im[i], im[j], BLSizeI(w, h), BLImageScaleFilter(c.coin() ? 0 : c.range(5, 1000))); else r = im[i].convert(BLFormat(c.coin() ? 0 : c.range(4, 260))); if (r == BL_SUCCESS && (!m[j]->f || !m[i]->f)) { if (!m[j]->f && im[i].is_empty()) m[i] = mk(0, 0, 0); r = BL_ERROR_INVALID_VALUE; } break;
          }
          REQUIRE(c, r != BL_SUCCESS, "invalid call succeeded"); break;
        }
      }
      for (int k = 0; k < N; k++) {
        im[k].get_data(&d); REQUIRE(c, d.size.w == m[k]->w && d.size.h == m[k]->h && int(d.format) == m[k]->f && im[k].size() == d.size && int(im[k].format()) == m[k]->f && im[k].is_empty() == !m[k]->f, "image %d is %dx%d format %u, expected %dx%d format %d", k, d.size.w, d.size.h, unsigned(d.format), m[k]->w, m[k]->h, m[k]->f); if (m[k]->f) REQUIRE(c, im[k].depth() == uint32_t(depth_of(m[k]->f) * 8), "wrong depth");
        for (int y = 0; y < m[k]->h; y++) for (int x = 0; x < m[k]->w; x++) { uint32_t g = rd(d, x, y), w = m[k]->px[size_t(y * m[k]->w + x)]; REQUIRE(c, g == w, "image %d pixel (%d,%d) is %08X instead of %08X", k, x, y, g, w); }
        for (int l = 0; l < k; l++) { bool e = same(*m[k], *m[l]); REQUIRE(c, im[k].equals(im[l]) == e && (im[l] == im[k]) == e && (im[k] != im[l]) == !e, "equality of %d and %d isn't %d", k, l, e); }
      }
      for (auto& e : exts) { REQUIRE(c, e->destroyed == (e->live || !e->has_destroy ? 0 : 1), "external data (%s) destroyed %d times", e->live ? "live" : "dropped", e->destroyed); BLImageData t{}; t.pixel_data = e->mem.data() + e->first; t.stride = e->stride; std::vector<uint8_t>& sh = e->shadow; if (!e->live || e->ro) REQUIRE(c, sh == e->mem || (!e->ro), "read-only external data was changed");
        // Bytes out of the pixel rows are never touched.
        size_t bpl = size_t(e->w) * size_t(depth_of(e->f)); std::vector<bool> in(e->mem.size()); for (int y = 0; y < e->h; y++) for (size_t b = 0; b < bpl; b++) in[size_t(intptr_t(e->first) + e->stride * y) + b] = true; for (size_t b = 0; b < in.size(); b++) if (!in[b]) REQUIRE(c, e->mem[b] == sh[b], "byte out of the pixels of external data was changed"); }
    }
    for (auto& x : m) x.reset();
  }
  for (auto& e : exts) REQUIRE(c, e->destroyed == (e->has_destroy ? 1 : 0), "external data %dx%d destroyed %d times at the end", e->w, e->h, e->destroyed);
  c.label(ext_used, "external data"); c.label(shared_write, "copy on write"); c.label(scaled, "scaled"); c.label(converted, "converted"); c.nontrivial(steps >= 5 && (shared_write || scaled || converted || ext_used));
}

static void scaling(Case& c) {
  int f = int(c.range(1, 4)), fm = fmt_of(c), w, h, tw, th; auto dim = [&](bool dst) { switch (c.weighted({6, 3, 1})) { case 0: return int(c.range(1, 24)); case 1: return int(c.range(1, 100)); default: return dst ? int(c.range(1, 400)) : int(c.range(200, 3000)); } };
  w = dim(false); h = dim(false); tw = dim(true); th = dim(true); if (w > 150 && h > 150) h = int(c.range(1, 4)); if (tw > 150 && th > 150) th = 3; while (long(tw) * h > 60000) h = h / 2 + 1; if (long(tw) * h > 60000) tw = 20; if (c.chance(1, 8)) tw = w; if (c.chance(1, 8)) th = h; tw = std::min(tw, 3000); if (long(tw) * th > 60000) th = 5;
  Impl s; s.w = w; s.h = h; s.f = fm; s.px.resize(size_t(w) * size_t(h)); int style = int(c.below(4)); uint32_t base = rnd_px(c, fm), gx = c.below(256), gy = c.below(256);
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v; uint32_t g = (gx * uint32_t(x) / uint32_t(w) + gy * uint32_t(y) / uint32_t(h)) / 2; switch (style) { case 0: v = base; break; case 1: v = fm == BL_FORMAT_A8 ? g : g * 0x010101u | 0xFF000000u; break; case 2: v = c.chance(1, 3) ? base : rnd_px(c, fm); break; default: v = ((x ^ y) & 1) ? base : 0; if (fm == BL_FORMAT_XRGB32) v |= 0xFF000000u; } s.px[size_t(y * w + x)] = v; }
  c.note("scale %dx%d format %d (style %d) to %dx%d, filter %d", w, h, fm, style, tw, th, f);
  // The source is either an image of its own or external memory with exact rows.
  std::vector<uint8_t> mem; BLImage src, dst; BLImageData d; if (c.coin()) { src.create(w, h, BLFormat(fm)); src.make_mutable(&d); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) wr(d, x, y, s.px[size_t(y * w + x)]); }
  else { mem.resize(s.px.size() * size_t(depth_of(fm))); d = BLImageData{}; d.stride = w * depth_of(fm); d.pixel_data = mem.data(); d.format = uint8_t(fm); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) wr(d, x, y, s.px[size_t(y * w + x)]); src.create_from_data(w, h, BLFormat(fm), mem.data(), d.stride, BL_DATA_ACCESS_READ); }
  if (c.chance(1, 4)) { dst.create(tw, th, BLFormat(fm)); } REQUIRE(c, BLImage::scale(dst, src, BLSizeI(tw, th), BLImageScaleFilter(f)) == BL_SUCCESS, "scale failed"); dst.get_data(&d); REQUIRE(c, d.size == BLSizeI(tw, th) && int(d.format) == fm, "wrong size or format"); check_scale(c, s, d, f);
  src.get_data(&d); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) REQUIRE(c, rd(d, x, y) == s.px[size_t(y * w + x)], "source was changed");
  // In place.
  BLImage self(src); REQUIRE(c, BLImage::scale(self, self, BLSizeI(tw, th), BLImageScaleFilter(f)) == BL_SUCCESS && self == dst, "scaling in place gives a different image"); c.nontrivial(style != 0 && (w != tw || h != th)); c.label(fm == BL_FORMAT_A8 && w < 8, "narrow A8");
}

int main(int argc, char** argv) {
  pbt::Suite s("C22", "histories: at least 5 operations with external memory, copy on write, a conversion or scaling; scaling: content that isn't constant was scaled to a different size", argc, argv);
  s.add("histories", histories, {.quick = 60000, .thorough = 2000000});
  s.add("scaling", scaling, {.quick = 20000, .thorough = 600000});
  s.assume("premultiplied pixels are valid and the unused byte of XRGB32 is 0xFF; external rows of 32-bit formats are aligned to 4 bytes");
  return s.run();
}
