// Shared helpers for image codec checks: image generators and independent readers of PNG, QOI and BMP.
#pragma once
#include <blend2d/blend2d.h>
#include <zlib.h>
#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "pbt.h"

namespace im {
using pbt::Case;
typedef std::vector<uint8_t> Bytes;

static inline unsigned div255(unsigned x) { return (2 * x + 255) / 510; }
static inline uint32_t premul(unsigned r, unsigned g, unsigned b, unsigned a) { return (a << 24) | (div255(r * a) << 16) | (div255(g * a) << 8) | div255(b * a); }
// Decoded image: pixels are premultiplied 0xAARRGGBB.
struct Pix { int w = 0, h = 0; std::vector<uint32_t> p; uint32_t& at(int x, int y) { return p[size_t(y) * size_t(w) + size_t(x)]; } uint32_t at(int x, int y) const { return p[size_t(y) * size_t(w) + size_t(x)]; } };

static inline uint32_t pixel(const BLImageData& d, int x, int y) {
  const uint8_t* row = static_cast<const uint8_t*>(d.pixel_data) + intptr_t(y) * d.stride;
  if (d.format == BL_FORMAT_A8) return row[x];
  uint32_t v; memcpy(&v, row + x * 4, 4); return v;
}

// Small deterministic generator for bulk content (seeded from the case).
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x | 1) {} uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return uint32_t(s >> 24); } uint32_t below(uint32_t n) { return n ? next() % n : 0; } };

// A valid pixel of the format; `n` = number of different colors (0 = unlimited).
static inline uint32_t rnd_pixel(Rng& r, BLFormat f) {
  uint32_t v = r.next() ^ (r.next() << 16); if (f == BL_FORMAT_A8) return v & 255; if (f == BL_FORMAT_XRGB32) return v;
  unsigned a = v >> 24; switch (r.below(6)) { case 0: a = 0; break; case 1: case 2: a = 255; break; } return premul((v >> 16) & 255, (v >> 8) & 255, v & 255, a);
}
static inline uint32_t lerp_pixel(uint32_t base, int x, int y, BLFormat f) { if (f == BL_FORMAT_A8) return (base + unsigned(x) + unsigned(y) * 3) & 255; uint32_t a = f == BL_FORMAT_XRGB32 ? base & 0xFF000000u : 0xFF000000u; return a | (((base >> 16) + unsigned(x)) & 255) << 16 | (((base >> 8) + unsigned(y)) & 255) << 8 | ((base + unsigned(x) * 2 - unsigned(y)) & 255); }

struct Owned { BLImage img; std::unique_ptr<uint8_t[]> data; std::string text; };
static inline Owned image(Case& c, int max_side, BLFormat f, bool external = true) {
  Owned o; int w, h;
  switch (c.weighted({6, 2, 1, 1})) { case 0: w = 1 + int(c.below(unsigned(max_side))); h = 1 + int(c.below(unsigned(max_side))); break; case 1: w = 1 + int(c.below(9)); h = 1 + int(c.below(9)); break; case 2: w = 1 + int(c.below(unsigned(max_side) * 8)); h = 1 + int(c.below(3)); break; default: h = 1 + int(c.below(unsigned(max_side) * 8)); w = 1 + int(c.below(3)); }
  int bpp = f == BL_FORMAT_A8 ? 1 : 4; int stride = w * bpp; bool ext = external && c.chance(1, 3), neg = false;
  if (ext) { int pad = int(c.below(5)) * bpp; stride += pad; neg = c.coin(); o.data.reset(new uint8_t[size_t(stride) * size_t(h)]); for (size_t i = 0; i < size_t(stride) * size_t(h); i++) o.data[i] = uint8_t(i * 37); uint8_t* p = o.data.get() + (neg ? intptr_t(stride) * (h - 1) : 0); if (o.img.create_from_data(w, h, f, p, neg ? -stride : stride) != BL_SUCCESS) c.fail("create_from_data failed"); }
  else if (o.img.create(w, h, f) != BL_SUCCESS) c.fail("create failed");
  int kind = int(c.weighted({3, 3, 3, 2, 3, 2, 2})); Rng r(c.u64()); uint32_t pal[300]; int np = 1 + int(c.below(kind == 5 ? 300 : 8)); for (int i = 0; i < 300; i++) pal[i] = rnd_pixel(r, f); if (f == BL_FORMAT_XRGB32 && c.coin()) for (auto& v : pal) v |= 0xFF000000u;
  if (c.coin()) pal[0] = f == BL_FORMAT_A8 ? 0xFF : c.coin() ? 0xFF000000u : f == BL_FORMAT_PRGB32 ? 0u : 0xFFFFFFFFu;
  unsigned run_max = c.pickl<unsigned>({2, 10, 61, 62, 63, 64, 130, 300, 3000}), run = 0; uint32_t cur = pal[0]; int tw = 1 + int(c.below(12)), th = 1 + int(c.below(4));
  BLImageData d; o.img.make_mutable(&d); std::vector<uint32_t> px(size_t(w) * size_t(h));
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
    uint32_t v = 0; size_t k = size_t(y) * size_t(w) + size_t(x);
    switch (kind) {
      case 0: v = rnd_pixel(r, f); break;                                       // noise
      case 1: v = pal[r.below(unsigned(np))]; break;                            // few colors
      case 2: v = lerp_pixel(pal[0], x, y, f); break;                           // gradient
      case 3: v = pal[0]; break;                                                // constant
      case 4: if (!run) { run = 1 + r.below(run_max); cur = r.below(8) == 0 ? rnd_pixel(r, f) : pal[r.below(unsigned(np))]; } run--; v = cur; break; // runs
      case 5: v = x >= tw && y >= th ? px[k - size_t(tw) - size_t(th) * size_t(w)] : pal[r.below(unsigned(np))]; if (r.below(40) == 0) v = rnd_pixel(r, f); break; // repeated tile
      default: { uint32_t p = x ? px[k - 1] : pal[0]; if (f == BL_FORMAT_A8) v = (p + r.below(5) - 2) & 255; else { uint32_t a = f == BL_FORMAT_XRGB32 ? p >> 24 : r.below(30) == 0 ? r.below(256) : p >> 24; unsigned s = r.below(4) == 0 ? 40 : 4; v = a << 24; for (int b = 0; b < 24; b += 8) { int q = int((p >> b) & 255) + int(r.below(2 * s + 1)) - int(s); if (f == BL_FORMAT_PRGB32) q = std::max(0, std::min(int(a), q)); v |= uint32_t(q & 255) << b; } } break; } // small differences
    }
    px[k] = v; uint8_t* row = static_cast<uint8_t*>(d.pixel_data) + intptr_t(y) * d.stride; if (f == BL_FORMAT_A8) row[x] = uint8_t(v); else memcpy(row + x * 4, &v, 4);
  }
  o.text = pbt::fmt("%dx%d %s kind %d%s", w, h, f == BL_FORMAT_A8 ? "A8" : f == BL_FORMAT_XRGB32 ? "XRGB32" : "PRGB32", kind, ext ? neg ? " external, negative stride" : " external" : "");
  return o;
}

static inline uint32_t be32(const uint8_t* p) { return uint32_t(p[0]) << 24 | uint32_t(p[1]) << 16 | uint32_t(p[2]) << 8 | p[3]; }
static inline uint32_t le32(const uint8_t* p) { return uint32_t(p[3]) << 24 | uint32_t(p[2]) << 16 | uint32_t(p[1]) << 8 | p[0]; }
static inline void put_be32(Bytes& b, uint32_t v) { for (int s = 24; s >= 0; s -= 8) b.push_back(uint8_t(v >> s)); }
static inline void put_be16(Bytes& b, uint32_t v) { b.push_back(uint8_t(v >> 8)); b.push_back(uint8_t(v)); }
static inline void put_le32(Bytes& b, uint32_t v) { for (int s = 0; s < 32; s += 8) b.push_back(uint8_t(v >> s)); }
static inline void put_le16(Bytes& b, uint32_t v) { b.push_back(uint8_t(v)); b.push_back(uint8_t(v >> 8)); }

static inline unsigned paeth(int a, int b, int c) { int p = a + b - c, pa = std::abs(p - a), pb = std::abs(p - b), pc = std::abs(p - c); return unsigned(pa <= pb && pa <= pc ? a : pb <= pc ? b : c); }

// Reads a (non-interlaced, 8 bits per sample) PNG written by the encoder; returns an error message.
struct PngFile { uint32_t w, h; int depth, type; Bytes raw; /* unfiltered */ };
static inline std::string read_png(const uint8_t* d, size_t n, PngFile& f) {
  static const uint8_t sig[8] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; if (n < 8 || memcmp(d, sig, 8)) return "bad signature"; size_t at = 8; Bytes z; bool ihdr = false, idat = false, iend = false;
  while (at < n) {
    if (iend) return "data after IEND"; if (n - at < 12) return "truncated chunk"; uint32_t len = be32(d + at); if (len > n - at - 12) return "chunk exceeds the file"; const uint8_t* t = d + at + 4; const uint8_t* p = t + 4;
    if (be32(p + len) != uint32_t(crc32(0, t, len + 4))) return pbt::fmt("wrong CRC of %.4s", t);
    if (!memcmp(t, "IHDR", 4)) { if (ihdr || at != 8 || len != 13) return "bad IHDR"; ihdr = true; f.w = be32(p); f.h = be32(p + 4); f.depth = p[8]; f.type = p[9]; if (p[10] || p[11] || p[12]) return "unexpected methods in IHDR"; }
    else if (!memcmp(t, "IDAT", 4)) { if (!ihdr) return "IDAT before IHDR"; idat = true; z.insert(z.end(), p, p + len); }
    else if (!memcmp(t, "IEND", 4)) { if (len || !idat) return "bad IEND"; iend = true; }
    else if (!(t[0] & 32)) return pbt::fmt("unexpected critical chunk %.4s", t);
    at += 12 + len;
  }
  if (!iend) return "no IEND"; if (f.depth != 8) return "unexpected depth"; unsigned bpp = f.type == 0 ? 1 : f.type == 2 ? 3 : f.type == 6 ? 4 : 0; if (!bpp) return "unexpected color type";
  size_t bpl = size_t(f.w) * bpp + 1; Bytes u(bpl * f.h + 1); z_stream s{}; if (inflateInit(&s) != Z_OK) return "inflateInit"; s.next_in = z.data(); s.avail_in = uInt(z.size()); s.next_out = u.data(); s.avail_out = uInt(u.size()); int r = inflate(&s, Z_FINISH); size_t got = s.total_out, left = s.avail_in; std::string msg = s.msg ? s.msg : ""; inflateEnd(&s);
  if (r != Z_STREAM_END) return pbt::fmt("inflate of the compressed data returned %d (%s)", r, msg.c_str()); if (got != u.size() - 1) return pbt::fmt("compressed data decode to %zu bytes instead of %zu", got, u.size() - 1); if (left) return "data after the zlib stream";
  Bytes prev(bpl - 1, 0); f.raw.clear();
  for (uint32_t y = 0; y < f.h; y++) { uint8_t* row = u.data() + bpl * y; int ft = row[0]; if (ft > 4) return "bad filter"; row++; for (size_t i = 0; i < bpl - 1; i++) { int a = i >= bpp ? row[i - bpp] : 0, b = prev[i], cc = i >= bpp ? prev[i - bpp] : 0; row[i] = uint8_t(row[i] + (ft == 0 ? 0 : ft == 1 ? a : ft == 2 ? b : ft == 3 ? (a + b) / 2 : int(paeth(a, b, cc)))); } prev.assign(row, row + bpl - 1); f.raw.insert(f.raw.end(), row, row + bpl - 1); }
  return "";
}
// Reference QOI decoder; straight RGBA as 0xAARRGGBB.
static inline std::string read_qoi(const uint8_t* d, size_t n, uint32_t& w, uint32_t& h, int& ch, std::vector<uint32_t>& out) {
  if (n < 22 || memcmp(d, "qoif", 4)) return "bad header"; w = be32(d + 4); h = be32(d + 8); ch = d[12]; if ((ch != 3 && ch != 4) || d[13] > 1) return "bad channels or color space";
  struct Q { uint8_t r, g, b, a; bool operator==(const Q& o) const { return r == o.r && g == o.g && b == o.b && a == o.a; } } px{0, 0, 0, 255}, ix[64] = {}; size_t at = 14, end = n - 8, total = size_t(w) * h; unsigned run = 0; out.clear();
  while (out.size() < total) {
    if (run) run--;
    else { if (at >= end) return "truncated"; uint8_t b = d[at++]; 
      if (b == 0xFE) { if (end - at < 3) return "truncated"; px.r = d[at]; px.g = d[at + 1]; px.b = d[at + 2]; at += 3; }
      else if (b == 0xFF) { if (end - at < 4) return "truncated"; px = Q{d[at], d[at + 1], d[at + 2], d[at + 3]}; at += 4; }
      else if (b < 64) px = ix[b];
      else if (b < 128) { px.r = uint8_t(px.r + ((b >> 4) & 3) - 2); px.g = uint8_t(px.g + ((b >> 2) & 3) - 2); px.b = uint8_t(px.b + (b & 3) - 2); }
      else if (b < 192) { if (end - at < 1) return "truncated"; uint8_t e = d[at++]; int vg = (b & 63) - 32; px.r = uint8_t(px.r + vg - 8 + (e >> 4)); px.g = uint8_t(px.g + vg); px.b = uint8_t(px.b + vg - 8 + (e & 15)); }
      else run = b & 63;
      ix[(px.r * 3 + px.g * 5 + px.b * 7 + px.a * 11) % 64] = px; }
    out.push_back(uint32_t(px.a) << 24 | uint32_t(px.r) << 16 | uint32_t(px.g) << 8 | px.b);
  }
  static const uint8_t pad[8] = {0, 0, 0, 0, 0, 0, 0, 1}; if (run) return "run exceeds the image"; if (at != end || memcmp(d + end, pad, 8)) return "bad end marker"; return "";
}
}
