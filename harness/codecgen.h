// Generators of conforming image files together with the pixels they define.
#pragma once
#include <cmath>
#include "img.h"

namespace gen {
using pbt::Case; using im::Bytes; using im::Pix; using im::Rng; using im::put_be32; using im::put_be16; using im::put_le32; using im::put_le16; using im::premul;

struct File { Bytes data; Pix pix; std::vector<Pix> frames; std::vector<uint8_t> skip; /* pixels without a defined value */ int depth = 0; bool progressive = false, exact = true; const char* name = ""; std::string text; uint32_t frame_count = 1, repeat = 0; std::vector<std::array<int, 6>> bounds; /* rgb min/max per pixel (JPEG) */ };

// ---------------------------------------------------------------------------------------------- DEFLATE
struct BitW { Bytes o; uint64_t acc = 0; unsigned n = 0; void put(uint32_t v, unsigned k) { acc |= uint64_t(v) << n; n += k; while (n >= 8) { o.push_back(uint8_t(acc)); acc >>= 8; n -= 8; } } void align() { if (n) { o.push_back(uint8_t(acc)); acc = 0; n = 0; } } void huff(uint32_t code, unsigned len) { uint32_t r = 0; for (unsigned i = 0; i < len; i++) r |= ((code >> i) & 1) << (len - 1 - i); put(r, len); } };

// Lengths of a complete prefix code for the given symbols.
static inline std::vector<uint8_t> tree(Case& c, Rng& r, const std::vector<int>& syms, size_t total, unsigned max_len) {
  std::vector<uint8_t> len(total, 0); if (syms.empty()) return len; if (syms.size() == 1) { len[size_t(syms[0])] = 1; return len; }
  std::vector<unsigned> leaf{0}; unsigned mode = unsigned(c.below(4));
  while (leaf.size() < syms.size()) {
    size_t k = r.below(uint32_t(leaf.size()));
    if (mode == 1 || (mode == 2 && r.below(3) == 0)) { for (size_t i = 0; i < leaf.size(); i++) if (leaf[i] > leaf[k] && leaf[i] < max_len) k = i; }            // deep
    if (mode == 3) for (size_t i = 0; i < leaf.size(); i++) if (leaf[i] < leaf[k]) k = i;                                                                       // flat
    if (leaf[k] >= max_len) { for (size_t i = 0; i < leaf.size(); i++) if (leaf[i] < leaf[k]) k = i; if (leaf[k] >= max_len) break; }
    leaf[k]++; leaf.push_back(leaf[k]);
  }
  for (size_t i = leaf.size(); i > 1; i--) std::swap(leaf[i - 1], leaf[r.below(uint32_t(i))]);
  for (size_t i = 0; i < syms.size(); i++) len[size_t(syms[i])] = uint8_t(leaf[i]); return len;
}
static inline std::vector<uint32_t> codes(const std::vector<uint8_t>& len) { uint32_t cnt[17] = {}, next[17] = {}; for (auto l : len) if (l) cnt[l]++; uint32_t code = 0; for (int b = 1; b <= 16; b++) { code = (code + cnt[b - 1]) << 1; next[b] = code; } std::vector<uint32_t> o(len.size()); for (size_t i = 0; i < len.size(); i++) if (len[i]) o[i] = next[len[i]]++; return o; }

static const unsigned kLenBase[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}, kLenExtra[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const unsigned kDistBase[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}, kDistExtra[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};

// A zlib stream with blocks of every type, arbitrary prefix codes and matches.
static inline Bytes own_deflate(Case& c, Rng& r, const Bytes& d, bool raw) {
  BitW w; if (!raw) { unsigned cmf = 0x78, flg = unsigned(r.below(4)) << 6; flg += 31 - (cmf * 256 + flg) % 31; w.put(cmf, 8); w.put(flg, 8); }
  std::vector<std::vector<uint32_t>> hash(4096); size_t at = 0; unsigned match_mode = unsigned(c.below(4)); size_t max_block = size_t(c.pickl<int>({1, 7, 40, 300, 3000, 70000}));
  auto h3 = [&](size_t p) { return ((uint32_t(d[p]) << 8 ^ uint32_t(d[p + 1]) << 4 ^ d[p + 2]) * 2654435761u) >> 20; };
  auto insert = [&](size_t p) { if (p + 3 <= d.size()) { auto& v = hash[h3(p)]; if (v.size() > 64) v.erase(v.begin(), v.begin() + 32); v.push_back(uint32_t(p)); } };
  bool first = true;
  while (at < d.size() || first || r.below(6) == 0) {
    first = false; size_t n = std::min<size_t>(d.size() - at, r.below(uint32_t(max_block + 1))); bool fin = at + n == d.size() && r.below(3) != 0; unsigned type = r.below(3); if (n > 65535 && type == 0) n = 65535, fin = at + n == d.size();
    w.put(fin, 1); w.put(type, 2);
    if (type == 0) { w.align(); w.put(uint32_t(n), 16); w.put(uint32_t(n) ^ 0xFFFF, 16); for (size_t i = 0; i < n; i++) { w.put(d[at + i], 8); insert(at + i); } at += n; if (fin) break; continue; }
    struct Tok { uint16_t len, dist; uint8_t lit; }; std::vector<Tok> t; size_t end = at + n;
    while (at < end) {
      unsigned best = 0, dist = 0; if (match_mode && at + 3 <= end && (match_mode < 3 || r.below(3))) { auto& v = hash[h3(at)]; for (int tr = 0; tr < 4 && !v.empty(); tr++) { size_t q = v[match_mode == 2 ? r.below(uint32_t(v.size())) : v.size() - 1 - r.below(uint32_t(std::min<size_t>(v.size(), 4)))]; if (at - q > 32768) continue; unsigned k = 0; while (k < 258 && at + k < end && d[q + k] == d[at + k]) k++; if (k > best) { best = k; dist = unsigned(at - q); } } if (best > 3 && r.below(4) == 0) best = 3 + r.below(best - 2); }
      if (best >= 3) { t.push_back({uint16_t(best), uint16_t(dist), 0}); for (unsigned k = 0; k < best; k++) insert(at + k); at += best; } else { t.push_back({0, 0, d[at]}); insert(at); at++; }
    }
    auto lsym = [](unsigned l) { int k = 28; while (kLenBase[k] > l) k--; return k; }; auto dsym = [](unsigned x) { int k = 29; while (kDistBase[k] > x) k--; return k; };
    std::vector<uint8_t> ll(288), dl(32);
    if (type == 1) { for (int i = 0; i < 288; i++) ll[size_t(i)] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; dl.assign(32, 5); }
    else {
      std::vector<bool> lu(286), du(30); lu[256] = true; for (auto& x : t) if (x.len) { lu[size_t(257 + lsym(x.len))] = true; du[size_t(dsym(x.dist))] = true; } else lu[x.lit] = true;
      unsigned extra = r.below(3) == 0 ? r.below(286) : r.below(3); for (unsigned i = 0; i < extra; i++) lu[r.below(286)] = true; if (r.below(3) == 0) for (unsigned i = r.below(12); i; i--) du[r.below(30)] = true;
      std::vector<int> ls, ds; for (int i = 0; i < 286; i++) if (lu[size_t(i)]) ls.push_back(i); for (int i = 0; i < 30; i++) if (du[size_t(i)]) ds.push_back(i); if (ls.size() == 1) ls.insert(ls.begin(), int(r.below(256)));
      ll = tree(c, r, ls, 286, 15); dl = tree(c, r, ds, 30, 15); size_t hl = 257, hd = 1; for (size_t i = 257; i < 286; i++) if (ll[i]) hl = i + 1; for (size_t i = 1; i < 30; i++) if (dl[i]) hd = i + 1; hl += r.below(uint32_t(287 - hl)); hd += r.below(uint32_t(31 - hd)); if (r.below(3)) { hl = std::max<size_t>(hl, 257); }
      std::vector<uint8_t> all(ll.begin(), ll.begin() + long(hl)); all.insert(all.end(), dl.begin(), dl.begin() + long(hd)); struct P { uint8_t s, x, b; }; std::vector<P> ps;
      for (size_t i = 0; i < all.size();) { size_t k = 1; while (i + k < all.size() && all[i + k] == all[i]) k++; 
        if (all[i] == 0 && k >= 3 && r.below(8)) { size_t z = k >= 11 && r.below(8) ? std::min<size_t>(k, 138) : std::min<size_t>(k, 10); if (z >= 11) ps.push_back({18, uint8_t(z - 11), 7}); else ps.push_back({17, uint8_t(z - 3), 3}); i += z; }
        else if (i && all[i] == all[i - 1] && k >= 3 && r.below(8)) { size_t z = std::min<size_t>(k, 3 + r.below(4)); ps.push_back({16, uint8_t(z - 3), 2}); i += z; }
        else { ps.push_back({all[i], 0, 0}); i++; } }
      std::vector<int> cs; std::vector<bool> cu(19); for (auto& p : ps) cu[p.s] = true; if (r.below(3) == 0) cu[r.below(19)] = true; for (int i = 0; i < 19; i++) if (cu[size_t(i)]) cs.push_back(i); if (cs.size() == 1) { int o = cs[0] == 0 ? 1 : 0; cs.push_back(o); std::sort(cs.begin(), cs.end()); }
      auto cl = tree(c, r, cs, 19, 7); auto cc = codes(cl); static const int order[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}; size_t hc = 19; while (hc > 4 && cl[size_t(order[hc - 1])] == 0) hc--; hc += r.below(uint32_t(20 - hc));
      w.put(uint32_t(hl - 257), 5); w.put(uint32_t(hd - 1), 5); w.put(uint32_t(hc - 4), 4); for (size_t i = 0; i < hc; i++) w.put(cl[size_t(order[i])], 3); for (auto& p : ps) { w.huff(cc[p.s], cl[p.s]); if (p.b) w.put(p.x, p.b); }
    }
    auto lc = codes(ll), dc = codes(dl);
    for (auto& x : t) if (x.len) { size_t k = size_t(lsym(x.len)); w.huff(lc[257 + k], ll[257 + k]); w.put(x.len - kLenBase[k], kLenExtra[k]); size_t q = size_t(dsym(x.dist)); w.huff(dc[q], dl[q]); w.put(x.dist - kDistBase[q], kDistExtra[q]); } else w.huff(lc[x.lit], ll[x.lit]);
    w.huff(lc[256], ll[256]); if (fin) break;
  }
  // The last block has to be final.
  w.align();
  Bytes o = w.o; if (!raw) put_be32(o, uint32_t(adler32(1, d.data(), uInt(d.size())))); return o;
}
static inline bool zlib_ok(const Bytes& z, const Bytes& d) { Bytes u(d.size() + 1); z_stream s{}; if (inflateInit(&s) != Z_OK) return false; s.next_in = const_cast<uint8_t*>(z.data()); s.avail_in = uInt(z.size()); s.next_out = u.data(); s.avail_out = uInt(u.size()); int r = inflate(&s, Z_FINISH); bool ok = r == Z_STREAM_END && s.total_out == d.size() && s.avail_in == 0 && (d.empty() || !memcmp(u.data(), d.data(), d.size())); inflateEnd(&s); return ok; }

static inline Bytes compress(Case& c, Rng& r, const Bytes& d) {
  if (c.chance(3, 5)) { Bytes z; for (int i = 0; i < 8; i++) { z = own_deflate(c, r, d, false); if (zlib_ok(z, d)) { c.label(true, "own deflate stream"); return z; } } c.label(true, "generated stream was not accepted by zlib"); }
  z_stream s{}; int lev = int(c.below(10)), wb = 9 + int(c.below(7)), ml = 1 + int(c.below(9)), st = c.pickl<int>({Z_DEFAULT_STRATEGY, Z_FILTERED, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED}); if (deflateInit2(&s, lev, Z_DEFLATED, wb, ml, st) != Z_OK) c.fail("deflateInit2");
  Bytes z(d.size() + d.size() / 2 + 4096); std::vector<uInt> cut; unsigned pieces = unsigned(c.below(5)); s.next_out = z.data(); s.avail_out = uInt(z.size()); size_t at = 0;
  for (unsigned i = 0; i < pieces && at < d.size(); i++) { size_t n = std::min<size_t>(d.size() - at, 1 + r.below(uint32_t(d.size()))); s.next_in = const_cast<uint8_t*>(d.data() + at); s.avail_in = uInt(n); deflate(&s, c.pickl<int>({Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_BLOCK, Z_PARTIAL_FLUSH})); at += n - s.avail_in; if (c.chance(1, 4)) deflateParams(&s, int(c.below(10)), c.pickl<int>({Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_FIXED})); }
  s.next_in = const_cast<uint8_t*>(d.data() + at); s.avail_in = uInt(d.size() - at); int rc = deflate(&s, Z_FINISH); z.resize(s.total_out); deflateEnd(&s); if (rc != Z_STREAM_END) c.discard(); return z;
}

// ---------------------------------------------------------------------------------------------- PNG
struct Png { int type, depth, w, h; bool adam7; std::vector<std::array<uint8_t, 4>> pal; std::vector<uint16_t> key; size_t trns = 0; };
static const int kX0[7] = {0, 4, 0, 2, 0, 1, 0}, kY0[7] = {0, 0, 4, 0, 2, 0, 1}, kDX[7] = {8, 8, 4, 4, 2, 2, 1}, kDY[7] = {8, 8, 8, 4, 4, 2, 2};

// Filtered scanlines of samples `s` ([y][x][channel]).
static inline Bytes scanlines(Case& c, Rng& r, const Png& p, int w, int h, const std::vector<uint8_t>& s) {
  int ch = p.type == 2 ? 3 : p.type == 4 ? 2 : p.type == 6 ? 4 : 1; size_t bpp = size_t(std::max(1, ch * p.depth / 8)); Bytes out; int fmode = int(c.below(8));
  for (int pass = 0; pass < (p.adam7 ? 7 : 1); pass++) {
    int x0 = p.adam7 ? kX0[pass] : 0, y0 = p.adam7 ? kY0[pass] : 0, dx = p.adam7 ? kDX[pass] : 1, dy = p.adam7 ? kDY[pass] : 1; int pw = (w - x0 + dx - 1) / dx, ph = (h - y0 + dy - 1) / dy; if (pw <= 0 || ph <= 0) continue;
    size_t bpl = (size_t(pw) * size_t(ch * p.depth) + 7) / 8; Bytes prev(bpl, 0), row(bpl);
    for (int j = 0; j < ph; j++) {
      std::fill(row.begin(), row.end(), uint8_t(0)); for (int i = 0; i < pw; i++) for (int k = 0; k < ch; k++) { unsigned v = s[(size_t(y0 + j * dy) * size_t(w) + size_t(x0 + i * dx)) * size_t(ch) + size_t(k)]; size_t bit = (size_t(i) * size_t(ch) + size_t(k)) * size_t(p.depth); row[bit / 8] |= uint8_t(v << (8 - p.depth - int(bit % 8))); }
      if (p.depth < 8 && (size_t(pw) * size_t(p.depth)) % 8 && r.below(2)) row[bpl - 1] |= uint8_t(r.next() & ((1u << (8 - (size_t(pw) * size_t(p.depth)) % 8)) - 1)); // unused bits
      unsigned f = fmode < 5 ? unsigned(fmode) : r.below(5); out.push_back(uint8_t(f));
      for (size_t i = 0; i < bpl; i++) { int a = i >= bpp ? row[i - bpp] : 0, b = prev[i], q = i >= bpp ? prev[i - bpp] : 0; out.push_back(uint8_t(row[i] - (f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : int(im::paeth(a, b, q))))); }
      prev = row;
    }
  }
  return out;
}
static inline uint32_t png_pixel(const Png& p, const uint8_t* s) {
  switch (p.type) {
    case 0: { unsigned v = s[0] * 255u / ((1u << p.depth) - 1); return !p.key.empty() && p.key[0] == s[0] ? 0 : 0xFF000000u | v * 0x010101u; }
    case 2: return !p.key.empty() && p.key[0] == s[0] && p.key[1] == s[1] && p.key[2] == s[2] ? 0 : 0xFF000000u | uint32_t(s[0]) << 16 | uint32_t(s[1]) << 8 | s[2];
    case 3: { auto& e = p.pal[s[0]]; return premul(e[0], e[1], e[2], e[3]); }
    case 4: return premul(s[0], s[0], s[0], s[1]);
    default: return premul(s[0], s[1], s[2], s[3]);
  }
}
static inline std::vector<uint8_t> samples(Case& c, Rng& r, const Png& p, int w, int h) {
  int ch = p.type == 2 ? 3 : p.type == 4 ? 2 : p.type == 6 ? 4 : 1; unsigned lim = p.type == 3 ? unsigned(p.pal.size()) : 1u << p.depth; std::vector<uint8_t> s(size_t(w) * size_t(h) * size_t(ch)); int kind = int(c.below(4)); uint8_t few[12]; for (auto& v : few) v = uint8_t(r.below(lim));
  for (size_t i = 0; i < s.size(); i++) { size_t px = i / size_t(ch), k = i % size_t(ch); switch (kind) { case 0: s[i] = uint8_t(r.below(lim)); break; case 1: s[i] = few[r.below(4) * size_t(ch) % 12 + (k < 4 ? k % 3 : 0)]; break; case 2: s[i] = uint8_t((px % size_t(w) + px / size_t(w) * 3 + k * 50) % lim); break; default: s[i] = px && r.below(10) ? s[i - size_t(ch)] : uint8_t(r.below(lim)); } if ((p.type == 4 && k == 1) || (p.type == 6 && k == 3)) { unsigned q = r.below(4); if (q == 0) s[i] = 0; else if (q == 1) s[i] = 255; } }
  if (!p.key.empty()) for (size_t px = 0; px < size_t(w) * size_t(h); px++) if (r.below(4) == 0) for (int k = 0; k < ch; k++) if (p.key[size_t(k)] < lim && r.below(10)) s[px * size_t(ch) + size_t(k)] = uint8_t(p.key[size_t(k)]);
  return s;
}
static inline void chunk(Bytes& o, const char* tag, const Bytes& d) { put_be32(o, uint32_t(d.size())); size_t at = o.size(); for (int i = 0; i < 4; i++) o.push_back(uint8_t(tag[i])); o.insert(o.end(), d.begin(), d.end()); put_be32(o, uint32_t(crc32(0, &o[at], uInt(d.size() + 4)))); }
static inline void ancillary(Case& c, Bytes& o) { while (c.chance(1, 4)) { const char* tags[] = {"tEXt", "gAMA", "prVt", "zTXt", "pHYs", "tIME", "bKGD", "sRGB"}; chunk(o, tags[c.below(8)], c.bytes(c.below(20))); } }
static inline void data_chunks(Case& c, Rng& r, Bytes& o, const Bytes& z, int seq, uint32_t* counter) {
  size_t at = 0; unsigned mode = unsigned(c.below(4)); bool more = true;
  while (more) { size_t left = z.size() - at, n = mode == 0 ? left : mode == 1 ? std::min<size_t>(left, r.below(8)) : mode == 2 ? std::min<size_t>(left, 1 + r.below(200)) : r.below(3) ? left / 2 : std::min<size_t>(left, r.below(5)); if (mode == 3 && left < 6) n = std::min<size_t>(left, 1); Bytes d; if (seq) put_be32(d, (*counter)++); d.insert(d.end(), z.begin() + long(at), z.begin() + long(at + n)); chunk(o, seq ? "fdAT" : "IDAT", d); at += n; more = at < z.size() || (mode == 1 && r.below(4) == 0); }
}
static inline File png(Case& c, int max_side, bool allow_apng = true) {
  static const int combos[12][2] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {2, 8}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {6, 8}, {2, 8}}; File f; Png p; auto& k = combos[c.below(12)]; p.type = k[0]; p.depth = k[1]; p.adam7 = c.chance(2, 5); Rng r(c.u64());
  switch (c.weighted({5, 3, 1, 1})) { case 0: p.w = 1 + int(c.below(unsigned(max_side))); p.h = 1 + int(c.below(unsigned(max_side))); break; case 1: p.w = 1 + int(c.below(9)); p.h = 1 + int(c.below(9)); break; case 2: p.w = 1 + int(c.below(unsigned(max_side) * 8)); p.h = 1 + int(c.below(4)); break; default: p.h = 1 + int(c.below(unsigned(max_side) * 8)); p.w = 1 + int(c.below(4)); }
  if (p.type == 3) { unsigned lim = 1u << p.depth; p.pal.resize(c.coin() ? lim : 1 + c.below(lim)); for (auto& e : p.pal) e = {uint8_t(r.next()), uint8_t(r.next()), uint8_t(r.next()), 255}; if (c.coin()) { p.trns = 1 + c.below(p.pal.size()); for (size_t i = 0; i < p.trns; i++) p.pal[i][3] = r.below(3) == 0 ? 0 : r.below(3) == 0 ? 255 : uint8_t(r.next()); } }
  else if ((p.type == 0 || p.type == 2) && c.chance(1, 3)) for (int i = 0; i < (p.type == 0 ? 1 : 3); i++) p.key.push_back(uint16_t(r.below(r.below(12) == 0 && p.type == 2 ? 65536 : 1u << p.depth)));
  static const uint8_t sig[8] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; f.data.assign(sig, sig + 8); Bytes d; put_be32(d, uint32_t(p.w)); put_be32(d, uint32_t(p.h)); d.push_back(uint8_t(p.depth)); d.push_back(uint8_t(p.type)); d.push_back(0); d.push_back(0); d.push_back(p.adam7); chunk(f.data, "IHDR", d);
  bool apng = allow_apng && c.chance(1, 5) && p.w * p.h <= 4000; uint32_t n = apng ? 2 + uint32_t(c.below(5)) : 1, seq = 0; ancillary(c, f.data);
  f.name = apng ? "APNG" : "PNG"; f.frame_count = n; f.repeat = 0; f.depth = p.depth * (p.type == 2 ? 3 : p.type == 4 ? 2 : p.type == 6 ? 4 : 1); f.progressive = p.adam7;
  if (apng) { f.repeat = uint32_t(c.below(4)); d.clear(); put_be32(d, n); put_be32(d, f.repeat); chunk(f.data, "acTL", d); ancillary(c, f.data); }
  auto fctl = [&](int x, int y, int w, int h, int disp, int blend) { Bytes q; put_be32(q, seq++); put_be32(q, uint32_t(w)); put_be32(q, uint32_t(h)); put_be32(q, uint32_t(x)); put_be32(q, uint32_t(y)); put_be16(q, unsigned(c.below(100))); put_be16(q, unsigned(c.below(100))); q.push_back(uint8_t(disp)); q.push_back(uint8_t(blend)); chunk(f.data, "fcTL", q); };
  int disp = int(c.below(3)), blend = int(c.below(2)); bool early = c.chance(1, 4); if (apng && early) fctl(0, 0, p.w, p.h, disp, blend);
  if (p.type == 3 || ((p.type == 2 || p.type == 6) && c.chance(1, 8))) { d.clear(); size_t cnt = p.type == 3 ? p.pal.size() : 1 + c.below(256); for (size_t i = 0; i < cnt; i++) for (int j = 0; j < 3; j++) d.push_back(p.type == 3 ? p.pal[i][size_t(j)] : uint8_t(r.next())); chunk(f.data, "PLTE", d); ancillary(c, f.data); }
  if (p.trns) { d.clear(); for (size_t i = 0; i < p.trns; i++) d.push_back(p.pal[i][3]); chunk(f.data, "tRNS", d); } if (!p.key.empty()) { d.clear(); for (auto v : p.key) put_be16(d, v); chunk(f.data, "tRNS", d); }
  ancillary(c, f.data); if (apng && !early) fctl(0, 0, p.w, p.h, disp, blend);
  f.text = pbt::fmt("%s %dx%d type %d depth %d%s%s%s", f.name, p.w, p.h, p.type, p.depth, p.adam7 ? " interlaced" : "", p.trns || !p.key.empty() ? " tRNS" : "", p.type == 3 ? pbt::fmt(" palette of %zu", p.pal.size()).c_str() : "");
  Pix cv; cv.w = p.w; cv.h = p.h; cv.p.assign(size_t(p.w) * size_t(p.h), 0); std::vector<uint32_t> saved; struct { int x, y, w, h, disp; } prev{0, 0, p.w, p.h, 0}; int ch = p.type == 2 ? 3 : p.type == 4 ? 2 : p.type == 6 ? 4 : 1;
  for (uint32_t i = 0; i < n; i++) {
    int x = 0, y = 0, w = p.w, h = p.h; if (i) { w = 1 + int(c.below(unsigned(p.w))); h = 1 + int(c.below(unsigned(p.h))); x = int(c.below(unsigned(p.w - w + 1))); y = int(c.below(unsigned(p.h - h + 1))); disp = int(c.below(3)); blend = int(c.below(2)); ancillary(c, f.data); fctl(x, y, w, h, disp, blend); f.text += pbt::fmt(" [%d,%d %dx%d dispose %d blend %d]", x, y, w, h, disp, blend); }
    auto s = samples(c, r, p, w, h); Bytes raw = scanlines(c, r, p, w, h, s); data_chunks(c, r, f.data, compress(c, r, raw), i > 0, &seq);
    if (i) { if (prev.disp == 1) for (int b = 0; b < prev.h; b++) for (int a = 0; a < prev.w; a++) cv.at(prev.x + a, prev.y + b) = 0; else if (prev.disp == 2) cv.p = saved; }
    saved = cv.p; int dd = i == 0 && disp == 2 ? 1 : disp;
    for (int b = 0; b < h; b++) for (int a = 0; a < w; a++) { uint32_t v = png_pixel(p, &s[(size_t(b) * size_t(w) + size_t(a)) * size_t(ch)]), &o = cv.at(x + a, y + b); if (i && blend) { uint32_t al = v >> 24, q = 0; for (int t = 0; t < 32; t += 8) { uint32_t e = ((v >> t) & 255) + im::div255(((o >> t) & 255) * (255 - al)); q |= std::min(255u, e) << t; } v = q; } o = v; }
    f.frames.push_back(cv); prev = {x, y, w, h, dd};
  }
  ancillary(c, f.data); chunk(f.data, "IEND", {}); if (c.chance(1, 8)) { auto t = c.bytes(c.below(30)); f.data.insert(f.data.end(), t.begin(), t.end()); }
  f.pix = f.frames[0]; return f;
}

// ---------------------------------------------------------------------------------------------- QOI
static inline File qoi(Case& c, int max_side) {
  File f; f.name = "QOI"; Rng r(c.u64()); int w = 1 + int(c.below(unsigned(max_side))), h = 1 + int(c.below(unsigned(max_side))), ch = 3 + int(c.below(2)); if (c.chance(1, 6)) { w = 1 + int(c.below(1500)); h = 1 + int(c.below(3)); }
  for (char x : {'q', 'o', 'i', 'f'}) f.data.push_back(uint8_t(x)); put_be32(f.data, uint32_t(w)); put_be32(f.data, uint32_t(h)); f.data.push_back(uint8_t(ch)); f.data.push_back(uint8_t(c.below(2)));
  unsigned wt[6]; for (auto& x : wt) x = unsigned(c.below(5)); wt[0]++; unsigned total = 0; for (auto x : wt) total += x; size_t left = size_t(w) * size_t(h); bool few = c.coin();
  struct Q { uint8_t r, g, b, a; } px{0, 0, 0, 255}, ix[64] = {}; auto hash = [](Q q) { return unsigned(q.r * 3 + q.g * 5 + q.b * 7 + q.a * 11) & 63; };
  while (left) {
    unsigned v = r.below(total), k = 0; while (v >= wt[k]) v -= wt[k++]; auto byte = [&]() { return uint8_t(few ? r.below(3) * 127 : r.next()); };
    switch (k) {
      case 0: px.r = byte(); px.g = byte(); px.b = byte(); f.data.insert(f.data.end(), {0xFE, px.r, px.g, px.b}); break;
      case 1: if (ch == 3) continue; px = Q{byte(), byte(), byte(), byte()}; f.data.insert(f.data.end(), {0xFF, px.r, px.g, px.b, px.a}); break;
      case 2: { unsigned s = r.below(64), t = 0; while (t < 64 && (hash(ix[s]) != s || (ch == 3 && ix[s].a != 255))) s = (s + 1) & 63, t++; if (t == 64) { wt[0]++; total++; continue; } px = ix[s]; f.data.push_back(uint8_t(s)); break; } // an encoder only refers to entries stored at their own position
      case 3: { unsigned q = r.next() & 63; px.r = uint8_t(px.r + (q >> 4) - 2); px.g = uint8_t(px.g + ((q >> 2) & 3) - 2); px.b = uint8_t(px.b + (q & 3) - 2); f.data.push_back(uint8_t(0x40 | q)); break; }
      case 4: { unsigned q = r.next() & 63, e = r.next() & 255; int vg = int(q) - 32; px.r = uint8_t(px.r + vg - 8 + int(e >> 4)); px.g = uint8_t(px.g + vg); px.b = uint8_t(px.b + vg - 8 + int(e & 15)); f.data.push_back(uint8_t(0x80 | q)); f.data.push_back(uint8_t(e)); break; }
      default: { size_t n = 1 + r.below(r.below(3) ? 4 : 62); n = std::min(n, left); f.data.push_back(uint8_t(0xC0 | (n - 1))); left -= n - 1; }
    }
    ix[hash(px)] = px; left--;
  }
  for (int i = 0; i < 7; i++) f.data.push_back(0); f.data.push_back(1);
  uint32_t qw, qh; int qc; std::vector<uint32_t> ref; std::string e = im::read_qoi(f.data.data(), f.data.size(), qw, qh, qc, ref); if (!e.empty()) c.fail("generator of QOI: %s", e.c_str());
  f.pix.w = w; f.pix.h = h; for (auto v : ref) f.pix.p.push_back(ch == 3 ? v | 0xFF000000u : premul((v >> 16) & 255, (v >> 8) & 255, v & 255, v >> 24)); f.depth = ch * 8; f.text = pbt::fmt("QOI %dx%d %d channels", w, h, ch); f.frames.push_back(f.pix); return f;
}

// ---------------------------------------------------------------------------------------------- BMP
static inline unsigned expand(unsigned v, unsigned n) { return n == 0 ? 0 : (v * 255 * 2 + ((1u << n) - 1)) / (2 * ((1u << n) - 1)); }
static inline File bmp(Case& c, int max_side) {
  File f; f.name = "BMP"; Rng r(c.u64()); int w = 1 + int(c.below(unsigned(max_side))), h = 1 + int(c.below(unsigned(max_side))); if (c.chance(1, 8)) w = 1 + int(c.below(1000)), h = 1 + int(c.below(3));
  unsigned hs = c.pickl<unsigned>({12, 40, 52, 56, 108, 124}); unsigned bits = hs == 12 ? c.pickl<unsigned>({1, 4, 8, 24}) : c.pickl<unsigned>({1, 4, 8, 16, 24, 32}); bool top = hs != 12 && c.chance(1, 3); unsigned comp = 0; uint32_t m[4] = {}; bool alpha = false; bool rle = false;
  if (hs != 12 && (bits == 4 || bits == 8) && c.chance(1, 2)) { comp = bits == 4 ? 2 : 1; rle = true; top = false; }
  if ((bits == 16 || bits == 32) && c.chance(2, 3)) { comp = hs == 40 && c.coin() ? 6 : 3; alpha = hs == 40 ? comp == 6 : hs >= 56 && c.coin(); 
    unsigned sz[4], tot; do { tot = 0; for (int i = 0; i < 4; i++) { sz[i] = i == 3 && !alpha ? 0 : 1 + unsigned(c.below(8)); tot += sz[i]; } } while (tot > bits); if (bits == 32 && c.coin()) for (int i = 0; i < 4; i++) if (sz[i]) sz[i] = 8; int ord[4] = {0, 1, 2, 3}; for (int i = 3; i > 0; i--) std::swap(ord[i], ord[c.below(unsigned(i + 1))]); tot = 0; for (int i = 0; i < 4; i++) tot += sz[i]; unsigned gap = bits - tot, sh = 0; for (int i : ord) { if (gap) { unsigned g = unsigned(c.below(gap + 1)); sh += g; gap -= g; } if (sz[i]) m[i] = ((1u << sz[i]) - 1) << sh; sh += sz[i]; } }
  uint32_t dm[4] = {}; if (bits == 16) dm[0] = 0x7C00, dm[1] = 0x3E0, dm[2] = 0x1F; else if (bits >= 24) dm[0] = 0xFF0000, dm[1] = 0xFF00, dm[2] = 0xFF; if (comp == 3 || comp == 6) memcpy(dm, m, sizeof m);
  unsigned npal = bits <= 8 ? c.coin() ? 1u << bits : 1 + unsigned(c.below(1u << bits)) : 0; std::vector<uint32_t> pal; for (unsigned i = 0; i < npal; i++) pal.push_back(r.next() & 0xFFFFFF); f.pix.w = w; f.pix.h = h; f.pix.p.assign(size_t(w) * size_t(h), 0); f.skip.assign(size_t(w) * size_t(h), 0); Bytes px; bool skips = false;
  auto idx = [&]() { return r.below(npal); };
  if (rle) {
    int x = 0, y = 0; auto put = [&](unsigned v) { f.pix.at(x, h - 1 - y) = 0xFF000000u | pal[v]; x++; }; std::fill(f.skip.begin(), f.skip.end(), uint8_t(1)); auto done = [&](int n) { for (int i = 0; i < n; i++) f.skip[size_t(h - 1 - y) * size_t(w) + size_t(x - 1 - i)] = 0; };
    while (y < h) {
      unsigned q = r.below(12); 
      if (x == w || (q == 0)) { if (y == h - 1 && r.below(2)) { break; } px.push_back(0); px.push_back(0); if (x < w) skips = true; x = 0; y++; continue; }
      if (q == 1) { int dx = int(r.below(uint32_t(w - x + 1))), dy = int(r.below(uint32_t(std::min(h - y, 3)))); if (dx > 255) dx = 255; px.push_back(0); px.push_back(2); px.push_back(uint8_t(dx)); px.push_back(uint8_t(dy)); x += dx; y += dy; skips = true; continue; }
      int n = 1 + int(r.below(uint32_t(std::min(w - x, r.below(3) ? 8 : 255))));
      if (q < 6 || n < 3) { px.push_back(uint8_t(n)); unsigned a = idx(), b = bits == 4 ? idx() : a; px.push_back(bits == 4 ? uint8_t(a << 4 | b) : uint8_t(a)); for (int i = 0; i < n; i++) put(i & 1 ? b : a); done(n); }
      else { px.push_back(0); px.push_back(uint8_t(n)); size_t st = px.size(); for (int i = 0; i < n; i++) { unsigned v = idx(); if (bits == 8) px.push_back(uint8_t(v)); else if (i & 1) px.back() |= uint8_t(v); else px.push_back(uint8_t(v << 4)); put(v); } if ((px.size() - st) & 1) px.push_back(0); done(n); }
    }
    px.push_back(0); px.push_back(1); if (!skips && y < h - 1) skips = true;
  }
  else for (int row = 0; row < h; row++) {
    int y = top ? row : h - 1 - row; size_t st = px.size(); unsigned acc = 0, na = 0;
    for (int x = 0; x < w; x++) {
      uint32_t out;
      if (bits <= 8) { unsigned v = idx(); out = 0xFF000000u | pal[v]; acc = acc << bits | v; na += bits; if (na == 8) { px.push_back(uint8_t(acc)); acc = na = 0; } }
      else { uint32_t v = r.next() ^ r.next() << 16; if (bits == 16) v &= 0xFFFF; if (bits == 24) v &= 0xFFFFFF; unsigned q[4], n[4]; for (int i = 0; i < 4; i++) { n[i] = unsigned(__builtin_popcount(dm[i])); q[i] = dm[i] ? (v & dm[i]) >> __builtin_ctz(dm[i]) : 0; }
        if (dm[3]) { unsigned a8 = expand(q[3], n[3]); for (int i = 0; i < 3; i++) { while (expand(q[i], n[i]) > a8) q[i] = q[i] ? q[i] - 1 : 0; v = (v & ~dm[i]) | q[i] << __builtin_ctz(dm[i]); } }
        out = (dm[3] ? expand(q[3], n[3]) << 24 : 0xFF000000u) | expand(q[0], n[0]) << 16 | expand(q[1], n[1]) << 8 | expand(q[2], n[2]); for (unsigned b = 0; b < bits; b += 8) px.push_back(uint8_t(v >> b)); }
      f.pix.at(x, y) = out;
    }
    if (na) px.push_back(uint8_t(acc << (8 - na))); while ((px.size() - st) & 3) px.push_back(uint8_t(r.next()));
  }
  if (!skips) { bool any = false; for (auto v : f.skip) any |= v != 0; skips = any; }
  unsigned gap = c.chance(1, 4) && bits > 8 ? unsigned(c.below(16)) : 0; unsigned off = 14 + hs + (hs == 40 ? comp == 3 ? 12u : comp == 6 ? 16u : 0u : 0u) + npal * (hs == 12 ? 3 : 4) + gap;
  f.data.push_back('B'); f.data.push_back('M'); put_le32(f.data, uint32_t(off + px.size())); put_le32(f.data, 0); put_le32(f.data, off); put_le32(f.data, hs);
  if (hs == 12) { put_le16(f.data, unsigned(w)); put_le16(f.data, unsigned(h)); put_le16(f.data, 1); put_le16(f.data, bits); }
  else {
    put_le32(f.data, uint32_t(w)); put_le32(f.data, uint32_t(top ? -h : h)); put_le16(f.data, 1); put_le16(f.data, bits); put_le32(f.data, comp); put_le32(f.data, !rle && c.coin() ? 0 : uint32_t(px.size())); put_le32(f.data, 2835); put_le32(f.data, 2835); put_le32(f.data, npal == (1u << bits) && c.coin() ? 0 : npal); put_le32(f.data, 0);
    if (hs >= 52 || comp == 3 || comp == 6) { int nm = hs == 40 ? comp == 6 ? 4 : 3 : hs >= 56 ? 4 : 3; bool junk = (comp == 0 && bits == 24 && c.coin()); for (int i = 0; i < nm; i++) put_le32(f.data, junk ? i == 3 ? 0xFF000000u : 0xFFu << (16 - 8 * i) : m[i]); }
    if (hs >= 108) { put_le32(f.data, 0x73524742); for (int i = 0; i < 12; i++) put_le32(f.data, 0); if (hs >= 124) { put_le32(f.data, 4); for (int i = 0; i < 3; i++) put_le32(f.data, 0); } }
  }
  for (auto v : pal) { f.data.push_back(uint8_t(v)); f.data.push_back(uint8_t(v >> 8)); f.data.push_back(uint8_t(v >> 16)); if (hs != 12) f.data.push_back(0); } for (unsigned i = 0; i < gap; i++) f.data.push_back(uint8_t(r.next()));
  if (f.data.size() != off) c.fail("generator of BMP: offset %zu, expected %u", f.data.size(), off); f.data.insert(f.data.end(), px.begin(), px.end());
  for (int i = 0; i < 4; i++) { int n = __builtin_popcount(dm[i]); f.exact &= n == 0 || n == 8 || n == 4 || n == 2 || n == 1; } f.depth = int(bits); f.text = pbt::fmt("BMP %dx%d %u bits header %u compression %u masks %08X %08X %08X %08X palette %u%s", w, h, bits, hs, comp, dm[0], dm[1], dm[2], dm[3], npal, top ? " top-down" : ""); f.frames.push_back(f.pix); c.label(rle, "RLE"); return f;
}
}
