// Generator of conforming JPEG files (baseline, extended and progressive) with the range of colors each pixel may have.
#pragma once
#include "codecgen.h"

namespace gen {
struct JComp { int h = 1, v = 1, id = 0, q = 0, dc = 0, ac = 0, cw = 0, ch = 0, bw = 0, bh = 0, pw = 0, ph = 0; std::vector<std::array<int, 64>> coef; std::vector<double> plane; std::array<int, 64>& at(int x, int y) { return coef[size_t(y) * size_t(pw) + size_t(x)]; } };
struct Jpeg { Bytes data; int w = 0, h = 0, mode = 0; bool gray = false; std::vector<JComp> comp; std::string text; std::vector<std::array<double, 6>> rgb; /* min,max of R,G,B */ };
static const uint8_t kZig[64] = {0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};
struct JSym { int16_t tbl; /* class * 4 + id, -1 raw bits, -2 restart */ uint8_t sym; uint8_t n; uint32_t bits; };

static inline int nbits_of(int v) { v = v < 0 ? -v : v; int n = 0; while (v) { n++; v >>= 1; } return n; }

static inline Jpeg jpeg(Case& c, int max_side) {
  Jpeg j; Rng r(c.u64()); j.w = 1 + int(c.below(unsigned(max_side))); j.h = 1 + int(c.below(unsigned(max_side))); j.mode = int(c.weighted({3, 1, 4})); j.gray = c.chance(1, 5); bool prog = j.mode == 2;
  // Components.
  j.comp.resize(j.gray ? 1 : 3); int base = c.chance(1, 6) ? 0 : 1; int hm = 1, vm = 1; unsigned shape = unsigned(c.below(8));
  for (size_t i = 0; i < j.comp.size(); i++) {
    JComp& k = j.comp[i]; k.id = base + int(i); k.q = int(c.below(4)); k.dc = int(c.below(j.mode ? 4 : 2)); k.ac = int(c.below(j.mode ? 4 : 2));
    if (shape < 5) { static const int s[5][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {4, 1}}; k.h = i ? 1 : s[shape][0]; k.v = i ? 1 : s[shape][1]; } else if (shape < 7) { k.h = c.pickl<int>({1, 2, 4}); k.v = c.pickl<int>({1, 2, 4}); if (i == 0 && shape == 6) { k.h = 4; k.v = 2; } } else { k.h = i ? c.pickl<int>({1, 3}) : 3; k.v = 1; }
    hm = std::max(hm, k.h); vm = std::max(vm, k.v);
  }
  bool single_sf = j.gray; int eh = single_sf ? 1 : hm, ev = single_sf ? 1 : vm; int mw = (j.w + 8 * eh - 1) / (8 * eh), mh = (j.h + 8 * ev - 1) / (8 * ev);
  for (auto& k : j.comp) { int kh = single_sf ? 1 : k.h, kv = single_sf ? 1 : k.v; k.cw = (j.w * kh + eh - 1) / eh; k.ch = (j.h * kv + ev - 1) / ev; k.bw = (k.cw + 7) / 8; k.bh = (k.ch + 7) / 8; k.pw = mw * kh; k.ph = mh * kv; k.coef.assign(size_t(k.pw) * size_t(k.ph), {}); }
  // Quantization.
  std::array<std::array<int, 64>, 4> qt{}; std::array<bool, 4> q16{}; for (size_t t = 0; t < 4; t++) { q16[t] = j.mode != 0 && r.below(4) == 0; unsigned m = r.below(4); for (auto& v : qt[t]) v = m == 0 ? 1 : m == 1 ? 1 + int(r.below(16)) : m == 2 ? 1 + int(r.below(255)) : 8; if (q16[t]) for (auto& v : qt[t]) if (r.below(8) == 0) v = 256 + int(r.below(600)); }
  unsigned density = unsigned(c.below(5)); int amp = c.pickl<int>({4, 30, 120, 400});
  for (auto& k : j.comp) for (auto& b : k.coef) {
    auto& q = qt[size_t(k.q)]; b[0] = (int(r.below(2048)) - 1024) / q[0]; if (r.below(6) == 0) b[0] = 0;
    unsigned n = density == 0 ? 0 : density == 1 ? r.below(3) : density == 2 ? r.below(10) : density == 3 ? r.below(64) : (r.below(4) == 0 ? r.below(64) : 0); int a = density == 3 ? std::min(amp, 60) : amp;
    for (unsigned z = 0; z < n; z++) { size_t p = 1 + (density == 2 ? r.below(12) : r.below(63)); b[kZig[p]] = (int(r.below(unsigned(2 * a + 1))) - a) / q[p]; }
  }
  // (coefficients are kept in natural order, quantization tables in zigzag order)
  std::vector<JSym> out; int dri = 0; bool first_scan = true;
  Bytes& o = j.data; auto marker = [&](unsigned m) { if (!o.empty() && r.below(8) == 0) for (unsigned i = 1 + r.below(3); i; i--) o.push_back(0xFF); o.push_back(0xFF); o.push_back(uint8_t(m)); };
  auto segment = [&](unsigned m, const Bytes& b) { marker(m); put_be16(o, unsigned(b.size() + 2)); o.insert(o.end(), b.begin(), b.end()); };
  auto misc = [&]() { while (r.below(5) == 0) { Bytes b(r.below(40)); for (auto& v : b) v = uint8_t(r.below(3) ? r.next() : 0xFF); unsigned m = r.below(3) ? 0xFE : 0xE2 + r.below(12); if (m == 0xEE) m = 0xFE; segment(m, b); } };
  o = {0xFF, 0xD8};
  if (c.chance(2, 3)) { Bytes b{'J', 'F', 'I', 'F', 0, 1, uint8_t(c.below(3)), uint8_t(c.below(3)), 0, 72, 0, 72, 0, 0}; if (c.chance(1, 4)) { unsigned tw = r.below(5), th = r.below(5); b[12] = uint8_t(tw); b[13] = uint8_t(th); for (unsigned i = 0; i < tw * th * 3; i++) b.push_back(uint8_t(r.next())); } segment(0xE0, b); }
  misc();
  { std::vector<size_t> order{0, 1, 2, 3}; for (size_t i = 4; i > 1; i--) std::swap(order[i - 1], order[r.below(uint32_t(i))]); Bytes b; for (size_t t : order) { bool used = false; for (auto& k : j.comp) used |= k.q == int(t); if (!used && r.below(3)) continue; b.push_back(uint8_t(unsigned(q16[t]) << 4 | t)); for (int v : qt[t]) { if (q16[t]) b.push_back(uint8_t(v >> 8)); b.push_back(uint8_t(v)); } if (r.below(2)) { segment(0xDB, b); b.clear(); misc(); } } if (!b.empty()) segment(0xDB, b); }
  misc();
  { Bytes b{8}; put_be16(b, unsigned(j.h)); put_be16(b, unsigned(j.w)); b.push_back(uint8_t(j.comp.size())); for (auto& k : j.comp) { b.push_back(uint8_t(k.id)); b.push_back(uint8_t(k.h << 4 | k.v)); b.push_back(uint8_t(k.q)); } segment(j.mode == 0 ? 0xC0 : j.mode == 1 ? 0xC1 : 0xC2, b); }
  misc();

  auto emit_scan = [&](const std::vector<int>& sc, int ss, int se, int ah, int al) {
    if (first_scan ? c.chance(1, 2) : r.below(5) == 0) { dri = r.below(4) == 0 ? 0 : 1 + int(r.below(unsigned(r.below(2) ? 4 : 30))); Bytes b; put_be16(b, unsigned(dri)); segment(0xDD, b); }
    first_scan = false; out.clear();
    int pred[3] = {}; unsigned eobrun = 0; std::vector<uint8_t> be; int ac_tbl = 4 + j.comp[size_t(sc[0])].ac;
    auto flush = [&]() { if (eobrun) { int n = nbits_of(int(eobrun)) - 1; out.push_back({int16_t(ac_tbl), uint8_t(n << 4), uint8_t(n), eobrun & ((1u << n) - 1)}); eobrun = 0; } for (auto b : be) out.push_back({-1, 0, 1, b}); be.clear(); };
    auto block = [&](int ci, const std::array<int, 64>& b) {
      JComp& k = j.comp[size_t(ci)];
      auto value = [&](int tbl, int run, int v) { int n = nbits_of(v); uint32_t bits = uint32_t(v < 0 ? v - 1 : v) & ((1u << n) - 1); out.push_back({int16_t(tbl), uint8_t(run << 4 | n), uint8_t(n), bits}); };
      if (!prog) { value(k.dc, 0, b[0] - pred[ci]); pred[ci] = b[0]; int run = 0; for (int z = 1; z < 64; z++) { int v = b[kZig[z]]; if (!v) { run++; continue; } while (run > 15) { out.push_back({int16_t(4 + k.ac), 0xF0, 0, 0}); run -= 16; } value(4 + k.ac, run, v); run = 0; } if (run) out.push_back({int16_t(4 + k.ac), 0, 0, 0}); return; }
      if (ss == 0) { int v = b[0] >> al; if (ah == 0) { value(k.dc, 0, v - pred[ci]); pred[ci] = v; } else out.push_back({-1, 0, 1, uint32_t(v & 1)}); return; }
      if (ah == 0) { int run = 0; for (int z = ss; z <= se; z++) { int v = b[kZig[z]]; v = v < 0 ? -(-v >> al) : v >> al; if (!v) { run++; continue; } flush(); while (run > 15) { out.push_back({int16_t(ac_tbl), 0xF0, 0, 0}); run -= 16; } value(ac_tbl, run, v); run = 0; } if (run) { eobrun++; if (eobrun == 0x7FFF || r.below(20) == 0) flush(); } return; }
      int run = 0, eob = 0; std::vector<uint8_t> br; auto mag = [&](int z) { int v = b[kZig[z]]; return (v < 0 ? -v : v) >> al; }; for (int z = ss; z <= se; z++) if (mag(z) == 1) eob = z;
      for (int z = ss; z <= se; z++) {
        int v = mag(z); if (!v) { run++; continue; } while (run > 15 && z <= eob) { flush(); out.push_back({int16_t(ac_tbl), 0xF0, 0, 0}); run -= 16; for (auto x : br) out.push_back({-1, 0, 1, x}); br.clear(); }
        if (v > 1) { br.push_back(uint8_t(v & 1)); continue; } flush(); out.push_back({int16_t(ac_tbl), uint8_t(run << 4 | 1), 1, b[kZig[z]] < 0 ? 0u : 1u}); for (auto x : br) out.push_back({-1, 0, 1, x}); br.clear(); run = 0;
      }
      if (run || !br.empty()) { eobrun++; be.insert(be.end(), br.begin(), br.end()); if (eobrun == 0x7FFF || be.size() > 900 || r.below(20) == 0) flush(); }
    };
    int count = 0; auto mcu_start = [&]() { if (dri && count == dri) { flush(); out.push_back({-2, 0, 0, 0}); count = 0; pred[0] = pred[1] = pred[2] = 0; } count++; };
    if (sc.size() == 1) { JComp& k = j.comp[size_t(sc[0])]; for (int y = 0; y < k.bh; y++) for (int x = 0; x < k.bw; x++) { mcu_start(); block(sc[0], k.at(x, y)); } }
    else for (int my = 0; my < mh; my++) for (int mx = 0; mx < mw; mx++) { mcu_start(); for (int ci : sc) { JComp& k = j.comp[size_t(ci)]; for (int y = 0; y < k.v; y++) for (int x = 0; x < k.h; x++) block(ci, k.at(mx * k.h + x, my * k.v + y)); } }
    flush();
    // Prefix codes.
    std::vector<std::pair<uint16_t, uint8_t>> code[8]; std::vector<size_t> tabs; for (size_t t = 0; t < 8; t++) for (auto& s : out) if (s.tbl == int(t)) { tabs.push_back(t); break; }
    if (prog && ss == 0 && ah) tabs.clear(); for (size_t i = tabs.size(); i > 1; i--) std::swap(tabs[i - 1], tabs[r.below(uint32_t(i))]);
    for (int ci : sc) { size_t d = size_t(j.comp[size_t(ci)].dc), a = 4 + size_t(j.comp[size_t(ci)].ac); if (ss == 0 && !ah && std::find(tabs.begin(), tabs.end(), d) == tabs.end()) tabs.push_back(d); if (se > 0 && std::find(tabs.begin(), tabs.end(), a) == tabs.end()) tabs.push_back(a); }
    Bytes b;
    for (size_t t : tabs) {
      bool use[256] = {}; for (auto& s : out) if (s.tbl == int(t)) use[s.sym] = true; if (r.below(2)) for (unsigned e = r.below(r.below(4) ? 6 : 120); e; e--) { unsigned s = t < 4 ? r.below(12) : (r.below(16) << 4 | (1 + r.below(10))); use[s] = true; }
      std::vector<int> syms; for (int s = 0; s < 256; s++) if (use[s]) syms.push_back(s); if (syms.empty()) syms.push_back(0); syms.push_back(256);
      auto len = tree(c, r, syms, 257, 16); size_t big = 256; for (int s : syms) if (len[size_t(s)] > len[big]) big = size_t(s); std::swap(len[big], len[256]); syms.pop_back();
      for (size_t i = syms.size(); i > 1; i--) std::swap(syms[i - 1], syms[r.below(uint32_t(i))]); std::stable_sort(syms.begin(), syms.end(), [&](int x, int y) { return len[size_t(x)] < len[size_t(y)]; });
      uint8_t cnt[17] = {}; for (int s : syms) cnt[len[size_t(s)]]++; b.push_back(uint8_t((t >> 2) << 4 | (t & 3))); b.insert(b.end(), cnt + 1, cnt + 17); for (int s : syms) b.push_back(uint8_t(s));
      code[t].assign(256, {0, 0}); uint32_t cc = 0; int l = 1; for (int s : syms) { while (l < len[size_t(s)]) { cc <<= 1; l++; } code[t][size_t(s)] = {uint16_t(cc++), uint8_t(l)}; }
      if (r.below(2)) { segment(0xC4, b); b.clear(); misc(); }
    }
    if (!b.empty()) segment(0xC4, b); misc();
    Bytes h{uint8_t(sc.size())}; for (int ci : sc) { h.push_back(uint8_t(j.comp[size_t(ci)].id)); h.push_back(uint8_t((prog && se > 0 ? 0 : j.comp[size_t(ci)].dc << 4) | (prog && ss == 0 ? 0 : j.comp[size_t(ci)].ac))); } h.push_back(uint8_t(ss)); h.push_back(uint8_t(se)); h.push_back(uint8_t(ah << 4 | al)); segment(0xDA, h);
    // Entropy coded data.
    uint32_t acc = 0; unsigned n = 0, rst = 0; auto put = [&](uint32_t v, unsigned k) { while (k) { k--; acc = acc << 1 | (v >> k & 1); if (++n == 8) { o.push_back(uint8_t(acc)); if (uint8_t(acc) == 0xFF) o.push_back(0); n = 0; acc = 0; } } }; auto align = [&]() { while (n) put(1, 1); };
    for (auto& s : out) { if (s.tbl == -2) { align(); marker(0xD0 + (rst++ & 7)); continue; } if (s.tbl >= 0) { auto& x = code[s.tbl][s.sym]; put(x.first, x.second); } put(s.bits, s.n); } align();
    j.text += pbt::fmt(" scan("); for (int ci : sc) j.text += pbt::fmt("%d", ci); j.text += pbt::fmt(" %d-%d %d/%d dri %d)", ss, se, ah, al, dri);
  };
  j.text = pbt::fmt("JPEG %dx%d %s%s", j.w, j.h, j.mode == 0 ? "baseline" : j.mode == 1 ? "extended" : "progressive", j.gray ? " gray" : ""); for (auto& k : j.comp) j.text += pbt::fmt(" %dx%d", k.h, k.v);
  std::vector<int> all; int sum = 0; for (size_t i = 0; i < j.comp.size(); i++) { all.push_back(int(i)); sum += j.comp[i].h * j.comp[i].v; } bool can_mix = sum <= 10 || j.gray;
  auto groups = [&]() { std::vector<std::vector<int>> g; if (j.gray) return std::vector<std::vector<int>>{{0}}; unsigned m = unsigned(c.below(can_mix ? 4 : 1)); if (m >= 2) g = {{0, 1, 2}}; else if (m == 0) g = {{0}, {1}, {2}}; else { g = {{0}, {1, 2}}; int s2 = j.comp[1].h * j.comp[1].v + j.comp[2].h * j.comp[2].v; if (s2 > 10) g = {{0}, {1}, {2}}; } if (c.chance(1, 4)) std::reverse(g.begin(), g.end()); return g; };
  if (!prog) for (auto& g : groups()) emit_scan(g, 0, 63, 0, 0);
  else {
    struct Scan { std::vector<int> sc; int ss, se, ah, al; }; std::vector<std::vector<Scan>> tracks; int dal = int(c.below(3)); 
    std::vector<Scan> dc; for (auto& g : groups()) dc.push_back({g, 0, 0, 0, dal}); for (int l = dal - 1; l >= 0; l--) for (auto& g : groups()) dc.push_back({g, 0, 0, l + 1, l});
    // AC bands of every component, each band has its own successive approximation.
    for (size_t ci = 0; ci < j.comp.size(); ci++) { int ss = 1; while (ss < 64) { int se = c.chance(1, 3) ? 63 : std::min(63, ss + int(c.below(20))); std::vector<Scan> t; int al = int(c.below(4)); t.push_back({{int(ci)}, ss, se, 0, al}); for (int l = al - 1; l >= 0; l--) t.push_back({{int(ci)}, ss, se, l + 1, l}); tracks.push_back(t); ss = se + 1; } if (tracks.size() > 30) break; }
    std::vector<size_t> bound; for (size_t ci = 0; ci < j.comp.size(); ci++) bound.push_back(0);
    // The first DC scans must precede AC scans of the same component, everything else is interleaved arbitrarily.
    size_t dpos = 0; size_t first_dc = 0; while (first_dc < dc.size() && dc[first_dc].ah == 0) first_dc++; for (; dpos < first_dc; dpos++) emit_scan(dc[dpos].sc, 0, 0, 0, dal);
    std::vector<size_t> pos(tracks.size(), 0); for (;;) { std::vector<size_t> av; for (size_t t = 0; t < tracks.size(); t++) if (pos[t] < tracks[t].size()) av.push_back(t); bool d = dpos < dc.size(); if (av.empty() && !d) break; size_t k = r.below(uint32_t(av.size() + (d ? 1 : 0))); Scan& s = k == av.size() ? dc[dpos++] : tracks[av[k]][pos[av[k]]++]; emit_scan(s.sc, s.ss, s.se, s.ah, s.al); }
    // Components beyond the limit of scans have no AC coefficients.
    std::array<bool, 3> done{}; for (auto& t : tracks) done[size_t(t[0].sc[0])] = true; for (size_t ci = 0; ci < j.comp.size(); ci++) if (!done[ci]) for (auto& b : j.comp[ci].coef) for (int z = 1; z < 64; z++) b[size_t(z)] = 0;
  }
  misc(); marker(0xD9); if (c.chance(1, 6)) for (unsigned i = r.below(20); i; i--) o.push_back(uint8_t(r.next()));

  // Reference reconstruction.
  static double cs[8][8]; static bool init = false; if (!init) { init = true; for (int x = 0; x < 8; x++) for (int u = 0; u < 8; u++) cs[x][u] = (u ? 1.0 : std::sqrt(0.5)) * std::cos((2 * x + 1) * u * M_PI / 16) / 2; }
  for (auto& k : j.comp) {
    k.plane.assign(size_t(k.bw) * 8 * size_t(k.bh) * 8, 0); size_t pitch = size_t(k.bw) * 8; std::array<int, 64> dq{}; for (size_t z = 0; z < 64; z++) dq[kZig[z]] = qt[size_t(k.q)][z];
    for (int by = 0; by < k.bh; by++) for (int bx = 0; bx < k.bw; bx++) { auto& b = k.at(bx, by); double t[64] = {}; for (int v = 0; v < 8; v++) for (int u = 0; u < 8; u++) { int cf = b[size_t(v * 8 + u)] * dq[size_t(v * 8 + u)]; if (cf) for (int x = 0; x < 8; x++) t[v * 8 + x] += cf * cs[x][u]; }
      for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) { double s = 0; for (int v = 0; v < 8; v++) s += t[v * 8 + x] * cs[y][v]; k.plane[(size_t(by) * 8 + size_t(y)) * pitch + size_t(bx) * 8 + size_t(x)] = std::min(255.0, std::max(0.0, s + 128)); } }
  }
  j.rgb.resize(size_t(j.w) * size_t(j.h));
  for (int y = 0; y < j.h; y++) for (int x = 0; x < j.w; x++) {
    double lo[3], hi[3];
    for (size_t i = 0; i < j.comp.size(); i++) {
      JComp& k = j.comp[i]; int kh = single_sf ? 1 : k.h, kv = single_sf ? 1 : k.v; int rx = eh / kh, ry = ev / kv, cx = x / rx, cy = y / ry, dx = rx > 1, dy = ry > 1; lo[i] = 1e9; hi[i] = -1e9;
      for (int b = -dy; b <= dy; b++) for (int a = -dx; a <= dx; a++) { int px = std::min(k.cw - 1, std::max(0, cx + a)), py = std::min(k.ch - 1, std::max(0, cy + b)); double s = k.plane[size_t(py) * size_t(k.bw) * 8 + size_t(px)]; lo[i] = std::min(lo[i], s); hi[i] = std::max(hi[i], s); }
      double tol = dx || dy ? 2 : 1; lo[i] = std::max(0.0, lo[i] - tol); hi[i] = std::min(255.0, hi[i] + tol);
    }
    auto& q = j.rgb[size_t(y) * size_t(j.w) + size_t(x)]; auto cl = [](double v) { return std::min(255.0, std::max(0.0, v)); }; double e = j.gray ? 0.5 : 1.5;
    if (j.gray) for (size_t s = 0; s < 3; s++) { q[2 * s] = lo[0] - e; q[2 * s + 1] = hi[0] + e; }
    else { q = {cl(lo[0] + 1.402 * (lo[2] - 128)) - e, cl(hi[0] + 1.402 * (hi[2] - 128)) + e, cl(lo[0] - 0.344136 * (hi[1] - 128) - 0.714136 * (hi[2] - 128)) - e, cl(hi[0] - 0.344136 * (lo[1] - 128) - 0.714136 * (lo[2] - 128)) + e, cl(lo[0] + 1.772 * (lo[1] - 128)) - e, cl(hi[0] + 1.772 * (hi[1] - 128)) + e}; }
  }
  return j;
}
} // gen
