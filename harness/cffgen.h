// Generator of CFF tables: charstrings are made from a drawing that is also the oracle.
#ifndef CFFGEN_H
#define CFFGEN_H
#include "fontgen.h"
#include <array>
namespace cffg {
using pbt::Case; using fg::Buf;

struct CSeg { char k; double x[3], y[3]; };                       // M, L, C (3 points), Z
typedef std::vector<CSeg> Drawing;
typedef std::vector<uint8_t> Token;

struct Subrs { std::vector<Buf> v; uint32_t cls = 0, cursor = 0, used = 0; };   // cls: 0 bias 107, 1 bias 1131, 2 bias 32768

struct Table { bool cid = false; std::vector<Subrs> local; Subrs global; std::vector<uint8_t> fd; std::vector<Buf> cs; std::vector<Drawing> d; uint32_t ops = 0, calls = 0, arith = 0; };

static void num(Case& c, Token& t, double v) {
  Buf b; long i = lround(v); bool isint = double(i) == v; uint32_t how = c.below(8);
  if (isint && i >= -107 && i <= 107 && how) b.u8(uint32_t(i + 139));
  else if (isint && i >= 108 && i <= 1131 && how > 1) { b.u8(uint32_t(247 + (i - 108) / 256)); b.u8(uint32_t((i - 108) % 256)); }
  else if (isint && i <= -108 && i >= -1131 && how > 1) { b.u8(uint32_t(251 + (-i - 108) / 256)); b.u8(uint32_t((-i - 108) % 256)); }
  else if (isint && i >= -32768 && i <= 32767 && how != 2) { b.u8(28); b.u16(uint32_t(i)); }
  else { b.u8(255); b.u32(uint32_t(int32_t(llround(v * 65536.0)))); }
  t.insert(t.end(), b.begin(), b.end());
}

struct Gen {
  Case& c; Table& tb; std::vector<Token> toks; Drawing d; double x = 0, y = 0; size_t depth = 0; bool open = false; bool arith;
  Gen(Case& c_, Table& t_, bool a) : c(c_), tb(t_), arith(a) {}
  void n(double v) { Token t; num(c, t, v); toks.push_back(t); }
  void op(uint32_t o) { if (o >= 0x0C00) toks.push_back({12, uint8_t(o)}); else toks.push_back({uint8_t(o)}); }
  // Pushes a value, sometimes as a result of a computation.
  void val(double v) {
    depth++; if (!arith || depth > 30 || !c.chance(1, 6)) { n(v); return; } tb.arith++; auto junk = [&]() { return double(c.range(-300, 300)); };
    switch (c.below(15)) {
      case 0: { double a = junk(); n(a); n(v - a); op(0x0C0A); break; }
      case 1: { double a = junk(); n(v + a); n(a); op(0x0C0B); break; }
      case 2: n(-v); op(0x0C0E); break;
      case 3: n(v); n(junk()); op(0x0C12); break;
      case 4: n(v); op(0x0C1B); op(0x0C12); break;
      case 5: if (v >= 0) { n(-v); op(0x0C09); } else { n(-v); op(0x0C09); op(0x0C0E); } break;
      case 6: n(v * 2); n(2); op(0x0C0C); break;
      case 7: n(v * 2); n(0.5); op(0x0C18); break;
      case 8: n(junk()); n(v); op(0x0C1C); op(0x0C12); break;
      case 9: { double a = junk(), b = c.coin() ? a : junk(), o = junk(); if (a <= b) { n(v); n(o); } else { n(o); n(v); } n(a); n(b); op(0x0C16); break; }
      case 10: { int i = int(c.below(32)); n(v); n(i); op(0x0C14); n(i); op(0x0C15); break; }
      case 11: { int k = int(c.below(4)), s = int(c.below(32)); n(v); for (int i = 0; i < k; i++) n(junk()); n(k == 0 && c.coin() ? -1 : k); op(0x0C1D); n(s); op(0x0C14); for (int i = 0; i <= k; i++) op(0x0C12); n(s); op(0x0C15); break; }
      case 12: { int k = int(c.range(1, 5)), s = int(c.below(32)); std::vector<double> st; int at = int(c.below(uint32_t(k))); std::vector<int> id; for (int i = 0; i < k; i++) { n(i == at ? v : junk()); id.push_back(i); } int j = int(c.range(-7, 7)); n(k); n(j); op(0x0C1E); std::vector<int> r(static_cast<size_t>(k)); for (int i = 0; i < k; i++) r[size_t(((i + j) % k + k) % k)] = id[size_t(i)]; int q = 0; while (r[size_t(k - 1 - q)] != at) q++; for (int i = 0; i < q; i++) op(0x0C12); n(s); op(0x0C14); for (int i = q + 1; i < k; i++) op(0x0C12); n(s); op(0x0C15); break; }
      case 13: if (v >= 0 && v <= 100 && v == floor(v)) { n(v * v); op(0x0C1A); } else { op(0x0C17); op(0x0C12); n(v); } break;
      default: if (v == 1 || v == 0) { bool t = v == 1; switch (c.below(4)) { case 0: { bool a = t || c.coin(), b = t || !a; n(a ? junk() * 2 + 1 : 0); n(b ? 7 : 0); op(0x0C03); break; } case 1: { bool a = t && c.coin(), b = t && !a; n(a ? -3 : 0); n(b ? 5 : 0); op(0x0C04); break; } case 2: n(t ? 0 : junk() * 2 + 1); op(0x0C05); break; default: { double a = junk(); n(a); n(t ? a : a + 1); op(0x0C0F); } } } else n(v); break;
    }
  }
  double r() { switch (c.below(6)) { case 0: return double(c.range(-2, 2)); case 1: return double(c.range(-1200, 1200)); case 2: return double(c.range(-65536 * 20, 65536 * 20)) / 65536.0; default: return double(c.range(-150, 150)); } }
  void cmd(uint32_t o) { op(o); depth = 0; tb.ops++; }
  void L(double dx, double dy) { x += dx; y += dy; d.push_back({'L', {x}, {y}}); }
  void C(double a, double b, double e, double f, double g, double h) { CSeg s; s.k = 'C'; s.x[0] = x + a; s.y[0] = y + b; s.x[1] = s.x[0] + e; s.y[1] = s.y[0] + f; s.x[2] = s.x[1] + g; s.y[2] = s.y[1] + h; x = s.x[2]; y = s.y[2]; d.push_back(s); }
  void close() { if (open) d.push_back({'Z', {0}, {0}}); open = false; }
  void glyph() {
    bool width = c.coin(); auto w = [&]() { if (width) val(double(c.range(-500, 500))); width = false; }; int hints = 0; bool mask = c.chance(1, 3);
    auto stems = [&](uint32_t o) { w(); int k = int(c.range(1, 4)); for (int i = 0; i < k * 2; i++) val(r()); hints += k; if (o) cmd(o); };
    auto domask = [&]() { toks.push_back({uint8_t(c.coin() ? 19 : 20)}); for (int i = 0; i < (hints + 7) / 8; i++) toks.back().push_back(c.byte()); depth = 0; };
    if (c.coin()) stems(mask ? 18 : 1); if (c.coin() && !mask) stems(3); else if (mask) { if (c.coin()) stems(0); w(); if (hints) domask(); else if (depth) { stems(18); } }
    int figs = int(c.below(4)); for (int f = 0; f < figs; f++) {
      if (mask && hints && f && c.chance(1, 3)) domask();
      close(); double a = r(), b = r(); w(); switch (c.below(3)) { case 0: val(a); val(b); cmd(21); x += a; y += b; break; case 1: val(a); cmd(22); x += a; break; default: val(b); cmd(4); y += b; } d.push_back({'M', {x}, {y}}); open = true;
      int no = int(c.below(6)); for (int i = 0; i < no; i++) path(); if (c.chance(1, 6)) { n(c.range(-50, 50)); toks.push_back({uint8_t(c.pickl<int>({2, 9, 13, 17}))}); }
    }
    close(); w(); toks.push_back({14});
  }
  void path() {
    int k; switch (c.below(14)) {
      case 0: k = int(c.range(1, 8)); for (int i = 0; i < k; i++) { double a = r(), b = r(); val(a); val(b); L(a, b); } cmd(5); break;
      case 1: case 2: { bool h = c.coin(), h0 = h; k = int(c.range(1, 12)); for (int i = 0; i < k; i++, h = !h) { double a = r(); val(a); if (h) L(a, 0); else L(0, a); } cmd(h0 ? 6 : 7); break; }
      case 3: k = int(c.range(1, 4)); for (int i = 0; i < k; i++) curve6(); cmd(8); break;
      case 4: { k = int(c.range(1, 5)); double e = 0; bool odd = c.coin(); if (odd) val(e = r()); for (int i = 0; i < k; i++) { double v[4]; for (auto& q : v) val(q = r()); C(v[0], i ? 0 : e, v[1], v[2], v[3], 0); } cmd(27); break; }
      case 5: { k = int(c.range(1, 5)); double e = 0; bool odd = c.coin(); if (odd) val(e = r()); for (int i = 0; i < k; i++) { double v[4]; for (auto& q : v) val(q = r()); C(i ? 0 : e, v[0], v[1], v[2], 0, v[3]); } cmd(26); break; }
      case 6: case 7: { bool h = c.coin(), h0 = h; k = int(c.range(1, 6)); bool last = c.coin(); for (int i = 0; i < k; i++, h = !h) { double v[4], e = 0; for (auto& q : v) val(q = r()); if (i == k - 1 && last) val(e = r()); if (h) C(v[0], 0, v[1], v[2], e, v[3]); else C(0, v[0], v[1], v[2], v[3], e); } cmd(h0 ? 31 : 30); break; }
      case 8: { k = int(c.range(1, 3)); for (int i = 0; i < k; i++) curve6(); double a = r(), b = r(); val(a); val(b); L(a, b); cmd(24); break; }
      case 9: { k = int(c.range(1, 6)); for (int i = 0; i < k; i++) { double a = r(), b = r(); val(a); val(b); L(a, b); } curve6(); cmd(25); break; }
      case 10: curve6(); curve6(); val(50); cmd(0x0C23); break;
      case 11: { double v[11], q0 = 0, q1 = 0; for (int i = 0; i < 11; i++) val(v[i] = r()); for (int i = 0; i < 10; i += 2) { q0 += v[i]; q1 += v[i + 1]; } C(v[0], v[1], v[2], v[3], v[4], v[5]); if (fabs(q0) > fabs(q1)) { C(v[6], v[7], v[8], v[9], v[10], 0); flex1(true, q1); } else { C(v[6], v[7], v[8], v[9], 0, v[10]); flex1(false, q0); } cmd(0x0C25); break; }
      case 12: { double v[7]; for (auto& q : v) val(q = r()); C(v[0], 0, v[1], v[2], v[3], 0); C(v[4], 0, v[5], -v[2], v[6], 0); cmd(0x0C22); break; }
      default: { double v[9]; for (auto& q : v) val(q = r()); C(v[0], v[1], v[2], v[3], v[4], 0); C(v[5], 0, v[6], v[7], v[8], 0); flex1(true, v[1] + v[3] + v[7]); cmd(0x0C24); break; }
    }
  }
  // The last point of flex1 and hflex1 ends at the coordinate at which the first point started.
  void flex1(bool horizontal, double moved) { CSeg& s = d.back(); if (horizontal) { s.y[2] = s.y[1] - moved; y = s.y[2]; } else { s.x[2] = s.x[1] - moved; x = s.x[2]; } }
  void curve6() { double v[6]; for (auto& q : v) val(q = r()); C(v[0], v[1], v[2], v[3], v[4], v[5]); }
  static const int kDepth = 9;
  Buf pack(size_t a, size_t e, int lv, Subrs& local) {
    Buf b; size_t i = a; while (i < e) {
      if (lv < kDepth && c.chance(1, 8)) {
        size_t j = i + 1 + c.below(uint32_t(std::min<size_t>(e - i, 24))); j = std::min(j, e); bool g = c.coin(); Buf body = pack(i, j, lv + 1, local); if (j != toks.size()) body.u8(11);
        Subrs& s = g ? tb.global : local; uint32_t bias = s.cls == 0 ? 107 : s.cls == 1 ? 1131 : 32768; if (s.cls == 0 ? s.v.size() >= 1200 : s.used + 8 >= s.v.size()) { if (j != toks.size()) body.pop_back(); b.put(body); i = j; continue; }
        uint32_t idx; if (s.cls == 0) { idx = uint32_t(s.v.size()); s.v.push_back(body); } else { uint32_t st = 1 + c.below(3); s.used += st; s.cursor += st; idx = s.cursor % uint32_t(s.v.size()); s.v[idx] = body; }
        Token t; num(c, t, double(int(idx) - int(bias))); b.insert(b.end(), t.begin(), t.end()); b.u8(g ? 29 : 10); tb.calls++; i = j;
      }
      else { b.insert(b.end(), toks[i].begin(), toks[i].end()); i++; }
    }
    return b;
  }
};

static Buf index(Case& c, const std::vector<Buf>& v) {
  Buf b; b.u16(uint32_t(v.size())); if (v.empty()) return b; size_t total = 1; for (auto& x : v) total += x.size(); uint32_t os = total < 256 ? 1 : total < 65536 ? 2 : 3; if (c.chance(1, 4)) os = c.range(int(os), 4); b.u8(os);
  auto off = [&](size_t o) { for (int k = int(os) - 1; k >= 0; k--) b.u8(uint32_t(o >> (k * 8))); }; size_t o = 1; off(o); for (auto& x : v) off(o += x.size()); for (auto& x : v) b.put(x); return b;
}
static void dint(Buf& b, size_t v) { b.u8(29); b.u32(uint32_t(v)); }
static void dict_noise(Case& c, Buf& b, bool priv) { while (c.chance(1, 3)) switch (c.below(4)) { case 0: b.u8(30); b.u8(0x0A); b.u8(0x14); b.u8(0x05); b.u8(0x41); b.u8(0xC3); b.u8(0xFF); b.u8(12); b.u8(priv ? 9 : 8); break; case 1: b.u8(28); b.u16(uint32_t(c.range(-500, 500))); b.u8(239); b.u8(247); b.u8(5); b.u8(251); b.u8(9); b.u8(priv ? 6 : 5); break; case 2: b.u8(c.below(200) + 32); b.u8(priv ? 20 : 1); break; default: b.u8(30); b.u8(0xE2); b.u8(0xA2); b.u8(0x5F); b.u8(priv ? 10 : 13); } }

static void subr_class(Case& c, Subrs& s) { s.cls = c.chance(1, 12) ? (c.chance(1, 20) ? 2 : 1) : 0; if (s.cls) { s.v.assign(s.cls == 1 ? c.range(1240, 1260) : 33900 + c.below(5), Buf()); for (auto& b : s.v) b.u8(11); s.cursor = c.below(uint32_t(s.v.size())); } }

static void generate(Case& c, Table& t, size_t n, bool arith) {
  t.cid = c.chance(1, 3); size_t nf = t.cid ? c.range(1, 3) : 1; t.local.resize(nf); for (auto& l : t.local) subr_class(c, l); subr_class(c, t.global); uint8_t f = 0;
  for (size_t i = 0; i < n; i++) { if (c.chance(1, 2)) f = uint8_t(c.below(uint32_t(nf))); t.fd.push_back(f); Gen g(c, t, arith); g.glyph(); t.cs.push_back(g.pack(0, g.toks.size(), 0, t.local[f])); t.d.push_back(g.d); }
}

static Buf assemble(Case& c, const Table& t) {
  // Two passes: the first one finds sizes, offsets are always stored by five bytes.
  Buf out; size_t o_cs = 0, o_fdsel = 0, o_fdarr = 0; std::vector<size_t> o_priv(t.local.size()), n_priv(t.local.size()), o_sub(t.local.size()); Buf gi = index(c, t.global.v), ci = index(c, t.cs); std::vector<Buf> li; for (auto& l : t.local) li.push_back(index(c, l.v)); Buf name; for (char k : std::string("GenCFF")) name.u8(uint8_t(k)); Buf ni = index(c, {name}), noise, pnoise; dict_noise(c, noise, false); dict_noise(c, pnoise, true); bool strs = c.coin(); Buf si = index(c, strs ? std::vector<Buf>{name, name} : std::vector<Buf>{}); uint32_t hs = c.chance(1, 4) ? 6 : 4; uint32_t order = c.below(6); Buf fs; if (t.cid) { if (c.coin()) { fs.u8(0); fs.insert(fs.end(), t.fd.begin(), t.fd.end()); } else { fs.u8(3); fs.u16(0); uint32_t k = 0; for (size_t i = 0; i < t.fd.size(); i++) if (!i || t.fd[i] != t.fd[i - 1] || c.chance(1, 8)) { fs.u16(uint32_t(i)); fs.u8(t.fd[i]); k++; } fs.u16(uint32_t(t.fd.size())); fs.set16(1, k); } } std::vector<bool> has; for (auto& l : t.local) has.push_back(!l.v.empty()); uint32_t gap = c.chance(1, 4) ? c.below(5) : 0; bool topos = c.coin(); uint64_t fixed = c.u64();
  for (int pass = 0; pass < 3; pass++) {
    out.clear(); out.u8(1); out.u8(0); out.u8(hs); out.u8(4); while (out.size() < hs) out.u8(0); out.put(ni); Buf top; if (t.cid) { dint(top, 391); dint(top, 391); dint(top, 0); top.u8(12); top.u8(30); } if (topos) top.put(noise); dint(top, o_cs); top.u8(17); if (t.cid) { dint(top, o_fdarr); top.u8(12); top.u8(36); dint(top, o_fdsel); top.u8(12); top.u8(37); } else { dint(top, n_priv[0]); dint(top, o_priv[0]); top.u8(18); } if (!topos) top.put(noise);
    Buf ti; ti.u16(1); ti.u8(2); ti.u16(1); ti.u16(uint32_t(1 + top.size())); ti.put(top); out.put(ti); out.put(si); out.put(gi);
    auto cs = [&] { o_cs = out.size(); out.put(ci); }; auto priv = [&] { for (size_t i = 0; i < t.local.size(); i++) { Buf p; p.put(pnoise); if (has[i]) { dint(p, o_sub[i]); p.u8(19); } o_priv[i] = out.size(); n_priv[i] = p.size(); out.put(p); for (uint32_t k = 0; k < gap; k++) out.u8(0); if (has[i]) { o_sub[i] = out.size() - o_priv[i]; out.put(li[i]); } } };
    auto fda = [&] { if (!t.cid) return; o_fdsel = out.size(); out.put(fs); std::vector<Buf> ds; for (size_t i = 0; i < t.local.size(); i++) { Buf q; if (fixed >> i & 1) { dint(q, 391); q.u8(12); q.u8(38); } dint(q, n_priv[i]); dint(q, o_priv[i]); q.u8(18); ds.push_back(q); } o_fdarr = out.size(); Buf b; b.u16(uint32_t(ds.size())); b.u8(2); uint32_t o = 1; b.u16(o); for (auto& q : ds) b.u16(o += uint32_t(q.size())); for (auto& q : ds) b.put(q); out.put(b); };
    switch (order) { case 0: cs(); priv(); fda(); break; case 1: cs(); fda(); priv(); break; case 2: priv(); cs(); fda(); break; case 3: priv(); fda(); cs(); break; case 4: fda(); cs(); priv(); break; default: fda(); priv(); cs(); }
  }
  return out;
}
} // cffg
#endif
