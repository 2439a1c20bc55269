// Generator of GSUB, GPOS and kern tables: a model, its serialized form, and a reference implementation of the lookups.
#ifndef LAYOUTGEN_H
#define LAYOUTGEN_H
#include "fontgen.h"
#include <set>
namespace lg {
using pbt::Case; using fg::Buf;

// A table with offsets to sub-tables, which are laid out after it (offsets are relative to the beginning of the table).
struct Node { Buf b; struct Link { size_t pos; bool wide; std::shared_ptr<Node> to; }; std::vector<Link> links; Node& link(bool wide = false) { auto n = std::make_shared<Node>(); links.push_back({b.size(), wide, n}); if (wide) b.u32(0); else b.u16(0); return *n; } };
static Buf flatten(Case& c, const Node& n) {
  Buf out = n.b; std::vector<size_t> order; for (size_t i = 0; i < n.links.size(); i++) order.push_back(i); if (c.chance(1, 3)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.below(uint32_t(i))]);
  for (size_t i : order) { const auto& l = n.links[i]; if (c.chance(1, 12)) out.u16(0xFFFF); size_t off = out.size(); if (l.wide) out.set32(l.pos, uint32_t(off)); else out.set16(l.pos, uint32_t(off)); out.put(flatten(c, *l.to)); } return out;
}

struct Val { int format = 0; int v[4] = {0, 0, 0, 0}; };
struct Lig { std::vector<int> rest; int out; };
struct Sub {
  int format = 1; std::vector<int> cov;                               // Sorted glyphs.
  int delta = 0; std::vector<std::vector<int>> seq;                   // GSUB 1.2 / 2 / 3 / 8: one list per covered glyph.
  std::vector<std::vector<Lig>> ligs; std::vector<std::vector<int>> back, ahead;
  int vf1 = 0, vf2 = 0; std::vector<Val> vals;                        // GPOS 1
  std::vector<std::map<int, std::pair<Val, Val>>> pairs;              // GPOS 2.1
  std::map<int, int> cd1, cd2; int n1 = 0, n2 = 0; std::vector<std::pair<Val, Val>> cls; // GPOS 2.2
  std::vector<std::vector<int>> input; int records = 0;               // Contexts (no effect).
};
struct Lookup { int type = 1; bool ext = false; std::vector<Sub> subs; };
struct Feature { std::string tag; std::vector<int> lookups; };
struct Layout { bool pos = false; std::vector<Lookup> lookups; std::vector<Feature> features; std::vector<int> langsys; int required = 0xFFFF; bool latn = false, v11 = false; };

static std::vector<int> some_glyphs(Case& c, int n, int max) { std::set<int> s; int k = int(c.range(1, std::max(1, std::min(n, max)))); if (c.chance(1, 3)) { int a = int(c.below(uint32_t(n))); for (int i = 0; i < k && a + i < n; i++) s.insert(a + i); } else for (int i = 0; i < k; i++) s.insert(int(c.below(uint32_t(n)))); return std::vector<int>(s.begin(), s.end()); }
static void coverage(Case& c, Buf& b, const std::vector<int>& g) {
  if (c.coin()) { b.u16(1); b.u16(uint32_t(g.size())); for (int x : g) b.u16(uint32_t(x)); return; }
  struct R { int a, e, i; }; std::vector<R> r; for (size_t i = 0; i < g.size(); i++) if (!r.empty() && r.back().e + 1 == g[i]) r.back().e++; else r.push_back({g[i], g[i], int(i)}); b.u16(2); b.u16(uint32_t(r.size())); for (auto& x : r) { b.u16(uint32_t(x.a)); b.u16(uint32_t(x.e)); b.u16(uint32_t(x.i)); }
}
static void class_def(Case& c, Buf& b, const std::map<int, int>& m) {
  if (c.coin() && !m.empty()) { int a = m.begin()->first, e = m.rbegin()->first; b.u16(1); b.u16(uint32_t(a)); b.u16(uint32_t(e - a + 1)); for (int i = a; i <= e; i++) { auto it = m.find(i); b.u16(it == m.end() ? 0 : uint32_t(it->second)); } return; }
  struct R { int a, e, k; }; std::vector<R> r; for (auto& p : m) if (!r.empty() && r.back().e + 1 == p.first && r.back().k == p.second) r.back().e++; else r.push_back({p.first, p.first, p.second}); b.u16(2); b.u16(uint32_t(r.size())); for (auto& x : r) { b.u16(uint32_t(x.a)); b.u16(uint32_t(x.e)); b.u16(uint32_t(x.k)); }
}
static Val value(Case& c, int fmt) { Val v; v.format = fmt; for (int i = 0; i < 4; i++) if (fmt & 1 << i) v.v[i] = int(c.chance(1, 20) ? c.range(-32768, 32767) : c.range(-300, 300)); return v; }
static void put_value(Buf& b, const Val& v) { for (int i = 0; i < 4; i++) if (v.format & 1 << i) b.u16(uint32_t(v.v[i])); for (int i = 4; i < 8; i++) if (v.format & 1 << i) b.u16(0); }

static Sub make_sub(Case& c, bool pos, int type, int ng, int n_lookups) {
  Sub s; auto glyph = [&] { return int(c.below(uint32_t(ng))); }; auto glyphs = [&](int lo, int hi) { std::vector<int> v(size_t(c.range(lo, hi))); for (int& x : v) x = glyph(); return v; }; s.cov = some_glyphs(c, ng, 8);
  auto covs = [&](int hi) { std::vector<std::vector<int>> v(c.below(uint32_t(hi + 1))); for (auto& x : v) x = some_glyphs(c, ng, ng); return v; }; (void)n_lookups;
  if (!pos) switch (type) {
    case 1: s.format = c.coin() ? 1 : 2; s.delta = int(c.pickl<int>({1, -1, 3, 0, ng})); if (s.format == 1) { std::vector<int> k; for (int g : s.cov) if (g + s.delta >= 0 && g + s.delta < ng) k.push_back(g); if (k.empty()) s.delta = 0; else s.cov = k; } for (size_t i = 0; i < s.cov.size(); i++) s.seq.push_back({s.format == 1 ? s.cov[i] + s.delta : glyph()}); break;
    case 2: for (size_t i = 0; i < s.cov.size(); i++) s.seq.push_back(glyphs(c.chance(1, 8) ? 0 : 1, 4)); break;
    case 3: for (size_t i = 0; i < s.cov.size(); i++) s.seq.push_back(glyphs(1, 3)); break;
    case 4: for (size_t i = 0; i < s.cov.size(); i++) { std::vector<Lig> l(c.range(1, 3)); for (auto& x : l) { x.rest = glyphs(1, 3); x.out = glyph(); } s.ligs.push_back(l); } break;
    case 5: case 6: s.format = int(c.range(1, 3)); s.back = type == 6 ? covs(2) : covs(0); s.ahead = type == 6 ? covs(2) : covs(0); s.input = covs(2); s.input.insert(s.input.begin(), s.cov); s.records = 1; break;
    default: for (size_t i = 0; i < s.cov.size(); i++) s.seq.push_back({glyph()}); s.back = covs(2); s.ahead = covs(2); break;
  }
  else {
    auto fmt = [&](bool zero) { return int(zero && c.chance(1, 2) ? 0 : c.chance(1, 2) ? 4 : c.chance(1, 6) ? c.range(1, 255) : c.range(1, 15)); };
    switch (type) {
      case 1: s.format = c.coin() ? 1 : 2; s.vf1 = fmt(false); for (size_t i = 0; i < (s.format == 1 ? 1 : s.cov.size()); i++) s.vals.push_back(value(c, s.vf1)); break;
      case 2: s.format = c.coin() ? 1 : 2; s.vf1 = fmt(true); s.vf2 = fmt(true); if (!s.vf1 && !s.vf2) s.vf1 = 4;
        if (s.format == 1) for (size_t i = 0; i < s.cov.size(); i++) { std::map<int, std::pair<Val, Val>> m; int n = int(c.range(1, 5)); for (int k = 0; k < n; k++) m[glyph()] = {value(c, s.vf1), value(c, s.vf2)}; s.pairs.push_back(m); }
        else { s.n1 = int(c.range(1, 4)); s.n2 = int(c.range(1, 4)); for (int g : s.cov) if (c.chance(3, 4)) s.cd1[g] = int(c.below(uint32_t(s.n1))); if (s.cd1.empty()) s.cd1[s.cov[0]] = 0; for (int g : some_glyphs(c, ng, ng)) s.cd2[g] = int(c.below(uint32_t(s.n2))); for (int i = 0; i < s.n1 * s.n2; i++) s.cls.push_back({value(c, s.vf1), value(c, s.vf2)}); }
        break;
      default: s.format = int(c.range(1, 3)); s.back = type == 8 ? covs(2) : covs(0); s.ahead = type == 8 ? covs(2) : covs(0); s.input = covs(2); s.input.insert(s.input.begin(), s.cov); s.records = 1; break;
    }
  }
  return s;
}

static void put_records(Case& c, Buf& b, int records, int n_lookups) { for (int i = 0; i < records; i++) { b.u16(0); b.u16(c.below(uint32_t(n_lookups))); } }
static void put_context(Case& c, Node& n, const Sub& s, bool chained, int n_lookups) {
  // Only the structure matters.
  auto first = [](const std::vector<int>& v) { return uint32_t(v[0]); }; Buf& b = n.b; b.u16(uint32_t(s.format));
  if (s.format == 3) {
    if (chained) { b.u16(uint32_t(s.back.size())); for (auto& x : s.back) coverage(c, n.link().b, x); b.u16(uint32_t(s.input.size())); for (auto& x : s.input) coverage(c, n.link().b, x); b.u16(uint32_t(s.ahead.size())); for (auto& x : s.ahead) coverage(c, n.link().b, x); b.u16(uint32_t(s.records)); }
    else { b.u16(uint32_t(s.input.size())); b.u16(uint32_t(s.records)); for (auto& x : s.input) coverage(c, n.link().b, x); }
    put_records(c, b, s.records, n_lookups); return;
  }
  coverage(c, n.link().b, s.cov); if (s.format == 2) { std::map<int, int> m; for (int g : s.cov) m[g] = 1 + int(c.below(2)); for (int k = 0; k < (chained ? 3 : 1); k++) class_def(c, n.link().b, m); }
  size_t sets = s.format == 1 ? s.cov.size() : 3; b.u16(uint32_t(sets)); for (size_t i = 0; i < sets; i++) { Node& set = n.link(); int rules = int(c.range(1, 2)); set.b.u16(uint32_t(rules)); for (int k = 0; k < rules; k++) { Buf& r = set.link().b; auto v = [&](const std::vector<int>& q) { return s.format == 1 ? first(q) : c.below(3); }; if (chained) { r.u16(uint32_t(s.back.size())); for (auto& x : s.back) r.u16(v(x)); r.u16(uint32_t(s.input.size())); for (size_t j = 1; j < s.input.size(); j++) r.u16(v(s.input[j])); r.u16(uint32_t(s.ahead.size())); for (auto& x : s.ahead) r.u16(v(x)); r.u16(uint32_t(s.records)); } else { r.u16(uint32_t(s.input.size())); r.u16(uint32_t(s.records)); for (size_t j = 1; j < s.input.size(); j++) r.u16(v(s.input[j])); } put_records(c, r, s.records, n_lookups); } }
}

static void put_sub(Case& c, Node& n, const Sub& s, bool pos, int type, int n_lookups) {
  Buf& b = n.b; bool ctx = pos ? type >= 7 : type == 5 || type == 6; if (ctx) { put_context(c, n, s, pos ? type == 8 : type == 6, n_lookups); return; }
  b.u16(uint32_t(s.format)); coverage(c, n.link().b, s.cov);
  if (!pos) switch (type) {
    case 1: if (s.format == 1) b.u16(uint32_t(s.delta)); else { b.u16(uint32_t(s.seq.size())); for (auto& x : s.seq) b.u16(uint32_t(x[0])); } break;
    case 2: case 3: b.u16(uint32_t(s.seq.size())); for (auto& x : s.seq) { Buf& q = n.link().b; q.u16(uint32_t(x.size())); for (int g : x) q.u16(uint32_t(g)); } break;
    case 4: b.u16(uint32_t(s.ligs.size())); for (auto& x : s.ligs) { Node& set = n.link(); set.b.u16(uint32_t(x.size())); for (auto& l : x) { Buf& q = set.link().b; q.u16(uint32_t(l.out)); q.u16(uint32_t(l.rest.size() + 1)); for (int g : l.rest) q.u16(uint32_t(g)); } } break;
    default: b.u16(uint32_t(s.back.size())); for (auto& x : s.back) coverage(c, n.link().b, x); b.u16(uint32_t(s.ahead.size())); for (auto& x : s.ahead) coverage(c, n.link().b, x); b.u16(uint32_t(s.seq.size())); for (auto& x : s.seq) b.u16(uint32_t(x[0])); break;
  }
  else if (type == 1) { b.u16(uint32_t(s.vf1)); if (s.format == 2) b.u16(uint32_t(s.vals.size())); for (auto& v : s.vals) put_value(b, v); }
  else {
    b.u16(uint32_t(s.vf1)); b.u16(uint32_t(s.vf2));
    if (s.format == 1) { b.u16(uint32_t(s.pairs.size())); for (auto& m : s.pairs) { Buf& q = n.link().b; q.u16(uint32_t(m.size())); for (auto& p : m) { q.u16(uint32_t(p.first)); put_value(q, p.second.first); put_value(q, p.second.second); } } }
    else { class_def(c, n.link().b, s.cd1); class_def(c, n.link().b, s.cd2); b.u16(uint32_t(s.n1)); b.u16(uint32_t(s.n2)); for (auto& p : s.cls) { put_value(b, p.first); put_value(b, p.second); } }
  }
}

static Buf table(Case& c, const Layout& l) {
  Node root; Buf& b = root.b; b.u32(l.v11 ? 0x10001 : 0x10000);
  Node& scripts = root.link(); std::vector<std::string> st = {"DFLT"}; if (l.latn) st.push_back("latn"); if (c.chance(1, 3)) st.insert(st.begin(), "cyrl"); scripts.b.u16(uint32_t(st.size()));
  for (auto& t : st) { scripts.b.tag(t.c_str()); Node& s = scripts.link(); bool real = l.latn ? t == "latn" : t == "DFLT"; Node& ls = s.link(); s.b.u16(0); ls.b.u16(0); if (real) { ls.b.u16(uint32_t(l.required)); ls.b.u16(uint32_t(l.langsys.size())); for (int i : l.langsys) ls.b.u16(uint32_t(i)); } else { ls.b.u16(0xFFFF); ls.b.u16(0); } }
  Node& feats = root.link(); feats.b.u16(uint32_t(l.features.size())); for (auto& f : l.features) { feats.b.tag(f.tag.c_str()); Node& n = feats.link(); n.b.u16(0); n.b.u16(uint32_t(f.lookups.size())); for (int i : f.lookups) n.b.u16(uint32_t(i)); }
  Node& looks = root.link(); looks.b.u16(uint32_t(l.lookups.size())); for (auto& k : l.lookups) { Node& n = looks.link(); n.b.u16(uint32_t(k.ext ? (l.pos ? 9 : 7) : k.type)); n.b.u16(0); n.b.u16(uint32_t(k.subs.size())); for (auto& s : k.subs) { Node& sn = n.link(); if (k.ext) { sn.b.u16(1); sn.b.u16(uint32_t(k.type)); put_sub(c, sn.link(true), s, l.pos, k.type, int(l.lookups.size())); } else put_sub(c, sn, s, l.pos, k.type, int(l.lookups.size())); } }
  if (l.v11) b.u32(0); return flatten(c, root);
}

static Layout make(Case& c, bool pos, int ng, bool any) {
  Layout l; l.pos = pos; l.latn = c.coin(); l.v11 = c.chance(1, 4); int n = int(c.range(1, c.chance(1, 12) ? 40 : 5));
  for (int i = 0; i < n; i++) { Lookup k; k.type = pos ? (any ? int(c.pickl<int>({1, 2, 2, 7, 8})) : int(c.range(1, 2))) : (any ? int(c.pickl<int>({1, 2, 3, 4, 5, 6, 8})) : int(c.pickl<int>({1, 2, 3, 4, 8}))); k.ext = c.chance(1, 5); int m = int(c.chance(1, 3) ? c.range(2, 3) : 1); for (int j = 0; j < m; j++) k.subs.push_back(make_sub(c, pos, k.type, ng, n)); l.lookups.push_back(k); }
  static const char* gs[] = {"ccmp", "liga", "clig", "calt", "rlig", "salt", "smcp", "dlig", "ss01", "zero", "zzzz", "locl", "frac"}; static const char* gp[] = {"kern", "mark", "dist", "cpsp", "zzzz", "mkmk"}; int nf = int(c.range(1, 4)); std::set<std::string> used; for (int i = 0; i < nf; i++) { std::string t = pos ? gp[c.below(6)] : gs[c.below(13)]; used.insert(t); } for (auto& t : used) { Feature f; f.tag = t; int k = int(c.range(1, 3)); std::set<int> q; for (int j = 0; j < k; j++) q.insert(int(c.below(uint32_t(n)))); f.lookups.assign(q.begin(), q.end()); l.features.push_back(f); }
  for (size_t i = 0; i < l.features.size(); i++) if (c.chance(5, 6)) l.langsys.push_back(int(i)); if (c.chance(1, 5)) l.required = int(c.below(uint32_t(l.features.size()))); return l;
}

// ---- Reference implementation of the lookups.
struct Item { uint32_t g; uint32_t cluster; };
struct Place { int ox = 0, oy = 0, ax = 0; };
static int cov_index(const Sub& s, uint32_t g) { auto it = std::lower_bound(s.cov.begin(), s.cov.end(), int(g)); return it != s.cov.end() && uint32_t(*it) == g ? int(it - s.cov.begin()) : -1; }
static bool in(const std::vector<int>& v, uint32_t g) { return std::find(v.begin(), v.end(), int(g)) != v.end(); }
// Applies one sub-table at `i`. Returns the number of glyphs at `i` that were produced, or -1 if the sub-table doesn't match.
static int sub_at(const Sub& s, int type, std::vector<Item>& b, size_t i) {
  int k = cov_index(s, b[i].g); if (k < 0) return -1; const auto at = [&](size_t j) { return b.begin() + long(j); };
  switch (type) {
    case 1: b[i].g = uint32_t(s.seq[size_t(k)][0]); return 1;
    case 2: { auto& q = s.seq[size_t(k)]; uint32_t cl = b[i].cluster; b.erase(at(i)); std::vector<Item> n; for (int g : q) n.push_back({uint32_t(g), cl}); b.insert(at(i), n.begin(), n.end()); return int(q.size()); }
    case 3: b[i].g = uint32_t(s.seq[size_t(k)][0]); return 1;
    case 4: for (auto& l : s.ligs[size_t(k)]) { if (i + 1 + l.rest.size() > b.size()) continue; bool ok = true; for (size_t j = 0; j < l.rest.size(); j++) ok = ok && b[i + 1 + j].g == uint32_t(l.rest[j]); if (!ok) continue; b[i].g = uint32_t(l.out); b.erase(at(i + 1), at(i + 1 + l.rest.size())); return 1; } return -1;
    case 8: for (size_t j = 0; j < s.back.size(); j++) if (i < j + 1 || !in(s.back[j], b[i - 1 - j].g)) return -1; for (size_t j = 0; j < s.ahead.size(); j++) if (i + 1 + j >= b.size() || !in(s.ahead[j], b[i + 1 + j].g)) return -1; b[i].g = uint32_t(s.seq[size_t(k)][0]); return 1;
  }
  return -1;
}
static void add(Place& p, const Val& v) { if (v.format & 1) p.ox += v.v[0]; if (v.format & 2) p.oy += v.v[1]; if (v.format & 4) p.ax += v.v[2]; }
static int cls_of(const std::map<int, int>& m, uint32_t g) { auto it = m.find(int(g)); return it == m.end() ? 0 : it->second; }
// Returns how many glyphs to step over, or -1.
static int pos_at(const Sub& s, int type, const std::vector<Item>& b, std::vector<Place>& p, size_t i) {
  int k = cov_index(s, b[i].g); if (k < 0) return -1; if (type == 1) { add(p[i], s.vals[s.format == 1 ? 0 : size_t(k)]); return 1; }
  if (i + 1 >= b.size()) return -1; const std::pair<Val, Val>* v = nullptr; if (s.format == 1) { auto it = s.pairs[size_t(k)].find(int(b[i + 1].g)); if (it == s.pairs[size_t(k)].end()) return -1; v = &it->second; } else { int c1 = cls_of(s.cd1, b[i].g), c2 = cls_of(s.cd2, b[i + 1].g); if (c1 >= s.n1 || c2 >= s.n2) return -1; v = &s.cls[size_t(c1 * s.n2 + c2)]; }
  add(p[i], v->first); add(p[i + 1], v->second); return s.vf2 ? 2 : 1;
}
// `first_match`: every glyph is processed by the first sub-table that matches it (OpenType); otherwise each sub-table processes the whole run.
static bool apply(const Layout& l, const std::set<int>& plan, std::vector<Item>& b, std::vector<Place>& p, bool first_match, size_t limit, uint64_t* hits) {
  for (int li : plan) {
    const Lookup& k = l.lookups[size_t(li)]; size_t passes = first_match ? 1 : k.subs.size();
    for (size_t pass = 0; pass < passes; pass++) {
      size_t a = first_match ? 0 : pass, e = first_match ? k.subs.size() : pass + 1;
      if (!l.pos && k.type == 8) { for (size_t i = b.size(); i-- > 0;) for (size_t q = a; q < e; q++) if (sub_at(k.subs[q], 8, b, i) >= 0) { ++*hits; break; } continue; }
      for (size_t i = 0; i < b.size();) { int r = -1; for (size_t q = a; q < e && r < 0; q++) r = l.pos ? pos_at(k.subs[q], k.type, b, p, i) : sub_at(k.subs[q], k.type, b, i); if (r >= 0) ++*hits; i += r < 0 ? 1 : size_t(r); if (b.size() > limit) return false; }
    }
  }
  return true;
}

// ---- Legacy kerning.
struct KGroup { int format = 0; bool vertical = false, override_ = false; std::map<std::pair<int, int>, int> pairs; bool shuffled = false; int first_l = 0, first_r = 0; std::vector<int> cl, cr; int nl = 1, nr = 1; std::vector<int> arr; std::vector<int> vals; };
struct Kern { bool mac = false; std::vector<KGroup> groups; };
static Kern make_kern(Case& c, int ng) {
  Kern k; k.mac = c.coin(); int n = int(c.range(1, 3));
  for (int i = 0; i < n; i++) {
    KGroup g; g.format = int(c.pickl<int>({0, 0, 2, 3})); g.vertical = c.chance(1, 8); g.override_ = !k.mac && c.chance(1, 4); auto val = [&] { return int(c.chance(1, 10) ? c.range(-32768, 32767) : c.chance(1, 5) ? 0 : c.range(-400, 400)); };
    if (g.format == 0) { int m = int(c.chance(1, 4) ? c.range(20, 400) : c.range(1, 20)); for (int j = 0; j < m; j++) g.pairs[{int(c.below(uint32_t(ng))), int(c.below(uint32_t(ng)))}] = val(); g.shuffled = c.chance(1, 3); }
    else if (g.format == 2) { g.nl = int(c.range(2, 4)); g.nr = int(c.range(2, 4)); g.first_l = int(c.below(uint32_t(ng))); g.first_r = int(c.below(uint32_t(ng))); int a = int(c.range(1, ng - g.first_l)), b = int(c.range(1, ng - g.first_r)); for (int j = 0; j < a; j++) g.cl.push_back(int(c.range(g.override_ ? 1 : 0, g.nl - 1))); for (int j = 0; j < b; j++) g.cr.push_back(int(c.range(g.override_ ? 1 : 0, g.nr - 1))); for (int x = 0; x < g.nl; x++) for (int y = 0; y < g.nr; y++) g.arr.push_back(x && y ? val() : 0); }
    else { g.nl = int(c.range(1, 4)); g.nr = int(c.range(1, 4)); for (int j = 0; j < ng; j++) { g.cl.push_back(int(c.below(uint32_t(g.nl)))); g.cr.push_back(int(c.below(uint32_t(g.nr)))); } int m = int(c.range(1, 5)); for (int j = 0; j < m; j++) g.vals.push_back(val()); for (int j = 0; j < g.nl * g.nr; j++) g.arr.push_back(int(c.below(uint32_t(m)))); }
    k.groups.push_back(g);
  }
  return k;
}
static Buf kern_table(Case& c, const Kern& k) {
  Buf t; if (k.mac) { t.u32(0x10000); t.u32(uint32_t(k.groups.size())); } else { t.u16(0); t.u16(uint32_t(k.groups.size())); } uint32_t hs = k.mac ? 8 : 6;
  for (auto& g : k.groups) {
    Buf d;
    if (g.format == 0) {
      std::vector<std::pair<std::pair<int, int>, int>> v(g.pairs.begin(), g.pairs.end()); if (g.shuffled) { int how = int(c.below(3)); if (how == 0) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.below(uint32_t(i))]); else if (how == 1) std::rotate(v.begin(), v.begin() + long(c.below(uint32_t(v.size()))), v.end()); else { int m = int(c.range(1, 4)); for (int i = 0; i < m; i++) std::swap(v[c.below(uint32_t(v.size()))], v[c.below(uint32_t(v.size()))]); } }
      uint32_t n = uint32_t(v.size()), p2 = 1, es = 0; while (p2 * 2 <= n) { p2 *= 2; es++; } d.u16(n); d.u16(p2 * 6); d.u16(es); d.u16((n - p2) * 6); for (auto& x : v) { d.u16(uint32_t(x.first.first)); d.u16(uint32_t(x.first.second)); d.u16(uint32_t(x.second)); }
    }
    else if (g.format == 2) {
      uint32_t rw = uint32_t(g.nr) * 2, lo = hs + 8, ro = lo + 4 + uint32_t(g.cl.size()) * 2, ao = ro + 4 + uint32_t(g.cr.size()) * 2; d.u16(rw); d.u16(lo); d.u16(ro); d.u16(ao); d.u16(uint32_t(g.first_l)); d.u16(uint32_t(g.cl.size())); for (int x : g.cl) d.u16(ao + uint32_t(x) * rw); d.u16(uint32_t(g.first_r)); d.u16(uint32_t(g.cr.size())); for (int x : g.cr) d.u16(uint32_t(x) * 2); for (int x : g.arr) d.u16(uint32_t(x));
    }
    else { d.u16(uint32_t(g.cl.size())); d.u8(uint32_t(g.vals.size())); d.u8(uint32_t(g.nl)); d.u8(uint32_t(g.nr)); d.u8(0); for (int x : g.vals) d.u16(uint32_t(x)); for (int x : g.cl) d.u8(uint32_t(x)); for (int x : g.cr) d.u8(uint32_t(x)); for (int x : g.arr) d.u8(uint32_t(x)); if (c.coin()) { if (d.size() % 2) d.u8(0); } }
    if (k.mac) { t.u32(uint32_t(d.size()) + hs); t.u8(g.vertical ? 0x80 : 0); t.u8(uint32_t(g.format)); t.u16(0); } else { t.u16(0); t.u16(uint32_t(d.size()) + hs); t.u8(uint32_t(g.format)); t.u8((g.vertical ? 0u : 1u) | (g.override_ ? 8u : 0u)); }
    t.put(d);
  }
  return t;
}
static void apply_kern(const Kern& k, const std::vector<Item>& b, std::vector<Place>& p, uint64_t* hits) {
  for (size_t i = 0; i + 1 < b.size(); i++) {
    int acc = 0, l = int(b[i].g), r = int(b[i + 1].g);
    for (auto& g : k.groups) {
      if (g.vertical) continue; bool found = false; int v = 0;
      if (g.format == 0) { auto it = g.pairs.find({l, r}); if (it != g.pairs.end()) { found = true; v = it->second; } }
      else if (g.format == 2) { int a = l - g.first_l, e = r - g.first_r; if (a >= 0 && e >= 0 && a < int(g.cl.size()) && e < int(g.cr.size())) { found = true; v = g.arr[size_t(g.cl[size_t(a)] * g.nr + g.cr[size_t(e)])]; } }
      else { found = true; v = g.vals[size_t(g.arr[size_t(g.cl[size_t(l)] * g.nr + g.cr[size_t(r)])])]; }
      if (found) { acc = g.override_ ? v : acc + v; ++*hits; }
    }
    p[i].ax += acc;
  }
}

} // namespace lg
#endif
