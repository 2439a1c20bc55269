// C04: BLBitSet histories against a model of disjoint intervals over [0, 2^32-1).
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include <blend2d/blend2d.h>
#include "pbt.h"
#include "alloc_track.h"
using pbt::Case;

struct M {
  std::vector<std::pair<uint64_t, uint64_t>> v;   // disjoint, sorted, non-adjacent
  void add(uint64_t s, uint64_t e) {
    if (s >= e) return;
    std::vector<std::pair<uint64_t, uint64_t>> r; bool put = false;
    for (auto& x : v) {
      if (x.second < s) r.push_back(x);
      else if (x.first > e) { if (!put) { r.push_back({s, e}); put = true; } r.push_back(x); }
      else { s = std::min(s, x.first); e = std::max(e, x.second); }
    }
    if (!put) r.push_back({s, e});
    v.swap(r);
  }
  void clear(uint64_t s, uint64_t e) {
    if (s >= e) return;
    std::vector<std::pair<uint64_t, uint64_t>> r;
    for (auto& x : v) { if (x.first < s) r.push_back({x.first, std::min(x.second, s)}); if (x.second > e) r.push_back({std::max(x.first, e), x.second}); }
    v.swap(r);
  }
  uint64_t card(uint64_t s = 0, uint64_t e = ~0ull) const { uint64_t n = 0; for (auto& x : v) { uint64_t a = std::max(s, x.first), b = std::min(e, x.second); if (a < b) n += b - a; } return n; }
  bool has(uint64_t i) const { return card(i, i + 1) != 0; }
  bool operator==(const M& o) const { return v == o.v; }
  M and_(const M& o) const { M r; for (auto& x : v) for (auto& y : o.v) { uint64_t a = std::max(x.first, y.first), b = std::min(x.second, y.second); if (a < b) r.v.push_back({a, b}); } std::sort(r.v.begin(), r.v.end()); return r; }
};
// first index at which two sets differ decides: the set that holds it is the greater one
static int cmp(const M& a, const M& b) {
  size_t i = 0, j = 0; uint64_t p = 0;
  for (;;) {
    while (i < a.v.size() && a.v[i].second <= p) i++;
    while (j < b.v.size() && b.v[j].second <= p) j++;
    if (i == a.v.size() && j == b.v.size()) return 0;
    if (i == a.v.size()) return -1;
    if (j == b.v.size()) return 1;
    uint64_t x = std::max(p, a.v[i].first), y = std::max(p, b.v[j].first);
    if (x != y) return x < y ? 1 : -1;
    p = std::min(a.v[i].second, b.v[j].second);
  }
}
static const uint64_t END = 0xFFFFFFFFull;
static uint32_t base(Case& c) { return c.pickl<uint32_t>({0, 0, 0, 31, 64, 128, 1000, 0x10FF, 0x1000000, 0x7FFFFF80, 0x80000000, 0xFFFFFF00, 0xFFFFFFC0}); }
static uint32_t bit(Case& c) { uint64_t r; switch (c.below(5)) { case 0: r = c.below(700); break; case 1: r = uint64_t(base(c)) + c.below(300); break; case 2: r = 128 * c.below(10) + uint64_t(c.i(0, 3)); break; case 3: r = 32 * c.below(40) + uint64_t(c.i(0, 2)); break; default: r = c.chance(1, 3) ? c.below(END) : c.below(70); } return uint32_t(std::min<uint64_t>(r, END)); }
static uint32_t len(Case& c) { switch (c.below(6)) { case 0: return uint32_t(c.below(4)); case 1: return uint32_t(c.below(70)); case 2: return uint32_t(128 * c.below(6)); case 3: return uint32_t(c.below(2000)); case 4: return uint32_t(c.below(200)); default: return c.chance(1, 4) ? c.u32() : uint32_t(c.below(300)); } }
static uint32_t word(Case& c) { switch (c.below(5)) { case 0: return 0; case 1: case 2: return 0xFFFFFFFFu; case 3: return 0x80000000u >> c.below(32); default: return c.u32(); } }

static std::string mstr(const M& m) { std::string s = "{"; size_t n = 0; for (auto& x : m.v) { if (n++ > 8) { s += ".."; break; } s += pbt::fmt("[%llx,%llx)", (unsigned long long)x.first, (unsigned long long)x.second); } return s + "}"; }

static M decode(Case& c, const BLBitSet& b) {
  BLBitSetData d; M r; REQUIRE(c, b.get_data(&d) == BL_SUCCESS, "get_data failed"); uint64_t prev = 0;
  for (uint32_t k = 0; k < d.segment_count; k++) {
    const BLBitSetSegment& g = d.segment_data[k]; uint64_t s = g.start_word(), e = g.end_word();
    REQUIRE(c, s >= prev && e > s && e <= 0x8000000ull, "segment %u [%llx,%llx) is not ordered (previous end %llx)", k, (unsigned long long)s, (unsigned long long)e, (unsigned long long)prev); prev = e;
    if (g.all_ones()) { uint64_t eb = std::min(e * 32, END); if (r.v.size() && r.v.back().second == s * 32) r.v.back().second = eb; else r.v.push_back({s * 32, eb}); }
    else for (uint64_t w = s; w < e; w++) { uint32_t x = g._data[w & (BL_BIT_SET_SEGMENT_WORD_COUNT - 1)]; if (w * 32 + 31 == END) REQUIRE(c, (x & 1) == 0 || x == 0xFFFFFFFFu, "unindexable last bit set"); for (int t = 0; t < 32; t++) if ((x >> (31 - t)) & 1) { uint64_t i = w * 32 + uint64_t(t); if (i == END) continue; if (r.v.size() && r.v.back().second == i) r.v.back().second++; else r.v.push_back({i, i + 1}); } }
  }
  return r;
}

static void history(Case& c) {
  long live0 = at::live;
  {
    const int NV = 3; BLBitSet a[NV]; M m[NV]; bool sharing = false, dyn = false, mixed = false; int nops = 1 + int(c.size(24));
    auto check = [&](int k, int s, const char* op) {
      M d = decode(c, a[k]); REQUIRE(c, d == m[k], "step %d %s: b%d holds %s, model %s", s, op, k, mstr(d).c_str(), mstr(m[k]).c_str());
      REQUIRE(c, a[k].is_empty() == m[k].v.empty(), "step %d %s: b%d is_empty", s, op, k);
    };
    for (int s = 0; s < nops; s++) {
      int v = int(c.below(NV)), w = int(c.below(NV)); const char* op = "?";
      auto ok = [&](BLResult r) { REQUIRE(c, r == BL_SUCCESS, "step %d %s: unexpected error %u", s, op, unsigned(r)); };
      switch (c.below(26)) {
        case 0: case 1: { op = "add_bit"; uint32_t i = bit(c); c.note("b%d.add_bit(%x)", v, i); BLResult r = a[v].add_bit(i); if (i < END) { ok(r); m[v].add(i, uint64_t(i) + 1); } else REQUIRE(c, r != BL_SUCCESS, "add_bit(2^32-1) accepted"); break; }
        case 2: { op = "clear_bit"; uint32_t i = bit(c); c.note("b%d.clear_bit(%x)", v, i); BLResult r = a[v].clear_bit(i); if (i < END) { ok(r); m[v].clear(i, uint64_t(i) + 1); } else REQUIRE(c, r != BL_SUCCESS, "clear_bit(2^32-1) accepted"); break; }
        case 3: case 4: case 5: { op = "add_range"; uint64_t p = bit(c), e = std::min<uint64_t>(p + len(c), END); if (c.chance(1, 20)) std::swap(p, e); c.note("b%d.add_range(%llx,%llx)", v, (unsigned long long)p, (unsigned long long)e); BLResult r = a[v].add_range(uint32_t(p), uint32_t(e)); if (p <= e) { ok(r); m[v].add(p, e); } else REQUIRE(c, r != BL_SUCCESS, "reversed range accepted"); break; }
        case 6: case 7: { op = "clear_range"; uint64_t p = bit(c), e = std::min<uint64_t>(p + len(c), END); if (c.chance(1, 20)) std::swap(p, e); c.note("b%d.clear_range(%llx,%llx)", v, (unsigned long long)p, (unsigned long long)e); BLResult r = a[v].clear_range(uint32_t(p), uint32_t(e)); if (p <= e) { ok(r); m[v].clear(p, e); } else REQUIRE(c, r != BL_SUCCESS, "reversed range accepted"); break; }
        case 8: { op = "assign_range"; uint64_t p = bit(c), e = std::min<uint64_t>(p + len(c), END); c.note("b%d.assign_range(%llx,%llx)", v, (unsigned long long)p, (unsigned long long)e); ok(a[v].assign_range(uint32_t(p), uint32_t(e))); m[v].v.clear(); m[v].add(p, e); break; }
        case 9: case 10: case 11: { bool as = c.chance(1, 3); op = as ? "assign_words" : "add_words"; uint32_t sw = bit(c) / 32; std::vector<uint32_t> x(c.coin() ? c.below(4) : c.below(20)); uint64_t fill = c.below(3); for (auto& y : x) y = fill == 1 ? 0xFFFFFFFFu : word(c); if (c.chance(1, 30)) sw = 0x8000000 - uint32_t(c.below(4));
          c.note("b%d.%s(%x, %zu words: %08x %08x ..)", v, op, sw, x.size(), x.size() ? x[0] : 0, x.size() > 1 ? x[1] : 0); BLResult r = as ? a[v].assign_words(sw, x.data(), uint32_t(x.size())) : a[v].add_words(sw, x.data(), uint32_t(x.size()));
          bool bad = sw >= 0x8000000u || uint64_t(sw) + x.size() > 0x8000000u || (uint64_t(sw) + x.size() == 0x8000000u && x.size() && (x.back() & 1));
          if (bad) REQUIRE(c, r != BL_SUCCESS, "%s past the end accepted", op);
          else { ok(r); if (as) m[v].v.clear(); for (size_t k = 0; k < x.size() * 32; k++) if ((x[k / 32] >> (31 - k % 32)) & 1) { size_t e = k; while (e < x.size() * 32 && ((x[e / 32] >> (31 - e % 32)) & 1)) e++; m[v].add(uint64_t(sw) * 32 + k, uint64_t(sw) * 32 + e); k = e; } } break; }
        case 12: { op = "chop"; uint64_t p = bit(c), e = std::min<uint64_t>(p + len(c), END); bool tr = c.chance(1, 3); if (tr) p = 0; c.note("b%d.chop(%llx,%llx)", v, (unsigned long long)p, (unsigned long long)e); ok(tr ? a[v].truncate(uint32_t(e)) : a[v].chop(uint32_t(p), uint32_t(e))); m[v].clear(0, p); m[v].clear(e, ~0ull); break; }
        case 13: { op = "optimize"; c.note("b%d.optimize", v); ok(a[v].optimize()); break; }
        case 14: { op = "shrink"; c.note("b%d.shrink", v); ok(a[v].shrink()); break; }
        case 15: { op = c.coin() ? "clear" : "reset"; c.note("b%d.%s", v, op); ok(op[0] == 'c' ? a[v].clear() : a[v].reset()); m[v].v.clear(); break; }
        case 16: case 17: { op = "assign"; c.note("b%d = b%d", v, w); if (c.coin()) a[v] = a[w]; else ok(a[v].assign(a[w])); m[v].v = std::vector<std::pair<uint64_t, uint64_t>>(m[w].v); if (v != w) sharing = true; break; }
        case 18: { op = "assign_deep"; c.note("b%d.assign_deep(b%d)", v, w); M t = m[w]; ok(a[v].assign_deep(a[w])); m[v] = t; break; }
        case 19: { op = "move/swap"; if (v == w) break; c.note("b%d <-> b%d", v, w); if (c.coin()) { a[v] = std::move(a[w]); m[v] = m[w]; m[w].v.clear(); } else { a[v].swap(a[w]); m[v].v.swap(m[w].v); } break; }
        case 20: case 21: { op = "builder"; int n = int(c.below(12)); uint32_t b0 = base(c); auto run = [&](auto& bld) { for (int k = 0; k < n; k++) { uint64_t i = c.chance(1, 4) ? bit(c) : uint64_t(b0) + c.below(600); i = std::min(i, END - 1); if (c.coin()) { c.note("  builder.add_bit(%llx)", (unsigned long long)i); ok(bld.add_bit(uint32_t(i))); m[v].add(i, i + 1); } else { uint64_t e = std::min<uint64_t>(i + len(c), END); c.note("  builder.add_range(%llx,%llx)", (unsigned long long)i, (unsigned long long)e); ok(bld.add_range(uint32_t(i), uint32_t(e))); m[v].add(i, e); } } ok(bld.commit()); };
          c.note("builder on b%d", v); if (c.coin()) { BLBitSetBuilder bld(&a[v]); run(bld); } else { BLBitSetBuilderT<128> bld; bld.reset(&a[v]); run(bld); } break; }
        case 22: { op = "init_range"; uint32_t p = bit(c), e = uint32_t(std::min<uint64_t>(uint64_t(p) + 1 + len(c), END)); if (p >= e) break; BLBitSet t(p, e); M x; x.add(p, e); c.note("BLBitSet(%x,%x) swapped into b%d", p, e, v); t.swap(a[v]); m[v] = x; break; }
        default: { op = "queries"; uint64_t p = bit(c), e = std::min<uint64_t>(p + len(c), END); c.note("queries b%d ~ b%d [%llx,%llx)", v, w, (unsigned long long)p, (unsigned long long)e);
          for (int rep = 0; rep < 1 + int(c.below(2)); rep++) { REQUIRE(c, a[v].cardinality() == m[v].card(), "cardinality %u expected %llu", a[v].cardinality(), (unsigned long long)m[v].card());
          REQUIRE(c, a[v].cardinality_in_range(uint32_t(p), uint32_t(e)) == m[v].card(p, e), "cardinality_in_range(%llx,%llx) = %u expected %llu", (unsigned long long)p, (unsigned long long)e, a[v].cardinality_in_range(uint32_t(p), uint32_t(e)), (unsigned long long)m[v].card(p, e)); }
          REQUIRE(c, a[v].has_bits_in_range(uint32_t(p), uint32_t(e)) == (m[v].card(p, e) > 0), "has_bits_in_range(%llx,%llx)", (unsigned long long)p, (unsigned long long)e);
          for (uint64_t i : {p, p ? p - 1 : p, e, e ? e - 1 : e}) REQUIRE(c, a[v].has_bit(uint32_t(i)) == m[v].has(i), "has_bit(%llx) expected %d", (unsigned long long)i, int(m[v].has(i)));
          uint32_t rs = 7, re = 7; bool g = a[v].get_range(&rs, &re); REQUIRE(c, g == !m[v].v.empty() && (!g || (rs == m[v].v[0].first && re == m[v].v.back().second)), "get_range = %d [%x,%x)", g, rs, re);
          M i = m[v].and_(m[w]); REQUIRE(c, a[v].intersects(a[w]) == !i.v.empty(), "intersects expected %d", int(!i.v.empty())); REQUIRE(c, a[v].subsumes(a[w]) == (i == m[w]), "subsumes expected %d: %s / %s", int(i == m[w]), mstr(m[v]).c_str(), mstr(m[w]).c_str());
          bool eq = m[v] == m[w]; REQUIRE(c, a[v].equals(a[w]) == eq && (a[v] == a[w]) == eq && (a[v] != a[w]) == !eq, "equals expected %d: %s / %s", eq, mstr(m[v]).c_str(), mstr(m[w]).c_str());
          int cm = cmp(m[v], m[w]); REQUIRE(c, a[v].compare(a[w]) == cm, "compare = %d expected %d: %s / %s", a[v].compare(a[w]), cm, mstr(m[v]).c_str(), mstr(m[w]).c_str()); REQUIRE(c, (a[v] < a[w]) == (cm < 0) && (a[v] > a[w]) == (cm > 0) && (a[v] <= a[w]) == (cm <= 0) && (a[v] >= a[w]) == (cm >= 0), "ordering operators");
          if (a[v]._d.sso() != a[w]._d.sso()) mixed = true;
          // an equal set built another way must be equal
          BLBitSet t; for (size_t k = m[v].v.size(); k-- > 0;) { if (m[v].v.size() > 60) break; ok(t.add_range(uint32_t(m[v].v[k].first), uint32_t(m[v].v[k].second))); } if (m[v].v.size() <= 60) REQUIRE(c, t.equals(a[v]) && a[v].equals(t) && t.compare(a[v]) == 0 && t.subsumes(a[v]) && a[v].subsumes(t), "set rebuilt from its ranges is not equal: %s", mstr(m[v]).c_str());
          if (m[v].card() < 40000) { BLBitSetWordIterator it(a[v]); M r; uint64_t lastw = 0; bool first = true; while (uint32_t x = it.next_word()) { uint64_t wi = it.word_index(); REQUIRE(c, first || wi > lastw, "word iterator goes backwards"); REQUIRE(c, it.bit_index() == uint32_t(wi * 32), "bit_index"); first = false; lastw = wi; for (int t2 = 0; t2 < 32; t2++) if ((x >> (31 - t2)) & 1) { uint64_t b = wi * 32 + uint64_t(t2); if (b < END) { if (r.v.size() && r.v.back().second == b) r.v.back().second++; else r.v.push_back({b, b + 1}); } } } REQUIRE(c, r == m[v], "word iterator gives %s, model %s", mstr(r).c_str(), mstr(m[v]).c_str()); }
          break; }
      }
      for (int k = 0; k < NV; k++) { check(k, s, op); if (!a[k]._d.sso()) dyn = true; }
    }
    c.label(sharing, "sharing"); c.label(dyn, "dynamic representation"); c.label(mixed, "inline vs dynamic operands"); c.nontrivial(nops >= 3 && (sharing || dyn || mixed));
  }
  REQUIRE(c, at::live == live0, "memory leak: %ld blocks", long(at::live - live0));
}

int main(int argc, char** argv) {
  pbt::Suite s("C04", "random histories of up to ~24 bit set operations over 3 variables; non-trivial = at least 3 operations with a dynamic representation, sharing, or operands of different representation", argc, argv);
  s.add("history", history, {.quick = 2500000, .thorough = 30000000, .chunk = 2000});
  return s.run();
}
