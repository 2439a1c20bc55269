// C03: BLBitArray histories against std::vector<bool>. Bit 0 of the array is the most significant bit of word 0.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include <blend2d/blend2d.h>
#include "pbt.h"
#include "alloc_track.h"
using pbt::Case;
typedef std::vector<bool> M;

static uint32_t sz(Case& c) { switch (c.below(6)) { case 0: return uint32_t(c.below(4)); case 1: return uint32_t(std::max<int64_t>(0, 32 * c.i(0, 6) + c.i(-2, 2))); case 2: return uint32_t(90 + c.below(12)); case 3: return uint32_t(c.below(600)); default: return uint32_t(c.below(130)); } }
static uint32_t idx(Case& c, size_t n) { switch (c.below(5)) { case 0: return uint32_t(c.below(n + 3)); case 1: return uint32_t(n ? n - 1 - c.below(std::min<size_t>(n, 40)) : 0); case 2: return uint32_t(std::max<int64_t>(0, 32 * int64_t(c.below(n / 32 + 1)) + c.i(-1, 1))); default: return uint32_t(c.below(n + 1)); } }
static uint32_t word(Case& c) { switch (c.below(5)) { case 0: return 0; case 1: return 0xFFFFFFFFu; case 2: return 0x80000000u >> c.below(32); default: return c.u32(); } }
static bool wbit(const std::vector<uint32_t>& w, size_t i) { return (w[i / 32] >> (31 - i % 32)) & 1; }

static void history(Case& c) {
  long live0 = at::live;
  {
    const int NV = 3; BLBitArray a[NV]; M m[NV]; bool sharing = false, dyn = false, crossed = false;
    int nops = 1 + int(c.size(30));
    for (int s = 0; s < nops; s++) {
      int v = int(c.below(NV)), w = int(c.below(NV)); size_t n = m[v].size(); const char* op = "?";
      auto ok = [&](BLResult r) { REQUIRE(c, r == BL_SUCCESS, "step %d %s: unexpected error %u", s, op, unsigned(r)); };
      auto words = [&](size_t k) { std::vector<uint32_t> r(k); for (auto& x : r) x = word(c); return r; };
      bool was_sso = n <= BLBitArray::kSSOWordCount * 32u;
      switch (c.below(24)) {
        case 0: { op = "resize"; uint32_t k = sz(c); c.note("b%d.resize(%u)", v, k); ok(a[v].resize(k)); m[v].resize(k, false); break; }
        case 1: { op = "reserve"; uint32_t k = sz(c); c.note("b%d.reserve(%u)", v, k); ok(c.coin() ? a[v].reserve(k) : bl_bit_array_reserve(&a[v], k)); REQUIRE(c, a[v].capacity() >= k, "reserve(%u): capacity %u", k, a[v].capacity()); break; }
        case 2: { op = "shrink"; c.note("b%d.shrink", v); ok(a[v].shrink()); break; }
        case 3: { op = "clear"; c.note("b%d.clear", v); ok(a[v].clear()); m[v].clear(); break; }
        case 4: { op = "reset"; c.note("b%d.reset", v); ok(a[v].reset()); m[v].clear(); break; }
        case 5: { op = "set_bit"; uint32_t k = idx(c, n); c.note("b%d.set_bit(%u)", v, k); BLResult r = a[v].set_bit(k); if (k < n) { ok(r); m[v][k] = true; } else REQUIRE(c, r != BL_SUCCESS, "set_bit(%u) past the end accepted", k); break; }
        case 6: { op = "clear_bit"; uint32_t k = idx(c, n); c.note("b%d.clear_bit(%u)", v, k); BLResult r = a[v].clear_bit(k); if (k < n) { ok(r); m[v][k] = false; } else REQUIRE(c, r != BL_SUCCESS, "clear_bit(%u) past the end accepted", k); break; }
        case 7: { op = "replace_bit"; uint32_t k = idx(c, n); bool b = c.coin(); c.note("b%d.replace_bit(%u,%d)", v, k, b); BLResult r = a[v].replace_bit(k, b); if (k < n) { ok(r); m[v][k] = b; } else REQUIRE(c, r != BL_SUCCESS, "replace_bit(%u) past the end accepted", k); break; }
        case 8: case 9: { bool set = c.coin(); op = set ? "fill_range" : "clear_range"; uint32_t p = idx(c, n), e = c.chance(1, 8) ? UINT32_MAX : idx(c, n); c.note("b%d.%s(%u,%u)", v, op, p, e); BLResult r = set ? a[v].fill_range(p, e) : a[v].clear_range(p, e);
          if (p < e && p < n) { ok(r); for (size_t k = p; k < std::min<size_t>(e, n); k++) m[v][k] = set; } else REQUIRE(c, r != BL_SUCCESS, "%s(%u,%u) of size %zu accepted", op, p, e, n); break; }
        case 10: case 11: case 12: { int kind = int(c.below(3)); op = kind == 0 ? "fill_words" : kind == 1 ? "clear_words" : "replace_words"; uint32_t p = idx(c, n); auto x = words(1 + c.size(6)); bool one = x.size() == 1 && kind > 0 && c.coin(); c.note("b%d.%s(%u, %zu words, %08x..)", v, op, p, x.size(), x[0]);
          BLResult r = kind == 0 ? a[v].fill_words(p, x.data(), uint32_t(x.size())) : kind == 1 ? (one ? a[v].clear_word(p, x[0]) : a[v].clear_words(p, x.data(), uint32_t(x.size()))) : (one ? a[v].replace_word(p, x[0]) : a[v].replace_words(p, x.data(), uint32_t(x.size())));
          if (p < n) { ok(r); for (size_t k = 0; k < x.size() * 32 && p + k < n; k++) { bool b = wbit(x, k); m[v][p + k] = kind == 0 ? (m[v][p + k] || b) : kind == 1 ? (m[v][p + k] && !b) : b; } } else REQUIRE(c, r != BL_SUCCESS, "%s(%u) of size %zu accepted", op, p, n); break; }
        case 13: { op = "append_bit"; bool b = c.coin(); size_t k = c.coin() ? 1 : c.below(70); c.note("b%d.append_bit(%d) x%zu", v, b, k); for (size_t j = 0; j < k; j++) ok(a[v].append_bit(b)); m[v].insert(m[v].end(), k, b); break; }
        case 14: case 15: { op = "append_words"; auto x = words(c.size(8)); c.note("b%d.append_words(%zu words)", v, x.size()); if (x.size() == 1 && c.coin()) ok(a[v].append_word(x[0])); else ok(a[v].append_words(x.data(), uint32_t(x.size()))); for (size_t k = 0; k < x.size() * 32; k++) m[v].push_back(wbit(x, k)); break; }
        case 16: { op = "assign_words"; auto x = words(c.size(10)); c.note("b%d.assign_words(%zu words)", v, x.size()); ok(a[v].assign_words(x.data(), uint32_t(x.size()))); m[v].clear(); for (size_t k = 0; k < x.size() * 32; k++) m[v].push_back(wbit(x, k)); break; }
        case 17: { op = "replace_op"; uint32_t k = sz(c), *d = nullptr; c.note("b%d.replace_op(%u)", v, k); ok(a[v].replace_op(k, &d)); m[v].assign(k, false); size_t nw = (k + 31) / 32; for (size_t j = 0; j < nw; j++) REQUIRE(c, d[j] == 0, "replace_op(%u): word %zu is not zero", k, j); if (k) { size_t j = c.below(k); d[j / 32] |= 0x80000000u >> (j % 32); m[v][j] = true; } break; }
        case 18: case 19: { op = "assign"; c.note("b%d = b%d", v, w); if (c.coin()) a[v] = a[w]; else ok(a[v].assign(a[w])); m[v] = M(m[w]); if (v != w) sharing = true; break; }
        case 20: { op = "move"; if (v == w) break; c.note("b%d = move(b%d)", v, w); a[v] = std::move(a[w]); m[v] = m[w]; m[w].clear(); break; }
        case 21: { op = "swap"; if (v == w) break; c.note("swap(b%d,b%d)", v, w); a[v].swap(a[w]); m[v].swap(m[w]); break; }
        case 22: { op = "queries"; uint32_t p = idx(c, n), e = c.chance(1, 8) ? UINT32_MAX : idx(c, n); uint32_t card = 0, cr = 0; int64_t lo = -1, hi = -1; for (size_t k = 0; k < n; k++) if (m[v][k]) { card++; if (k >= p && k < e) cr++; if (lo < 0) lo = int64_t(k); hi = int64_t(k); }
          c.note("queries b%d [%u,%u)", v, p, e);
          REQUIRE(c, a[v].cardinality() == card, "cardinality %u expected %u", a[v].cardinality(), card); REQUIRE(c, a[v].cardinality_in_range(p, e) == cr, "cardinality_in_range(%u,%u) = %u expected %u", p, e, a[v].cardinality_in_range(p, e), cr);
          REQUIRE(c, a[v].has_bits_in_range(p, e) == (cr > 0), "has_bits_in_range(%u,%u) of size %zu", p, e, n); REQUIRE(c, a[v].has_bit(p) == (p < n && m[v][p]), "has_bit(%u)", p);
          uint32_t s0 = 77, e0 = 77; bool g = bl_bit_array_get_range(&a[v], &s0, &e0); REQUIRE(c, g == (lo >= 0) && (!g || (s0 == uint32_t(lo) && e0 == uint32_t(hi + 1))), "get_range = %d [%u,%u) expected [%lld,%lld]", g, s0, e0, (long long)lo, (long long)hi);
          bool sub = true, inter = false; for (size_t k = 0; k < m[w].size(); k++) if (m[w][k]) { bool x = k < n && m[v][k]; if (!x) sub = false; else inter = true; }
          REQUIRE(c, a[v].subsumes(a[w]) == sub, "subsumes"); REQUIRE(c, a[v].intersects(a[w]) == inter, "intersects"); REQUIRE(c, a[v].equals(a[w]) == (m[v] == m[w]) && (a[v] != a[w]) == (m[v] != m[w]), "equals");
          int cmp = m[v] < m[w] ? -1 : int(m[w] < m[v]); REQUIRE(c, a[v].compare(a[w]) == cmp, "compare = %d expected %d", a[v].compare(a[w]), cmp); REQUIRE(c, (a[v] < a[w]) == (cmp < 0) && (a[v] >= a[w]) == (cmp >= 0), "ordering"); break; }
        default: { op = "construct"; BLBitArray t(a[v]); ok(t.append_bit(true)); REQUIRE(c, t.size() == n + 1 && t.has_bit(uint32_t(n)), "append to a copy"); BLBitArray u(std::move(t)); REQUIRE(c, t.size() == 0 && u.size() == n + 1, "move construct"); c.note("copy b%d", v); break; }
      }
      if (was_sso != (m[v].size() <= BLBitArray::kSSOWordCount * 32u)) crossed = true;
      for (int k = 0; k < NV; k++) {
        size_t nn = m[k].size(); REQUIRE(c, a[k].size() == nn && a[k].is_empty() == (nn == 0), "step %d %s: b%d size %u, model %zu", s, op, k, a[k].size(), nn);
        REQUIRE(c, a[k].capacity() >= nn && a[k].word_count() == (nn + 31) / 32, "step %d %s: b%d capacity/word_count", s, op, k);
        const uint32_t* d = a[k].data(); if (nn > 96) dyn = true;
        for (size_t j = 0; j < nn; j++) REQUIRE(c, bool((d[j / 32] >> (31 - j % 32)) & 1) == m[k][j], "step %d %s: b%d bit %zu of %zu is %d, model %d", s, op, k, j, nn, !m[k][j], int(m[k][j]));
        if (nn % 32) REQUIRE(c, (d[nn / 32] & (0xFFFFFFFFu >> (nn % 32))) == 0, "step %d %s: b%d bits past the end (size %zu) are not zero: %08x", s, op, k, nn, d[nn / 32]);
      }
    }
    c.label(sharing, "sharing"); c.label(dyn, "dynamic storage"); c.label(crossed, "inline/heap crossing"); c.nontrivial(nops >= 4 && (sharing || crossed || dyn));
  }
  REQUIRE(c, at::live == live0, "memory leak: %ld blocks", long(at::live - live0));
}

int main(int argc, char** argv) {
  pbt::Suite s("C03", "random histories of up to ~30 bit array operations over 3 variables, sizes clustered at word and inline-storage boundaries; non-trivial = at least 4 operations with sharing, dynamic storage or a representation switch", argc, argv);
  s.add("history", history, {.quick = 9000000, .thorough = 40000000, .chunk = 2000});
  return s.run();
}
