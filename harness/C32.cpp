// C32: random generators are reproducible, in range and independent. The oracle is splitmix64 seeding and xorshift128+
// with shifts 23/18/5, where the second state word is replaced by its own shifted form as the library defines it (the
// sub-check 'period' is about what this means for the period).
#include "pbt.h"
#include <blend2d/blend2d.h>
#include <cmath>
using pbt::Case;
struct Ref {
  uint64_t s[2];
  static uint64_t mix(uint64_t z) { z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9u; z = (z ^ z >> 27) * 0x94D049BB133111EBu; return z ^ z >> 31; }
  // A zero word can't be used as a state, which one replaces it isn't specified.
  bool seed(uint64_t v) { bool zero = false; for (int i = 0; i < 2; i++) { v += 0x9E3779B97F4A7C15u; s[i] = mix(v); zero |= !s[i]; } return zero; }
  uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; b ^= b >> 5; s[0] = b; s[1] = a ^ a >> 18 ^ b; return s[1] + b; } };
static uint64_t seed_of(Case& c) { switch (c.below(5)) { case 0: return c.below(8); case 1: return c.pickl<uint64_t>({0xFFFFFFFFu, 0x100000000u, 0x7FFFFFFFFFFFFFFFu, 0x8000000000000000u, 0xFFFFFFFFFFFFFFFFu}); case 2: return 0 - 0x9E3779B97F4A7C15u * uint64_t(c.range(1, 3)); case 3: return uint64_t(1) << c.below(64); default: return c.u64(); } }
static void history(Case& c) {
  BLRandom g[3]; Ref r[3]; bool live[3] = {}; int ops = int(c.range(3, 60)), draws = 0, copies = 0; bool zero = false;
  for (int i = 0; i < ops; i++) {
    int a = int(c.below(3)), b = int(c.below(3)), what = int(c.weighted({3, 4, 4, 5, 2, 2, 1})); if (!live[a]) what = 0;
    switch (what) {
      case 0: { uint64_t v = seed_of(c); if (c.coin()) { g[a] = BLRandom(v); } else REQUIRE(c, g[a].reset(v) == BL_SUCCESS, "reset failed"); if (v == 0 && c.coin()) g[a].reset(); if (r[a].seed(v)) { zero = true; for (int k = 0; k < 2; k++) { if (r[a].s[k]) REQUIRE(c, g[a].data[k] == r[a].s[k], "seed %016llx gives another state", (unsigned long long)v); else REQUIRE(c, g[a].data[k] != 0, "seed %016llx gives a zero state", (unsigned long long)v); r[a].s[k] = g[a].data[k]; } } live[a] = true; c.note("%d: seed %016llx", a, (unsigned long long)v); break; }
      case 1: { uint64_t w = r[a].next(), v = g[a].next_uint64(); REQUIRE(c, v == w, "next_uint64 is %016llx instead of %016llx", (unsigned long long)v, (unsigned long long)w); draws++; break; }
      case 2: { uint32_t w = uint32_t(r[a].next() >> 32), v = g[a].next_uint32(); REQUIRE(c, v == w, "next_uint32 is %08x instead of %08x", v, w); draws++; break; }
      case 3: { double w = std::ldexp(double(r[a].next() >> 12), -52), v = g[a].next_double(); REQUIRE(c, v == w && v >= 0 && v < 1, "next_double is %.17g instead of %.17g", v, w); draws++; break; }
      case 4: if (live[b]) { g[a] = g[b]; r[a] = r[b]; copies += a != b; } break;
      case 5: if (live[b]) { bool e = r[a].s[0] == r[b].s[0] && r[a].s[1] == r[b].s[1]; REQUIRE(c, g[a].equals(g[b]) == e && (g[a] == g[b]) == e && (g[a] != g[b]) != e, "comparing generators gives %d instead of %d", g[a].equals(g[b]), e); } break;
      default: { BLRandom t(g[a]); Ref q = r[a]; for (int k = int(c.range(1, 5)); k--;) { uint64_t w = q.next(), v = t.next_uint64(); REQUIRE(c, v == w, "a copy continues with %016llx instead of %016llx", (unsigned long long)v, (unsigned long long)w); } copies++; break; }
    }
    for (int k = 0; k < 3; k++) if (live[k]) REQUIRE(c, g[k].data[0] == r[k].s[0] && g[k].data[1] == r[k].s[1], "generator %d has another state after step %d", k, i); }
  c.nontrivial(draws > 2); c.label(copies > 0, "copies"); c.label(zero, "zero state word"); }

// States that produce extreme outputs.
static void extremes(Case& c) {
  BLRandom g(1); Ref r; for (int k = 0; k < 2; k++) { uint64_t v = c.weighted({1, 1, 1}) == 0 ? ~uint64_t(0) >> c.below(64) : c.coin() ? ~uint64_t(0) << c.below(64) : uint64_t(1) << c.below(64); g.data[k] = r.s[k] = v; } // Steered so that the sum is close to 0 or 2^64.
  if (c.coin()) { uint64_t want = c.coin() ? ~uint64_t(0) - c.below(5000) : uint64_t(c.below(5000)); Ref q = r; uint64_t x = q.s[0]; x ^= x << 23; uint64_t other = x ^ x >> 18; uint64_t b = c.u64(); for (int it = 0; it < 64; it++) { uint64_t n = want - (other ^ b ^ b >> 5); if (n == b) break; b = n; } r.s[1] = g.data[1] = b; }
  c.note("state %016llx %016llx", (unsigned long long)r.s[0], (unsigned long long)r.s[1]); double lo = 1; for (int i = 0; i < 4; i++) { double w = std::ldexp(double(r.next() >> 12), -52), v = g.next_double(); lo = std::min(lo, std::min(v, 1 - v)); REQUIRE(c, v == w && v >= 0 && v < 1 && !std::signbit(v), "next_double is %.17g instead of %.17g", v, w); REQUIRE(c, g.data[0] == r.s[0] && g.data[1] == r.s[1], "the state after next_double differs"); }
  c.nontrivial(true); c.label(lo < 1e-3, "close to a border"); }

// Uniform: counts of values in bins stay within wide limits (chance of a false alarm below 1e-12).
static void uniform(Case& c) {
  BLRandom g(c.u64()); const int n = 20000, bins = 16; int d[3][bins] = {}; for (int i = 0; i < n; i++) { d[0][int(g.next_double() * bins)]++; d[1][g.next_uint32() >> 28]++; d[2][g.next_uint64() >> 11 & 15]++; } double sd = std::sqrt(n / double(bins) * (1 - 1.0 / bins)); for (int k = 0; k < 3; k++) for (int b = 0; b < bins; b++) REQUIRE(c, std::fabs(d[k][b] - n / double(bins)) < 9 * sd, "bin %d of stream %d has %d of %d values", b, k, d[k][b], n); c.nontrivial(true); c.note("uniform"); }
// The state transition is linear over GF(2). A full period means that its order is 2^128 - 1.
typedef unsigned __int128 W; struct M { W col[128]; };
static W apply(const M& m, W v) { W r = 0; for (int i = 0; i < 128; i++) if (v >> i & 1) r ^= m.col[i]; return r; }
static M mul(const M& a, const M& b) { M r; for (int i = 0; i < 128; i++) r.col[i] = apply(a, b.col[i]); return r; }
static bool one(const M& m) { for (int i = 0; i < 128; i++) if (m.col[i] != W(1) << i) return false; return true; }
static M power(M m, W e) { M r; for (int i = 0; i < 128; i++) r.col[i] = W(1) << i; for (; e; e >>= 1) { if (e & 1) r = mul(m, r); if (e > 1) m = mul(m, m); } return r; }
static W after(W v) { BLRandom g(1); g.data[0] = uint64_t(v); g.data[1] = uint64_t(v >> 64); g.next_uint64(); return W(g.data[1]) << 64 | g.data[0]; }
static void period(Case& c) {
  M t; for (int i = 0; i < 128; i++) t.col[i] = after(W(1) << i); for (int k = 0; k < 20; k++) { W v = W(c.u64()) << 64 | c.u64(); REQUIRE(c, after(v) == apply(t, v), "the state transition isn't linear"); }
  c.nontrivial(true); c.note("period"); static const uint64_t prime[] = {3, 5, 17, 257, 641, 65537, 274177, 6700417, 67280421310721u}; REQUIRE(c, one(power(t, ~W(0))), "period isn't full: a state doesn't return after 2^128 - 1 steps"); for (uint64_t p : prime) REQUIRE(c, !one(power(t, ~W(0) / p)), "period isn't full: it divides (2^128 - 1) / %llu", (unsigned long long)p); }
int main(int argc, char** argv) {
  pbt::Suite s("C32", "Non-trivial: at least three values were drawn.", argc, argv);
  s.add("history", history, {.quick = 200000, .thorough = 5000000, .chunk = 1000});
  s.add("extremes", extremes, {.quick = 200000, .thorough = 5000000, .chunk = 1000});
  s.add("uniform", uniform, {.quick = 200, .thorough = 4000, .chunk = 10});
  s.add("period", period, {.quick = 4, .thorough = 40, .chunk = 1});
  return s.run();
}
