// C02: BLString histories against std::string.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include <blend2d/blend2d.h>
#include <string>
#include "pbt.h"
#include "alloc_track.h"
using pbt::Case;

static size_t len(Case& c) { switch (c.below(6)) { case 0: return c.below(4); case 1: return 10 + c.below(9); case 2: return 120 + c.below(20); case 3: return 60 + c.below(10); case 4: return c.below(64); default: return c.below(20); } }
static std::string text(Case& c, size_t n, bool nul) { std::string s(n, 'a'); uint64_t mode = c.below(3); for (auto& ch : s) { if (mode == 0) ch = char('a' + c.below(3)); else if (mode == 1) ch = char(c.below(8) == 0 ? 128 + c.below(128) : 33 + c.below(90)); else ch = 'b'; if (nul && c.below(16) == 15) ch = 0; } return s; }
static std::string q(const std::string& s) { std::string r = "\""; for (unsigned char ch : s.substr(0, 40)) r += (ch < 32 || ch > 126) ? pbt::fmt("\\x%02x", ch) : std::string(1, char(ch)); return r + "\"" + (s.size() > 40 ? pbt::fmt("..(%zu)", s.size()) : ""); }
static int sgn(int x) { return (x > 0) - (x < 0); }

static void history(Case& c) {
  long live0 = at::live;
  {
    const int NV = 3; BLString a[NV]; std::string m[NV]; bool sharing = false, crossed = false, aliased = false;
    int nops = 1 + int(c.size(30));
    for (int s = 0; s < nops; s++) {
      int v = int(c.below(NV)), w = int(c.below(NV)); size_t n = m[v].size(); const char* op = "?"; bool was_sso = n <= 14;
      auto ok = [&](BLResult r) { REQUIRE(c, r == BL_SUCCESS, "step %d %s: unexpected error %u", s, op, unsigned(r)); };
      switch (c.below(30)) {
        case 0: { op = "append char"; char ch = char('a' + c.below(26)); size_t k = c.coin() ? 1 : len(c); c.note("s%d.append('%c', %zu)", v, ch, k); ok(a[v].append(ch, k)); m[v].append(k, ch); break; }
        case 1: { op = "append data"; std::string x = text(c, len(c), true); c.note("s%d.append(%s)", v, q(x).c_str()); ok(c.coin() ? a[v].append(x.data(), x.size()) : a[v].append(BLStringView{x.data(), x.size()})); m[v] += x; break; }
        case 2: { op = "append cstr"; std::string x = text(c, len(c), false); c.note("s%d.append cstr %s", v, q(x).c_str()); ok(a[v].append(x.c_str())); m[v] += x; break; }
        case 3: { op = "append string"; c.note("s%d.append(s%d)", v, w); if (v == w) aliased = true; ok(a[v].append(a[w])); m[v] += std::string(m[w]); break; }
        case 4: { op = "assign data"; std::string x = text(c, len(c), true); c.note("s%d.assign(%s)", v, q(x).c_str()); ok(a[v].assign(x.data(), x.size())); m[v] = x; break; }
        case 5: { op = "assign cstr"; std::string x = text(c, len(c), false); c.note("s%d.assign cstr %s", v, q(x).c_str()); ok(a[v].assign(x.c_str())); m[v] = x; break; }
        case 6: case 7: { op = "assign"; c.note("s%d = s%d", v, w); if (c.coin()) a[v] = a[w]; else ok(a[v].assign(a[w])); m[v] = std::string(m[w]); if (v != w) sharing = true; break; }
        case 8: { op = "assign_deep"; c.note("s%d.assign_deep(s%d)", v, w); std::string x = m[w]; ok(a[v].assign_deep(a[w])); m[v] = x; break; }
        case 9: { op = "move"; if (v == w) break; c.note("s%d = move(s%d)", v, w); a[v] = std::move(a[w]); m[v] = m[w]; m[w].clear(); break; }
        case 10: { op = "insert char"; size_t k = c.below(n + 1), cnt = c.coin() ? 1 : len(c); char ch = char('A' + c.below(26)); c.note("s%d.insert(%zu,'%c',%zu)", v, k, ch, cnt); ok(a[v].insert(k, ch, cnt)); m[v].insert(k, cnt, ch); break; }
        case 11: { op = "insert data"; size_t k = c.below(n + 1); std::string x = text(c, len(c), true); c.note("s%d.insert(%zu,%s)", v, k, q(x).c_str()); ok(a[v].insert(k, x.data(), x.size())); m[v].insert(k, x); break; }
        case 12: { op = "insert string"; size_t k = c.below(n + 1); c.note("s%d.insert(%zu, s%d)", v, k, w); if (v == w) aliased = true; std::string x = m[w]; ok(a[v].insert(k, a[w])); m[v].insert(k, x); break; }
        case 13: { op = "prepend"; std::string x = text(c, len(c), false); c.note("s%d.prepend(%s)", v, q(x).c_str()); ok(a[v].prepend(x.c_str())); m[v] = x + m[v]; break; }
        case 14: { op = "remove"; size_t k = c.below(n + 2); c.note("s%d.remove(%zu)", v, k); BLResult r = a[v].remove(k); if (k < n) { ok(r); m[v].erase(k, 1); } break; }
        case 15: case 16: { op = "remove_range"; size_t p = c.below(n + 2), e = p + c.below(n + 2); if (c.chance(1, 8)) e = SIZE_MAX; c.note("s%d.remove([%zu,%zu))", v, p, e); ok(a[v].remove(BLRange{p, e})); if (p < n) m[v].erase(p, e - p); break; }
        case 17: { op = "resize"; size_t k = len(c); char ch = char('a' + c.below(26)); c.note("s%d.resize(%zu,'%c')", v, k, ch); ok(a[v].resize(k, ch)); m[v].resize(k, ch); break; }
        case 18: { op = "truncate"; size_t k = c.below(n + 3); c.note("s%d.truncate(%zu)", v, k); ok(a[v].truncate(k)); if (k < n) m[v].resize(k); break; }
        case 19: { op = "reserve"; size_t k = len(c); c.note("s%d.reserve(%zu)", v, k); ok(a[v].reserve(k)); REQUIRE(c, a[v].capacity() >= k, "reserve(%zu) capacity %zu", k, a[v].capacity()); break; }
        case 20: { op = "shrink"; c.note("s%d.shrink", v); ok(a[v].shrink()); break; }
        case 21: { op = "clear"; c.note("s%d.clear", v); ok(a[v].clear()); m[v].clear(); break; }
        case 22: { op = "reset"; c.note("s%d.reset", v); ok(a[v].reset()); m[v].clear(); break; }
        case 23: { op = "make_mutable"; char* d = nullptr; c.note("s%d.make_mutable", v); ok(a[v].make_mutable(&d)); if (n) { size_t k = c.below(n); char ch = char('0' + c.below(10)); d[k] = ch; m[v][k] = ch; } break; }
        case 24: { op = "modify_op"; BLModifyOp mo = c.pickl({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}); std::string x = text(c, len(c), true); char* d = nullptr; c.note("s%d.modify_op(%d,%s)", v, int(mo), q(x).c_str());
          if (c.coin()) { ok(a[v].modify_op(mo, x.size(), &d)); memcpy(d, x.data(), x.size()); } else ok(bl_string_apply_op_data(&a[v], mo, x.data(), x.size()));
          if (mo == BL_MODIFY_OP_ASSIGN_FIT || mo == BL_MODIFY_OP_ASSIGN_GROW) m[v] = x; else m[v] += x; break; }
        case 25: { op = "insert_op"; size_t k = c.below(n + 1); std::string x = text(c, len(c), true); char* d = nullptr; c.note("s%d.insert_op(%zu,%zu)", v, k, x.size()); ok(a[v].insert_op(k, x.size(), &d)); memcpy(d, x.data(), x.size()); m[v].insert(k, x); break; }
        case 26: { op = "format"; std::string x = text(c, c.chance(1, 12) ? 900 + c.below(300) : len(c), false); int iv = int(c.range(-1000000, 1000000)); std::string e = pbt::fmt("%d|%s|%5.2f", iv, x.c_str(), iv / 8.0); bool app = c.coin(); c.note("s%d.%s_format(%s)", v, app ? "append" : "assign", q(e).c_str());
          ok(app ? a[v].append_format("%d|%s|%5.2f", iv, x.c_str(), iv / 8.0) : a[v].assign_format("%d|%s|%5.2f", iv, x.c_str(), iv / 8.0)); if (app) m[v] += e; else m[v] = e; break; }
        case 27: { op = "aliased"; if (!n) break; aliased = true; size_t p = c.below(n), cnt = c.below(n - p + 1), k = c.below(n + 1); std::string x = m[v].substr(p, cnt); const char* src = a[v].data() + p;
          switch (c.below(3)) { case 0: c.note("s%d.append(self[%zu+%zu])", v, p, cnt); ok(a[v].append(src, cnt)); m[v] += x; break; case 1: c.note("s%d.insert(%zu,self[%zu+%zu])", v, k, p, cnt); ok(a[v].insert(k, src, cnt)); m[v].insert(k, x); break; default: c.note("s%d.assign(self[%zu+%zu])", v, p, cnt); ok(a[v].assign(src, cnt)); m[v] = x; } break; }
        case 28: { op = "queries"; std::string x = c.coin() ? m[v] : text(c, len(c), false); if (x.size() && c.coin()) x[c.below(x.size())]++; BLStringView view{x.data(), x.size()}; c.note("queries s%d ~ s%d ~ %s", v, w, q(x).c_str());
          REQUIRE(c, a[v].equals(a[w]) == (m[v] == m[w]) && (a[v] == a[w]) == (m[v] == m[w]) && (a[v] != a[w]) == (m[v] != m[w]), "equals(string)");
          REQUIRE(c, a[v].equals(view) == (m[v] == x), "equals(view)"); std::string xc = x.c_str(); REQUIRE(c, a[v].equals(xc.c_str()) == (m[v] == xc), "equals(cstr)");
          auto cmp = [](const std::string& p, const std::string& r) { return sgn(p.compare(r)); };
          REQUIRE(c, sgn(a[v].compare(a[w])) == cmp(m[v], m[w]), "compare(string)"); REQUIRE(c, sgn(a[v].compare(view)) == cmp(m[v], x), "compare(view)"); REQUIRE(c, sgn(a[v].compare(xc.c_str())) == cmp(m[v], xc), "compare(cstr)");
          REQUIRE(c, (a[v] < a[w]) == (m[v] < m[w]) && (a[v] <= a[w]) == (m[v] <= m[w]) && (a[v] > a[w]) == (m[v] > m[w]) && (a[v] >= a[w]) == (m[v] >= m[w]), "ordering operators");
          char ch = c.coin() && n ? m[v][c.below(n)] : char('a' + c.below(4)); size_t from = c.below(n + 2); auto f = [](size_t z) { return z == std::string::npos ? SIZE_MAX : z; };
          REQUIRE(c, a[v].index_of(ch) == f(m[v].find(ch)), "index_of"); REQUIRE(c, a[v].index_of(ch, from) == f(m[v].find(ch, from)), "index_of from"); REQUIRE(c, a[v].last_index_of(ch) == f(m[v].rfind(ch)), "last_index_of"); REQUIRE(c, a[v].last_index_of(ch, from) == f(m[v].rfind(ch, from)), "last_index_of from");
          if (n) { size_t k = c.below(n); REQUIRE(c, a[v][k] == m[v][k], "element access"); } break; }
        default: { op = "construct"; std::string x = text(c, len(c), true); BLString t(x.data(), x.size()), u(a[v]), z(BLStringView{x.data(), x.size()}); REQUIRE(c, t.size() == x.size() && memcmp(t.data(), x.data(), x.size()) == 0 && t == z, "constructor from data"); ok(u.append('x')); BLString y(std::move(u)); REQUIRE(c, u.size() == 0 && y.size() == n + 1, "move constructor"); a[v].swap(t); m[v].swap(x); c.note("s%d.swap(%s)", v, q(m[v]).c_str()); break; }
      }
      if (was_sso != (m[v].size() <= 14)) crossed = true;
      for (int k = 0; k < NV; k++) {
        REQUIRE(c, a[k].size() == m[k].size(), "step %d %s: s%d size %zu, model %zu", s, op, k, a[k].size(), m[k].size());
        REQUIRE(c, memcmp(a[k].data(), m[k].data(), m[k].size()) == 0, "step %d %s: s%d content %s, model %s", s, op, k, q(std::string(a[k].data(), a[k].size())).c_str(), q(m[k]).c_str());
        REQUIRE(c, a[k].data()[a[k].size()] == 0, "step %d %s: s%d (size %zu) is not NUL terminated", s, op, k, a[k].size());
        REQUIRE(c, a[k].capacity() >= a[k].size() && a[k].is_empty() == m[k].empty(), "step %d %s: s%d capacity/is_empty", s, op, k);
      }
    }
    c.label(sharing, "sharing"); c.label(crossed, "inline/heap crossing"); c.label(aliased, "self-aliased"); c.nontrivial(nops >= 4 && (sharing || crossed || aliased));
  }
  REQUIRE(c, at::live == live0, "memory leak: %ld blocks", long(at::live - live0));
}

static void limits(Case& c) {
  std::string m = text(c, len(c), false); BLString a(m.data(), m.size()), b; if (c.coin()) b = a;
  size_t huge = c.pickl({SIZE_MAX - 1, SIZE_MAX - 8, SIZE_MAX - 64, SIZE_MAX / 2, SIZE_MAX / 2 + 1, size_t(1) << 62, SIZE_MAX - 24, SIZE_MAX - 25}); char* d = nullptr; BLResult r; int op = int(c.below(6));
  c.note("string of %zu, op %d, n=%zx", m.size(), op, huge);
  switch (op) { case 0: r = a.reserve(huge); break; case 1: r = a.resize(huge, 'x'); break; case 2: r = a.modify_op(c.pickl({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}), huge, &d); break;
    case 3: r = a.insert_op(c.below(m.size() + 1), huge, &d); break; case 4: r = a.append('x', huge); break; default: r = a.insert(c.below(m.size() + 1), 'x', huge); break; }
  REQUIRE(c, r != BL_SUCCESS, "op %d with size %zx succeeded", op, huge);
  REQUIRE(c, a.size() == m.size() && memcmp(a.data(), m.c_str(), m.size() + 1) == 0, "refused operation changed the string");
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Suite s("C02", "random histories of up to ~30 string operations over 3 variables, sizes clustered at the inline/heap boundary; non-trivial = at least 4 operations with sharing, a representation switch or a self-aliased argument", argc, argv);
  s.add("history", history, {.quick = 6000000, .thorough = 30000000, .chunk = 2000});
  s.add("limits", limits, {.quick = 40000, .thorough = 400000, .chunk = 2000});
  return s.run();
}
