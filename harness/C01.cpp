// C01: BLArray<T> histories against std::vector models.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include <blend2d/blend2d.h>
#include "pbt.h"
#include "alloc_track.h"
using pbt::Case;

template<size_t N> struct S { uint8_t b[N]; bool operator==(const S& o) const { return memcmp(b, o.b, N) == 0; } };

// Value generator / printing per item type
template<class T> struct Item {
  typedef T M;
  static M gen(Case& c) { M m; memset(&m, 0, sizeof m); uint64_t v = c.below(8) == 0 ? c.u64() : c.below(6); memcpy(&m, &v, std::min(sizeof m, sizeof v)); for (size_t k = 8; k < sizeof m; k++) ((uint8_t*)&m)[k] = uint8_t(v * k); return m; }
  static T make(const M& m) { return m; }
  static bool eq(const T& t, const M& m) { return memcmp(&t, &m, sizeof t) == 0; }
  static std::string str(const M& m) { std::string s; for (size_t k = 0; k < std::min<size_t>(sizeof m, 8); k++) s += pbt::fmt("%02x", ((const uint8_t*)&m)[k]); return s; }
  static const bool is_obj = false;
};
template<> double Item<double>::gen(Case& c) { return double(c.i(-4, 4)) / 2 + (c.chance(1, 8) ? 0.1 : 0); }
template<> float Item<float>::gen(Case& c) { return float(c.i(-4, 4)) / 2 + (c.chance(1, 8) ? 0.1f : 0); }
template<> struct Item<BLString> {
  typedef std::string M;
  static M gen(Case& c) { size_t n = c.chance(1, 2) ? c.below(4) : 12 + c.below(20); char ch = char('a' + c.below(4)); return std::string(n, ch); }
  static BLString make(const M& m) { BLString s; s.assign(m.c_str(), m.size()); return s; }
  static bool eq(const BLString& t, const M& m) { return t.size() == m.size() && memcmp(t.data(), m.data(), m.size()) == 0; }
  static std::string str(const M& m) { return m; }
  static const bool is_obj = true;
};
template<> struct Item<BLBitSet> {
  typedef std::vector<uint32_t> M;
  static M gen(Case& c) { M m; size_t n = c.below(3); for (size_t k = 0; k < n; k++) m.push_back(uint32_t(c.below(40)) * 97u); std::sort(m.begin(), m.end()); m.erase(std::unique(m.begin(), m.end()), m.end()); return m; }
  static BLBitSet make(const M& m) { BLBitSet s; for (auto v : m) s.add_bit(v); return s; }
  static bool eq(const BLBitSet& t, const M& m) { if (t.cardinality() != m.size()) return false; for (auto v : m) if (!t.has_bit(v)) return false; return true; }
  static std::string str(const M& m) { return pbt::fmt("bitset/%zu", m.size()); }
  static const bool is_obj = true;
};
static bool operator==(const S<3>&, const S<6>&) = delete;

struct Ext { std::vector<uint8_t> orig; uint8_t* mem = nullptr; size_t bytes = 0; int destroyed = 0; bool readonly = false; };
static void ext_destroy(void*, void* data, void* user) noexcept { Ext* e = (Ext*)user; e->destroyed++; if (data != e->mem) e->destroyed += 1000; }

template<class T> static void arr(Case& c) {
  typedef Item<T> I; typedef typename I::M M;
  long live0 = at::live;
  std::vector<Ext*> exts;
  {
    const int NV = 3;
    BLArray<T> a[NV]; std::vector<M> m[NV];
    auto check = [&](int step, const char* op) {
      for (int v = 0; v < NV; v++) {
        REQUIRE(c, a[v].size() == m[v].size(), "step %d %s: var %d size %zu, model %zu", step, op, v, a[v].size(), m[v].size());
        REQUIRE(c, a[v].capacity() >= a[v].size(), "step %d %s: var %d capacity %zu < size %zu", step, op, v, a[v].capacity(), a[v].size());
        REQUIRE(c, a[v].is_empty() == m[v].empty() && size_t(a[v].end() - a[v].begin()) == m[v].size(), "step %d %s: var %d iterators", step, op, v);
        const T* d = a[v].data();
        for (size_t k = 0; k < m[v].size(); k++) REQUIRE(c, I::eq(d[k], m[v][k]), "step %d %s: var %d item %zu of %zu is wrong, expected %s", step, op, v, k, m[v].size(), I::str(m[v][k]).c_str());
      }
      for (Ext* e : exts) {
        REQUIRE(c, e->destroyed <= 1, "step %d %s: external data destroy function called %d times / with the wrong pointer", step, op, e->destroyed);
        if (e->readonly) REQUIRE(c, memcmp(e->mem, e->orig.data(), e->bytes) == 0, "step %d %s: read-only external data was modified", step, op);
      }
    };
    int nops = 1 + int(c.size(30)); bool shared = false, aliased = false; int mutations_while_shared = 0;
    for (int s = 0; s < nops; s++) {
      int v = int(c.below(NV)), w = int(c.below(NV)); size_t n = m[v].size();
      auto newitems = [&](size_t cnt) { std::vector<M> r; for (size_t k = 0; k < cnt; k++) r.push_back(I::gen(c)); return r; };
      auto toT = [&](const std::vector<M>& x) { std::vector<T> r; for (auto& y : x) r.push_back(I::make(y)); return r; };
      BLResult r = BL_SUCCESS; const char* op = "?";
      auto ok = [&](BLResult r) { REQUIRE(c, r == BL_SUCCESS, "step %d %s: unexpected error %u", s, op, unsigned(r)); };
      if (shared) mutations_while_shared++;
      switch (c.below(28)) {
        case 0: { op = "append"; M x = I::gen(c); c.note("a%d.append(%s)", v, I::str(x).c_str()); ok(a[v].append(I::make(x))); m[v].push_back(x); break; }
        case 1: { op = "append_data"; auto x = newitems(c.size(20)); auto t = toT(x); c.note("a%d.append_data(%zu items)", v, x.size()); ok(a[v].append_data(t.data(), t.size())); m[v].insert(m[v].end(), x.begin(), x.end()); break; }
        case 2: { op = "insert"; size_t k = c.below(n + 1); M x = I::gen(c); c.note("a%d.insert(%zu, %s)", v, k, I::str(x).c_str()); ok(a[v].insert(k, I::make(x))); m[v].insert(m[v].begin() + long(k), x); break; }
        case 3: { op = "insert_data"; size_t k = c.below(n + 1); auto x = newitems(c.size(12)); auto t = toT(x); c.note("a%d.insert_data(%zu, %zu items)", v, k, x.size()); ok(a[v].insert_data(k, t.data(), t.size())); m[v].insert(m[v].begin() + long(k), x.begin(), x.end()); break; }
        case 4: { op = "prepend"; M x = I::gen(c); c.note("a%d.prepend(%s)", v, I::str(x).c_str()); ok(a[v].prepend(I::make(x))); m[v].insert(m[v].begin(), x); break; }
        case 5: { op = "replace"; size_t k = c.below(n + 2); M x = I::gen(c); c.note("a%d.replace(%zu, %s)", v, k, I::str(x).c_str()); r = a[v].replace(k, I::make(x)); if (k < n) { ok(r); m[v][k] = x; } else REQUIRE(c, r != BL_SUCCESS, "replace with index %zu of %zu accepted", k, n); break; }
        case 6: { op = "replace_data"; size_t p = c.below(n + 2), q = p + c.below(n + 2); if (c.chance(1, 8)) q = SIZE_MAX; auto x = newitems(c.size(8)); auto t = toT(x); c.note("a%d.replace_data([%zu,%zu), %zu items)", v, p, q, x.size());
          ok(a[v].replace_data(BLRange{p, q}, t.data(), t.size())); size_t e = std::min(q, n), b = std::min(p, e); m[v].erase(m[v].begin() + long(b), m[v].begin() + long(e)); m[v].insert(m[v].begin() + long(b), x.begin(), x.end()); break; }
        case 7: { op = "remove"; size_t k = c.below(n + 2); c.note("a%d.remove(%zu)", v, k); r = a[v].remove(k); if (k < n) { ok(r); m[v].erase(m[v].begin() + long(k)); } break; }
        case 8: { op = "remove_range"; size_t p = c.below(n + 2), q = p + c.below(n + 2); if (c.chance(1, 8)) q = SIZE_MAX; c.note("a%d.remove([%zu,%zu))", v, p, q); r = a[v].remove(BLRange{p, q}); size_t e = std::min(q, n), b = std::min(p, e); ok(r); m[v].erase(m[v].begin() + long(b), m[v].begin() + long(e)); break; }
        case 9: { op = "resize"; size_t k = c.size(40); M x = I::gen(c); c.note("a%d.resize(%zu, %s)", v, k, I::str(x).c_str()); ok(a[v].resize(k, I::make(x))); m[v].resize(k, x); break; }
        case 10: { op = "truncate"; size_t k = c.below(n + 2); c.note("a%d.truncate(%zu)", v, k); ok(a[v].truncate(k)); if (k < n) m[v].resize(k); break; }
        case 11: { op = "reserve"; size_t k = c.size(70); c.note("a%d.reserve(%zu)", v, k); ok(a[v].reserve(k)); REQUIRE(c, a[v].capacity() >= k, "reserve(%zu) gave capacity %zu", k, a[v].capacity()); break; }
        case 12: { op = "shrink"; c.note("a%d.shrink()", v); ok(a[v].shrink()); break; }
        case 13: { op = "clear"; c.note("a%d.clear()", v); ok(a[v].clear()); m[v].clear(); break; }
        case 14: { op = "reset"; c.note("a%d.reset()", v); ok(a[v].reset()); m[v].clear(); break; }
        case 15: case 16: { op = "assign"; c.note("a%d = a%d", v, w); if (c.coin()) ok(a[v].assign(a[w])); else a[v] = a[w]; m[v] = std::vector<M>(m[w]); if (v != w) shared = true; break; }
        case 17: { op = "assign_deep"; c.note("a%d.assign_deep(a%d)", v, w); std::vector<M> x = m[w]; ok(a[v].assign_deep(a[w])); m[v] = x; break; }
        case 18: { op = "move"; c.note("a%d = move(a%d)", v, w); if (v == w) break; if (c.coin()) a[v] = std::move(a[w]); else ok(a[v].assign(std::move(a[w]))); m[v] = m[w]; m[w].clear(); break; }
        case 19: { op = "swap"; c.note("swap(a%d,a%d)", v, w); if (v != w) { a[v].swap(a[w]); m[v].swap(m[w]); } break; }
        case 20: { op = "assign_data"; auto x = newitems(c.size(50)); auto t = toT(x); c.note("a%d.assign_data(%zu items)", v, x.size()); ok(a[v].assign_data(t.data(), t.size())); m[v] = x; break; }
        case 21: { op = "make_mutable"; T* d = nullptr; c.note("a%d.make_mutable()", v); ok(a[v].make_mutable(&d)); if (n) { size_t k = c.below(n); M x = I::gen(c); d[k] = I::make(x); m[v][k] = x; } break; }
        case 22: { op = "modify_op"; BLModifyOp mo = c.pickl({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}); auto x = newitems(c.size(20)); T* d = nullptr; c.note("a%d.modify_op(%d, %zu)", v, int(mo), x.size()); ok(a[v].modify_op(mo, x.size(), &d));
          for (size_t k = 0; k < x.size(); k++) new (d + k) T(I::make(x[k]));
          if (mo == BL_MODIFY_OP_ASSIGN_FIT || mo == BL_MODIFY_OP_ASSIGN_GROW) m[v].clear();
          m[v].insert(m[v].end(), x.begin(), x.end()); break; }
        case 23: { op = "insert_op"; size_t k = c.below(n + 1); auto x = newitems(c.size(8)); T* d = nullptr; c.note("a%d.insert_op(%zu, %zu)", v, k, x.size()); ok(a[v].insert_op(k, x.size(), &d)); for (size_t j = 0; j < x.size(); j++) new (d + j) T(I::make(x[j])); m[v].insert(m[v].begin() + long(k), x.begin(), x.end()); break; }
        case 24: { // arguments taken from the array itself
          op = "aliased"; if (!n) break; aliased = true; size_t p = c.below(n), cnt = c.below(n - p + 1), k = c.below(n + 1); std::vector<M> x(m[v].begin() + long(p), m[v].begin() + long(p + cnt)); const T* src = a[v].data() + p;
          switch (c.below(7)) {
            case 5: { size_t nn = n + c.below(12); M y = m[v][p]; c.note("a%d.resize(%zu, self[%zu])", v, nn, p); ok(a[v].resize(nn, *src)); m[v].resize(nn, y); break; }
            case 0: c.note("a%d.append_data(self[%zu..+%zu])", v, p, cnt); ok(a[v].append_data(src, cnt)); m[v].insert(m[v].end(), x.begin(), x.end()); break;
            case 1: c.note("a%d.insert_data(%zu, self[%zu..+%zu])", v, k, p, cnt); ok(a[v].insert_data(k, src, cnt)); m[v].insert(m[v].begin() + long(k), x.begin(), x.end()); break;
            case 2: if (I::is_obj) break; c.note("a%d.assign_data(self[%zu..+%zu])", v, p, cnt); ok(a[v].assign_data(src, cnt)); m[v] = x; break;
            case 3: { c.note("a%d.append(self[%zu])", v, p); M y = m[v][p]; ok(a[v].append(*src)); m[v].push_back(y); break; }
            case 4: { size_t e = k + c.below(n - k + 1); c.note("a%d.replace_data([%zu,%zu), self[%zu..+%zu])", v, k, e, p, cnt); ok(a[v].replace_data(BLRange{k, e}, src, cnt)); m[v].erase(m[v].begin() + long(k), m[v].begin() + long(e)); m[v].insert(m[v].begin() + long(k), x.begin(), x.end()); break; }
            default: { M y = m[v][p]; k = c.below(n); c.note("a%d.replace(%zu, self[%zu])", v, k, p); ok(a[v].replace(k, *src)); m[v][k] = y; break; }
          } break; }
        case 25: { op = "queries"; if (n) { size_t p = c.below(n), from = c.below(n + 2); M x = c.coin() ? m[v][p] : I::gen(c); T t = I::make(x);
            size_t e1 = SIZE_MAX, e2 = SIZE_MAX, e3 = SIZE_MAX, e4 = SIZE_MAX;
            for (size_t k = 0; k < n; k++) if (I::eq(t, m[v][k])) { if (e1 == SIZE_MAX) e1 = k; if (k >= from && e2 == SIZE_MAX) e2 = k; e3 = k; if (k <= from) e4 = k; }
            REQUIRE(c, a[v].index_of(t) == e1, "index_of"); REQUIRE(c, a[v].index_of(t, from) == e2, "index_of(from %zu)", from); REQUIRE(c, a[v].last_index_of(t) == e3, "last_index_of: %zu expected %zu", a[v].last_index_of(t), e3); REQUIRE(c, a[v].last_index_of(t, from) == e4, "last_index_of(from %zu)", from);
            REQUIRE(c, I::eq(a[v].first(), m[v][0]) && I::eq(a[v].last(), m[v][n - 1]), "first/last"); }
          REQUIRE(c, a[v].equals(a[w]) == (m[v] == m[w]), "equals(a%d, a%d)", v, w); REQUIRE(c, (a[v] == a[w]) == (m[v] == m[w]) && (a[v] != a[w]) == (m[v] != m[w]), "operator=="); break; }
        case 26: { op = "copy/move construct"; BLArray<T> t(a[v]); if (c.coin()) { M x = I::gen(c); ok(t.append(I::make(x))); REQUIRE(c, t.size() == n + 1, "copy append"); } BLArray<T> u(std::move(t)); REQUIRE(c, t.size() == 0, "moved-from array not empty"); REQUIRE(c, u.size() >= n, "moved array lost items"); c.note("copy of a%d", v); break; }
        default: { // external data
          if constexpr (!Item<T>::is_obj) {
            op = "assign_external_data"; Ext* e = new Ext; exts.push_back(e); size_t cap = c.size(24), sz = c.below(cap + 2); e->readonly = c.coin(); auto x = newitems(cap); e->bytes = cap * sizeof(T); e->mem = new uint8_t[e->bytes + 1]; memcpy(e->mem, x.data(), e->bytes); e->orig.assign(e->mem, e->mem + e->bytes);
            c.note("a%d.assign_external_data(size %zu, capacity %zu, %s)", v, sz, cap, e->readonly ? "read-only" : "read-write");
            r = a[v].assign_external_data((T*)e->mem, sz, cap, e->readonly ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, ext_destroy, e);
            if (cap == 0 || sz > cap) { REQUIRE(c, r != BL_SUCCESS, "assign_external_data accepted size %zu capacity %zu", sz, cap); REQUIRE(c, e->destroyed == 0, "rejected external data was destroyed"); }
            else { ok(r); m[v].assign(x.begin(), x.begin() + long(sz)); }
          } break; }
      }
      check(s, op);
    }
    c.label(shared, "shared storage"); c.label(aliased, "self-aliased argument"); c.label(!exts.empty(), "external data"); c.nontrivial(nops >= 4 && (shared || aliased || mutations_while_shared > 2 || nops >= 8));
  }
  std::string err;
  for (Ext* e : exts) { if (e->destroyed > 1) err = "external destroy function called more than once"; delete[] e->mem; }
  for (Ext* e : exts) delete e;
  REQUIRE(c, err.empty(), "%s", err.c_str());
  REQUIRE(c, at::live == live0, "memory leak: %ld blocks still allocated after every array was destroyed", long(at::live - live0));
}

// Requests that cannot be satisfied are refused and change nothing.
static void limits(Case& c) {
  BLArray<uint32_t> a; std::vector<uint32_t> m; size_t n = c.size(40); for (size_t k = 0; k < n; k++) { uint32_t v = uint32_t(c.below(100)); a.append(v); m.push_back(v); }
  BLArray<uint32_t> b; if (c.coin()) b = a;
  size_t huge = c.pickl({SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 4, SIZE_MAX / 4 + 1, (size_t(1) << 62), (size_t(1) << 61) + 3}); uint32_t* d = nullptr; uint32_t x[4] = {1, 2, 3, 4}; BLResult r;
  int op = int(c.below(6)); c.note("array of %zu items, op %d with n=%zx", n, op, huge);
  switch (op) {
    case 0: r = a.reserve(huge); break;
    case 1: r = a.resize(huge, 5); break;
    case 2: r = a.modify_op(c.pickl({BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW}), huge, &d); break;
    case 3: r = a.insert_op(c.below(n + 1), huge, &d); break;
    case 4: r = a.append_data(x, huge); break;
    default: r = a.assign_data(x, huge); break;
  }
  REQUIRE(c, r != BL_SUCCESS, "op %d with %zx items succeeded", op, huge);
  REQUIRE(c, a.size() == n && (n == 0 || memcmp(a.data(), m.data(), n * 4) == 0), "refused operation %d changed the array", op);
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Suite s("C01", "random histories of up to ~30 operations over 3 array variables; non-trivial = at least 4 operations with sharing, self-aliasing or at least 8 operations", argc, argv);
  s.add("u8", arr<uint8_t>, {.quick = 480000, .thorough = 12000000, .chunk = 1000});
  s.add("i16", arr<int16_t>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("u32", arr<uint32_t>, {.quick = 480000, .thorough = 12000000, .chunk = 1000});
  s.add("u64", arr<uint64_t>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("f32", arr<float>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("f64", arr<double>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("s3", arr<S<3>>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("s6", arr<S<6>>, {.quick = 160000, .thorough = 3200000, .chunk = 1000});
  s.add("s10", arr<S<10>>, {.quick = 160000, .thorough = 3200000, .chunk = 1000});
  s.add("s12", arr<S<12>>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("s16", arr<S<16>>, {.quick = 320000, .thorough = 6400000, .chunk = 1000});
  s.add("s20", arr<S<20>>, {.quick = 160000, .thorough = 3200000, .chunk = 1000});
  s.add("s24", arr<S<24>>, {.quick = 160000, .thorough = 3200000, .chunk = 1000});
  s.add("s32", arr<S<32>>, {.quick = 160000, .thorough = 3200000, .chunk = 1000});
  s.add("string", arr<BLString>, {.quick = 640000, .thorough = 16000000, .chunk = 1000});
  s.add("bitset", arr<BLBitSet>, {.quick = 320000, .thorough = 8000000, .chunk = 1000});
  s.add("limits", limits, {.quick = 160000, .thorough = 1600000, .chunk = 1000});
  return s.run();
}
