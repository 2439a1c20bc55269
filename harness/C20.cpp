// C20: fills through a mask image against an exact per-pixel model.
#include "scene.h"
using namespace rv;
typedef std::vector<uint32_t> Img;
static Img grab(const BLImage& im) { BLImageData d; im.get_data(&d); Img v; for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) v.push_back(d.format == BL_FORMAT_A8 ? px8(d, x, y) : px32(d, x, y)); return v; }
static uint32_t dv(uint32_t a, uint32_t b) { return div255(a * b); }

// every value a pixel may legally get: the two forms only differ in the place where rounding happens when the source is opaque
static bool legal(int op, BLFormat f, uint32_t s, uint32_t d, uint32_t m, uint32_t got, uint32_t& want) {
  uint32_t sa = s >> 24;
  auto over = [&](int k) { uint32_t sc = dv((s >> k) & 255, m), ia = 255 - dv(sa, m), dc = f == BL_FORMAT_A8 ? d : (d >> k) & 255; return sc + dv(dc, ia); };
  auto copy = [&](int k) { uint32_t dc = f == BL_FORMAT_A8 ? d : (d >> k) & 255; return div255(dc * (255 - m) + ((s >> k) & 255) * m); };
  uint32_t mask = f == BL_FORMAT_A8 ? 0xFF : f == BL_FORMAT_XRGB32 ? 0xFFFFFF : 0xFFFFFFFFu; bool is_over = op == BL_COMP_OP_SRC_OVER;
  auto all = [&](auto fn) { if (f == BL_FORMAT_A8) return fn(24); return fn(0) | fn(8) << 8 | fn(16) << 16 | fn(24) << 24; };
  want = (is_over ? all(over) : all(copy)) & mask; if ((got & mask) == want) return true;
  if (is_over && sa == 255) return (got & mask) == (all(copy) & mask);
  return false;
}

static void model(Case& c) {
  bool large = c.chance(1, 60); int w = large ? c.i(40, 300) : c.i(1, 40), h = large ? c.i(40, 200) : c.i(1, 24); int threads = c.chance(1, 10) ? c.i(1, 4) : 0;
  BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); uint32_t seed = c.u32(); int kind = c.i(0, 2);
  BLImage img(w, h, fmt); sc::paint(img, seed, kind);
  sc::Opt o; o.w = w; o.h = h; o.text = false; sc::Gen g(c, o); g.resources(); sc::World W; g.build(W);
  std::vector<BLImage> masks; int nm = c.i(1, 3); for (int i = 0; i < nm; i++) { int mw = c.i(1, large ? w + 8 : 44), mh = c.i(1, large ? h + 8 : 26); BLImage m(mw, mh, BL_FORMAT_A8); sc::paint(m, c.u32(), c.weighted({3, 1})); masks.push_back(m); }
  BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); if (threads && c.coin()) ci.command_queue_limit = uint32_t(c.i(1, 6)); BLContext ctx; REQUIRE(c, ctx.begin(img, ci) == BL_SUCCESS, "begin failed");
  c.note("%dx%d format %d threads %d", w, h, int(fmt), threads); Img cur = grab(img); bool hit = false, partial = false;
  BLContext ref; BLImage probe(w, h, BL_FORMAT_PRGB32); long tx = 0, ty = 0;
  int n = c.i(1, 4);
  for (int step = 0; step < n; step++) {
    // state
    ctx.reset_transform(); BLMatrix2D user; user.reset(); BLMatrix2D meta; meta.reset(); (void)meta; bool frac_tr = false; tx = ty = 0;
    BLBoxI clip; clip.reset(0, 0, w, h); ctx.restore_clipping();
    if (c.chance(1, 3)) { int x0 = c.i(-2, w), y0 = c.i(-2, h), cw = c.i(0, w), ch = c.i(0, h); BLRectI r; r.reset(x0, y0, cw, ch); ctx.clip_to_rect(r); clip.reset(std::max(0, x0), std::max(0, y0), std::min(w, x0 + cw), std::min(h, y0 + ch)); c.note("clip %d %d %d %d", x0, y0, cw, ch); }
    double fx = 0, fy = 0; int tk = c.weighted({4, 3, 1});
    if (tk == 1) { tx = c.i(-20, 20); ty = c.i(-12, 12); user.translate(double(tx), double(ty)); }
    if (tk == 2) { fx = c.pickl<double>({0.5, 0.25, -0.75}); fy = c.pickl<double>({0.0, 0.5}); tx = c.i(-5, 5); ty = c.i(-5, 5); user.translate(double(tx) + fx, double(ty) + fy); frac_tr = true; }
    bool odd = !frac_tr && c.chance(1, 25); if (odd) user.scale(c.pickl<double>({2.0, -1.0, 0.5, 1.25}), c.pickl<double>({1.0, 2.0, -1.0}));
    ctx.apply_transform(user);
    double ga = g.alpha(), fa = c.coin() ? 1.0 : c.frac(); ctx.set_global_alpha(ga); ctx.set_fill_alpha(fa); uint32_t A = uint32_t(std::lrint(ga * 255.0 * fa));
    double ap = ga * 255.0 * fa; if (std::fabs(ap - std::floor(ap) - 0.5) < 1e-6) ga = 1, fa = 1, ctx.set_global_alpha(1), ctx.set_fill_alpha(1), A = 255;
    int op = c.coin() ? BL_COMP_OP_SRC_OVER : BL_COMP_OP_SRC_COPY; ctx.set_comp_op(BLCompOp(op)); std::string t; auto style = g.style(t);
    size_t mi = size_t(c.below(uint64_t(nm))); BLImage& M = masks[mi]; int mw = M.width(), mh = M.height(); bool area = c.coin(), bad = false; BLRectI a; a.reset(0, 0, mw, mh);
    if (area) { int ax = c.i(0, mw - 1), ay = c.i(0, mh - 1); a.reset(ax, ay, c.i(1, mw - ax), c.i(1, mh - ay)); if (c.chance(1, 15)) { a.reset(c.i(-3, mw), c.i(-3, mh), c.i(-2, mw + 3), c.i(-2, mh + 3)); bad = a.x < 0 || a.y < 0 || a.w < 0 || a.h < 0 || a.x + a.w > mw || a.y + a.h > mh; } }
    int px = c.i(-mw - int(tx), w - int(tx)), py = c.i(-mh - int(ty), h - int(ty)); if (c.chance(1, 3)) { px = c.i(-2, 4) - int(tx); py = c.i(-2, 4) - int(ty); }
    bool as_double = c.coin(); double qx = px, qy = py; bool unaligned = false;
    if (frac_tr) { if (c.coin()) { as_double = true; qx -= fx; qy -= fy; } else unaligned = true; }
    else if (c.chance(1, 12) && as_double) { qx += c.pickl<double>({0.5, 1 / 256.0, 0.99}); unaligned = true; }
    bool expl = c.coin(); BLVar v = style(W); if (!expl) ctx.set_fill_style(v);
    c.note("translate %ld %ld +%g %g%s; op %d alpha %.17g*%.17g; mask#%zu %dx%d area %d (%d %d %d %d) at %s %g %g; style %s %s", tx, ty, fx, fy, odd ? " (scaled)" : "", op, ga, fa, mi, mw, mh, area, a.x, a.y, a.w, a.h, as_double ? "double" : "int", qx, qy, t.c_str(), expl ? "explicit" : "set");
    BLPointI pi; pi.reset(px, py); BLPoint pd(qx, qy); BLResult r;
    if (as_double) r = area ? (expl ? ctx.fill_mask(pd, M, a, v) : ctx.fill_mask(pd, M, a)) : (expl ? ctx.fill_mask(pd, M, v) : ctx.fill_mask(pd, M));
    else r = area ? (expl ? ctx.fill_mask(pi, M, a, v) : ctx.fill_mask(pi, M, a)) : (expl ? ctx.fill_mask(pi, M, v) : ctx.fill_mask(pi, M));
    Img mk = grab(M); int row = mw;
    if (c.chance(1, 4)) { sc::paint(M, c.u32(), 0); c.label(threads > 0, "mask changed after the call"); }
    bool check_now = !threads || c.coin() || step == n - 1; if (check_now) REQUIRE(c, ctx.flush(BL_CONTEXT_FLUSH_SYNC) == BL_SUCCESS, "flush failed");
    if (bad) { REQUIRE(c, r != BL_SUCCESS || A == 0 || clip.x0 >= clip.x1 || clip.y0 >= clip.y1, "a mask area outside the mask was accepted"); }
    else if (r != BL_SUCCESS) { REQUIRE(c, unaligned || odd || frac_tr, "fill_mask failed with %u", unsigned(r)); c.label(true, "refused"); }
    bool draws = r == BL_SUCCESS && !bad;
    if (draws && (unaligned || odd)) { // only possible when nothing is visible
      c.label(true, "no-op"); draws = false; if (check_now && !threads) { Img now = grab(img); REQUIRE(c, now == cur, "an unsupported mask placement that returned success changed the image"); } }
    if (draws) {
      int X = int(px + tx), Y = int(py + ty); BLBoxI b; b.reset(std::max(X, clip.x0), std::max(Y, clip.y0), std::min(X + a.w, clip.x1), std::min(Y + a.h, clip.y1));
      if (b.x0 < b.x1 && b.y0 < b.y1) {
        hit = true; probe.create(w, h, BL_FORMAT_PRGB32); Img S; bool empty = true;  // an empty gradient or a non-invertible style transformation paints nothing
        for (int k = 0; k < 2; k++) { BLImageData pd2; probe.make_mutable(&pd2); for (int y = 0; y < h; y++) memset((uint8_t*)pd2.pixel_data + y * pd2.stride, k ? 255 : 0, size_t(w) * 4); ref.begin(probe); BLRectI rc; rc.reset(b.x0, b.y0, b.x1 - b.x0, b.y1 - b.y0); ref.clip_to_rect(rc); ref.apply_transform(user); ref.set_comp_op(BL_COMP_OP_SRC_COPY); ref.fill_all(v); ref.end(); S = grab(probe); for (auto q : S) if (q != (k ? ~0u : 0u)) empty = false; if (k == 0 && !empty) break; }
        if (empty) c.label(true, "paints nothing");
        for (int y = b.y0; y < b.y1; y++) for (int x = b.x0; x < b.x1; x++) { uint32_t m = mk[size_t((y - Y + a.y) * row + (x - X + a.x))]; m = empty ? 0 : A == 255 ? m : dv(m, A); size_t i = size_t(y * w + x); uint32_t want; legal(op, fmt, S[i], cur[i], m, 0, want); if (m && m < 255) partial = true;
          if (check_now && !threads) { BLImageData d; img.get_data(&d); uint32_t got = fmt == BL_FORMAT_A8 ? px8(d, x, y) : px32(d, x, y);
            if (!legal(op, fmt, S[i], cur[i], m, got, want)) c.fail("pixel %d,%d: source %08x mask %u destination %08x gives %08x, expected %08x", x, y, S[i], m, cur[i], got, want); cur[i] = got; }
          else cur[i] = want; }
      }
    }
    if (check_now) { Img now = grab(img); uint32_t keep = fmt == BL_FORMAT_XRGB32 ? 0xFFFFFFu : ~0u;
      if (threads) { for (size_t i = 0; i < now.size(); i++) { bool ok = true; for (int k = 0; k < 32; k += 8) if (((keep >> k) & 255) && std::abs(int((now[i] >> k) & 255) - int((cur[i] >> k) & 255)) > 1 + step) ok = false; if (!ok) c.fail("pixel %zu,%zu with %d threads is %08x, expected %08x", i % size_t(w), i / size_t(w), threads, now[i], cur[i]); } cur = now; }
      else for (size_t i = 0; i < now.size(); i++) if ((now[i] ^ cur[i]) & keep) c.fail("pixel %zu,%zu is %08x, expected %08x (outside the mask or clip)", i % size_t(w), i / size_t(w), now[i], cur[i]); }
  }
  ctx.end(); c.label(partial, "partial mask values"); c.label(threads > 0, "async"); c.nontrivial(hit && partial);
}

// operators that the build refuses must refuse; those it accepts must leave pixels under a zero mask alone and equal an unmasked fill under a full mask
static void any_op(Case& c) {
  int w = c.i(1, 24), h = c.i(1, 10); BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); uint32_t seed = c.u32(); int kind = c.i(0, 2), op = c.i(0, BL_COMP_OP_MAX_VALUE);
  BLImage a(w, h, fmt), b(w, h, fmt), m(w, h, BL_FORMAT_A8); sc::paint(a, seed, kind); sc::paint(b, seed, kind); sc::paint(m, c.u32(), c.i(0, 1)); Img was = grab(a);
  sc::Opt o; o.w = w; o.h = h; o.text = false; sc::Gen g(c, o); g.resources(); sc::World W; g.build(W); std::string t; auto st = g.style(t); double al = g.alpha();
  c.note("%dx%d format %d operator %d alpha %g style %s", w, h, int(fmt), op, al, t.c_str());
  auto run = [&](BLImage& i, bool masked) { BLContext x(i); x.set_comp_op(BLCompOp(op)); x.set_global_alpha(al); BLVar v = st(W); BLResult r = masked ? x.fill_mask(BLPointI(0, 0), m, v) : x.fill_all(v); x.end(); return r; };
  BLResult ra = run(a, true), rb = run(b, false); Img na = grab(a), nb = grab(b), mk = grab(m); uint32_t keep = fmt == BL_FORMAT_XRGB32 ? 0xFFFFFFu : ~0u; bool z = false, f = false;
  REQUIRE(c, (ra == BL_SUCCESS) == (rb == BL_SUCCESS), "fill_mask returned %u, fill_all %u", unsigned(ra), unsigned(rb));
  for (size_t i = 0; i < na.size(); i++) { if (ra != BL_SUCCESS || mk[i] == 0) { z = true; REQUIRE(c, !((na[i] ^ was[i]) & keep), "pixel %zu,%zu under mask %u changed %08x -> %08x", i % size_t(w), i / size_t(w), mk[i], was[i], na[i]); } else if (mk[i] == 255) { f = true; REQUIRE(c, !((na[i] ^ nb[i]) & keep), "pixel %zu,%zu under a full mask is %08x, without mask %08x", i % size_t(w), i / size_t(w), na[i], nb[i]); } }
  c.label(ra != BL_SUCCESS, "refused operator"); c.nontrivial(ra == BL_SUCCESS && z && f && nb != was);
}

// masks of other formats: refused, or their alpha is the mask
static void formats(Case& c) {
  int w = c.i(1, 24), h = c.i(1, 10), mw = c.i(1, 24), mh = c.i(1, 10); BLFormat mf = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32}); BLImage a(w, h, BL_FORMAT_PRGB32), b(w, h, BL_FORMAT_PRGB32), m(mw, mh, mf), m8(mw, mh, BL_FORMAT_A8); uint32_t seed = c.u32(); sc::paint(a, seed, 0); sc::paint(b, seed, 0); sc::paint(m, c.u32(), c.i(0, 1));
  BLImageData s, d; m.get_data(&s); m8.make_mutable(&d); for (int y = 0; y < mh; y++) for (int x = 0; x < mw; x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = mf == BL_FORMAT_XRGB32 ? 255 : uint8_t(px32(s, x, y) >> 24);
  Img was = grab(a); BLPointI p; p.reset(c.i(-mw, w), c.i(-mh, h)); uint32_t v = c.u32(); int threads = c.chance(1, 8) ? 2 : 0; BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); bool dbl = c.coin(); c.note("mask format %d %dx%d at %d,%d colour %08x", int(mf), mw, mh, p.x, p.y, v);
  auto run = [&](BLImage& i, BLImage& k) { BLContext x(i, ci); BLResult r = dbl ? x.fill_mask(BLPoint(p.x, p.y), k, BLRgba32(v)) : x.fill_mask(p, k, BLRgba32(v)); x.end(); return r; };
  BLResult r = run(a, m); run(b, m8); Img na = grab(a), nb = grab(b);
  if (r != BL_SUCCESS) REQUIRE(c, na == was, "a refused mask changed the image"); else REQUIRE(c, na == nb, "a mask of format %d was accepted but is not applied by its alpha", int(mf));
  c.label(r != BL_SUCCESS, "refused"); c.nontrivial(nb != was);
}

int main(int argc, char** argv) {
  pbt::Suite s("C20", "the mask is visible, has partial values and the fill changes pixels", argc, argv);
  s.add("model", model, {.quick = 150000, .thorough = 2500000, .chunk = 250});
  s.add("any-op", any_op, {.quick = 100000, .thorough = 1500000, .chunk = 500});
  s.add("formats", formats, {.quick = 20000, .thorough = 300000, .chunk = 500});
  return s.run();
}
