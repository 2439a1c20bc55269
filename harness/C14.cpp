// C14: drawing stays inside the clip and inside the image; a clip does not change what is inside it.
#include "scene.h"
using pbt::Case; using namespace rv;

struct ClipModel {  // outer bound of the pixels that may change
  struct St { BLMatrix2D user, meta; double x0, y0, x1, y1; bool empty; };
  St cur; BLBox meta_box; std::vector<St> stack; int w, h;
};

static void guarded(Case& c) {
  sc::Opt o; o.w = c.i(1, 48); o.h = c.i(1, 48); o.extreme = c.coin(); o.text = c.chance(1, 4); sc::Gen g(c, o); g.resources();
  BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); int bpp = fmt == BL_FORMAT_A8 ? 1 : 4, pad = c.chance(1, 2) ? 0 : c.i(1, 5) * bpp; intptr_t stride = o.w * bpp + pad; int threads = c.chance(1, 24) ? c.i(1, 2) : 0;
  c.note("%dx%d format %d stride %d threads %d", o.w, o.h, int(fmt), int(stride), threads);
  sc::World W; g.build(W);
  const size_t G = 64; size_t bytes = size_t(stride) * size_t(o.h); std::vector<uint8_t> buf(bytes + 2 * G, 0xA5), ref; sc::Rng rg(c.u32()); for (size_t i = 0; i < bytes; i++) { size_t x = i % size_t(stride); if (x < size_t(o.w * bpp)) buf[G + i] = bpp == 1 ? uint8_t(rg.next()) : uint8_t(x % 4 == 3 ? 255 : rg.next()); }
  ref = buf; bool heap = c.chance(1, 4); // exact heap block: out-of-bounds access is caught by the sanitizer
  uint8_t* px = heap ? (uint8_t*)malloc(bytes - size_t(pad)) : buf.data() + G; if (heap) memcpy(px, buf.data() + G, bytes - size_t(pad));
  bool flip = !heap && c.chance(1, 4); uint8_t* p0 = flip ? px + stride * (o.h - 1) : px; intptr_t st = flip ? -stride : stride;
  BLImage img; REQUIRE(c, img.create_from_data(o.w, o.h, fmt, p0, st) == BL_SUCCESS, "create_from_data");
  int n = c.i(1, 12), changes = 0, clipped = 0; std::vector<uint8_t> allowed(size_t(o.w * o.h), 0);
  {
    BLContextCreateInfo ci{}; ci.thread_count = uint32_t(threads); BLContext ctx; REQUIRE(c, ctx.begin(img, ci) == BL_SUCCESS, "begin");
    // model of the clip in pixels
    struct Box { double x0, y0, x1, y1; }; Box full{0, 0, double(o.w), double(o.h)}, cur = full; std::vector<Box> st2;
    for (int i = 0; i < n; i++) {
      bool dr = c.chance(3, 5); sc::Step s = dr ? g.draw() : g.state(); c.note("%s", s.text.c_str());
      if (!dr) {
        BLMatrix2D fm = ctx.final_transform(); BLResult r = s.run(ctx, W); const char* t = s.text.c_str(); double a, b, e, f;
        if (sscanf(t, "clip_to_rect_i %lf %lf %lf %lf", &a, &b, &e, &f) == 4 || sscanf(t, "clip_to_rect_d %lf %lf %lf %lf", &a, &b, &e, &f) == 4) {
          double mx0 = INFINITY, my0 = INFINITY, mx1 = -INFINITY, my1 = -INFINITY; for (int k = 0; k < 4; k++) { P q = xf(fm, P{(k & 1) ? a + e : a, (k & 2) ? b + f : b}); if (std::isnan(q.x)) { mx0 = -INFINITY; mx1 = INFINITY; } if (std::isnan(q.y)) { my0 = -INFINITY; my1 = INFINITY; } mx0 = std::min(mx0, q.x); mx1 = std::max(mx1, q.x); my0 = std::min(my0, q.y); my1 = std::max(my1, q.y); }
          if (!std::isnan(a + b + e + f) && (e < 0 || f < 0)) { /* an inverted rectangle: nothing demanded beyond the previous clip */ }
          else cur = {std::max(cur.x0, mx0), std::max(cur.y0, my0), std::min(cur.x1, mx1), std::min(cur.y1, my1)};
          clipped++;
        }
        else if (s.text == "restore_clipping") cur = st2.empty() ? full : st2.back();
        else if (s.text == "save" && r == BL_SUCCESS) st2.push_back(cur);
        else if (s.text == "restore" && r == BL_SUCCESS) { REQUIRE(c, !st2.empty(), "restore succeeded without a saved state"); cur = st2.back(); st2.pop_back(); }
        continue;
      }
      s.run(ctx, W);
      for (int y = 0; y < o.h; y++) for (int x = 0; x < o.w; x++) if (x + 1 > cur.x0 - 1.0 / 128 && x < cur.x1 + 1.0 / 128 && y + 1 > cur.y0 - 1.0 / 128 && y < cur.y1 + 1.0 / 128) allowed[size_t(y * o.w + x)] = 1;
      if (threads) continue;
      const uint8_t* b = heap ? px : buf.data() + G;
      for (int y = 0; y < o.h; y++) { int ry = flip ? o.h - 1 - y : y; const uint8_t *pr = b + stride * ry, *rf = ref.data() + G + stride * ry; for (int x = 0; x < o.w; x++) { bool ch = memcmp(pr + x * bpp, rf + x * bpp, size_t(bpp)) != 0; changes += ch; REQUIRE(c, !ch || allowed[size_t(y * o.w + x)], "'%s' changed pixel (%d,%d) outside the clip %g,%g..%g,%g", s.text.c_str(), x, y, cur.x0, cur.y0, cur.x1, cur.y1); } }
      memcpy(ref.data() + G, b, bytes - (heap ? size_t(pad) : 0)); std::fill(allowed.begin(), allowed.end(), uint8_t(0));
      if (!heap) { for (size_t k = 0; k < G; k++) REQUIRE(c, buf[k] == 0xA5 && buf[G + bytes + k] == 0xA5, "'%s' wrote outside of the pixel buffer", s.text.c_str()); for (int y = 0; y < o.h; y++) for (int k = 0; k < pad; k++) REQUIRE(c, buf[G + size_t(y) * size_t(stride) + size_t(o.w * bpp + k)] == 0xA5, "'%s' wrote into the padding of row %d", s.text.c_str(), y); }
    }
    ctx.end();
  }
  const uint8_t* b = heap ? px : buf.data() + G;
  for (int y = 0; y < o.h; y++) { int ry = flip ? o.h - 1 - y : y; const uint8_t *pr = b + stride * ry, *rf = ref.data() + G + stride * ry; for (int x = 0; x < o.w; x++) { bool ch = memcmp(pr + x * bpp, rf + x * bpp, size_t(bpp)) != 0; changes += ch; REQUIRE(c, !ch || allowed[size_t(y * o.w + x)], "pixel (%d,%d), which is outside of all clips used, changed", x, y); } }
  if (!heap) { for (size_t k = 0; k < G; k++) REQUIRE(c, buf[k] == 0xA5 && buf[G + bytes + k] == 0xA5, "wrote outside of the pixel buffer"); for (int y = 0; y < o.h; y++) for (int k = 0; k < pad; k++) REQUIRE(c, buf[G + size_t(y) * size_t(stride) + size_t(o.w * bpp + k)] == 0xA5, "wrote into the padding of row %d", y); }
  img.reset(); if (heap) free(px);
  c.label(clipped > 0, "clipped"); c.label(o.extreme, "extreme coordinates"); c.label(flip, "negative stride"); c.label(heap, "exact heap block"); c.label(threads > 0, "asynchronous"); c.nontrivial(changes > 0);
}

// One draw with and without an integer clip.
static void same_inside(Case& c) {
  sc::Opt o; o.w = c.i(4, 48); o.h = c.i(4, 48); o.text = c.chance(1, 4); o.clip = false; o.saves = false; sc::Gen g(c, o); g.resources();
  BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8});
  std::vector<sc::Step> pre; int np = c.i(0, 4); for (int i = 0; i < np; i++) { pre.push_back(g.state()); c.note("%s", pre.back().text.c_str()); } sc::Step d = g.draw(); c.note("%s", d.text.c_str());
  int x0 = c.i(0, o.w - 1), y0 = c.i(0, o.h - 1), x1 = c.i(x0 + 1, o.w), y1 = c.i(y0 + 1, o.h); uint32_t seed = c.u32(); c.note("%dx%d format %d, clip %d,%d..%d,%d", o.w, o.h, int(fmt), x0, y0, x1, y1);
  auto render = [&](bool clip) { BLImage im(o.w, o.h, fmt); sc::paint(im, seed, 0); sc::World W; g.build(W); BLContext ctx(im); for (auto& s : pre) s.run(ctx, W); if (clip) { BLMatrix2D m = ctx.user_transform(), mm = ctx.meta_transform(); (void)m; if (mm != BLMatrix2D::make_identity()) { ctx.end(); return std::make_pair(BLImage(), BLResult(1)); } ctx.reset_transform(); BLRectI r; r.reset(x0, y0, x1 - x0, y1 - y0); ctx.clip_to_rect(r); ctx.set_transform(m); } BLResult r = d.run(ctx, W); ctx.end(); return std::make_pair(im, r); };
  auto b = render(true); if (b.first.is_empty()) { c.discard(); return; } auto a = render(false); if (a.second != BL_SUCCESS || b.second != BL_SUCCESS) { c.label("refused"); }
  BLImage base(o.w, o.h, fmt); sc::paint(base, seed, 0); BLImageData da, db, dz; a.first.get_data(&da); b.first.get_data(&db); base.get_data(&dz); int inside = 0; bool exact = d.text.find("fill_all") == 0 || d.text.find("clear_all") == 0;
  for (int y = 0; y < o.h; y++) for (int x = 0; x < o.w; x++) {
    uint32_t va = fmt == BL_FORMAT_A8 ? px8(da, x, y) : px32(da, x, y), vb = fmt == BL_FORMAT_A8 ? px8(db, x, y) : px32(db, x, y), vz = fmt == BL_FORMAT_A8 ? px8(dz, x, y) : px32(dz, x, y); bool in = x >= x0 && x < x1 && y >= y0 && y < y1;
    if (!in) { REQUIRE(c, vb == vz, "pixel (%d,%d) outside the clip changed from %08x to %08x", x, y, vz, vb); continue; }
    if (vb != vz) inside++;
    if (va == vb) continue; int worst = 0; for (int k = 0; k < 32; k += 8) worst = std::max(worst, std::abs(int((va >> k) & 255) - int((vb >> k) & 255)));
    REQUIRE(c, worst <= (exact ? 0 : 4), "pixel (%d,%d) inside the clip is %08x with and %08x without the clip (was %08x)", x, y, vb, va, vz);
  }
  c.label(inside > 0 && inside < (x1 - x0) * (y1 - y0), "partly drawn"); c.nontrivial(inside > 0);
}
int main(int argc, char** argv) {
  pbt::Suite s("C14", "scenes of random state changes, clips, saves/restores and drawing calls on images in caller memory with guard bytes, padding or exact heap blocks; and single draws with and without an integer clip; non-trivial = drawing changed pixels", argc, argv);
  s.add("guarded", guarded, {.quick = 300000, .thorough = 6000000, .chunk = 200});
  s.add("same-inside", same_inside, {.quick = 300000, .thorough = 6000000, .chunk = 200});
  s.assume("clip edges may reach one 1/128 of a pixel beyond the exact rectangle (fixed-point coordinates)");
  return s.run();
}
