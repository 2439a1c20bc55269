// C15: multi-threaded rendering gives the same image as synchronous rendering.
#include "scene.h"
using pbt::Case; using namespace rv;

static void mt(Case& c) {
  sc::Opt o; bool big = c.chance(1, 6); o.w = big ? c.i(64, 300) : c.i(1, 48); o.h = big ? c.i(64, 300) : c.i(1, 64); o.extreme = c.chance(1, 6); o.text = c.chance(1, 2); sc::Gen g(c, o); g.resources();
  BLFormat fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); uint32_t seed = c.u32();
  int n = c.weighted({4, 2, 1}); n = n == 0 ? c.i(1, 12) : n == 1 ? c.i(10, 60) : c.i(60, 300); std::vector<sc::Step> steps; std::vector<int> flush; int mut = 0, draws = 0, syncs = 0;
  // a run of identical-kind steps makes batches overflow: repeat factor
  for (int i = 0; i < n; i++) { unsigned k = c.weighted({6, 3, 1}); sc::Step s = k == 0 ? g.draw() : k == 1 ? g.state() : g.mutate(); mut += k == 2; draws += k == 0; c.note("%s", s.text.c_str()); steps.push_back(s); int f = c.chance(1, 12) ? c.i(1, 2) : 0; syncs += f == 2; if (f) c.note("flush %d", f); flush.push_back(f); }
  int rep = c.chance(1, 10) ? c.i(10, 60) : 1;
  bool multi = false; struct Run { BLContextCreateInfo ci; bool rel, end; }; std::vector<Run> runs;
  for (int k = 0; k < 2; k++) { Run r{}; r.ci.thread_count = uint32_t(k == 0 ? c.i(1, 3) : c.pickl<int>({1, 2, 4, 8, 16})); r.ci.command_queue_limit = c.coin() ? 0 : uint32_t(c.pickl<int>({1, 2, 7, 64, 1000})); if (c.chance(1, 8)) r.ci.flags |= BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL; r.rel = c.coin(); r.end = c.coin(); runs.push_back(r); c.note("run %d: threads %u queue limit %u flags %u, repeated %d times", k, r.ci.thread_count, r.ci.command_queue_limit, r.ci.flags, rep); }
  c.note("image %dx%d format %d", o.w, o.h, int(fmt));
  struct T { sc::Step s; int flush; }; std::vector<T> ts; for (size_t i = 0; i < steps.size(); i++) ts.push_back({steps[i], flush[i]});
  auto differs = [&](const std::vector<T>& v, int rp) -> std::string {
    BLImage ref(o.w, o.h, fmt); sc::paint(ref, seed, 0);
    std::vector<BLImage> refmid; { sc::World W; g.build(W); BLContext x(ref); for (int r = 0; r < rp; r++) for (auto& t : v) { t.s.run(x, W); if (t.flush == 2 && r == 0) { BLImage k; BLImageData d; ref.get_data(&d); k.create(o.w, o.h, fmt); BLImageData e; k.make_mutable(&e); for (int y = 0; y < o.h; y++) memcpy((uint8_t*)e.pixel_data + y * e.stride, (const uint8_t*)d.pixel_data + y * d.stride, size_t(o.w) * (fmt == BL_FORMAT_A8 ? 1 : 4)); refmid.push_back(k); } } x.end(); }
    for (auto& rn : runs) {
      BLImage im(o.w, o.h, fmt); sc::paint(im, seed, 0); BLContext x; BLResult r = x.begin(im, rn.ci); if (r != BL_SUCCESS) return sc::Gen::S("begin with %u threads failed: %u", rn.ci.thread_count, r); multi |= x.thread_count() > 0;
      auto same = [&](const BLImage& a, const BLImage& b, const char* what) -> std::string { BLImageData da, db; a.get_data(&da); b.get_data(&db); for (int y = 0; y < o.h; y++) for (int xx = 0; xx < o.w; xx++) { uint32_t p = fmt == BL_FORMAT_A8 ? px8(da, xx, y) : px32(da, xx, y), q = fmt == BL_FORMAT_A8 ? px8(db, xx, y) : px32(db, xx, y); if (fmt == BL_FORMAT_XRGB32) { p |= 0xFF000000u; q |= 0xFF000000u; } if (p != q) return sc::Gen::S("%s: pixel (%d,%d) is %08x with %u threads and %08x synchronously", what, xx, y, p, rn.ci.thread_count, q); } return ""; };
      sc::World W; g.build(W); size_t mid = 0; std::string m;
      for (int rr = 0; rr < rp; rr++) for (auto& t : v) { t.s.run(x, W); if (t.flush == 1) x.flush(BL_CONTEXT_FLUSH_NO_FLAGS); if (t.flush == 2) { if (x.flush(BL_CONTEXT_FLUSH_SYNC) != BL_SUCCESS) return "flush failed"; if (rr == 0 && (m = same(im, refmid[mid++], "after a synchronous flush")).size()) return m; } }
      if (rn.rel) W = sc::World(); // resources released before the end
      if (rn.end) x.end(); else x.reset();
      if ((m = same(im, ref, "after end")).size()) return m;
    }
    return "";
  };
  std::string m = differs(ts, rep);
  if (m.size()) { // minimise the history
    int rp = rep; if (rp > 1 && differs(ts, 1).size()) rp = 1;
    for (size_t len = ts.size(); len >= 1; len /= 2) for (size_t i = 0; i + len <= ts.size();) { std::vector<T> u(ts.begin(), ts.begin() + long(i)); u.insert(u.end(), ts.begin() + long(i + len), ts.end()); if (differs(u, rp).size()) ts = u; else i += len; }
    m = differs(ts, rp); c.note("minimal history (%d times):", rp); for (auto& t : ts) c.note("  %s%s", t.s.text.c_str(), t.flush ? t.flush == 2 ? " + flush sync" : " + flush" : "");
    c.fail("%s", m.c_str());
  }
  c.label(multi, "worker threads used"); c.label(mut > 0, "resources modified after use"); c.label(syncs > 0, "compared at a flush"); c.label(rep > 1, "many batches"); c.label(big, "large image"); c.nontrivial(multi && draws > 0);
}
int main(int argc, char** argv) {
  pbt::Suite s("C15", "random scenes (state changes, drawing, resource modifications, flushes) rendered synchronously and with 1..16 workers and several command-queue limits; non-trivial = rendered with workers and drew", argc, argv);
  s.add("mt", mt, {.quick = 50000, .thorough = 400000, .chunk = 100, .flaky = true, .cpu_limit = 60});
  s.assume("schedules are those the operating system produces; thread interleavings are sampled, not enumerated");
  return s.run();
}
