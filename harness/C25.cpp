// C25: image decoders survive arbitrary and truncated input.
// LINK: -lz -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "codecgen.h"
#include "jpeggen.h"
#include "alloc_track.h"
using namespace gen;

static const char* kNames[] = {"PNG", "JPEG", "QOI", "BMP"};

static Bytes valid(Case& c, int kind) {
  switch (kind) {
    case 0: return png(c, c.chance(1, 5) ? 60 : 16).data;
    case 1: return jpeg(c, c.chance(1, 5) ? 60 : 24).data;
    case 2: return qoi(c, 20).data;
    default: return bmp(c, 20).data;
  }
}

static void mutate(Case& c, Bytes& d, int kind) {
  int ops = 1 + int(c.size(6)); Rng r(c.u64());
  static const uint32_t nice[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 1023, 4095, 32767, 32768, 65534, 65535, 65536, 0x00FFFFFF, 0x7FFFFFFF, 0x80000000u, 0x80000001u, 0xFFFFFFFEu, 0xFFFFFFFFu};
  std::string text;
  for (int k = 0; k < ops; k++) {
    size_t n = d.size(); if (!n) { d.push_back(c.byte()); continue; }
    size_t at = c.chance(1, 2) ? c.below(std::min<size_t>(n, 70)) : c.below(n); int op = int(c.below(12)); text += pbt::fmt(" %d@%zu", op, at);
    switch (op) {
      case 0: d[at] ^= uint8_t(1u << c.below(8)); break;
      case 1: d[at] = c.byte(); break;
      case 2: d[at] = c.pickl<uint8_t>({0, 1, 2, 3, 8, 0x7F, 0x80, 0xFE, 0xFF}); break;
      case 3: { uint32_t v = c.pick(nice); if (at + 2 <= n) { bool be = c.coin(); d[at + (be ? 1 : 0)] = uint8_t(v); d[at + (be ? 0 : 1)] = uint8_t(v >> 8); } break; }
      case 4: { uint32_t v = c.pick(nice) + uint32_t(c.below(3)) - 1; if (at + 4 <= n) { bool be = c.coin(); for (size_t i = 0; i < 4; i++) d[at + (be ? 3 - i : i)] = uint8_t(v >> (8 * i)); } break; }
      case 5: { size_t m = 1 + c.size(std::min<size_t>(n - at, 200)); m = std::min(m, n - at); d.erase(d.begin() + long(at), d.begin() + long(at + m)); break; }
      case 6: { size_t m = std::min<size_t>(n - at, 1 + c.size(100)); Bytes x(d.begin() + long(at), d.begin() + long(at + m)); size_t to = c.below(n); d.insert(d.begin() + long(to), x.begin(), x.end()); break; }
      case 7: { size_t m = 1 + c.size(20); Bytes x(m); for (auto& b : x) b = uint8_t(r.next()); d.insert(d.begin() + long(at), x.begin(), x.end()); break; }
      case 8: d.resize(c.chance(1, 2) ? at : n - 1 - c.below(std::min<size_t>(n, 24))); break;
      case 9: { size_t m = std::min<size_t>(n - at, 1 + c.size(64)); for (size_t i = 0; i < m; i++) d[at + i] = uint8_t(r.next()); break; }
      case 10: { size_t m = std::min<size_t>(n - at, 1 + c.size(64)); uint8_t v = c.pickl<uint8_t>({0, 0xFF}); for (size_t i = 0; i < m; i++) d[at + i] = v; break; }
      case 11: { // A structured edit.
        if (kind == 1) { std::vector<size_t> m; for (size_t i = 2; i + 1 < n; i++) if (d[i] == 0xFF && d[i + 1] != 0 && d[i + 1] != 0xFF) m.push_back(i); if (m.empty()) break; size_t i = m[c.below(m.size())]; switch (c.below(4)) { case 0: d[i + 1] = c.pickl<uint8_t>({0xC0, 0xC1, 0xC2, 0xC4, 0xD0, 0xD7, 0xD9, 0xDA, 0xDB, 0xDD, 0xDC, 0xE0, 0xE1, 0xFE}); break; case 1: { size_t o = i + 4 + c.below(14); if (o < n) d[o] = c.byte(); break; } case 2: { size_t e = m[c.below(m.size())]; if (e > i) d.erase(d.begin() + long(i), d.begin() + long(e)); break; } default: { size_t e = m[c.below(m.size())]; if (e > i && e - i < 2000) { Bytes x(d.begin() + long(i), d.begin() + long(e)); d.insert(d.begin() + long(m[c.below(m.size())]), x.begin(), x.end()); } break; } } }
        else if (kind == 0) { std::vector<size_t> m; for (size_t i = 8; i + 12 <= n;) { m.push_back(i); uint32_t l = im::be32(&d[i]); if (l > n - i - 12) break; i += 12 + l; } if (m.empty()) break; size_t i = m[c.below(m.size())]; size_t l = std::min<size_t>(im::be32(&d[i]), n - i - 12); switch (c.below(5)) { case 0: { const char* t = c.pickl<const char*>({"IHDR", "IDAT", "PLTE", "tRNS", "fcTL", "fdAT", "acTL", "IEND", "CgBI", "iCCP", "zzZz"}); memcpy(&d[i + 4], t, 4); break; } case 1: if (l) d[i + 8 + c.below(l)] = c.byte(); break; case 2: d.erase(d.begin() + long(i), d.begin() + long(i + 12 + l)); break; case 3: { Bytes x(d.begin() + long(i), d.begin() + long(i + 12 + l)); d.insert(d.begin() + long(m[c.below(m.size())]), x.begin(), x.end()); break; } default: { size_t q = 8 + 8; if (n > q + 13) { d[q + 8] = c.pickl<uint8_t>({1, 2, 4, 8, 16, 3}); d[q + 9] = c.pickl<uint8_t>({0, 2, 3, 4, 6, 1}); d[q + 12] = uint8_t(c.below(2)); } break; } } }
        else { size_t lo = kind == 2 ? 4 : 14, o = lo + c.below(std::min<size_t>(n > lo ? n - lo : 1, 40)); if (o < n) d[o] = c.byte(); }
        break; }
    }
  }
  c.note("mutations:%s", text.c_str());
}

struct Outcome { BLResult info_r = 0; int w = 0, h = 0; uint64_t frames = 0; std::vector<BLResult> frame_r; std::vector<uint64_t> hash; };
static uint64_t hash_image(const BLImageData& d) { uint64_t h = 1469598103934665603ull; for (int y = 0; y < d.size.h; y++) { for (int x = 0; x < d.size.w; x++) { uint32_t v = im::pixel(d, x, y); h = (h ^ v) * 1099511628211ull; } } return h; }

static void check_image(Case& c, const BLImage& img, const BLImageInfo* info, int kind) {
  BLImageData d{}; REQUIRE(c, img.get_data(&d) == BL_SUCCESS, "get_data failed"); REQUIRE(c, d.size.w > 0 && d.size.h > 0 && d.size.w <= BL_RUNTIME_MAX_IMAGE_SIZE && d.size.h <= BL_RUNTIME_MAX_IMAGE_SIZE, "decoded image is %dx%d", d.size.w, d.size.h);
  REQUIRE(c, d.format == BL_FORMAT_PRGB32 || d.format == BL_FORMAT_XRGB32 || d.format == BL_FORMAT_A8, "decoded image has format %u", d.format); REQUIRE(c, std::abs(d.stride) >= intptr_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4), "stride %lld", (long long)d.stride);
  if (info) REQUIRE(c, info->size.w == d.size.w && info->size.h == d.size.h, "read_info says %dx%d, the image is %dx%d", info->size.w, info->size.h, d.size.w, d.size.h);
  if (d.format == BL_FORMAT_PRGB32 && kind != 3) for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w; x++) { uint32_t v = im::pixel(d, x, y); unsigned a = v >> 24; REQUIRE(c, (v & 255) <= a && (v >> 8 & 255) <= a && (v >> 16 & 255) <= a, "pixel (%d,%d) is %08X, which isn't premultiplied", x, y, v); }
}

static Outcome run_once(Case& c, BLImageDecoder& dec, BLArrayView<uint8_t> v, bool with_info, int max_frames, int kind) {
  Outcome o; BLImageInfo info{}; if (with_info) { o.info_r = dec.read_info(info, v); if (o.info_r == BL_SUCCESS) { o.w = info.size.w; o.h = info.size.h; o.frames = info.frame_count; REQUIRE(c, info.size.w > 0 && info.size.h > 0, "read_info succeeded with %dx%d", info.size.w, info.size.h); } }
  BLImage img; for (int k = 0; k < max_frames; k++) { BLResult r = dec.read_frame(img, v); o.frame_r.push_back(r); if (r != BL_SUCCESS) { BLImage x; if (k < 2) { BLResult r2 = dec.read_frame(x, v); REQUIRE(c, r2 != BL_SUCCESS || r == BL_ERROR_INVALID_STATE, "read_frame succeeded after it failed with %X", unsigned(r)); } break; } REQUIRE(c, !with_info || o.info_r == BL_SUCCESS, "read_info failed (%X), read_frame succeeded", unsigned(o.info_r)); check_image(c, img, with_info ? &info : nullptr, kind); BLImageData d; img.get_data(&d); o.hash.push_back(hash_image(d)); if (int64_t(d.size.w) * d.size.h > 4000000) break; }
  return o;
}

static void fuzz(Case& c, int kind) {
  Bytes good = valid(c, kind), d = good; int mode = int(c.weighted({8, 2, 1, 1}));
  if (mode == 0) mutate(c, d, kind); else if (mode == 1) { d.resize(c.below(d.size() + 1)); } else if (mode == 2) { Bytes o = valid(c, kind); size_t a = c.below(d.size() + 1), b = c.below(o.size() + 1); d.resize(a); d.insert(d.end(), o.begin() + long(b), o.end()); } else { size_t keep = c.below(std::min<size_t>(d.size(), 40)); Rng r(c.u64()); d.resize(keep + c.size(300)); for (size_t i = keep; i < d.size(); i++) d[i] = uint8_t(r.next()); }
  size_t n = d.size(); std::unique_ptr<uint8_t[]> buf(new uint8_t[n]); memcpy(buf.get(), d.data(), n); BLArrayView<uint8_t> v{buf.get(), n}; if (const char* dump = getenv("C25_DUMP")) { FILE* f = fopen(dump, "wb"); fwrite(buf.get(), 1, n, f); fclose(f); }
  c.note("%s mode %d, %zu bytes", kNames[kind], mode, n); BLImageCodec codec; bool by_data = c.chance(1, 3); if (by_data) { BLResult r = codec.find_by_data(buf.get(), n); if (r != BL_SUCCESS) { BLImage x; REQUIRE(c, x.read_from_data(buf.get(), n) != BL_SUCCESS, "codec wasn't found, but read_from_data succeeded"); by_data = false; } } if (!by_data) codec.find_by_name(kNames[kind]);
  BLImageDecoder a, b; REQUIRE(c, codec.create_decoder(&a) == BL_SUCCESS, "create_decoder failed"); bool with_info = c.coin(); int frames = 1 + int(c.below(4)); at::fill = 0x11; Outcome o = run_once(c, a, v, with_info, frames, kind); at::fill = 0xE5;
  // The result depends only on the input.
  codec.create_decoder(&b); if (c.coin()) { BLImage junk; BLArrayView<uint8_t> g{good.data(), good.size()}; (void)b.read_frame(junk, g); REQUIRE(c, b.restart() == BL_SUCCESS, "restart failed"); }
  Outcome p = run_once(c, b, v, with_info, frames, kind); at::fill = -1;
  auto same = [](const std::vector<BLResult>& x, const std::vector<BLResult>& y) { if (x.size() != y.size()) return false; for (size_t k = 0; k < x.size(); k++) if ((x[k] == BL_SUCCESS) != (y[k] == BL_SUCCESS)) return false; return true; }; // (error codes may differ)
  REQUIRE(c, o.info_r == p.info_r && same(o.frame_r, p.frame_r), "results differ between two decoders: %X/%X, %X/%X", unsigned(o.info_r), unsigned(o.frame_r[0]), unsigned(p.info_r), unsigned(p.frame_r[0])); for (size_t k = 0; k < o.hash.size(); k++) REQUIRE(c, o.hash[k] == p.hash[k], "pixels of frame %zu differ between two decoders", k);
  // The decoder stays usable.
  if (c.coin()) { REQUIRE(c, a.restart() == BL_SUCCESS, "restart failed"); BLImage x, y; BLArrayView<uint8_t> g{good.data(), good.size()}; BLImageCodec own; own.find_by_data(good.data(), good.size()); BLResult r1, r2; if (own.equals(codec)) r1 = a.read_frame(x, g), r2 = y.read_from_data(good.data(), good.size()); else r1 = r2 = 0; REQUIRE(c, r1 == BL_SUCCESS && r2 == BL_SUCCESS && x.equals(y), "a restarted decoder cannot decode a valid file (%X, %X)", unsigned(r1), unsigned(r2)); }
  // The input may arrive in pieces, or shrink.
  if (c.chance(1, 3)) { BLImageDecoder e; codec.create_decoder(&e); BLImage x; BLImageInfo info{}; for (int k = 0; k < 4; k++) { size_t m = c.chance(1, 3) ? n : c.below(n + 1); std::unique_ptr<uint8_t[]> part(new uint8_t[m]); if (m) memcpy(part.get(), buf.get(), m); BLArrayView<uint8_t> q{part.get(), m}; if (c.coin()) (void)e.read_info(info, q); else { BLResult r = e.read_frame(x, q); c.note("piece of %zu bytes: %X", m, unsigned(r)); if (r == BL_SUCCESS) check_image(c, x, nullptr, kind); } } }
  if (c.chance(1, 4)) { BLImage x; if (x.read_from_data(buf.get(), n) == BL_SUCCESS) check_image(c, x, nullptr, 3); }
  c.label(!o.hash.empty(), "decoded"); c.label(!o.frame_r.empty() && o.frame_r[0] == BL_SUCCESS && o.frame_r.back() != BL_SUCCESS, "later frame failed"); c.nontrivial(n > 16);
}

// Streams of random bytes behind any of the codecs, and codec detection.
static void any_bytes(Case& c) {
  Rng r(c.u64()); size_t n = c.size(400); Bytes d(n); for (auto& x : d) x = uint8_t(c.chance(0, 2) ? 0 : r.next()); static const char* sig[] = {"\x89PNG\r\n\x1A\n", "\xFF\xD8\xFF", "qoif", "BM", ""}; const char* s = sig[c.below(5)]; for (size_t i = 0; s[i] && i < n; i++) d[i] = uint8_t(s[i]);
  std::unique_ptr<uint8_t[]> buf(new uint8_t[n]); if (n) memcpy(buf.get(), d.data(), n); BLImageCodec codec; BLResult fr = codec.find_by_data(buf.get(), n); BLImage x; BLResult rr = x.read_from_data(buf.get(), n); REQUIRE(c, fr == BL_SUCCESS || rr != BL_SUCCESS, "found %X, read %X", unsigned(fr), unsigned(rr)); if (rr == BL_SUCCESS) check_image(c, x, nullptr, 3);
  for (int k = 0; k < 4; k++) { BLImageCodec e; e.find_by_name(kNames[k]); uint32_t sc = e.inspect_data(buf.get(), n); REQUIRE(c, sc <= 100, "inspect_data returned %u", sc); BLImageDecoder dec; e.create_decoder(&dec); BLImageInfo info{}; BLArrayView<uint8_t> v{buf.get(), n}; (void)dec.read_info(info, v); if (dec.read_frame(x, v) == BL_SUCCESS) check_image(c, x, &info, 3); }
  c.nontrivial(n > 8);
}

int main(int argc, char** argv) {
  pbt::Suite s("C25", "inputs longer than 16 bytes (8 for random bytes)", argc, argv);
  s.add("png", [](Case& c) { fuzz(c, 0); }, {.quick = 14000, .thorough = 1500000, .chunk = 400, .guided = true});
  s.add("jpeg", [](Case& c) { fuzz(c, 1); }, {.quick = 14000, .thorough = 1500000, .chunk = 400, .guided = true});
  s.add("qoi", [](Case& c) { fuzz(c, 2); }, {.quick = 6000, .thorough = 500000, .chunk = 400, .guided = true});
  s.add("bmp", [](Case& c) { fuzz(c, 3); }, {.quick = 12000, .thorough = 800000, .chunk = 400, .guided = true});
  s.add("bytes", any_bytes, {.quick = 12000, .thorough = 500000, .chunk = 400, .guided = true});
  return s.run();
}
