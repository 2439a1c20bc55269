// C24: conforming files decode to the pixels their specification defines.
// LINK: -lz
#include "codecgen.h"
#include "jpeggen.h"
using namespace gen;

static void compare(Case& c, const BLImage& img, const Pix& want, const File& f, int tol, const char* what) {
  BLImageData d; img.get_data(&d); REQUIRE(c, d.size.w == want.w && d.size.h == want.h, "%s: size is %dx%d", what, d.size.w, d.size.h); REQUIRE(c, d.format == BL_FORMAT_PRGB32 || d.format == BL_FORMAT_XRGB32, "%s: format %u", what, unsigned(d.format));
  for (int y = 0; y < want.h; y++) for (int x = 0; x < want.w; x++) { if (!f.skip.empty() && f.skip[size_t(y) * size_t(want.w) + size_t(x)]) continue; uint32_t g = im::pixel(d, x, y), v = want.at(x, y); if (d.format == BL_FORMAT_XRGB32) { g |= 0xFF000000u; if (v == 0 && f.frames.size() > 1) v = 0xFF000000u; /* a disposed area of an animation without alpha */ } bool ok = true; for (int s = 0; s < 32; s += 8) ok &= std::abs(int((g >> s) & 255) - int((v >> s) & 255)) <= tol; REQUIRE(c, ok, "%s: pixel (%d,%d) is %08X, the file defines %08X", what, x, y, g, v); }
}

static void decode(Case& c, const File& f, int tol = 0) {
  c.note("%s, %zu bytes", f.text.c_str(), f.data.size()); size_t n = f.data.size(); std::unique_ptr<uint8_t[]> copy(new uint8_t[n]); memcpy(copy.get(), f.data.data(), n); BLArrayView<uint8_t> view{copy.get(), n};
  BLImage img; BLResult r;
  if (c.coin()) { r = img.read_from_data(copy.get(), n); REQUIRE(c, r == BL_SUCCESS, "read_from_data failed: %X", unsigned(r)); compare(c, img, f.pix, f, tol, "image"); if (f.frames.size() == 1) return; }
  BLImageCodec codec; REQUIRE(c, codec.find_by_data(copy.get(), n) == BL_SUCCESS, "codec wasn't found"); BLImageDecoder dec; REQUIRE(c, codec.create_decoder(&dec) == BL_SUCCESS, "create_decoder failed"); BLImageInfo info{}; img.reset(); if (c.chance(1, 3)) img.create(3, 3, BL_FORMAT_A8);
  if (c.coin()) { r = dec.read_info(info, view); REQUIRE(c, r == BL_SUCCESS, "read_info failed: %X", unsigned(r)); REQUIRE(c, info.size.w == f.pix.w && info.size.h == f.pix.h && info.depth == f.depth && info.frame_count == f.frame_count && info.repeat_count == f.repeat && !strcmp(info.format, f.name) && !!(info.flags & BL_IMAGE_INFO_FLAG_PROGRESSIVE) == f.progressive, "info is %dx%d depth %d frames %llu repeat %u format %s flags %X", info.size.w, info.size.h, info.depth, (unsigned long long)info.frame_count, info.repeat_count, info.format, info.flags); }
  int loops = f.frames.size() > 1 && c.chance(1, 3) ? 2 : 1;
  for (int l = 0; l < loops; l++) for (size_t i = 0; i < f.frames.size(); i++) { BLImage keep; if (c.chance(1, 4)) keep = img; Pix kp; BLImageData kd; keep.get_data(&kd); for (int y = 0; y < kd.size.h; y++) for (int x = 0; x < kd.size.w; x++) kp.p.push_back(im::pixel(kd, x, y)); r = dec.read_frame(img, view); REQUIRE(c, r == BL_SUCCESS, "read_frame %zu (loop %d) failed: %X", i, l, unsigned(r)); compare(c, img, f.frames[i], f, i ? std::max(tol, 2) : tol, pbt::fmt("frame %zu", i).c_str()); keep.get_data(&kd); size_t k = 0; for (int y = 0; y < kd.size.h; y++) for (int x = 0; x < kd.size.w; x++) REQUIRE(c, kp.p[k++] == im::pixel(kd, x, y), "reading a frame changed a copy of the image"); }
  if (f.frames.size() == 1) { BLImage again; REQUIRE(c, dec.read_frame(again, view) == BL_ERROR_NO_MORE_DATA, "another frame was read"); }
}
static void png_case(Case& c) { File f = png(c, c.chance(1, 6) ? 150 : 40); decode(c, f); c.label(f.frames.size() > 1, "APNG"); c.label(f.progressive, "interlaced"); c.nontrivial(f.pix.w * f.pix.h > 3); }
static void qoi_case(Case& c) { File f = qoi(c, 60); decode(c, f); c.nontrivial(f.pix.w * f.pix.h > 3); }
static void bmp_case(Case& c) { File f = bmp(c, 50); decode(c, f, f.exact ? 0 : 1); c.nontrivial(f.pix.w * f.pix.h > 3); }


static void jpeg_case(Case& c) {
  Jpeg j = jpeg(c, c.chance(1, 8) ? 140 : 40); c.note("%s, %zu bytes", j.text.c_str(), j.data.size()); size_t n = j.data.size(); std::unique_ptr<uint8_t[]> copy(new uint8_t[n]); memcpy(copy.get(), j.data.data(), n);
  if (const char* dump = getenv("C24_DUMP")) { FILE* f = fopen(dump, "wb"); fwrite(copy.get(), 1, n, f); fclose(f); }
  BLImage img; if (c.coin()) REQUIRE(c, img.read_from_data(copy.get(), n) == BL_SUCCESS, "read_from_data failed: %X", unsigned(img.read_from_data(copy.get(), n)));
  else { BLImageCodec codec; REQUIRE(c, codec.find_by_data(copy.get(), n) == BL_SUCCESS, "codec wasn't found"); BLImageDecoder dec; codec.create_decoder(&dec); BLArrayView<uint8_t> view{copy.get(), n}; BLImageInfo info{}; if (c.coin()) { BLResult r = dec.read_info(info, view); REQUIRE(c, r == BL_SUCCESS && info.size.w == j.w && info.size.h == j.h && info.frame_count == 1 && !strcmp(info.format, "JPEG"), "read_info: %X, size %dx%d, depth %d, planes %d", unsigned(r), info.size.w, info.size.h, info.depth, info.plane_count); } BLResult r = dec.read_frame(img, view); REQUIRE(c, r == BL_SUCCESS, "read_frame failed: %X", unsigned(r)); }
  BLImageData d; img.get_data(&d); REQUIRE(c, d.size.w == j.w && d.size.h == j.h && d.format == BL_FORMAT_XRGB32, "image is %dx%d format %u", d.size.w, d.size.h, d.format);
  for (int y = 0; y < j.h; y++) for (int x = 0; x < j.w; x++) { uint32_t g = im::pixel(d, x, y); auto& q = j.rgb[size_t(y) * size_t(j.w) + size_t(x)]; bool ok = true; for (size_t s = 0; s < 3; s++) { double v = double(g >> (16 - 8 * s) & 255); ok &= v >= q[2 * s] - 1e-6 && v <= q[2 * s + 1] + 1e-6; } REQUIRE(c, ok, "pixel (%d,%d) is %06X, the file allows R %.1f..%.1f G %.1f..%.1f B %.1f..%.1f", x, y, g & 0xFFFFFF, q[0], q[1], q[2], q[3], q[4], q[5]); }
  c.label(j.mode == 2, "progressive"); c.label(j.gray, "gray"); c.nontrivial(j.w * j.h > 64);
}

int main(int argc, char** argv) {
  pbt::Suite s("C24", "files of at least 4 pixels", argc, argv);
  s.add("png", png_case, {.quick = 20000, .thorough = 1500000});
  s.add("qoi", qoi_case, {.quick = 10000, .thorough = 400000});
  s.add("bmp", bmp_case, {.quick = 14000, .thorough = 800000});
  s.add("jpeg", jpeg_case, {.quick = 12000, .thorough = 800000});
  return s.run();
}
