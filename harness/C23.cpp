// C23: lossless codecs return what was written, and the written files are valid for independent readers.
// LINK: -lz
#include "img.h"
using namespace im;

static void roundtrip(Case& c) {
  const char* names[] = {"PNG", "QOI", "BMP"}; int k = int(c.weighted({4, 2, 2})); BLImageCodec codec; REQUIRE(c, codec.find_by_name(names[k]) == BL_SUCCESS, "codec %s wasn't found", names[k]);
  BLImageEncoder enc; REQUIRE(c, codec.create_encoder(&enc) == BL_SUCCESS, "create_encoder failed"); BLImageDecoder dec; REQUIRE(c, codec.create_decoder(&dec) == BL_SUCCESS, "create_decoder failed");
  BLArray<uint8_t> out; int frames = c.chance(1, 5) ? 2 : 1; bool big = false;
  for (int frame = 0; frame < frames; frame++) {
    BLFormat f = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); Owned o = image(c, c.chance(1, 8) ? 220 : 48, f); BLImageData s; o.img.get_data(&s); int w = s.size.w, h = s.size.h; big |= w * h > 20000; c.note("%s %s", names[k], o.text.c_str());
    std::vector<uint32_t> before; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) before.push_back(pixel(s, x, y));
    uint64_t level = 6; if (k == 0) { if (frame == 0 || c.coin()) { if (c.chance(7, 8)) { level = c.below(14); if (level == 13) level = 13 + c.below(100); REQUIRE(c, enc.set_property("compression", BLVar(level)) == BL_SUCCESS, "set_property failed"); } else REQUIRE(c, enc.restart() == BL_SUCCESS, "restart failed"); } BLVar v; uint64_t got = 99; REQUIRE(c, enc.get_property("compression", v) == BL_SUCCESS && v.to_uint64(&got) == BL_SUCCESS && got <= 12, "compression property is %llu", (unsigned long long)got); c.note("level %llu", (unsigned long long)got); c.label(got == 0, "level 0"); c.label(got >= 10, "level 10-12"); }
    bool simple = k != 0 && c.chance(1, 3);
    if (simple) REQUIRE(c, o.img.write_to_data(out, codec) == BL_SUCCESS, "write_to_data failed"); else { if (c.chance(1, 6)) { out.clear(); for (int i = 0; i < 20; i++) out.append(uint8_t(i)); } BLResult r = enc.write_frame(out, o.img); REQUIRE(c, r == BL_SUCCESS, "write_frame failed: %u", unsigned(r)); }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) REQUIRE(c, pixel(s, x, y) == before[size_t(y) * size_t(w) + size_t(x)], "writing changed the image");
    const uint8_t* d = out.data(); size_t n = out.size(); c.note("%zu bytes", n);
    // Independent reader.
    if (k == 0) {
      PngFile p; std::string e = read_png(d, n, p); REQUIRE(c, e.empty(), "PNG isn't valid: %s", e.c_str()); REQUIRE(c, int(p.w) == w && int(p.h) == h && p.type == (f == BL_FORMAT_A8 ? 0 : f == BL_FORMAT_XRGB32 ? 2 : 6), "header doesn't match: %ux%u type %d", p.w, p.h, p.type);
      size_t i = 0; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = pixel(s, x, y); const uint8_t* q = &p.raw[i]; if (f == BL_FORMAT_A8) { REQUIRE(c, q[0] == v, "sample (%d,%d) is %u instead of %u", x, y, q[0], v); i++; } else if (f == BL_FORMAT_XRGB32) { REQUIRE(c, (uint32_t(q[0]) << 16 | uint32_t(q[1]) << 8 | q[2]) == (v & 0xFFFFFF), "pixel (%d,%d)", x, y); i += 3; } else { REQUIRE(c, premul(q[0], q[1], q[2], q[3]) == v, "pixel (%d,%d) is %u %u %u %u, image has %08X", x, y, q[0], q[1], q[2], q[3], v); i += 4; } }
    }
    else if (k == 1) {
      uint32_t qw, qh; int ch; std::vector<uint32_t> px; std::string e = read_qoi(d, n, qw, qh, ch, px); REQUIRE(c, e.empty(), "QOI isn't valid: %s", e.c_str()); REQUIRE(c, int(qw) == w && int(qh) == h && ch == (f == BL_FORMAT_XRGB32 ? 3 : 4), "header doesn't match: %ux%u channels %d", qw, qh, ch);
      for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = pixel(s, x, y), q = px[size_t(y) * size_t(w) + size_t(x)]; uint32_t want = f == BL_FORMAT_A8 ? v * 0x01010101u : f == BL_FORMAT_XRGB32 ? v | 0xFF000000u : v; uint32_t got = premul((q >> 16) & 255, (q >> 8) & 255, q & 255, q >> 24); REQUIRE(c, got == want, "pixel (%d,%d) is %08X, image has %08X", x, y, q, v); }
    }
    else {
      REQUIRE(c, n >= 54 && d[0] == 'B' && d[1] == 'M' && le32(d + 2) == n, "bad BMP header or file size"); uint32_t off = le32(d + 10), hs = le32(d + 14); int bits = d[28]; REQUIRE(c, int(le32(d + 18)) == w && int(le32(d + 22)) == h && d[26] == 1 && bits == (f == BL_FORMAT_A8 ? 8 : f == BL_FORMAT_XRGB32 ? 24 : 32), "header doesn't match (%d bits)", bits);
      size_t stride = (size_t(w) * size_t(bits) / 8 + 3) / 4 * 4; REQUIRE(c, off >= 14 + hs + (bits == 8 ? 1024u : 0u) && off + stride * size_t(h) == n, "bad size of BMP");
      for (int y = 0; y < h; y++) { const uint8_t* row = d + off + stride * size_t(h - 1 - y); for (int x = 0; x < w; x++) { uint32_t v = pixel(s, x, y); if (bits == 8) { const uint8_t* q = d + 14 + hs + row[x] * 4; REQUIRE(c, q[0] == v && q[1] == v && q[2] == v, "pixel (%d,%d)", x, y); } else if (bits == 24) REQUIRE(c, (le32(row + x * 3 - (x ? 1 : 0)) >> (x ? 8 : 0) & 0xFFFFFF) == (v & 0xFFFFFF), "pixel (%d,%d)", x, y); else REQUIRE(c, le32(row + x * 4) == v, "pixel (%d,%d)", x, y); } for (size_t i = size_t(w) * size_t(bits) / 8; i < stride; i++) REQUIRE(c, row[i] == 0, "padding isn't zero"); }
    }
    // Blend2D's own reader, from a buffer of the exact size.
    std::unique_ptr<uint8_t[]> copy(new uint8_t[n]); memcpy(copy.get(), d, n); BLImage back; BLImageInfo info{}; BLResult r;
    if (c.coin()) { r = back.read_from_data(copy.get(), n); REQUIRE(c, r == BL_SUCCESS, "read_from_data failed: %u", unsigned(r)); }
    else { dec.restart(); BLArrayView<uint8_t> view{copy.get(), n}; if (c.coin()) { r = dec.read_info(info, view); REQUIRE(c, r == BL_SUCCESS, "read_info failed: %u", unsigned(r)); REQUIRE(c, info.size.w == w && info.size.h == h && !strcmp(info.format, names[k]) && info.frame_count == 1 && info.depth == (f == BL_FORMAT_A8 ? (k == 1 ? 32 : 8) : f == BL_FORMAT_XRGB32 ? 24 : 32), "image info is wrong: %dx%d %s depth %d", info.size.w, info.size.h, info.format, info.depth); } r = dec.read_frame(back, view); REQUIRE(c, r == BL_SUCCESS, "read_frame failed: %u", unsigned(r)); REQUIRE(c, dec.frame_index() == 1, "frame index is %llu", (unsigned long long)dec.frame_index()); BLImage again; r = dec.read_frame(again, view); REQUIRE(c, r == BL_ERROR_NO_MORE_DATA && again.is_empty(), "second frame was read: %u", unsigned(r)); }
    BLImageData b; back.get_data(&b); REQUIRE(c, b.size.w == w && b.size.h == h, "decoded size is %dx%d", b.size.w, b.size.h); bool alpha = f == BL_FORMAT_PRGB32 || (f == BL_FORMAT_A8 && k != 2); REQUIRE(c, b.format == unsigned(alpha ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32), "decoded format is %u", unsigned(b.format));
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = pixel(s, x, y), g = pixel(b, x, y), want = f == BL_FORMAT_A8 ? (k == 1 ? v * 0x01010101u : v * 0x010101u | 0xFF000000u) : f == BL_FORMAT_XRGB32 ? v | 0xFF000000u : v; REQUIRE(c, g == want, "pixel (%d,%d) is %08X after the round trip, was %08X", x, y, g, v); }
    c.label(k == 0, "PNG"); c.label(f == BL_FORMAT_A8, "A8"); c.nontrivial(w * h >= 4);
  }
  c.label(frames > 1, "reused"); c.label(big, "over 20000 pixels");
}

// Images that cannot be written are rejected without changing the output.
static void invalid(Case& c) {
  const char* names[] = {"PNG", "QOI", "BMP", "JPEG"}; int k = int(c.below(4)); BLImageCodec codec; codec.find_by_name(names[k]); BLArray<uint8_t> out; size_t n = c.below(30); for (size_t i = 0; i < n; i++) out.append(uint8_t(i)); BLArray<uint8_t> old(out); BLImage img; c.note("%s", names[k]);
  if (k == 3) { REQUIRE(c, !codec.has_feature(BL_IMAGE_CODEC_FEATURE_WRITE), "JPEG reports write"); img.create(3, 3, BL_FORMAT_PRGB32); }
  BLImageEncoder e; BLResult r = codec.create_encoder(&e); if (k == 3) REQUIRE(c, r != BL_SUCCESS, "JPEG encoder was created"); else { REQUIRE(c, r == BL_SUCCESS, "create_encoder failed"); r = e.write_frame(out, img); REQUIRE(c, r == BL_ERROR_INVALID_VALUE, "writing of an empty image returned %u", unsigned(r)); REQUIRE(c, out == old, "output was changed"); BLImage ok(2, 2, BL_FORMAT_XRGB32); BLImageData d; ok.make_mutable(&d); memset(d.pixel_data, 7, 8); memset(static_cast<uint8_t*>(d.pixel_data) + d.stride, 9, 8); REQUIRE(c, e.write_frame(out, ok) == BL_SUCCESS, "encoder is unusable after an error"); BLImage b; REQUIRE(c, b.read_from_data(out) == BL_SUCCESS && b.size() == BLSizeI(2, 2), "cannot decode after an error"); c.nontrivial(true); return; }
  r = img.write_to_data(out, codec); REQUIRE(c, r != BL_SUCCESS && out == old, "writing returned %u", unsigned(r)); BLImageEncoder none; REQUIRE(c, none.write_frame(out, img) != BL_SUCCESS && out == old, "an uninitialized encoder wrote a frame"); c.nontrivial(true);
}

int main(int argc, char** argv) {
  pbt::Suite s("C23", "non-trivial = an image of at least 4 pixels was written, read by the independent reader and read back", argc, argv);
  s.add("roundtrip", roundtrip, {.quick = 40000, .thorough = 1500000});
  s.add("invalid", invalid, {.quick = 2000, .thorough = 20000});
  s.assume("premultiplied pixels are valid (components not greater than alpha); A8 images come back as gray (PNG, BMP) or white with alpha (QOI)");
  return s.run();
}
