// C31: files behave like byte arrays with a cursor. The oracle is a model of files and handles; the reads and writes
// the library issues are intercepted at link time, which makes them short or fail and counts what they moved.
// LINK: -Wl,--wrap=read -Wl,--wrap=write -Wl,--wrap=mmap -Wl,--wrap=mmap64
#include "pbt.h"
#include <blend2d/blend2d.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using pbt::Case;
typedef std::vector<uint8_t> Bytes;
struct Inj { bool armed = false; std::vector<long> plan; size_t at = 0; size_t moved = 0; int errors = 0, shorts = 0; bool mmap_fails = false; int mmaps = 0; };
static Inj J; // A plan entry: 0 = as asked, n > 0 = at most n bytes, n < 0 = fails with errno -n.
static void arm() { J = Inj(); J.armed = true; }
extern "C" {
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
static bool step(size_t& n, ssize_t& r) { if (!J.armed || J.at >= J.plan.size()) return false; long p = J.plan[J.at++]; if (p < 0) { J.errors++; errno = int(-p); r = -1; return true; } if (p > 0 && size_t(p) < n) { n = size_t(p); J.shorts++; } return false; }
ssize_t __wrap_read(int fd, void* p, size_t n) { ssize_t r; if (step(n, r)) return r; r = __real_read(fd, p, n); if (J.armed && r > 0) J.moved += size_t(r); return r; }
ssize_t __wrap_write(int fd, const void* p, size_t n) { ssize_t r; if (step(n, r)) return r; r = __real_write(fd, p, n); if (J.armed && r > 0) J.moved += size_t(r); return r; }
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { if (J.armed && fd >= 0) { J.mmaps++; if (J.mmap_fails) { errno = ENODEV; return MAP_FAILED; } } return __real_mmap(a, n, pr, fl, fd, o); }
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { return __wrap_mmap(a, n, pr, fl, fd, o); }
}
// A scratch directory of this case with at most a few plain files and one directory.
struct Scratch { std::string d; Scratch() { char t[] = "/tmp/vp-c31-XXXXXX"; d = mkdtemp(t) ? t : ""; } std::string f(int i) const { return d + "/f" + char('0' + i); }
  ~Scratch() { J.armed = false; if (d.empty()) return; for (int i = 0; i < 4; i++) unlink(f(i).c_str()); rmdir((d + "/sub").c_str()); rmdir(d.c_str()); } };
static int fds() { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static Bytes slurp(const std::string& p) { Bytes o; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return o; uint8_t b[65536]; ssize_t r; while ((r = __real_read(fd, b, sizeof b)) > 0) o.insert(o.end(), b, b + r); close(fd); return o; }
static int first_diff(const uint8_t* a, const uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return int(i); return -1; }
static size_t amount(Case& c) { switch (c.weighted({2, 6, 4, 1, 1})) { case 0: return 0; case 1: return size_t(c.range(1, 20)); case 2: return size_t(c.range(21, 3000)); case 3: return 16384 + size_t(c.range(-2, 2)); default: return size_t(c.range(3000, 70000)); } }
static void plan(Case& c, size_t n) { if (!c.chance(1, 2)) return; int k = int(c.range(1, 5)); for (int i = 0; i < k; i++) switch (c.weighted({2, 5, 1})) { case 0: J.plan.push_back(0); break; case 1: J.plan.push_back(1 + long(c.below(n ? n : 1))); break; default: J.plan.push_back(-c.pickl<int>({EINTR, EIO, ENOSPC, EAGAIN})); break; } }
struct Handle { BLFile f; std::shared_ptr<Bytes> n; int mode = 0; int64_t pos = 0; };
static void history(Case& c) {
  Scratch dir; REQUIRE(c, !dir.d.empty(), "no scratch directory"); mkdir((dir.d + "/sub").c_str(), 0700); int before = fds();
  { std::shared_ptr<Bytes> file[3]; Handle h[3]; int ops = int(c.range(3, 40)), moved = 0, shorts = 0, errs = 0, maps = 0, denied = 0;
  uint8_t salt = c.byte(); auto data = [&](size_t n) { Bytes b(n); uint32_t x = salt += 37; for (auto& v : b) { x = x * 1664525u + 1013904223u; v = uint8_t(x >> 24); } return b; };
  auto same = [&](int i, const char* what) { if (!file[i]) { REQUIRE(c, access(dir.f(i).c_str(), F_OK) != 0, "%s created file %d", what, i); return; } Bytes g = slurp(dir.f(i)); REQUIRE(c, g.size() == file[i]->size(), "after %s file %d has %zu bytes instead of %zu", what, i, g.size(), file[i]->size()); int d = first_diff(g.data(), file[i]->data(), g.size()); REQUIRE(c, d < 0, "after %s byte %d of file %d is %02x instead of %02x", what, d, i, g[size_t(d)], (*file[i])[size_t(d)]); };
  for (int op = 0; op < ops; op++) {
    int i = int(c.below(3)), k = int(c.below(3)); Handle& x = h[k]; std::string p = dir.f(i); bool op_open = x.n != nullptr;
    switch (c.weighted({6, 6, 7, 7, 2, 2, 2, 4, 3, 2})) {
      case 0: { uint32_t fl = c.pickl<uint32_t>({BL_FILE_OPEN_READ, BL_FILE_OPEN_WRITE, BL_FILE_OPEN_RW, BL_FILE_OPEN_RW, BL_FILE_OPEN_NO_FLAGS}); if (c.coin()) fl |= BL_FILE_OPEN_CREATE; if (c.chance(1, 5)) fl |= BL_FILE_OPEN_CREATE_EXCLUSIVE; if (c.chance(1, 4)) fl |= BL_FILE_OPEN_TRUNCATE; if (c.chance(1, 10)) fl |= c.pickl<uint32_t>({BL_FILE_OPEN_READ_EXCLUSIVE, BL_FILE_OPEN_WRITE_EXCLUSIVE, BL_FILE_OPEN_DELETE_EXCLUSIVE, BL_FILE_OPEN_DELETE});
        int odd = int(c.weighted({12, 1, 1})); if (odd == 1) p = dir.d + "/none/x"; if (odd == 2) p = dir.d + "/sub"; c.note("open h%d %s flags %x", k, p.c_str() + dir.d.size(), fl);
        int rw = int(fl & 3); bool ex = fl & BL_FILE_OPEN_CREATE_EXCLUSIVE, cr = ex || (fl & BL_FILE_OPEN_CREATE), tr = fl & BL_FILE_OPEN_TRUNCATE; uint32_t want = BL_SUCCESS;
        if (!rw || ((cr || tr) && !(rw & 2))) want = BL_ERROR_INVALID_VALUE; else if (odd == 1) want = BL_ERROR_NO_ENTRY; else if (odd == 2) want = ex ? BL_ERROR_ALREADY_EXISTS : (rw & 2) ? BL_ERROR_NOT_FILE : BL_SUCCESS; else if (file[i] && ex) want = BL_ERROR_ALREADY_EXISTS; else if (!file[i] && !cr) want = BL_ERROR_NO_ENTRY;
        if (odd == 2 && want == BL_SUCCESS) { BLFile t; uint8_t b[4]; size_t n = 7; REQUIRE(c, t.open(p.c_str(), BLFileOpenFlags(fl)) == BL_SUCCESS, "a directory doesn't open"); REQUIRE(c, t.read(b, 4, &n) == BL_ERROR_NOT_FILE && n == 0, "reading a directory read %zu bytes", n); break; }
        intptr_t old = x.f.handle; BLResult r = x.f.open(p.c_str(), BLFileOpenFlags(fl)); REQUIRE(c, r == want, "open returned %u instead of %u", r, want);
        if (r != BL_SUCCESS) { denied++; REQUIRE(c, x.f.handle == old, "a failed open changed the handle"); same(i, "a failed open"); break; }
        if (!file[i]) file[i] = std::make_shared<Bytes>(); if (tr) file[i]->clear(); x.n = file[i]; x.mode = rw; x.pos = 0; REQUIRE(c, x.f.is_open(), "the file isn't open after open"); break; }
      case 1: { int t = int(c.below(4)); int64_t off = c.chance(1, 6) ? -int64_t(c.below(100)) : c.coin() ? int64_t(c.below(40)) : int64_t(c.below(5000)), out = 55; if (t == 2 && c.coin()) off = -off; if (t == 1 && c.coin()) off = -off; c.note("seek h%d type %d offset %lld", k, t, (long long)off);
        BLResult r = x.f.seek(off, BLFileSeekType(t), &out); int64_t to = t == 0 ? off : t == 1 ? x.pos + off : op_open ? int64_t(x.n->size()) + off : 0; uint32_t want = t == 3 ? BL_ERROR_INVALID_VALUE : !op_open ? BL_ERROR_INVALID_HANDLE : to < 0 ? BL_ERROR_INVALID_VALUE : BL_SUCCESS;
        REQUIRE(c, r == want, "seek returned %u instead of %u", r, want); REQUIRE(c, out == (r == BL_SUCCESS ? to : -1), "seek reports position %lld instead of %lld", (long long)out, (long long)to); if (r == BL_SUCCESS) x.pos = to; break; }
      case 2: { size_t n = amount(c), got = 12345; Bytes b(n + 8, 0xEE); arm(); plan(c, n); c.note("read h%d %zu bytes, plan %zu", k, n, J.plan.size()); BLResult r = x.f.read(b.data(), n, &got); J.armed = false;
        if (!op_open) { REQUIRE(c, r == BL_ERROR_INVALID_HANDLE && got == 0, "reading a closed file returned %u, %zu bytes", r, got); break; }
        if (!(x.mode & 1)) { REQUIRE(c, r != BL_SUCCESS && got == 0, "reading a file open for writing returned %u, %zu bytes", r, got); denied++; break; }
        size_t have = x.pos < int64_t(x.n->size()) ? std::min(n, x.n->size() - size_t(x.pos)) : 0; shorts += J.shorts; errs += J.errors; moved += got > 0;
        REQUIRE(c, got == J.moved, "read reports %zu bytes, %zu were read", got, J.moved); REQUIRE(c, got <= have, "read returned %zu bytes of %zu", got, have); if (!J.errors) REQUIRE(c, r == BL_SUCCESS, "read failed with %u", r); if (r == BL_SUCCESS) REQUIRE(c, got == have, "read returned %zu bytes instead of %zu", got, have);
        if (got) { int d = first_diff(b.data(), x.n->data() + x.pos, got); REQUIRE(c, d < 0, "byte %d of the %zu bytes read is %02x instead of %02x (%d short reads)", d, got, b[size_t(d)], (*x.n)[size_t(x.pos + d)], J.shorts); } for (int e = 0; e < 8; e++) REQUIRE(c, b[n + size_t(e)] == 0xEE, "read past the end of the buffer"); x.pos += int64_t(got); break; }
      case 3: { size_t n = amount(c), got = 12345; Bytes b = data(n); arm(); plan(c, n); c.note("write h%d %zu bytes, plan %zu", k, n, J.plan.size()); BLResult r = x.f.write(b.data(), n, &got); J.armed = false;
        if (!op_open) { REQUIRE(c, r == BL_ERROR_INVALID_HANDLE && got == 0, "writing a closed file returned %u, %zu bytes", r, got); break; }
        if (!(x.mode & 2)) { REQUIRE(c, r != BL_SUCCESS && got == 0, "writing a file open for reading returned %u, %zu bytes", r, got); denied++; break; }
        shorts += J.shorts; errs += J.errors; moved += got > 0; REQUIRE(c, got == J.moved, "write reports %zu bytes, %zu were written", got, J.moved); if (!J.errors) REQUIRE(c, r == BL_SUCCESS, "write failed with %u", r); if (r == BL_SUCCESS) REQUIRE(c, got == n, "write wrote %zu bytes of %zu", got, n);
        if (got) { if (x.n->size() < size_t(x.pos) + got) x.n->resize(size_t(x.pos) + got); memcpy(x.n->data() + x.pos, b.data(), got); } x.pos += int64_t(got); for (int f = 0; f < 3; f++) if (file[f] == x.n) same(f, "write"); break; }
      case 4: { int64_t n = c.chance(1, 6) ? -int64_t(c.range(1, 9)) : int64_t(amount(c)); c.note("truncate h%d to %lld", k, (long long)n); BLResult r = x.f.truncate(n); uint32_t want = !op_open ? BL_ERROR_INVALID_HANDLE : n < 0 ? BL_ERROR_INVALID_VALUE : !(x.mode & 2) ? BL_ERROR_NOT_PERMITTED : BL_SUCCESS; REQUIRE(c, r == want, "truncate returned %u instead of %u", r, want);
        if (r == BL_SUCCESS) { uint64_t sz = 0; x.f.get_size(&sz); if (size_t(n) > x.n->size()) { REQUIRE(c, sz == x.n->size() || sz == uint64_t(n), "truncating %zu bytes to %lld made %llu", x.n->size(), (long long)n, (unsigned long long)sz); x.n->resize(size_t(sz)); } else x.n->resize(size_t(n)); for (int f = 0; f < 3; f++) if (file[f] == x.n) same(f, "truncate"); } break; }
      case 5: { uint64_t sz = 99; BLFileInfo fi; memset((void*)&fi, 0xCC, sizeof fi); BLResult r = x.f.get_size(&sz), q = x.f.get_info(&fi); uint32_t want = op_open ? BL_SUCCESS : BL_ERROR_INVALID_HANDLE; REQUIRE(c, r == want && q == want, "size and info returned %u and %u instead of %u", r, q, want); REQUIRE(c, sz == (op_open ? x.n->size() : 0) && fi.size == sz, "the file has %zu bytes, get_size says %llu and get_info %llu", op_open ? x.n->size() : 0, (unsigned long long)sz, (unsigned long long)fi.size); REQUIRE(c, fi.is_valid() == op_open && fi.is_regular() == op_open, "info flags are %x", fi.flags); break; }
      case 6: { int w = int(c.below(5)); c.note("h%d handle operation %d with h%d", k, w, i); Handle& y = h[i]; if (w == 0) { REQUIRE(c, x.f.close() == BL_SUCCESS, "close failed"); x.n = nullptr; } else if (w == 1) { REQUIRE(c, bl_file_reset(&x.f) == BL_SUCCESS, "reset failed"); x.n = nullptr; } else if (i != k && w == 2) { x.f = std::move(y.f); x.n = y.n; x.mode = y.mode; x.pos = y.pos; y.n = nullptr; } else if (i != k && w == 3) { x.f.swap(y.f); std::swap(x.n, y.n); std::swap(x.mode, y.mode); std::swap(x.pos, y.pos); } else { BLFile t(std::move(x.f)); REQUIRE(c, !x.f.is_open() && t.is_open() == op_open, "moving a file left it open"); x.n = nullptr; } REQUIRE(c, x.f.is_open() == (x.n != nullptr) && y.f.is_open() == (y.n != nullptr), "files are open or closed unexpectedly"); break; }
      case 7: { size_t mx = c.coin() ? 0 : amount(c); uint32_t fl = c.coin() ? 0 : c.below(8); if (fl & 4) fl = (fl & 3) | BL_FILE_READ_MMAP_NO_FALLBACK; BLArray<uint8_t> a; BLArray<uint8_t> keep; if (c.coin()) { uint8_t junk[40] = {1, 2, 3}; a.append_data(junk, size_t(c.below(40))); if (c.coin()) keep = a; } BLArray<uint8_t> keep2(keep); arm(); size_t n = file[i] ? file[i]->size() : 0; if (mx) n = std::min(n, mx); plan(c, n); J.mmap_fails = c.chance(1, 4); c.note("read_file %d max %zu flags %x, mmap %s", i, mx, fl, J.mmap_fails ? "fails" : "works"); BLResult r = BLFileSystem::read_file(p.c_str(), a, mx, BLFileReadFlags(fl)); J.armed = false; shorts += J.shorts; errs += J.errors; maps += J.mmaps && !J.mmap_fails;
        if (!file[i]) { REQUIRE(c, r == BL_ERROR_NO_ENTRY && a.is_empty(), "reading a missing file returned %u", r); break; } bool nofb = (fl & BL_FILE_READ_MMAP_NO_FALLBACK) && J.mmaps && J.mmap_fails;
        if (nofb) { REQUIRE(c, r != BL_SUCCESS && a.is_empty(), "read_file fell back to reading although this was disabled"); break; } if (!(fl & BL_FILE_READ_MMAP_ENABLED)) REQUIRE(c, !J.mmaps, "read_file mapped the file although this isn't enabled"); if ((fl & 3) == 3 && n < 4096) REQUIRE(c, !J.mmaps, "read_file mapped a small file"); if ((fl & 1) && n > 65536) REQUIRE(c, J.mmaps, "read_file didn't map a large file");
        if (!J.errors) REQUIRE(c, r == BL_SUCCESS, "read_file failed with %u", r); bool mapped = J.mmaps && !J.mmap_fails; REQUIRE(c, r == BL_SUCCESS ? a.size() == n : a.size() <= n, "read_file returned %zu bytes instead of %zu", a.size(), n); if (!mapped) REQUIRE(c, a.size() == J.moved, "read_file returned %zu bytes, %zu were read", a.size(), J.moved);
        int d = first_diff(a.data(), file[i]->data(), a.size()); REQUIRE(c, d < 0, "byte %d returned by read_file is %02x instead of %02x (%d short reads, mapped %d)", d, a.data()[d], (*file[i])[size_t(d)], J.shorts, mapped); REQUIRE(c, keep.equals(keep2), "read_file changed a copy of the array"); moved += n > 0;
        BLArray<uint8_t> b(a); if (c.coin() && a.size()) { size_t s = a.size(); if (c.coin()) REQUIRE(c, a.append(uint8_t(1)) == BL_SUCCESS && a.size() == s + 1, "append to the content failed"); else { uint8_t* w; REQUIRE(c, a.make_mutable(&w) == BL_SUCCESS, "the content can't be made mutable"); w[0] ^= 0x55; REQUIRE(c, a.data()[0] == ((*file[i])[0] ^ 0x55), "the content isn't mutable"); } REQUIRE(c, b.size() == s && first_diff(b.data(), file[i]->data(), s) < 0, "modifying the content changed its copy"); same(i, "modifying the content"); a.reset(); REQUIRE(c, first_diff(b.data(), file[i]->data(), s) < 0, "the copy of the content changed"); } break; }
      case 8: { size_t n = amount(c), got = 777; Bytes b = data(n); arm(); plan(c, n); c.note("write_file %d %zu bytes, plan %zu", i, n, J.plan.size()); BLResult r = BLFileSystem::write_file(p.c_str(), b.data(), n, &got); J.armed = false; shorts += J.shorts; errs += J.errors; if (!J.errors) REQUIRE(c, r == BL_SUCCESS, "write_file failed with %u", r); REQUIRE(c, got == J.moved && (r != BL_SUCCESS || got == n), "write_file returned %u and reports %zu bytes of %zu, %zu were written", r, got, n, J.moved); if (!file[i]) file[i] = std::make_shared<Bytes>(); *file[i] = Bytes(b.begin(), b.begin() + long(got)); same(i, "write_file"); moved += got > 0; break; }
      default: { BLFileInfo fi; memset((void*)&fi, 0xCC, sizeof fi); bool sub = c.chance(1, 4); if (sub) p = dir.d + "/sub"; struct stat st{}; int mode = int(c.below(010000)); int64_t sec = int64_t(c.below(2000000000)), ns = int64_t(c.below(1000000000)); bool there = sub || file[i]; if (there) { if (!sub) chmod(p.c_str(), mode_t(mode)); struct timespec ts[2] = {{sec, ns}, {sec, ns}}; utimensat(AT_FDCWD, p.c_str(), ts, 0); stat(p.c_str(), &st); mode = int(st.st_mode & 06777); } c.note("file info of %s", p.c_str() + dir.d.size()); BLResult r = BLFileSystem::file_info(p.c_str(), &fi); if (!there) { REQUIRE(c, r == BL_ERROR_NO_ENTRY && !fi.is_valid() && fi.size == 0, "info of a missing file returned %u", r); break; }
        REQUIRE(c, r == BL_SUCCESS && fi.is_valid() && fi.is_regular() == !sub && fi.is_directory() == sub && !fi.is_symlink() && !fi.is_fifo() && !fi.is_socket() && !fi.is_char_device() && !fi.is_block_device(), "info returned %u with flags %x", r, fi.flags); REQUIRE(c, fi.size == (sub ? 0 : file[i]->size()), "info reports %llu bytes", (unsigned long long)fi.size); REQUIRE(c, int(fi.flags & (BL_FILE_INFO_OWNER_MASK | BL_FILE_INFO_GROUP_MASK | BL_FILE_INFO_OTHER_MASK | BL_FILE_INFO_SUID | BL_FILE_INFO_SGID)) == mode, "permissions are %o instead of %o", int(fi.flags & BL_FILE_INFO_PERMISSIONS_MASK), mode); REQUIRE(c, fi.uid == st.st_uid && fi.gid == st.st_gid, "owner is %u:%u", fi.uid, fi.gid); REQUIRE(c, fi.modified_time == int64_t(st.st_mtim.tv_sec) * 1000000 + st.st_mtim.tv_nsec / 1000, "modified time is %lld us, the file's is %lld.%09ld s", (long long)fi.modified_time, (long long)st.st_mtim.tv_sec, st.st_mtim.tv_nsec); if (!sub) chmod(p.c_str(), 0600); break; }
    } }
  for (int i = 0; i < 3; i++) same(i, "the whole history"); c.nontrivial(moved > 1); c.label(shorts > 0, "short reads or writes"); c.label(errs > 0, "injected errors"); c.label(maps > 0, "mapped"); c.label(denied > 0, "refused"); }
  int after = fds(); REQUIRE(c, after == before, "%d file descriptors stay open", after - before);
}
// Images written to and read from files are those written to and read from memory.
static void images(Case& c) {
  Scratch dir; int w = int(c.range(1, 60)), h = int(c.range(1, 60)); auto fmt = c.pickl<BLFormat>({BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8}); BLImage im(w, h, fmt), back, mem; BLImageData d; REQUIRE(c, im.make_mutable(&d) == BL_SUCCESS, "no image"); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { if (fmt == BL_FORMAT_A8) ((uint8_t*)d.pixel_data)[y * d.stride + x] = c.byte(); else ((uint32_t*)((uint8_t*)d.pixel_data + y * d.stride))[x] = 0xFF000000u | c.u32(); }
  const char* ext = c.pickl<const char*>({"png", "bmp", "qoi", "PNG"}); std::string p = dir.f(0); unlink(p.c_str()); BLImageCodec codec; BLResult fr = codec.find_by_extension(ext); REQUIRE(c, fr == BL_SUCCESS, "no codec of '%s'", ext);
  BLArray<uint8_t> a; BLResult rm = im.write_to_data(a, codec); arm(); plan(c, a.size() + 1); c.note("%dx%d %s, %zu bytes, plan %zu", w, h, ext, a.size(), J.plan.size()); BLResult r = im.write_to_file(p.c_str(), codec); J.armed = false; int err = J.errors; c.label(J.shorts > 0, "short writes"); if (!err) REQUIRE(c, r == rm, "writing a file returned %u, writing to memory %u", r, rm); if (r != BL_SUCCESS) return; Bytes f = slurp(p); REQUIRE(c, f.size() == a.size() && first_diff(f.data(), a.data(), f.size()) < 0, "the file differs from the data (%zu and %zu bytes)", f.size(), a.size());
  arm(); plan(c, a.size() + 1); r = back.read_from_file(p.c_str()); J.armed = false; BLResult r2 = mem.read_from_data(a); c.label(J.shorts > 0, "short reads"); if (!J.errors) REQUIRE(c, r == r2, "reading the file returned %u, reading the data %u", r, r2); if (r == BL_SUCCESS) REQUIRE(c, back.equals(mem), "the image read from the file differs"); c.nontrivial(r == BL_SUCCESS);
}
static void fonts(Case& c) {
  static std::string path = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf"; static Bytes want = slurp(path); Scratch dir; std::string p = dir.f(0); Bytes b = want; if (c.chance(1, 3)) b.resize(size_t(c.below(b.size()))); { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600); REQUIRE(c, fd >= 0 && __real_write(fd, b.data(), b.size()) == ssize_t(b.size()), "scratch file"); close(fd); }
  BLFontData m, f; BLArray<uint8_t> a; a.append_data(b.data(), b.size()); BLResult r2 = m.create_from_data(a); uint32_t fl = c.below(4); arm(); plan(c, b.size() + 1); J.mmap_fails = c.chance(1, 4); c.note("%zu bytes, flags %u, plan %zu, mmap %s", b.size(), fl, J.plan.size(), J.mmap_fails ? "fails" : "works"); BLResult r = f.create_from_file(p.c_str(), BLFileReadFlags(fl)); J.armed = false; c.label(J.shorts > 0, "short reads"); c.label(J.mmaps && !J.mmap_fails, "mapped"); if (b.empty()) { REQUIRE(c, r == BL_ERROR_FILE_EMPTY || (J.errors && r), "an empty font file returned %u", r); return; } if (!J.errors) REQUIRE(c, r == r2, "the font file returned %u, its data %u", r, r2); if (r != BL_SUCCESS) return;
  c.nontrivial(true); unlink(p.c_str()); for (const char* t : {"cmap", "glyf", "head", "loca", "name", "hmtx"}) { BLTag tag = BL_MAKE_TAG(t[0], t[1], t[2], t[3]); BLFontTable x, y; size_t n = m.get_table(0, &x, tag), n2 = f.get_table(0, &y, tag); REQUIRE(c, n == n2 && x.size == y.size, "table %s has %zu bytes instead of %zu", t, y.size, x.size); int dd = first_diff(y.data, x.data, x.size); REQUIRE(c, dd < 0, "byte %d of table %s differs", dd, t); }
}
int main(int argc, char** argv) {
  pbt::Suite s("C31", "Non-trivial: at least two operations moved bytes.", argc, argv);
  s.assume("A file growing through truncate() isn't specified: the size may stay or become the requested one, with zero bytes.");
  s.add("history", history, {.quick = 20000, .thorough = 800000, .chunk = 100});
  s.add("images", images, {.quick = 8000, .thorough = 200000, .chunk = 100});
  s.add("fonts", fonts, {.quick = 4000, .thorough = 80000, .chunk = 100});
  return s.run();
}
