// C34: font managers and codec registries hold exactly what was registered. The oracle is a list of the registered
// entries searched by the documented rules.
// LINK: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "pbt.h"
#include <blend2d/blend2d.h>
#include "alloc_track.h"
#include "fontgen.h"
#include "codecgen.h"
#include <string>
#include <vector>
using pbt::Case;
static std::string lower(std::string s) { for (char& k : s) if (k >= 'A' && k <= 'Z') k = char(k + 32); return s; }
static std::string str(const BLString& s) { return std::string(s.data(), s.size()); }
// Names that collide: equal up to case, prefixes of each other, of other lengths.
static std::string family(Case& c) { static const char* base[] = {"sans", "serif", "mono", "sansserif", "s", "Open Type With A Rather Long Family Name 2024"}; std::string s = base[c.below(6)]; if (c.chance(1, 3)) s += char('0' + c.below(10)); if (c.chance(1, 6)) s = "F" + std::to_string(c.below(60)); for (char& k : s) if (c.chance(1, 6)) k = char(toupper(k)); return s; }
struct Face { BLFontFace f; std::string name; int style, weight, stretch; };
static void fonts(Case& c) {
  long live0 = at::live; {
  std::vector<Face> pool; std::vector<std::unique_ptr<std::vector<uint8_t>>> keep; int np = int(c.range(2, c.chance(1, 8) ? 40 : 8)); fg::Font f; fg::model(c, f, 2, true);
  for (int i = 0; i < np; i++) {
    f.names.clear(); std::string nm = i && c.coin() ? pool[size_t(c.below(uint64_t(i)))].name : family(c); f.names.push_back({1, nm}); f.os2 = fg::Os2(); f.os2.present = true; f.os2.version = 4; f.os2.weight = c.coin() ? 100 * int(c.range(1, 9)) : int(c.range(1, 999)); f.os2.width = c.coin() ? 5 : int(c.range(1, 9)); f.os2.sel = c.pickl<int>({0x40, 0x40, 1, 0x200}); fg::assemble(c, f); keep.emplace_back(new std::vector<uint8_t>(f.bytes.begin(), f.bytes.end()));
    BLFontData d; Face x; REQUIRE(c, d.create_from_data(keep.back()->data(), keep.back()->size()) == BL_SUCCESS && x.f.create_from_data(d, 0) == BL_SUCCESS, "a font isn't loaded"); x.name = str(x.f.family_name()); REQUIRE(c, x.name == nm, "the family name of a font is '%s' instead of '%s'", x.name.c_str(), nm.c_str()); x.style = int(x.f.style()); x.weight = int(x.f.weight()); x.stretch = int(x.f.stretch()); c.note("face %d: '%s' style %d weight %d stretch %d", i, nm.c_str(), x.style, x.weight, x.stretch); pool.push_back(x); }
  struct Reg { std::vector<int> in; int refs = 1; }; struct Mgr { BLFontManager m; std::shared_ptr<Reg> r; }; Mgr m[3]; bool shares = false; int adds = 0, hits = 0, miss = 0, near = 0, dup = 0;
  auto held = [&](Mgr& x, int i) { if (x.r) for (int k : x.r->in) if (k == i) return true; return false; };
  int ops = int(c.range(4, 60));
  for (int op = 0; op < ops; op++) { int a = int(c.below(3)); Mgr& x = m[a]; switch (c.weighted({10, 3, 8, 4, 2, 1, 1, 2})) {
    case 0: { int i = int(c.below(uint64_t(np))); bool had = held(x, i), clash = false; if (!x.r) x.r = std::make_shared<Reg>(); for (int k : x.r->in) if (k != i && pool[size_t(k)].name == pool[size_t(i)].name && pool[size_t(k)].style == pool[size_t(i)].style && pool[size_t(k)].weight == pool[size_t(i)].weight && pool[size_t(k)].stretch == pool[size_t(i)].stretch) clash = true;
      size_t n = x.m.face_count(); BLResult r = x.m.add_face(pool[size_t(i)].f); c.note("m%d adds %d", a, i); REQUIRE(c, r == BL_SUCCESS, "add_face returned %u", r); size_t n2 = x.m.face_count(); if (had) { dup++; REQUIRE(c, n2 == n, "adding a face again changed the count from %zu to %zu", n, n2); } else if (clash) { REQUIRE(c, n2 == n || n2 == n + 1, "adding a face changed the count from %zu to %zu", n, n2); if (n2 == n + 1) x.r->in.push_back(i); } else { REQUIRE(c, n2 == n + 1, "a face wasn't added: '%s' style %d weight %d stretch %d", pool[size_t(i)].name.c_str(), pool[size_t(i)].style, pool[size_t(i)].weight, pool[size_t(i)].stretch); x.r->in.push_back(i); } adds++; break; }
    case 1: { for (int i = 0; i < np; i++) REQUIRE(c, x.m.has_face(pool[size_t(i)].f) == held(x, i), "has_face of face %d is %d", i, !held(x, i)); break; }
    case 2: { std::string q = c.chance(2, 3) ? pool[size_t(c.below(uint64_t(np)))].name : family(c); if (c.chance(1, 3)) for (char& k : q) if (c.chance(1, 4)) k = char(c.coin() ? toupper(k) : tolower(k)); if (c.chance(1, 20)) q.clear(); BLFontQueryProperties p{}; bool props = c.chance(4, 5); p.style = c.below(3); p.weight = c.chance(1, 5) ? 0 : uint32_t(c.range(1, 1000)); p.stretch = c.below(10); bool bad = props && c.chance(1, 12); if (bad) { switch (c.below(3)) { case 0: p.style = 3 + c.below(5); break; case 1: p.weight = 1001 + c.below(5); break; default: p.stretch = 10 + c.below(5); break; } }
      BLFontFace out; if (c.coin()) out = pool[0].f; BLFontFace before(out); BLResult r; c.note("m%d query '%s' style %u weight %u stretch %u", a, q.c_str(), p.style, p.weight, p.stretch); if (!props) r = c.coin() ? x.m.query_face(q.c_str(), out) : x.m.query_face(BLStringView{q.data(), q.size()}, out); else r = c.coin() ? x.m.query_face(q.c_str(), p, out) : x.m.query_face(BLStringView{q.data(), q.size()}, p, out);
      if (bad) { REQUIRE(c, r == BL_ERROR_INVALID_VALUE, "invalid query properties are accepted"); break; } int ps = props ? int(p.style) : 0, pw = props && p.weight ? int(p.weight) : 400, pt = props && p.stretch ? int(p.stretch) : 5;
      std::vector<int> cand; size_t best = ~size_t(0); if (x.r) for (int k : x.r->in) if (lower(pool[size_t(k)].name) == lower(q)) { size_t d = 0; for (size_t z = 0; z < q.size(); z++) d += q[z] != pool[size_t(k)].name[z]; if (d < best) { best = d; cand.clear(); } if (d == best) cand.push_back(k); }
      if (cand.empty()) { miss++; REQUIRE(c, r == BL_ERROR_FONT_NO_MATCH && !out.is_valid(), "a query for '%s' returned %u although no such face is registered", q.c_str(), r); break; } hits++; near += best > 0;
      REQUIRE(c, r == BL_SUCCESS, "a query for '%s' returned %u although %zu such faces are registered", q.c_str(), r, cand.size()); int got = -1; for (int k : cand) if (pool[size_t(k)].f == out) got = k; REQUIRE(c, got >= 0, "a query returned a face that isn't one of the candidates");
      // Style comes first; whether weight or stretch comes next isn't clear.
      auto ds = [&](int k) { return std::abs(pool[size_t(k)].style - ps); }; auto dw = [&](int k) { return std::abs(pool[size_t(k)].weight - pw); }; auto dt = [&](int k) { return std::abs(pool[size_t(k)].stretch - pt); }; bool w1 = true, w2 = true; for (int k : cand) { REQUIRE(c, ds(k) >= ds(got), "a query for style %d returned style %d although a face of style %d is registered", ps, pool[size_t(got)].style, pool[size_t(k)].style); if (pool[size_t(k)].style != pool[size_t(got)].style) continue; bool sw = pool[size_t(k)].weight == pool[size_t(got)].weight, st = pool[size_t(k)].stretch == pool[size_t(got)].stretch; if (dw(k) < dw(got) || (sw && dt(k) < dt(got))) w1 = false; if (dt(k) < dt(got) || (st && dw(k) < dw(got))) w2 = false; } REQUIRE(c, w1 || w2, "a query for weight %d and stretch %d returned %d and %d although a closer face is registered", pw, pt, pool[size_t(got)].weight, pool[size_t(got)].stretch); break; }
    case 3: { std::string q = c.chance(2, 3) ? pool[size_t(c.below(uint64_t(np)))].name : family(c); if (c.chance(1, 3)) for (char& k : q) if (c.chance(1, 4)) k = char(c.coin() ? toupper(k) : tolower(k)); BLArray<BLFontFace> out; if (c.coin()) out.append(pool[0].f); c.note("m%d faces of '%s'", a, q.c_str()); BLResult r = c.coin() ? x.m.query_faces_by_family_name(q.c_str(), out) : x.m.query_faces_by_family_name(BLStringView{q.data(), q.size()}, out);
      size_t best = ~size_t(0); if (x.r) for (int k : x.r->in) if (lower(pool[size_t(k)].name) == lower(q)) { size_t d = 0; for (size_t z = 0; z < q.size(); z++) d += q[z] != pool[size_t(k)].name[z]; best = std::min(best, d); } if (best == ~size_t(0)) { miss++; REQUIRE(c, r == BL_ERROR_FONT_NO_MATCH && out.is_empty(), "faces of '%s' were found although none is registered (%u)", q.c_str(), r); break; } hits++; near += best > 0; REQUIRE(c, r == BL_SUCCESS && !out.is_empty(), "no faces of '%s' were found although some are registered (%u)", q.c_str(), r);
      std::string nm = str(out[0].family_name()); size_t d = 0; REQUIRE(c, nm.size() == q.size() && lower(nm) == lower(q), "faces of '%s' were returned for '%s'", nm.c_str(), q.c_str()); for (size_t z = 0; z < q.size(); z++) d += q[z] != nm[z]; REQUIRE(c, d == best, "faces of '%s' were returned for '%s' although a closer name is registered", nm.c_str(), q.c_str()); size_t want = 0; for (int k : x.r->in) if (pool[size_t(k)].name == nm) { want++; size_t times = 0; for (size_t z = 0; z < out.size(); z++) times += out[z] == pool[size_t(k)].f; REQUIRE(c, times == 1, "face %d is returned %zu times among the faces of '%s'", k, times, nm.c_str()); } REQUIRE(c, want == out.size(), "%zu faces of '%s' are returned instead of %zu", out.size(), nm.c_str(), want); break; }
    case 4: { int b = int(c.below(3)); if (a == b) break; c.note("m%d = m%d", a, b); if (c.coin()) { x.m = m[b].m; x.r = m[b].r; shares |= x.r != nullptr; if (!x.r) { } } else { x.m = std::move(m[b].m); x.r = m[b].r; m[b].r = nullptr; } break; }
    case 5: { c.note("m%d reset", a); REQUIRE(c, x.m.reset() == BL_SUCCESS, "reset failed"); x.r = nullptr; break; }
    case 6: { c.note("m%d create", a); REQUIRE(c, x.m.create() == BL_SUCCESS && x.m.is_valid(), "create failed"); x.r = std::make_shared<Reg>(); break; }
    default: { BLFontFace none; REQUIRE(c, x.m.add_face(none) == BL_ERROR_FONT_NOT_INITIALIZED, "an invalid face was added"); for (int b = 0; b < 3; b++) if (x.r && m[b].r) REQUIRE(c, (x.m == m[b].m) == (x.r == m[b].r), "comparing managers gives the wrong answer"); break; } }
    for (int b = 0; b < 3; b++) { size_t n = 0; std::vector<std::string> fam; if (m[b].r) { n = m[b].r->in.size(); for (int k : m[b].r->in) { bool seen = false; for (auto& s : fam) seen |= s == pool[size_t(k)].name; if (!seen) fam.push_back(pool[size_t(k)].name); } } REQUIRE(c, m[b].m.face_count() == n && m[b].m.family_count() == fam.size(), "manager %d has %zu faces of %zu families instead of %zu of %zu", b, m[b].m.face_count(), m[b].m.family_count(), n, fam.size()); REQUIRE(c, m[b].m.is_valid() == (m[b].r != nullptr), "manager %d is%s valid", b, m[b].m.is_valid() ? "" : "n't"); } }
  c.nontrivial(adds > 1 && hits > 0); c.label(shares, "shared manager"); c.label(near > 0, "other letter case"); c.label(dup > 0, "added again"); c.label(miss > 0, "no match"); }
  REQUIRE(c, at::live == live0, "%ld memory blocks stay allocated after the last font manager was destroyed", long(at::live - live0));
}

// Custom codecs that recognise a prefix and claim some extensions.
struct Impl : BLImageCodecImpl { uint8_t sig[4]; int sig_size; uint32_t score; };
static int destroyed = 0;
static BLResult BL_CDECL c_destroy(BLObjectImpl* i) noexcept { destroyed++; auto* p = static_cast<Impl*>(i); p->BLImageCodecImpl::dtor(); return bl_object_free_impl(i); }
static uint32_t BL_CDECL c_inspect(const BLImageCodecImpl* i, const uint8_t* d, size_t n) noexcept { auto* p = static_cast<const Impl*>(i); return n >= size_t(p->sig_size) && !memcmp(d, p->sig, size_t(p->sig_size)) ? p->score : 0; }
static BLResult BL_CDECL c_dec(const BLImageCodecImpl*, BLImageDecoderCore*) noexcept { return BL_ERROR_IMAGE_DECODER_NOT_PROVIDED; }
static BLResult BL_CDECL c_enc(const BLImageCodecImpl*, BLImageEncoderCore*) noexcept { return BL_ERROR_IMAGE_ENCODER_NOT_PROVIDED; }
static BLResult BL_CDECL c_get(const BLObjectImpl*, const char*, size_t, BLVarCore*) noexcept { return BL_ERROR_INVALID_KEY; }
static BLResult BL_CDECL c_set(BLObjectImpl*, const char*, size_t, const BLVarCore*) noexcept { return BL_ERROR_INVALID_KEY; }
struct Cod { BLImageCodec c; std::string name, ext; uint8_t sig[4]; int sig_size; uint32_t score; int builtin = -1; };
static Cod make(Case& c, int i) {
  static BLImageCodecVirt* v = [] { auto* q = new BLImageCodecVirt(); q->base.destroy = c_destroy; q->base.get_property = c_get; q->base.set_property = c_set; q->inspect_data = c_inspect; q->create_decoder = c_dec; q->create_encoder = c_enc; return q; }();
  Cod x; x.name = c.pickl<const char*>({"AAA", "aaa", "BBB", "PNG", "PN", "X-1"}); if (c.coin()) x.name += std::to_string(i); int ne = int(c.range(0, 3)); for (int k = 0; k < ne; k++) { if (k) x.ext += "|"; x.ext += c.pickl<const char*>({"aaa", "aa", "a", "bbb", "png2", "bmp", "AbC", "x"}); } x.sig_size = int(c.range(1, 3)); for (auto& s : x.sig) s = uint8_t(c.chance(1, 4) ? c.pickl<int>({0x89, 'B', 0xFF, 'q'}) : 0xA0 + int(c.below(3))); x.score = c.pickl<uint32_t>({1, 50, 50, 90, 100});
  BLObjectInfo info = BLObjectInfo::from_type_with_marker(BL_OBJECT_TYPE_IMAGE_CODEC); BLImageCodecCore core; REQUIRE(c, bl_object_alloc_impl(&core, info.bits, sizeof(Impl)) == BL_SUCCESS, "no codec"); auto* p = static_cast<Impl*>(core._d.impl); p->BLImageCodecImpl::ctor(v); p->name.dcast().assign(x.name.c_str()); p->vendor.dcast().assign("me"); p->mime_type.dcast().assign("image/x"); p->extensions.dcast().assign(x.ext.c_str()); p->features = c.below(8); memcpy(p->sig, x.sig, 4); p->sig_size = x.sig_size; p->score = x.score; x.c = core.dcast(); bl_image_codec_destroy(&core); return x; }
static bool claims(const std::string& exts, const std::string& e) { size_t i = 0; std::string l = lower(exts), m = lower(e); while (i < l.size()) { size_t j = l.find('|', i); if (j == std::string::npos) j = l.size(); if (l.substr(i, j - i) == m) return true; i = j + 1; } return false; }
static void codecs(Case& c) {
  long live0 = at::live; destroyed = 0; int made = 0; {
  struct Restore { BLArray<BLImageCodec> a; Restore() { a = BLImageCodec::built_in_codecs(); } ~Restore() { BLArray<BLImageCodec> now = BLImageCodec::built_in_codecs(); for (size_t i = 0; i < now.size(); i++) BLImageCodec::remove_from_built_in(now[i]); for (size_t i = 0; i < a.size(); i++) BLImageCodec::add_to_built_in(a[i]); } } restore;
  std::vector<Cod> all; std::vector<int> reg; for (size_t i = 0; i < restore.a.size(); i++) { Cod x; x.c = restore.a[i]; x.name = str(x.c.name()); x.ext = str(x.c.extensions()); x.builtin = int(i); all.push_back(x); reg.push_back(int(i)); } REQUIRE(c, reg.size() >= 4, "only %zu codecs are built in", reg.size());
  // What the library's own codecs claim: name, mime type, extensions and whether they write.
  { struct Own { const char* name; const char* mime; const char* ext; bool write; }; static const Own own[] = {{"BMP", "image/x-bmp", "bmp|ras", true}, {"JPEG", "image/jpeg", "jpg|jpeg|jif|jfi|jfif", false}, {"PNG", "image/png", "png", true}, {"QOI", "image/qoi", "qoi", true}};
    for (const Own& o : own) { BLImageCodec k; REQUIRE(c, k.find_by_name(o.name) == BL_SUCCESS && str(k.name()) == o.name, "no codec '%s'", o.name); REQUIRE(c, str(k.mime_type()) == o.mime, "mime type of '%s' is '%s'", o.name, str(k.mime_type()).c_str()); REQUIRE(c, bool(k.features() & BL_IMAGE_CODEC_FEATURE_WRITE) == o.write && (k.features() & BL_IMAGE_CODEC_FEATURE_READ), "features of '%s' are %X", o.name, unsigned(k.features())); std::string w = std::string(o.ext) + "|"; std::vector<std::string> es; for (size_t a = 0, b; (b = w.find('|', a)) != std::string::npos; a = b + 1) es.push_back(w.substr(a, b - a)); std::string e = es[c.below(es.size())]; BLImageCodec q; REQUIRE(c, q.find_by_extension(e.c_str()) == BL_SUCCESS && q == k, "extension '%s' isn't found as '%s' (extensions '%s')", e.c_str(), o.name, str(k.extensions()).c_str()); BLImageEncoder enc; REQUIRE(c, (k.create_encoder(&enc) == BL_SUCCESS) == o.write, "encoder of '%s'", o.name); BLImageDecoder dec; REQUIRE(c, k.create_decoder(&dec) == BL_SUCCESS, "decoder of '%s'", o.name); } }
  int nc = int(c.range(1, 5)); for (int i = 0; i < nc; i++) { all.push_back(make(c, i)); made++; c.note("codec %zu: '%s' ext '%s' sig %d score %u", all.size() - 1, all.back().name.c_str(), all.back().ext.c_str(), all.back().sig_size, all.back().score); }
  std::vector<int> lst; BLArray<BLImageCodec> list; int ops = int(c.range(4, 50)), found = 0, none = 0, changes = 0;
  for (int op = 0; op < ops; op++) { int i = int(c.below(all.size())); Cod& x = all[size_t(i)]; bool own = c.chance(1, 3); const std::vector<int>& set = own ? lst : reg; const BLArray<BLImageCodec>* codecs = own ? &list : nullptr; BLImageCodec q; if (c.coin()) q = all[0].c; BLImageCodec before(q); BLResult r = BL_SUCCESS; int want = -1;
    auto match = [&](const char* what, const std::string& key) { if (want < 0) { none++; REQUIRE(c, r == BL_ERROR_IMAGE_NO_MATCHING_CODEC && q == before, "searching %s '%s' returned %u although no codec claims it", what, key.c_str(), r); } else { found++; REQUIRE(c, r == BL_SUCCESS && q == all[size_t(want)].c, "searching %s '%s' returned %u and codec '%s' instead of '%s' (%d)", what, key.c_str(), r, str(q.name()).c_str(), all[size_t(want)].name.c_str(), want); } };
    switch (c.weighted({4, 3, 5, 6, 5, 3, 1})) {
      case 0: { bool in = false; for (int k : reg) in |= k == i; r = BLImageCodec::add_to_built_in(x.c); c.note("add %d", i); REQUIRE(c, r == (in ? BL_ERROR_ALREADY_EXISTS : BL_SUCCESS), "adding a codec returned %u", r); if (!in) reg.push_back(i); changes++; break; }
      case 1: { bool in = false; size_t at = 0; for (size_t k = 0; k < reg.size(); k++) if (reg[k] == i) { in = true; at = k; } r = BLImageCodec::remove_from_built_in(x.c); c.note("remove %d", i); REQUIRE(c, r == (in ? BL_SUCCESS : BL_ERROR_NO_ENTRY), "removing a codec returned %u", r); if (in) reg.erase(reg.begin() + long(at)); changes++; break; }
      case 2: { std::string key = c.chance(1, 6) ? c.pickl<const char*>({"", "none", "PNGX", "png"}) : x.name; for (int k : set) if (want < 0 && !key.empty() && all[size_t(k)].name == key) want = k; c.note("find name '%s'", key.c_str()); if (c.coin()) r = codecs ? q.find_by_name(BLStringView{key.data(), key.size()}, *codecs) : q.find_by_name(BLStringView{key.data(), key.size()}); else r = codecs ? q.find_by_name(key.c_str(), *codecs) : q.find_by_name(key.c_str()); match("name", key); break; }
      case 3: { std::string e; { std::vector<std::string> es; std::string w = x.ext + "|"; for (size_t a = 0, b; (b = w.find('|', a)) != std::string::npos; a = b + 1) es.push_back(w.substr(a, b - a)); e = es[c.below(es.size())]; } if (c.chance(1, 6)) e = c.pickl<const char*>({"none", "pn", "pngx", "j", "a|b"}); if (c.chance(1, 3)) for (char& k : e) if (c.chance(1, 3)) k = char(c.coin() ? toupper(k) : tolower(k)); std::string key = e; switch (c.below(5)) { case 0: key = "." + e; break; case 1: key = "file." + e; break; case 2: key = "/a.png/b.c." + e; break; case 3: key = "x.tar." + e; break; default: break; } if (e.find('.') != std::string::npos) break; for (int k : set) if (want < 0 && !e.empty() && claims(all[size_t(k)].ext, e)) want = k; c.note("find extension '%s'", key.c_str()); if (c.coin()) r = codecs ? q.find_by_extension(BLStringView{key.data(), key.size()}, *codecs) : q.find_by_extension(BLStringView{key.data(), key.size()}); else r = codecs ? q.find_by_extension(key.c_str(), *codecs) : q.find_by_extension(key.c_str()); match("extension", key); break; }
      case 4: { std::vector<uint8_t> d; static const std::vector<std::vector<uint8_t>> heads = {{'B', 'M'}, {0xFF, 0xD8, 0xFF, 0xE0}, {0x89, 'P', 'N', 'G', 13, 10, 26, 10}, {'q', 'o', 'i', 'f'}}; static const char* names[] = {"BMP", "JPEG", "PNG", "QOI"}; int real = -1; if (x.builtin >= 0 && c.chance(3, 4)) { for (int k = 0; k < 4; k++) if (x.name == names[k]) real = k; BLImage im(int(c.range(1, 5)), int(c.range(1, 5)), BL_FORMAT_PRGB32); if (real >= 0 && (x.c.features() & BL_IMAGE_CODEC_FEATURE_WRITE)) { BLImageData id; im.make_mutable(&id); memset(id.pixel_data, 0, size_t(id.stride) * size_t(im.height())); BLArray<uint8_t> o; REQUIRE(c, im.write_to_data(o, x.c) == BL_SUCCESS, "encoding failed"); d.assign(o.data(), o.data() + o.size()); } else if (real >= 0) { d = heads[size_t(real)]; real = -1; } } else { d.assign(x.sig, x.sig + 4); d.resize(size_t(c.below(9))); } if (c.chance(1, 10)) { d.resize(std::min(d.size(), size_t(c.below(9)))); real = -1; }
        uint32_t best = 0; for (int k : set) { uint32_t s = all[size_t(k)].c.inspect_data(d.data(), d.size()); if (all[size_t(k)].builtin < 0) REQUIRE(c, s == (d.size() >= size_t(all[size_t(k)].sig_size) && !memcmp(d.data(), all[size_t(k)].sig, size_t(all[size_t(k)].sig_size)) ? all[size_t(k)].score : 0), "inspect_data doesn't return the codec's score"); if (real >= 0 && all[size_t(k)].builtin >= 0) { bool same = all[size_t(k)].name == names[real]; REQUIRE(c, (s > 0) == same, "codec '%s' gives %s data score %u", all[size_t(k)].name.c_str(), names[real], s); } if (s > best) { best = s; want = k; } } c.note("find data of %zu bytes", d.size()); r = codecs ? q.find_by_data(d.data(), d.size(), *codecs) : q.find_by_data(d.data(), d.size()); match("data", x.name); break; }
      case 5: { switch (c.below(3)) { case 0: list.append(x.c); lst.push_back(i); break; case 1: if (!lst.empty()) { size_t k = c.below(lst.size()); list.remove(k); lst.erase(lst.begin() + long(k)); } break; default: list = BLImageCodec::built_in_codecs(); lst = reg; break; } break; }
      default: { BLImageCodec d; REQUIRE(c, BLImageCodec(d).inspect_data(x.sig, 4) == 0 && !d.is_valid(), "a default codec recognises data"); BLImageDecoder dec; BLImageEncoder enc; REQUIRE(c, d.create_decoder(&dec) != BL_SUCCESS && d.create_encoder(&enc) != BL_SUCCESS, "a default codec creates decoders"); break; } }
    BLArray<BLImageCodec> b = BLImageCodec::built_in_codecs(); REQUIRE(c, b.size() == reg.size(), "%zu codecs are registered instead of %zu", b.size(), reg.size()); for (size_t k = 0; k < b.size(); k++) REQUIRE(c, b[k] == all[size_t(reg[k])].c, "codec %zu of the registry is '%s' instead of '%s'", k, str(b[k].name()).c_str(), all[size_t(reg[k])].name.c_str()); REQUIRE(c, list.size() == lst.size(), "the list has another size"); }
  c.nontrivial(found > 0 && changes > 0); c.label(none > 0, "no match"); REQUIRE(c, destroyed == 0, "a codec was destroyed early"); }
  REQUIRE(c, destroyed == made, "%d of %d codecs were destroyed", destroyed, made); REQUIRE(c, at::live <= live0 + 1, "%ld memory blocks stay allocated", long(at::live - live0));
}
int main(int argc, char** argv) {
  pbt::Suite s("C34", "Non-trivial: faces were added and a query found one; codecs were registered or removed and a search found one.", argc, argv);
  s.assume("Faces that agree in name, style, weight and stretch may count as duplicates; between weight and stretch either may decide first.");
  s.add("fonts", fonts, {.quick = 20000, .thorough = 600000, .chunk = 100});
  s.add("codecs", codecs, {.quick = 20000, .thorough = 600000, .chunk = 100});
  return s.run();
}
