// Shared by the fixture-file harnesses: an in-memory archive stand-in (no compression), and a description that is set, checked, written, read and checked again.
#pragma once
#include "common.h"
#include "Implementation/CGdtfFixture.h"
#include <cmath>
struct FakeZip : VCOMImpl<IZIPFile> {
  std::vector<std::pair<std::string, std::string>> files; bool closed = false; FakeZip() { AddRef(); AddRef(); }
  VCOMError VCOM_CALLTYPE OpenRead(IFileIdentifier*) { return kVCOMError_NoError; } VCOMError VCOM_CALLTYPE OpenRead(const char*, size_t) { return kVCOMError_NoError; } VCOMError VCOM_CALLTYPE OpenWrite(IFileIdentifier*) { return kVCOMError_NoError; } VCOMError VCOM_CALLTYPE OpenNewWrite(IFileIdentifier*, bool) { return kVCOMError_NoError; }
  VCOMError VCOM_CALLTYPE Close() { closed = true; return kVCOMError_NoError; } VCOMError VCOM_CALLTYPE ToBuffer(char*&, size_t&) { return kVCOMError_Failed; } VCOMError VCOM_CALLTYPE GetSize(Uint64&) { return kVCOMError_Failed; }
  VCOMError VCOM_CALLTYPE GetNextFile(const std::string& p, std::string& out) { size_t k = 0; if (!p.empty()) { while (k < files.size() && files[k].first != p) k++; k++; } if (k >= files.size()) return kVCOMError_Failed; out = files[k].first; return kVCOMError_NoError; }
  VCOMError VCOM_CALLTYPE GetNextFile(const std::string&, const std::string&, std::string&) { return kVCOMError_Failed; } VCOMError VCOM_CALLTYPE GetFileInfo(const std::string&, SZIPFileInfo&) { return kVCOMError_Failed; }
  VCOMError VCOM_CALLTYPE GetFile(const std::string& p, IZIPFileIOBuffer* b) { for (auto& f : files) if (f.first == p) { b->SetData((void*)f.second.data(), f.second.size()); return kVCOMError_NoError; } return kVCOMError_Failed; } VCOMError VCOM_CALLTYPE GetFile(const std::string&, IFileIdentifier*) { return kVCOMError_Failed; }
  VCOMError VCOM_CALLTYPE AddFile(const TXString& p, IZIPFileIOBuffer* b) { size_t n = 0; b->GetDataSize(n); std::string s(n, 0); if (n) b->CopyDataInto(&s[0], n); files.push_back({str(p), s}); return kVCOMError_NoError; }
  VCOMError VCOM_CALLTYPE AddFile(const TXString&, IFileIdentifier*) { return kVCOMError_Failed; } VCOMError VCOM_CALLTYPE RemoveFile(const TXString&) { return kVCOMError_Failed; }
};
static inline CGdtfFixtureImpl* impl(IGdtfFixturePtr& f) { IGdtfFixture* p = f; return static_cast<CGdtfFixtureImpl*>(p); }
static inline void newFixture(IGdtfFixturePtr& f, const char* name = "Fixture", const char* manufacturer = "Maker") { f = IGdtfFixturePtr(IID_IGdtfFixture); GdtfFixture* o = new GdtfFixture(); o->SetName(name); o->SetManufacturer(manufacturer); o->SetGuid(VWUUID((Uint32)1, (Uint32)2, (Uint32)3, (Uint32)4)); impl(f)->fFixtureObject = o; }
static inline FakeZip* writeZip(IGdtfFixturePtr& f) { FakeZip* z = new FakeZip(); IZIPFilePtr zp; IZIPFile** pp = &zp; *pp = z; impl(f)->fFixtureObject->ExportToFile(zp); z->AddRef(); return z; }
static inline void readZip(IGdtfFixturePtr& f, FakeZip* z) { f = IGdtfFixturePtr(IID_IGdtfFixture); GdtfFixture* o = new GdtfFixture(); impl(f)->fFixtureObject = o; z->AddRef(); IZIPFilePtr zp; IZIPFile** pp = &zp; *pp = z; o->ImportFromZip(zp); }
static inline void readXml(IGdtfFixturePtr& f, const std::string& xml) { FakeZip* z = new FakeZip(); z->AddRef(); z->files.push_back({"description.xml", xml}); readZip(f, z); }
static inline size_t errorsOf(IGdtfFixturePtr& f) { return impl(f)->fFixtureObject->GetParsingErrorArray().size(); }
struct Walk {
  int phase = 0; std::vector<uint64_t> num; std::vector<std::string> txt; size_t ni = 0, ti = 0; unsigned pick = 0, used = 0, focus = 0, fields = 0, extreme = 0, reals = 0; // of the integer and text fields, the one with index focus is arbitrary on a path, the others have fixed, different values
  void next() { phase++; ni = ti = 0; used = 0; }
  uint64_t n() { return num[ni++]; } const std::string& t() { return txt[ti++]; }
  double newF(const char* nm, double lo = 0, double hi = 0) { if (extreme == 1 && lo >= hi) { static const double kReal[] = {1e25, -1.5e300, 0.1, -0.000123, 4294967296.5, -16777217, 123456789.123456, 0, 1e-7}; double d = kReal[reals++ % 9]; num.push_back(dbits(d)); return d; }
    double d = symF64(nm); ASSUME((dbits(d) >> 52 & 0x7FF) != 0x7FF); if (lo < hi) ASSUME(sym_and(d >= lo, d <= hi)); num.push_back(dbits(d)); return d; }
  double oldF() { union { uint64_t u; double d; } x; x.u = n(); return x.d; }
  void sameF(double got, const char* nm) { double w = oldF(); uint64_t e = phase == 1 ? dbits(w) : dbits(sym_r6(w)); ASSERT(sym_or(dbits(got) == e, sym_and(dbits(got) << 1 == 0, e << 1 == 0)), nm); }
  uint64_t newId(const char* nm) { uint64_t v = 9 + fields; if (fields++ == focus) v = 0xA1B2C300u | symU8(nm); num.push_back(v); return v; }
  uint64_t newU(const char* nm, unsigned bits) { uint64_t v = 8 + fields; if (extreme && extreme < 3) { static const uint32_t k32[] = {0x7FFFFFFF, 0x80000000u, 16777217, 0xFFFFFFFFu, 0, 65536}; static const uint64_t k64[] = {0xFFFFFFFFull, 16777217, 0, 1ull << 32, 1ull << 40}; static const uint16_t k16[] = {65535, 0, 32768, 255}; unsigned k = fields++ + 2 * (extreme - 1); v = bits == 64 ? k64[k % 5] : bits == 32 ? k32[k % 6] : bits == 16 ? k16[k % 4] : k % 2 ? 255 : 0; num.push_back(v); return v; } if (fields++ == focus) { v = __sym_int(nm, bits); // all values of the converters are covered by their own checks
    if (bits == 64) ASSUME(v < 1000000); if (bits == 32 && !sym_param("wide", 0)) ASSUME((uint32_t)(v + 2000) < 4000); } num.push_back(v); return v; }
  // numbers written in hexadecimal: 16 bits, four arbitrary ones
  uint64_t newX(const char* nm) { static const uint16_t k[] = {65535, 0, 0x8000, 0xABCD, 0x10, 0x0FFF}; uint64_t v = extreme && extreme < 3 ? k[(fields + extreme) % 6] : 0x9A00 + fields; if (fields++ == focus) v = (v & 0xFF0F) | (symU8(nm) & 0xF0); num.push_back(v); return v; }
  unsigned newE(unsigned count) { unsigned v = (pick + used++) % count; num.push_back(v); return v; }
  void same(uint64_t got, const char* nm) { uint64_t w = n(); ASSERT(got == w, nm); }
  std::string newT(const char* nm) { if (extreme) { std::string s = extreme == 1 ? "" : extreme == 2 ? " \"<&>' ;/\\{}" + std::to_string(txt.size()) + "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80 &amp; " : std::string(300, 'l') + std::to_string(txt.size()); fields++; txt.push_back(s); return s; }
    std::string s = "T" + std::to_string(txt.size()) + "_"; if (fields++ == focus) { uint8_t c = symU8(nm); ASSUME(sym_and(c >= 32, c <= 126)); s += (char)c; s += "x"; } else s += "y"; txt.push_back(s); return s; }
  void sameT(const char* got, const char* nm) { ASSERT(eqs(got, t()), nm); }
};
// chooses the variant and the arbitrary field; three variants have extreme values everywhere (1: empty texts, extreme numbers, 2: texts of special characters, other extreme numbers, 3: long texts)
static inline void vary(Walk& w, unsigned picks, unsigned fields) { unsigned k = symChoose("variant", picks + fields + 3); w.pick = k < picks ? k : 1 % picks; w.focus = k < picks || k >= picks + fields ? 9999 : k - picks; if (k >= picks + fields) { w.extreme = 1 + k - picks - fields; w.pick = w.extreme % picks; } }
static inline void good(VCOMError e, const char* nm) { ASSERT(VCOM_SUCCEEDED(e), nm); }
#define F64(o, N) do { if (!w.phase) good(o->Set##N(w.newF(#N)), #N); else { double g_ = 0; good(o->Get##N(g_), #N); w.sameF(g_, #N); } } while (0)
#define UINT(o, N, T) do { if (!w.phase) good(o->Set##N((T)w.newU(#N, sizeof(T) * 8)), #N); else { T g_ = 0; good(o->Get##N(g_), #N); w.same((uint64_t)g_ & (sizeof(T) == 8 ? ~0ull : (1ull << (sizeof(T) * 8 % 64)) - 1), #N); } } while (0)
#define HEX(o, N) do { if (!w.phase) good(o->Set##N(w.newX(#N)), #N); else { size_t g_ = 0; good(o->Get##N(g_), #N); w.same(g_, #N); } } while (0)
#define ENUM(o, N, T, count) do { if (!w.phase) { T v_ = (T)w.newE(count); good(o->Set##N(v_), #N); } else { T g_ = (T)-1; good(o->Get##N(g_), #N); w.same((uint64_t)g_, #N); } } while (0)
#define FLAG(o, N) do { if (!w.phase) good(o->Set##N(w.newE(2)), #N); else { bool g_ = false; good(o->Get##N(g_), #N); w.same(g_, #N); } } while (0)
#define TEXT(o, N) do { if (!w.phase) { std::string s_ = w.newT(#N); good(o->Set##N(s_.c_str()), #N); } else w.sameT(o->Get##N(), #N); } while (0)
// colours survive within the six printed decimals of each component
#define COLOR(o, N) do { CieColor c_; if (!w.phase) { c_.fx = w.newF(#N "x"); c_.fy = w.newF(#N "y"); c_.f_Y = w.newF(#N "Y"); good(o->Set##N(c_), #N); } else { good(o->Get##N(c_), #N); w.sameF(c_.fx, #N); w.sameF(c_.fy, #N); w.sameF(c_.f_Y, #N); } } while (0)
#define OBJ(P, v, create, get) P v; if (!w.phase) good(create, #create); else good(get, #get)
#define COUNT(o, N, k) do { if (w.phase) { size_t c_ = 99; good(o->Get##N##Count(c_), #N "Count"); ASSERT(c_ == (k), #N " count"); } } while (0)
#define NAME(o, s) do { if (w.phase) ASSERT(std::string(o->GetName()) == (s), "name"); } while (0)
// sets the description up, checks it, writes it, reads it back and checks it again
template<class F> static inline void roundTrip(Walk& w, IGdtfFixturePtr& f, F walk, size_t errors = 0) { walk(f); if (sym_param("dbg", 0)) sym_print("fields", w.fields); sym_reach("set up"); w.next(); walk(f); FakeZip* z = writeZip(f); ASSERT(z->files.size() == 1 && z->files[0].first == "description.xml", "description file"); IGdtfFixturePtr g; readZip(g, z); w.next(); walk(g); if (sym_param("dbg", 0)) for (auto& e_ : impl(g)->fFixtureObject->GetParsingErrorArray()) { sym_print((std::string("error in ") + str(e_.GetNodeName())).c_str(), (uint64_t)e_.GetError()); sym_print("pick", w.pick); }
  ASSERT(errorsOf(g) == errors, "errors reported for a written file");
  FakeZip* z2 = writeZip(g); if (sym_param("again", 1)) { IGdtfFixturePtr h; readZip(h, z2); w.next(); w.phase = 2; walk(h); } }
