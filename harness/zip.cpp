// Archives: what is put in comes out; damaged archives are handled without harm.
#include "mvr.h"
#include "Interface/IZIPFile.h"
#include "Wrapper/ZIPFileImpl.h"
typedef VCOMPtr<IZIPFile> Zip; typedef std::vector<std::pair<std::string, std::string>> Files;
static void buf(CZIPFileIOBufferImpl& b, const std::string& s) { b.SetData((void*)s.data(), s.size()); }
static std::string text(CZIPFileIOBufferImpl& b) { size_t n = 0; b.GetDataSize(n); std::string r(n, 0); if (n) b.CopyDataInto(&r[0], n); return r; }
static IFileIdentifierPtr file(const char* n) { IFileIdentifierPtr f(IID_FileIdentifier); f->Set(scratch(n).c_str()); return f; }
static void content(Zip& z, const Files& want, const char* what) {
  std::string at, next; size_t k = 0;
  while (VCOM_SUCCEEDED(z->GetNextFile(at, next))) { ASSERT(k < want.size(), "file added"); ASSERT(eqs(next, want[k].first), "name"); CZIPFileIOBufferImpl b; ASSERT(VCOM_SUCCEEDED(z->GetFile(next, &b)), "file"); ASSERT(eqs(text(b), want[k].second), "content"); SZIPFileInfo i; ASSERT(VCOM_SUCCEEDED(z->GetFileInfo(next, i)) && i.dwUncompressedSize == want[k].second.size(), "size"); at = next; k++; }
  ASSERT(k == want.size(), "file lost"); CZIPFileIOBufferImpl b; SZIPFileInfo i; ASSERT(VCOM_FAILED(z->GetFile("missing", &b)), "missing file"); ASSERT(VCOM_FAILED(z->GetFileInfo("missing", i)), "missing file");
}
static void roundtrip() {
  bool compress = symChoose("compress", 2); unsigned n = 1 + symChoose("files", sym_param("files", 3)); Files w;
  for (unsigned k = 0; k < n; k++) {
    std::string name = k == 0 ? "x" : k == 1 ? "models/3ds/body.3ds" : "x.y"; std::string c;
    if (k == n - 1) { unsigned len = symChoose("size", sym_param("maxsize", 4)); c.resize(len); if (len) sym_bytes(&c[0], len, "content"); uint8_t s = symU8("name"); ASSUME(sym_and(s >= 32, s <= 126)); name += (char)s; if (k) name += "q"; } else c = k ? "" : std::string("PK\5\6", 4) + std::string(3000, 'b');
    w.push_back({name, c});
  }
  IFileIdentifierPtr f = file("t.zip"); Zip z(IID_ZIPFile); ASSERT(VCOM_SUCCEEDED(z->OpenNewWrite(f, compress)), "open for writing");
  for (auto& p : w) { CZIPFileIOBufferImpl b; buf(b, p.second); ASSERT(VCOM_SUCCEEDED(z->AddFile(p.first.c_str(), &b)), "add"); for (char& ch : p.first) if (ch == '\\') ch = '/'; }
  { CZIPFileIOBufferImpl b; buf(b, "other"); ASSERT(VCOM_FAILED(z->AddFile(w[0].first.c_str(), &b)), "file added twice"); }
  char* p = nullptr; size_t len = 0; z->ToBuffer(p, len); std::string mem(p, len); delete[] p; ASSERT(VCOM_SUCCEEDED(z->Close()), "close"); sym_reach("written");
  Zip r(IID_ZIPFile); ASSERT(VCOM_SUCCEEDED(r->OpenRead(f)), "open"); content(r, w, "file"); r->Close();
  Zip q(IID_ZIPFile); ASSERT(VCOM_SUCCEEDED(q->OpenRead(mem.data(), mem.size())), "open"); content(q, w, "buffer"); q->Close(); sym_reach("roundtrip");
}
// an archive damaged at one place is read to its end without harm
static void damaged() {
  bool compress = symChoose("compress", 2); Files w = {{"a", "Hi"}, {"b", "x"}}; IFileIdentifierPtr f = file("t.zip"); Zip z(IID_ZIPFile); z->OpenNewWrite(f, compress);
  for (auto& p : w) { CZIPFileIOBufferImpl b; buf(b, p.second); z->AddFile(p.first.c_str(), &b); } char* p = nullptr; size_t len = 0; z->ToBuffer(p, len); std::string mem(p, len); delete[] p; z->Close();
  size_t local = len - 22 - 2 * 47, from[5] = {0, local, local + 47, local + 94, len}; unsigned how = symChoose("how", 5), width = sym_param("width", 1); // a place in the files, the first or second directory entry, the end record; or bytes missing
  size_t at0 = 0, second = mem.find("PK\3\4", 4); ASSERT(second < local, "layout");
  if (how < 4) { at0 = from[how] + symChoose("place", from[how + 1] - from[how] - width + 1); sym_bytes(&mem[at0], width, "bytes"); } else if (symChoose("cut", 2)) mem.resize(symChoose("length", len)); else mem.erase(symChoose("place", len - 1), 1 + symChoose("removed", 4));
  Zip r(IID_ZIPFile); sym_reach("damaged"); bool open = VCOM_SUCCEEDED(r->OpenRead(mem.data(), mem.size())); if (how == 0) ASSERT(open, "directory intact"); if (!open) return;
  std::string at, next; size_t k = 0;
  while (VCOM_SUCCEEDED(r->GetNextFile(at, next))) {
    ASSERT(++k <= mem.size() / 46, "endless list"); CZIPFileIOBufferImpl b; SZIPFileInfo i; r->GetFileInfo(next, i); bool got = VCOM_SUCCEEDED(r->GetFile(next, &b)); size_t n = 0; if (got) { b.GetDataSize(n); ASSERT(n <= mem.size(), "size"); }
    if (how == 0) { ASSERT(k <= 2 && eqs(next, w[k - 1].first), "listed name"); if (k == 1 ? at0 >= second : at0 + width <= second) { ASSERT(got, "intact file"); ASSERT(eqs(text(b), w[k - 1].second), "intact content"); sym_reach("intact"); } }
    at = next; }
  if (how == 0) ASSERT(k == 2, "listed");
  CZIPFileIOBufferImpl b; r->GetFile("a", &b); r->GetFile("missing", &b); r->Close();
}
extern "C" void sym_main() { PART(0) roundtrip(); PART(1) damaged(); }
