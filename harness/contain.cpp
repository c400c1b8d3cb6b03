// What is read from an archive stays inside the working folder of the library.
#include "mvr.h"
#include "Interface/IZIPFile.h"
extern "C" void (*sym_fs_hook)(const char* path, int op);
static std::string gBase, gReadBase; static unsigned gInside;
static std::string folderPath(const char* sub) { IFolderIdentifierPtr f(IID_FolderIdentifier); f->Set(EFolderSpecifier::kSpotlightFolder, true, sub); TXString p; f->GetFullPath(p); std::string s(p.GetCharPtr()); while (!s.empty() && s.back() == '/') s.pop_back(); return s; }
// every path that is written, created or deleted lies below the working folder, also when its steps are resolved
static void hook(const char* p, int op) {
  if (!*p) return; std::string s(p); std::vector<std::string> at; size_t i = 0; while (i <= s.size()) { size_t j = i; while (j < s.size() && s[j] != '/') j++; std::string c = s.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (!at.empty()) at.pop_back(); continue; } at.push_back(c); }
  std::string n; for (auto& c : at) n += "/" + c;
  if (op == 0) { if (!gReadBase.empty()) ASSERT(n.size() > gReadBase.size() && n.compare(0, gReadBase.size(), gReadBase) == 0 && n[gReadBase.size()] == '/', "read outside the working folder"); return; }
  if (op == 2 && gBase.size() > n.size() && gBase.compare(0, n.size(), n) == 0 && gBase[n.size()] == '/') return; // the folders above the working folder may be created
  if (n == gBase) return; // the folder itself: opening it for writing always fails
  ASSERT(n.size() > gBase.size() && n.compare(0, gBase.size(), gBase) == 0 && n[gBase.size()] == '/', op == 1 ? "written outside the working folder" : op == 2 ? "folder created outside the working folder" : "deleted outside the working folder"); gInside++;
}
static void le(std::string& s, uint32_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> 8 * i); }
static std::string archive(const std::vector<std::pair<std::string, std::string>>& files) {
  std::string z, d; for (auto& f : files) {
    uint32_t at = z.size(); z += "PK\3\4"; le(z, 20, 2); le(z, 0, 2); le(z, 0, 2); le(z, 0, 4); le(z, 0, 4); le(z, f.second.size(), 4); le(z, f.second.size(), 4); le(z, f.first.size(), 2); le(z, 0, 2); z += f.first; z += f.second;
    d += "PK\1\2"; le(d, 20, 2); le(d, 20, 2); le(d, 0, 2); le(d, 0, 2); le(d, 0, 4); le(d, 0, 4); le(d, f.second.size(), 4); le(d, f.second.size(), 4); le(d, f.first.size(), 2); le(d, 0, 2); le(d, 0, 2); le(d, 0, 2); le(d, 0, 2); le(d, 0, 4); le(d, at, 4); d += f.first; }
  uint32_t at = z.size(), n = d.size(); z += d; z += "PK\5\6"; le(z, 0, 4); le(z, files.size(), 2); le(z, files.size(), 2); le(z, n, 4); le(z, at, 4); le(z, 0, 2); return z;
}
static std::string name() {
  static const char* const pre[] = {"", "a/", "a\\", "./", "..", "/", "..%2F", "a/b/c/", " .", ". ./", "%2E%2E/"}; static const char* const post[] = {"", "x", "/x", "/../x"};
  std::string s = pre[symChoose("begin", 11)]; unsigned n = sym_param("chars", 2); for (unsigned k = 0; k < n; k++) { uint8_t c = symU8("char"); ASSUME(sym_and(c >= 32, c <= 126)); s += (char)c; } return s + post[symChoose("end", 4)];
}
static void put(const std::string& path, const std::string& s) { FILE* f = fopen(path.c_str(), "wb"); ASSERT(f && fwrite(s.data(), 1, s.size(), f) == s.size(), "scratch file"); fclose(f); }
static const char kFixture[] = "<GDTF DataVersion=\"1.2\"><FixtureType Name=\"F\" FixtureTypeID=\"00000001-0002-0003-0004-000000000005\"/></GDTF>";
static void scene() {
  std::string n = name(); put(scratch("t.mvr"), archive({{"ok.txt", "1"}, {n, "2"}})); gBase = folderPath("MVR_Export"); sym_fs_hook = hook;
  { Mvr m(IID_MediaRessourceVectorInterface); m->OpenForRead(scratch("t.mvr").c_str()); ASSERT(gInside > 0, "nothing read"); sym_reach("read"); } sym_fs_hook = nullptr; sym_reach("closed");
}
static void fixture() {
  std::string n = name(); bool mem = symChoose("memory", 2); std::string z = archive({{"ok.txt", "1"}, {n, "2"}, {"description.xml", kFixture}}); put(scratch("t.gdtf"), z); gBase = folderPath("GDTFs") + "/GdtfGroup"; sym_fs_hook = hook;
  { IGdtfFixturePtr f(IID_IGdtfFixture); if (mem) f->FromBuffer(z.data(), z.size()); else f->ReadFromFile(scratch("t.gdtf").c_str()); ASSERT(gInside > 0, "nothing read"); sym_reach("read"); } sym_fs_hook = nullptr; sym_reach("closed");
}
// a fixture of a scene refers to its fixture file by name
static void spec() {
  static const char* const pre[] = {"", "../", "a/", "..", "..\\"}; std::string s = pre[symChoose("begin", 5)]; unsigned k = sym_param("chars", 2); for (unsigned i = 0; i < k; i++) { uint8_t c = symU8("char"); ASSUME(sym_and(sym_and(c >= 35, c <= 126), sym_and(c != '<', sym_and(c != '>', c != '&')))); s += (char)c; }
  bool ext = symChoose("extension", 2); std::string file = s + (ext ? ".gdtf" : "");
  std::string xml = "<GeneralSceneDescription verMajor=\"1\" verMinor=\"5\"><Scene><Layers><Layer name=\"L\" uuid=\"00000001-0002-0003-0004-000000000005\"><ChildList><Fixture name=\"F\" uuid=\"00000001-0002-0003-0004-000000000006\"><GDTFSpec>" + file + "</GDTFSpec></Fixture></ChildList></Layer></Layers></Scene></GeneralSceneDescription>";
  put(scratch("t.mvr"), archive({{"GeneralSceneDescription.xml", xml}, {s + ".gdtf", archive({{"secret", "1"}, {"description.xml", kFixture}})}})); gBase = folderPath("MVR_Export"); sym_fs_hook = hook;
  { Mvr m(IID_MediaRessourceVectorInterface); ASSERT(VCOM_SUCCEEDED(m->OpenForRead(scratch("t.mvr").c_str())), "open"); ISceneObjPtr l, o; ASSERT(VCOM_SUCCEEDED(m->GetFirstLayer(&l)) && VCOM_SUCCEEDED(m->GetFirstChild(l, &o)), "fixture");
    std::string mvr = gBase, all = folderPath("GDTFs"); gBase = all; gReadBase = mvr; gInside = 0; IGdtfFixturePtr f; bool got = VCOM_SUCCEEDED(o->GetGdtfFixture(&f)); if (got && gInside) sym_reach("fixture read");
    f = nullptr; gReadBase = ""; gBase = mvr; } sym_fs_hook = nullptr; sym_reach("closed");
}
extern "C" void sym_main() { PART(0) scene(); PART(1) fixture(); PART(2) spec(); }
