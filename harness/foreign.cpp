// fixture descriptions written by others: one attribute or element is missing, repeated, or has a value nobody expects
#include "gdtf.h"
#include "touch.h"
#include "docs.h"
#include "alter.h"
static std::vector<Note> touchAll(IGdtfFixturePtr& f) { IGdtfFixture* p = f; gNotes.clear(); gNotes.reserve(6000); visit(p, 1); return std::move(gNotes); }
static void sameNotes(std::vector<Note>& a, std::vector<Note>& b, const char* when = "after writing and reading again") {
  size_t k = 0; for (;; k++) { if (k >= a.size() || k >= b.size()) break;
    bool same = a[k].what == b[k].what || !strcmp(a[k].what, b[k].what); if (same) { if (a[k].number) same = a[k].v == b[k].v; else if (a[k].text.size() != b[k].text.size()) same = false; else if (memcmp(a[k].text.data(), b[k].text.data(), a[k].text.size())) same = false; }
    if (!same) { std::string l = std::string(a[k].what) + " " + when; if (sym_param("dbg", 0)) { sym_print(a[k].text.c_str(), a[k].v); sym_print(b[k].text.c_str(), b[k].v); } ASSERT(0, l.c_str()); return; } }
  std::string l = std::string("number of values ") + when; ASSERT(k >= a.size() && k >= b.size(), l.c_str()); }
// a value that is altered shows as it is or not at all: no other object takes the place of one that is missing
static void noOther(std::vector<Note>& whole, std::vector<Note>& one) {
  if (gName.empty() || gName == "Name" || gName == "Attribute" || whole.size() != one.size()) return; sym_reach("named");
  for (size_t k = 0; k < one.size(); k++) { if (strcmp(whole[k].what, one[k].what)) return; if (one[k].number || one[k].text.empty() || one[k].text == "(none)") continue;
    const std::string &a = whole[k].text, &b = one[k].text; if (a.size() == b.size() && !memcmp(a.data(), b.data(), a.size())) continue; bool is = b.size() == gValue.size() && !memcmp(b.data(), gValue.data(), b.size());
    if (!is) { if (sym_param("dbg", 0)) { sym_print(a.c_str(), k); sym_print(b.c_str(), k); } std::string l = std::string(one[k].what) + " names something else"; ASSERT(0, l.c_str()); } } }
extern "C" void sym_main() {
  unsigned part = sym_param("part", 0); std::string doc = kDocs[part]; { IGdtfFixturePtr before; readXml(before, renumbered(doc, "<FixtureType")); touchAll(before); } IGdtfFixturePtr w; readXml(w, doc); std::vector<Note> whole = touchAll(w); if (symChoose("altered", 2)) doc = altered(doc);
  IGdtfFixturePtr f; readXml(f, doc); std::vector<Note> one = touchAll(f); sym_reach("read"); noOther(whole, one); FakeZip* z = writeZip(f); ASSERT(z->files.size() == 1, "written"); IGdtfFixturePtr g; readZip(g, z); std::vector<Note> two = touchAll(g); sym_reach("again"); if (sym_param("dbg", 0)) sym_print("values", one.size()); if (!errorsOf(f)) { sym_reach("same"); sameNotes(one, two); }
  IGdtfFixturePtr h; readXml(h, doc); std::vector<Note> three = touchAll(h); sameNotes(one, three, "after reading it twice");
}
