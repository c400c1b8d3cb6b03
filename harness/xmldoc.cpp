// XML document layer: values and structure survive write -> read; malformed documents are refused without harm.
#include "common.h"
#include "rapidxmlsupport/XMLFileImpl.h"
using namespace VectorworksMVR::Filing;
static std::string text(IXMLFilePtr& f) { IXMLFileIOBufferImpl b; f->WriteBuffer(&b, eXMLEncoding_UTF8); void* p = nullptr; b.GetData(p); size_t n; b.GetDataSize(n); return std::string((const char*)p, n); }
static VCOMError parse(IXMLFilePtr& f, const std::string& s) { IXMLFileIOBufferImpl b; b.SetData((void*)s.data(), s.size()); return f->ReadBuffer(&b, eXMLEncoding_UTF8); }
static std::string symChars(const char* nm, unsigned n, int kind) { std::string s; for (unsigned k = 0; k < n; k++) { char b[8]; b[0] = nm[0]; b[1] = '0' + k; b[2] = 0; uint8_t c = symU8(b); if (kind == 0) ASSUME(sym_or(sym_and(c >= 32, c < 127), sym_or(c == '\t', c == '\n'))); else if (kind == 1) ASSUME(sym_and(c != 0, c != '\r')); else if (kind == 3) ASSUME(c != 0); else ASSUME(sym_and(c > 32, c < 127)); s += (char)c; } return s; }
static std::string attr(IXMLFileNodePtr& n, const char* a, bool& has) { TXString v; has = VCOM_SUCCEEDED(n->GetNodeAttributeValue(a, v)); return str(v); }
extern "C" void sym_main() {
  Errors err; unsigned N = (unsigned)sym_param("len", 4);
  PART(0) { // attribute values
    std::string a = symChars("a", symChoose("na", N + 1), 0), b = symChars("b", symChoose("nb", 2), 0); if (symChoose("wide", 2)) a += "\xC3\xA4"; IXMLFilePtr f(IID_XMLFile); f->CreateNew("Root"); IXMLFileNodePtr r; f->GetRootNode(&r); r->SetNodeAttributeValue("Name", "old"); r->SetNodeAttributeValue("Name", TXString(a.c_str())); r->SetNodeAttributeValue("Other", TXString(b.c_str())); IXMLFileNodePtr c; r->CreateChildNode("Child", &c); c->SetNodeAttributeValue("Name", TXString(b.c_str()));
    bool h; ASSERT(eqs(attr(r, "Name", h), a), "value before writing"); std::string t = text(f); IXMLFilePtr g(IID_XMLFile); ASSERT(VCOM_SUCCEEDED(parse(g, t)), "written document can be read"); IXMLFileNodePtr r2; ASSERT(VCOM_SUCCEEDED(g->GetRootNode(&r2)), "root"); TXString nm; r2->GetNodeName(nm); ASSERT(str(nm) == "Root", "root name");
    ASSERT(eqs(attr(r2, "Name", h), a) && h, "attribute value"); ASSERT(eqs(attr(r2, "Other", h), b) && h, "second attribute value"); attr(r2, "Missing", h); ASSERT(!h, "missing attribute"); IXMLFileNodePtr c2; ASSERT(VCOM_SUCCEEDED(r2->GetChildNode("Child", &c2)), "child"); ASSERT(eqs(attr(c2, "Name", h), b), "child attribute"); TXStringArray names; r2->GetNodeAttributes(names); ASSERT(names.size() == 2 && names[0] == "Name" && names[1] == "Other", "attribute list"); ASSERT(err.n() == 0, "no error"); bool e = true; r2->IsEmpty(e); ASSERT(!e, "node is not empty"); REACH("attributes"); }
  PART(1) { // element text
    std::string a = symChars("a", symChoose("na", N + 1), 0); uint8_t first = symU8("first"); ASSUME(sym_and(first > 32, first < 127)); if (symChoose("lead", 2)) a = std::string(1, (char)first) + a; else a += (char)first; IXMLFilePtr f(IID_XMLFile); f->CreateNew("Root"); IXMLFileNodePtr r; f->GetRootNode(&r); IXMLFileNodePtr c; r->CreateChildNode("Text", &c); c->SetNodeValue(TXString(a.c_str())); std::string t = text(f); IXMLFilePtr g(IID_XMLFile); ASSERT(VCOM_SUCCEEDED(parse(g, t)), "written document can be read"); IXMLFileNodePtr r2; g->GetRootNode(&r2); IXMLFileNodePtr c2; r2->GetChildNode("Text", &c2); TXString v; c2->GetNodeValue(v); ASSERT(eqs(str(v), a), "element text"); TXString rv("x"); r2->GetNodeValue(rv); ASSERT(rv.IsEmpty(), "no text"); REACH("text"); }
  PART(2) { // structure
    unsigned n = 2 + symChoose("nodes", (unsigned)sym_param("nodes", 4) - 1); IXMLFilePtr f(IID_XMLFile); f->CreateNew("R"); std::vector<IXMLFileNodePtr> nodes(n); std::vector<int> par(n, -1), nam(n, 0); f->GetRootNode(&nodes[0]); static const char* const nms[] = {"A", "B"};
    for (unsigned k = 1; k < n; k++) { par[k] = symChoose("parent", k); nam[k] = symChoose("name", 2); nodes[par[k]]->CreateChildNode(nms[nam[k]], &nodes[k]); char id[3] = {'n', (char)('0' + k), 0}; nodes[k]->SetNodeAttributeValue("id", id); }
    std::string t = text(f); IXMLFilePtr g(IID_XMLFile); parse(g, t); std::vector<IXMLFileNodePtr> got(n); g->GetRootNode(&got[0]); bool h;
    for (unsigned p = 0; p < n; p++) { std::vector<int> kids; for (unsigned k = 1; k < n; k++) if (par[k] == (int)p) kids.push_back(k); IXMLFileNodePtr cur; bool ok = VCOM_SUCCEEDED(got[p]->GetFirstChildNode(&cur)); ASSERT(ok == !kids.empty(), "has children"); size_t q = 0; while (ok && q < kids.size()) { char id[3] = {'n', (char)('0' + kids[q]), 0}; ASSERT(attr(cur, "id", h) == id, "child in order"); TXString nm; cur->GetNodeName(nm); ASSERT(str(nm) == nms[nam[kids[q]]], "child name"); IXMLFileNodePtr up; ASSERT(VCOM_SUCCEEDED(cur->GetParentNode(&up)), "has parent"); std::string pid = attr(up, "id", h); char want[3] = {'n', (char)('0' + p), 0}; ASSERT(p == 0 ? !h : pid == want, "parent"); got[kids[q]] = cur; IXMLFileNodePtr nx; ok = VCOM_SUCCEEDED(cur->GetNextSiblingNode(&nx)); if (ok) { IXMLFileNodePtr pv; ASSERT(VCOM_SUCCEEDED(nx->GetPrevSiblingNode(&pv)) && attr(pv, "id", h) == id, "previous sibling"); } cur = nx; q++; } ASSERT(q == kids.size() && !ok, "number of children");
      if (!kids.empty()) { IXMLFileNodePtr last; got[p]->GetLastChildNode(&last); char id[3] = {'n', (char)('0' + kids.back()), 0}; ASSERT(attr(last, "id", h) == id, "last child"); }
      for (int m = 0; m < 2; m++) { int w = -1; for (int k : kids) if (nam[k] == m) { w = k; break; } IXMLFileNodePtr c; bool f2 = VCOM_SUCCEEDED(got[p]->GetChildNode(nms[m], &c)); ASSERT(f2 == (w >= 0), "child by name"); if (f2) { char id[3] = {'n', (char)('0' + w), 0}; ASSERT(attr(c, "id", h) == id, "first child of the name"); } } } REACH("structure"); }
  PART(3) { // character references and entities
    unsigned kind = symChoose("kind", 3); std::string body, want; if (kind == 0) { static const char* const ent[] = {"&lt;", "&gt;", "&amp;", "&quot;", "&apos;"}; static const char val[] = "<>&\"'"; unsigned k = symChoose("entity", 5); body = ent[k]; want = std::string(1, val[k]); }
    else { uint32_t c = 0; unsigned n = 1 + symChoose("digits", kind == 1 ? (unsigned)sym_param("hex", 3) : 3); bool up = symChoose("upper", 2); body = kind == 1 ? "&#x" : "&#"; for (unsigned k = 0; k < n; k++) { char b[4] = "d0"; b[1] += k; uint8_t d = symU8(b); if (kind == 1) { ASSUME(d < 16); body += (char)sym_ite(d < 10, '0' + d, (up ? 'A' : 'a') + d - 10); c = c * 16 + d; } else { ASSUME(d < 10); body += (char)('0' + d); c = c * 10 + d; } } body += ';'; ASSUME(c != 0); ASSUME(sym_or(c < 0xD800, c > 0xDFFF)); ASSUME(c != 13); if (c < 0x80) want += (char)c; else if (c < 0x800) { want += (char)(0xC0 | c >> 6); want += (char)(0x80 | (c & 63)); } else { want += (char)(0xE0 | c >> 12); want += (char)(0x80 | ((c >> 6) & 63)); want += (char)(0x80 | (c & 63)); } }
    IXMLFilePtr g(IID_XMLFile); ASSERT(VCOM_SUCCEEDED(parse(g, "<R a=\"x" + body + "y\"/>")), "document read"); IXMLFileNodePtr r; g->GetRootNode(&r); bool h; ASSERT(eqs(attr(r, "a", h), "x" + want + "y"), "character reference"); REACH("reference"); }
  PART(4) { // malformed: any characters at the start, inside a tag, inside a value, in the text
    static const char* const pre[] = {"", "<R", "<R a=\"", "<R a='1' ", "<R>", "<R><", "<R></", "<!", "<?xml", "<R><!--", "<R><![CDATA[", "<R>&", "<R>&#", "<R><A></A>", "\xEF\xBB"}; unsigned k = symChoose("prefix", sizeof pre / sizeof *pre); std::string t = pre[k]; t += symChars("c", symChoose("n", (unsigned)sym_param("free", 3) + 1), 3); t += symChoose("tail", 2) ? "></R>" : "";
    IXMLFilePtr g(IID_XMLFile); size_t before = err.n(); try { bool ok = VCOM_SUCCEEDED(parse(g, t)); ASSERT(err.n() == before + (ok ? 0 : 1), "refused documents are reported once"); IXMLFileNodePtr r; bool root = VCOM_SUCCEEDED(g->GetRootNode(&r)); if (ok && root) { std::string again = text(g); IXMLFilePtr g2(IID_XMLFile); ASSERT(again.size() > 0, "written again"); } REACH("malformed"); } catch (...) { sym_fail("exception for malformed XML"); } }
  PART(5) { // cut off documents
    std::string full = "<?xml version=\"1.0\"?><GDTF v=\"1\"><A b='2'>t&amp;x</A><!-- c --></GDTF>"; size_t n = symChoose("cut", full.size() + 1); IXMLFilePtr g(IID_XMLFile); size_t before = err.n(); bool ok = VCOM_SUCCEEDED(parse(g, full.substr(0, n))); IXMLFileNodePtr r; bool root = VCOM_SUCCEEDED(g->GetRootNode(&r)); ASSERT((ok && root) == (n == full.size()), "only the complete document is accepted"); ASSERT(err.n() == before + (ok ? 0 : 1), "reported once"); REACH("cut"); }
}
