// finds the attributes and elements of a document, and alters one of them
#pragma once
struct Attr { size_t b, v, e; }; // start of the name, of the value, end of the value
struct Elem { size_t b, e; size_t name; };
struct Text { std::string s; std::vector<Attr> attrs; std::vector<Elem> elems; };
static void scan(Text& t) {
  std::vector<size_t> open; const std::string& s = t.s; for (size_t i = 0; i < s.size(); i++) if (s[i] == '<') {
    if (s[i + 1] == '?' || s[i + 1] == '!') { i = s.find('>', i); continue; }
    if (s[i + 1] == '/') { Elem& o = t.elems[open.back()]; size_t c = s.rfind('>', i) + 1; if (s.find('<', o.b + 1) == i) t.attrs.push_back({o.b, c, i}); i = s.find('>', i); o.e = i + 1; open.pop_back(); continue; }
    size_t j = i + 1; while (s[j] != ' ' && s[j] != '>' && s[j] != '/') j++; t.elems.push_back({i, 0, j}); open.push_back(t.elems.size() - 1);
    while (s[j] != '>' && s[j] != '/') { while (s[j] == ' ') j++; if (s[j] == '>' || s[j] == '/') break; Attr a; a.b = j; while (s[j] != '=') j++; a.v = j + 2; j = s.find('"', a.v); a.e = j++; t.attrs.push_back(a); }
    if (s[j] == '/') { t.elems[open.back()].e = j + 2; open.pop_back(); j++; } i = j; } }
template <class V> static V firstAndLast(const std::string& s, const V& all) { // of those with the same name
  V r; std::vector<std::string> names; for (auto& x : all) { size_t b = s.rfind('<', x.b); std::string n = s.substr(b, s.find_first_of(" />", b + 1) - b); if (x.b > b || all.empty()) n += s.substr(x.b, s.find('=', x.b) - x.b); names.push_back(n); }
  for (size_t k = 0; k < all.size(); k++) { bool first = true, last = true; for (size_t m = 0; m < all.size(); m++) if (names[m] == names[k]) { if (m < k) first = false; if (m > k) last = false; } if (first || last) r.push_back(all[k]); }
  return r; }
// the same document with other numbers: what is read must not depend on what was read before
static std::string renumbered(const std::string& doc, const char* after) { std::string s = doc; for (size_t k = s.find(after); k < s.size(); k++) { if (s[k] >= '1' && s[k] <= '9') s[k] = "732965148"[s[k] - '1']; } return s; }
static int gAltered = 0; // 0 a value, 1 an element (or its identifier) is gone, 2 an element is there twice
static size_t gAt; static bool gId; static std::string gPart, gName, gValue; //  the element altered,  where, and whether it was an identifier
static std::string altered(const std::string& doc) {
  Text t; t.s = doc; scan(t); if (!sym_param("all", 0)) { t.attrs = firstAndLast(t.s, t.attrs); t.elems = firstAndLast(t.s, t.elems); } const unsigned kinds = sym_param("all", 0) ? 10 : 6; unsigned na = (unsigned)t.attrs.size(), ne = (unsigned)t.elems.size() - 1; if (sym_param("dbg", 0)) { sym_print("attributes", na); sym_print("elements", ne); }
  unsigned of = sym_param("of", 1), k = sym_param("nth", 0); k += of * symChoose("what", (na + ne + of - 1 - k) / of); /* the jobs share the work */ std::string s = t.s;
  if (k < na) { Attr a = t.attrs[k]; gAt = a.b; if (sym_param("dbg", 0)) { size_t b = s.rfind('<', a.b); sym_print(s.substr(b, a.e + 1 - b).c_str(), 0); } static const char* other[] = {"-1", "99999999999", "{}", "NoFeature", "", "None", "1/1", ","}; unsigned how = symChoose("how", kinds); bool id = s.compare(a.b, 5, "uuid=") == 0; gId = id; if (how == 0) { if (id) gAltered = 1; if (s[a.b] == '<') s.erase(a.v, a.e - a.v); else s.erase(a.b, a.e + 1 - a.b); return s; } std::string v = how == 1 ? std::string(1, (char)symRange("character", 32, 126)) : other[how - 2]; if (id && v.empty()) gAltered = 1; if (how == 1) { char c = v[0]; ASSUME(c != '<' && c != '&' && c != '"'); } gName = s[a.b] == '<' ? "" : s.substr(a.b, a.v - 2 - a.b); gValue = v; s.replace(a.v, a.e - a.v, v); return s; }
  Elem e = t.elems[1 + k - na]; gAt = e.b; gPart = s.substr(e.b, e.e - e.b); if (sym_param("dbg", 0)) sym_print(s.substr(e.b, 90).c_str(), 0); unsigned how = symChoose("how", 4); gAltered = how == 1 ? 2 : 1; switch (how) { case 0: s.erase(e.b, e.e - e.b); break; case 1: s.insert(e.e, s.substr(e.b, e.e - e.b)); break; case 2: { std::string n = s.substr(e.b + 1, e.name - e.b - 1); std::string body = s.substr(e.b, e.e - e.b); body.replace(1, n.size(), "Unknown"); if (body[body.size() - 2] != '/') body.replace(body.size() - 1 - n.size(), n.size(), "Unknown"); s.replace(e.b, e.e - e.b, body); break; } default: { size_t c = s.find('>', e.b); if (s[c - 1] == '/') s.erase(e.b, e.e - e.b); else { size_t q = s.rfind('<', e.e - 1); s.erase(c + 1, q - c - 1); } } } // without, twice, with another name, empty
  return s; }
