// Text class: search, editing, UTF-8/UTF-16 conversion, comparison and hashing, against naive definitions.
#include "common.h"
typedef std::u16string U;
static int ai, aw; // needle case insensitivity
static U symText(const char* name, unsigned maxlen, unsigned minlen = 0) { unsigned n = minlen + symChoose(name, maxlen - minlen + 1); U u; static char nm[64][8]; static int c = 0; for (unsigned k = 0; k < n; k++) { char* p = nm[c++ % 64]; p[0] = name[0]; p[1] = '0' + k; p[2] = 0; uint16_t v = symU16(p); ASSUME(v != 0); u += (char16_t)v; } return u; }
// well-formed text only (no half of a surrogate pair): half units are excluded
static U symBmp(const char* name, unsigned maxlen, unsigned minlen = 0) { U u = symText(name, maxlen, minlen); for (char16_t c : u) ASSUME(sym_or(c < 0xD800, c > 0xDFFF)); return u; }
static TXString T(const U& u) { return TXString((const UCChar*)u.data(), u.size()); }
static U V(const TXString& t) { return U((const char16_t*)t.GetUCCharPtr(), t.GetLength()); }
static int eq16(const U& a, const U& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t k = 0; k < a.size(); k++) r = sym_and(r, a[k] == b[k]); return r; }
static uint16_t low(uint16_t c) { return (uint16_t)sym_ite(sym_and(c >= 'A', c <= 'Z'), c + 32, c); }
static uint16_t upp(uint16_t c) { return (uint16_t)sym_ite(sym_and(c >= 'a', c <= 'z'), c - 32, c); }
static U lowS(const U& u) { U r; for (char16_t c : u) r += (char16_t)low(c); return r; }
static int occ(const U& t, const U& n, size_t k) { int r = 1; for (size_t j = 0; j < n.size(); j++) r = sym_and(r, t[k + j] == n[j]); return r; }
static int64_t findRef(const U& t, const U& n, size_t from) { int64_t r = -1; if (n.empty()) return -1; for (int64_t k = (int64_t)t.size() - (int64_t)n.size(); k >= (int64_t)from; k--) r = (int64_t)sym_ite(occ(t, n, k), (uint64_t)k, (uint64_t)r); return r; }
static int64_t rfindRef(const U& t, const U& n, size_t last) { int64_t r = -1; if (n.empty()) return -1; for (int64_t k = 0; k + (int64_t)n.size() <= (int64_t)t.size() && (size_t)k <= last; k++) r = (int64_t)sym_ite(occ(t, n, k), (uint64_t)k, (uint64_t)r); return r; }
static int inSet(uint16_t c, const U& s) { int r = 0; for (char16_t x : s) r = sym_or(r, c == x); return r; }
static int64_t ofRef(const U& t, const U& s, size_t from, int want) { int64_t r = -1; for (int64_t k = (int64_t)t.size() - 1; k >= (int64_t)from; k--) r = (int64_t)sym_ite(sym_and(inSet(t[k], s) == want, 1), (uint64_t)k, (uint64_t)r); return r; }
static int64_t rofRef(const U& t, const U& s, size_t last, int want) { int64_t r = -1; for (int64_t k = 0; k < (int64_t)t.size() && (size_t)k <= last; k++) r = (int64_t)sym_ite(sym_and(inSet(t[k], s) == want, 1), (uint64_t)k, (uint64_t)r); return r; }
// code points of well formed UTF-16 -> UTF-8
static std::string utf8(uint32_t c, unsigned cls) { std::string s; auto b = [&](uint32_t v) { s += (char)v; }; if (cls == 1) b(c); else if (cls == 2) { b(0xC0 | (c >> 6)); b(0x80 | (c & 63)); } else if (cls == 3) { b(0xE0 | (c >> 12)); b(0x80 | ((c >> 6) & 63)); b(0x80 | (c & 63)); } else { b(0xF0 | (c >> 18)); b(0x80 | ((c >> 12) & 63)); b(0x80 | ((c >> 6) & 63)); b(0x80 | (c & 63)); } return s; }
static uint32_t symCode(const char* name, unsigned cls) { uint32_t c = symU32(name); if (cls == 1) ASSUME(sym_and(c >= 1, c < 0x80)); else if (cls == 2) ASSUME(sym_and(c >= 0x80, c < 0x800)); else if (cls == 3) ASSUME(sym_and(sym_and(c >= 0x800, c < 0x10000), sym_or(c < 0xD800, c > 0xDFFF))); else ASSUME(sym_and(c >= 0x10000, c <= 0x10FFFF)); return c; }
static U utf16(uint32_t c, unsigned cls) { U u; if (cls < 4) u += (char16_t)c; else { c -= 0x10000; u += (char16_t)(0xD800 | (c >> 10)); u += (char16_t)(0xDC00 | (c & 0x3FF)); } return u; }
static U trimHalf(U u, bool l, bool r) { if (l && !u.empty() && u[0] >= 0xDC00 && u[0] <= 0xDFFF) u.erase(0, 1); if (r && !u.empty() && u.back() >= 0xD800 && u.back() <= 0xDBFF) u.pop_back(); return u; }

extern "C" void sym_main() {
  unsigned N = (unsigned)sym_param("len", 4);
  PART(0) { // search for a text
    U t = symText("text", N), n = symText("needle", 2); bool ic = symChoose("ignorecase", 2); size_t p = symChoose("pos", N + 2); TXString tt = T(t), tn = T(n); const U a = ic ? lowS(t) : t, b = ic ? lowS(n) : n;
    ASSERT(tt.Find(tn, p, ic) == findRef(a, b, p), "first occurrence"); ASSERT(tt.ReverseFind(tn, (size_t)-1, ic) == rfindRef(a, b, (size_t)-1), "last occurrence");
    ASSERT(eq16(V(tt), t), "searching changes nothing"); int dig = !t.empty(); for (char16_t c : t) dig = sym_and(dig, sym_and(c >= u'0', c <= u'9')); ASSERT((tt.IsCompleteNumber() ? 1 : 0) == dig, "complete number"); int64_t e = n.size() <= t.size() ? (int64_t)occ(t, n, t.size() - n.size()) : 0; ASSERT((tt.EndsWith(tn) ? 1 : 0) == e, "ends with"); REACH("find"); }
  PART(1) { // search for a character or a set
    U t = symText("text", N); size_t p = symChoose("pos", N + 2); TXString tt = T(t);
    if (symChoose("kind", 2) == 0) { bool ic = symChoose("ignorecase", 2); uint16_t c = symU16("c"); ASSUME(c != 0); U a = ic ? lowS(t) : t, b(1, (char16_t)(ic ? low(c) : c)); ASSERT(tt.Find((int)c, p, ic) == findRef(a, b, p), "first character"); ASSERT(tt.ReverseFind((int)c, p, ic) == rfindRef(a, b, p), "last character"); uint8_t c8 = symU8("c8"); ASSUME(c8 != 0); b[0] = (char16_t)(ic ? low(c8) : c8); ASSERT(tt.Find((char)c8, p, ic) == findRef(a, b, p), "first narrow character"); ASSERT(tt.ReverseFind((char)c8, p, ic) == rfindRef(a, b, p), "last narrow character"); REACH("char"); }
    else { U s = symText("set", 2); TXString ts = T(s); ASSERT(tt.FindOneOf(ts, p) == ofRef(t, s, p, 1), "first of set"); ASSERT(tt.FindNotOneOf(ts, p) == ofRef(t, s, p, 0), "first not of set"); ASSERT(tt.ReverseFindOneOf(ts, p) == rofRef(t, s, p, 1), "last of set"); ASSERT(tt.ReverseFindNotOneOf(ts, p) == rofRef(t, s, p, 0), "last not of set"); REACH("set"); } }
  PART(2) { // editing
    U t = symBmp("text", N), n = symBmp("new", 2); size_t p = symChoose("pos", N + 2), l = symChoose("len", N + 2); unsigned op = symChoose("op", 12); TXString tt = T(t), tn = T(n); U r = t;
    if (op == 0) { tt.Insert(p, tn); r.insert(std::min(p, t.size()), n); } else if (op == 1) { tt.Delete(p, l); if (p < t.size()) r.erase(p, l); } else if (op == 2) { tt.DeleteLast(); if (!r.empty()) r.pop_back(); }
    else if (op == 3) { tt.Truncate(l); if (l < r.size()) r.resize(l); } else if (op == 4) { tt.SetLength(l, n.empty() ? (TXChar)'x' : n[0]); r.resize(l, n.empty() ? u'x' : n[0]); } else if (op == 5) { tt += tn; r += n; } else if (op == 6) { tt = tt + tn; r = t + n; }
    else if (op == 7) { tt.MakeReverse(); for (size_t k = 0; k < t.size(); k++) r[k] = t[t.size() - 1 - k]; } else if (op == 8) { tt.MakeUpper(); for (auto& c : r) c = (char16_t)upp(c); } else if (op == 9) { tt.MakeLower(); r = lowS(t); }
    else if (op == 10) { uint16_t c = n.empty() ? 'q' : n[0]; tt.SetAt(p, c); if (p < r.size()) r[p] = c; } else { tt.Insert(p, (UCChar)(n.empty() ? 'q' : n[0])); r.insert(std::min(p, t.size()), 1, n.empty() ? u'q' : n[0]); }
    ASSERT(eq16(V(tt), r), "edited text"); const TXString ct = T(t); uint16_t g = p < t.size() ? t[p] : 0; ASSERT(ct.GetAt(p) == g, "character at"); ASSERT(ct[(ptrdiff_t)p] == g, "character by index"); ASSERT(ct[-1] == 0, "negative index"); ASSERT(ct.GetLast() == (t.empty() ? 0 : t.back()), "last character"); ASSERT(ct.GetLength() == t.size(), "length"); ASSERT(ct.IsEmpty() == t.empty(), "empty"); REACH("edit"); }
  PART(3) { // parts of a text never contain half a character at their ends
    U t = symText("text", N); size_t p = symChoose("pos", N + 2), l = symChoose("len", N + 2); TXString tt = T(t); U m = p < t.size() ? t.substr(p, l) : U();
    ASSERT(eq16(V(tt.Mid(p, l)), trimHalf(m, true, true)), "middle"); if (l <= t.size()) { ASSERT(eq16(V(tt.Left(l)), trimHalf(t.substr(0, l), false, true)), "left"); if (l < t.size()) ASSERT(eq16(V(tt.Right(l)), trimHalf(t.substr(t.size() - l), true, false)), "right"); else ASSERT(eq16(V(tt.Right(l)), t), "right whole"); } else ASSERT(eq16(V(tt.Right(l)), t), "right whole"); REACH("parts"); }
  PART(4) { // split at a separator, trimming
    U t = symBmp("text", N); if (symChoose("kind", 2) == 0) { uint8_t c = symU8("sep"); ASSUME(c != 0); bool wide = symChoose("wide", 2); U s(1, (char16_t)c); if (wide) { uint16_t d = symU16("sep2"); ASSUME(d != 0); s += (char16_t)d; }
      std::vector<TXString> got = wide ? T(t).Split(T(s)) : T(t).Split((char)c); std::vector<U> ref; size_t from = 0; while (from < t.size()) { size_t q = from; while (q < t.size() && !(q + s.size() <= t.size() && occ(t, s, q))) q++; ref.push_back(t.substr(from, q - from)); from = q + s.size(); if (q >= t.size()) break; }
      ASSERT(got.size() == ref.size(), "number of fields"); for (size_t k = 0; k < got.size() && k < ref.size(); k++) ASSERT(eq16(V(got[k]), ref[k]), "field"); REACH("split"); }
    else { TXString a = T(t), b = T(t), c = T(t); a.Trim(); b.TrimLeft(); c.TrimRight(); auto ws = [](uint16_t x) { return x == ' ' || x == '\t'; }; size_t i = 0, j = t.size(); while (i < j && ws(t[i])) i++; U l = t.substr(i); while (j > 0 && ws(t[j - 1])) j--; U r = t.substr(0, j); U bo = i < j ? t.substr(i, j - i) : U(); ASSERT(eq16(V(a), bo), "trimmed"); ASSERT(eq16(V(b), l), "trimmed left"); ASSERT(eq16(V(c), r), "trimmed right"); REACH("trim"); } }
  PART(5) { // replacing every occurrence
    U t = symBmp("text", N), o = symBmp("old", 2), n = symBmp("new", 3); bool ic = symChoose("ignorecase", 2); TXString tt = T(t); tt.Replace(T(o), T(n), ic); const U a = ic ? lowS(t) : t, b = ic ? lowS(o) : o; U r; size_t k = 0;
    if (o.empty()) r = t; else while (k < t.size()) { if (k + o.size() <= t.size() && occ(a, b, k)) { r += n; k += o.size(); } else r += t[k++]; }
    ASSERT(eq16(V(tt), r), "replaced"); REACH("replace"); }
  PART(6) { // UTF-8 <-> UTF-16 for valid text
    unsigned n = 1 + symChoose("count", (unsigned)sym_param("codes", 2)); std::string s8; U s16; for (unsigned k = 0; k < n; k++) { char nm[4] = "p0"; nm[1] = '0' + k; unsigned cls = 1 + symChoose("bytes", 4); uint32_t c = symCode(nm, cls); s8 += utf8(c, cls); s16 += utf16(c, cls); }
    TXString a(s8.c_str()); ASSERT(eq16(V(a), s16), "UTF-8 decoded"); ASSERT(eqs(a.GetStdString(), s8), "written as the same UTF-8"); ASSERT(eqs(str(T(s16)), s8), "UTF-16 written as UTF-8"); TXString b(s8), c(s8.c_str(), s8.size()), d; d = s8; ASSERT(eq16(V(b), s16), "from std::string"); ASSERT(eq16(V(c), s16), "from counted text"); ASSERT(eq16(V(d), s16), "assigned text"); d += s8.c_str(); ASSERT(eq16(V(d), s16 + s16), "appended text");
    ASSERT(a.GetEncodingLength(ETXEncoding::eUTF8) == s8.size(), "encoded length");
    char buf[32]; size_t cap = 1 + symChoose("capacity", 10); memset(buf, 'Z', sizeof buf); a.CopyInto(buf, cap); size_t m = std::min(cap - 1, s8.size()); int same = 1; for (size_t k = 0; k < m; k++) same = sym_and(same, buf[k] == s8[k]); ASSERT(same, "copied bytes"); ASSERT(buf[m] == 0, "copy is terminated"); ASSERT(buf[cap] == 'Z', "copy stays inside the buffer"); REACH("utf"); }
  PART(7) { // any bytes: no crash, no exception, the result is writable again
    unsigned n = 1 + symChoose("len", (unsigned)sym_param("bytes", 4)); char* buf = new char[n + 1]; for (unsigned k = 0; k < n; k++) { char nm[4] = "b0"; nm[1] = '0' + k; uint8_t c = symU8(nm); ASSUME(c != 0); buf[k] = (char)c; } buf[n] = 0;
    try { TXString a(buf); ASSERT(a.GetLength() <= n, "no more characters than bytes"); std::string o = a.GetStdString(); TXString b(buf, n - 1); ASSERT(b.GetLength() <= n, "no more characters than bytes"); TXString c2; c2 = buf; ASSERT(eq16(V(c2), V(a)), "assigned alike"); int asc = 1; for (unsigned k = 0; k < n; k++) asc = sym_and(asc, (uint8_t)buf[k] < 0x80); if (asc) ASSERT(eqs(o, std::string(buf, n)), "ASCII kept"); REACH("bytes"); } catch (...) { sym_fail("exception for invalid UTF-8"); } delete[] buf; }
  PART(8) { // any UTF-16 units can be written as UTF-8 without an exception
    U t = symText("text", (unsigned)sym_param("units", 3), 1); try { TXString a = T(t); std::string o = a.GetStdString(); TXString b(o.c_str()); ASSERT(eqs(b.GetStdString(), o), "written text is valid"); REACH("units"); } catch (...) { sym_fail("exception for unpaired surrogate"); } }
  PART(9) { // comparison and hashing of two texts
    U t = symText("a", (unsigned)sym_param("len", 3)), u = symText("b", (unsigned)sym_param("len", 3)); TXString a = T(t), b = T(u); bool eq = a == b, same = a.Equal(b); U lt = t, lu = u; for (auto& c : lt) c = (char16_t)upp(c); for (auto& c : lu) c = (char16_t)upp(c); int want = eq16(lt, lu), wantSame = eq16(t, u);
    ASSERT((eq ? 1 : 0) == want, "equal exactly when the letters agree"); ASSERT((same ? 1 : 0) == wantSame, "case sensitive equality"); ASSERT((a != b) == !eq, "unequal is not equal"); ASSERT(a.EqualNoCase(b) == eq, "equality without case"); ASSERT((a.CompareNoCase(b) == 0) == eq, "comparison without case"); ASSERT((a.Compare(b) == 0) == same, "comparison");
    bool l = a < b, g = a > b; ASSERT((a <= b) == (l || eq), "less or equal"); ASSERT((a >= b) == (g || eq), "greater or equal"); ASSERT((int)l + (int)g + (int)eq == 1, "exactly one of less, equal, greater"); ASSERT((b < a) == g, "less is greater swapped"); ASSERT((b == a) == eq, "equality is symmetric"); ASSERT((a.Compare(b) < 0) == (b.Compare(a) > 0), "comparison is antisymmetric");
    int lref = t.size() < u.size(); { uint64_t d = lref; size_t m = std::min(t.size(), u.size()); for (size_t k = m; k-- > 0;) d = sym_ite(lt[k] == lu[k], d, lt[k] < lu[k]); lref = (int)d; } ASSERT((l ? 1 : 0) == lref, "dictionary order without case"); REACH("compare"); }
  PART(10) { // equal texts hash alike (the library's real hash function)
    U t = symText("a", (unsigned)sym_param("len", 3)); U u = t; for (size_t k = 0; k < u.size(); k++) { bool flip = symBool("flip"); uint16_t c = u[k]; u[k] = (char16_t)sym_ite(flip, low(c), c); } TXString a = T(t), b = T(u), c = T(t); ASSERT(TXStringNoCaseHash()(a) == TXStringNoCaseHash()(b), "equal keys hash alike"); ASSERT(std::hash<TXString>()(a) == std::hash<TXString>()(c), "same text hashes alike"); ASSERT(a == b, "keys equal"); REACH("hash"); }
  PART(11) { // transitivity of the order used by sorted containers
    U t = symText("a", 2), u = symText("b", 2), v = symText("c", 2); TXString a = T(t), b = T(u), c = T(v); if (a < b && b < c) { ASSERT(a < c, "order is transitive"); REACH("transitive"); } if (a == b && b == c) { ASSERT(a == c, "equality is transitive"); REACH("transitive-eq"); } if (a == b) ASSERT((a < c) == (b < c), "equal texts are ordered alike"); }
}
