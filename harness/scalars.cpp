// Scalar values as XML text.  0: 32-bit integers round trip; 1: unsigned/size_t/8-bit round trip; 2: decimal text -> value; 3: doubles; 4: hex; 5: breaks, bool, "None";
// 6: integer arrays and offsets; 7: arbitrary short text never crashes any numeric converter
#include "common.h"
static IXMLFileNodePtr node;
static int canonical(const std::string& s) { // -?[1-9][0-9]*|0
  size_t k = 0; if (k < s.size() && s[k] == '-') k++; int r = k < s.size(); int z = s[k] == '0'; if (z && s.size() > 1) return 0; for (; k < s.size(); k++) r = sym_and(r, sym_and(s[k] >= '0', s[k] <= '9')); return r; }
static std::string digits(unsigned n, int32_t& v, uint64_t& v64) { std::string s; v = 0; v64 = 0; for (unsigned k = 0; k < n; k++) { char nm[8] = "d0"; nm[1] = 'a' + k; uint8_t d = (uint8_t)symRange(nm, '0', '9'); s += (char)d; v = v * 10 + (d - '0'); v64 = v64 * 10 + (d - '0'); } return s; }
template<class F> static void anyText(F f, unsigned n) { std::string s; for (unsigned k = 0; k < n; k++) { char nm[8] = "c0"; nm[1] = 'a' + k; uint8_t c = symU8(nm); ASSUME(sym_and(c >= 32, c < 127)); s += (char)c; } try { f(TXString(s.c_str())); } catch (std::exception&) { sym_fail("exception out of a text converter"); } }
extern "C" void sym_main() {
  node = newNode("Test");
  PART(0) { // all 32-bit integers
    Sint32 v = symI32("v"); TXString t = GdtfConverter::ConvertInteger(v); ASSERT(canonical(str(t)), "integer text form"); Sint32 r = v ^ 1; ASSERT(GdtfConverter::ConvertInteger(t, node, r), "integer text accepted"); ASSERT(r == v, "integer round trip");
    bool none = symBool("none"); t = GdtfConverter::ConvertInteger(v, none); bool n2 = !none; r = v ^ 1; GdtfConverter::ConvertInteger(t, node, r, n2); ASSERT(n2 == none, "None marker round trip"); ASSERT(r == (none ? 0 : v), "optional integer round trip"); REACH("int32");
  }
  PART(1) {
    unsigned k = symChoose("kind", 4);
    if (k == 0) { Uint32 v = symU32("v"), r = v ^ 1; TXString t = GdtfConverter::ConvertInteger(v); ASSERT(canonical(str(t)), "integer text form"); ASSERT(GdtfConverter::ConvertInteger(t, node, r), "integer text accepted"); ASSERT(r == v, "unsigned integer round trip"); REACH("uint32"); }
    if (k == 1) { size_t v = symU64("v"), r = v ^ 1; ASSUME(v <= 0x7fffffffffffffffull); if (sym_param("narrow", 0)) ASSUME(v <= 0xffffffffffull); TXString t = GdtfConverter::ConvertInteger(v); ASSERT(canonical(str(t)), "integer text form"); ASSERT(GdtfConverter::ConvertInteger(t, node, r), "integer text accepted"); ASSERT(r == v, "size round trip"); REACH("size"); }
    if (k == 2) { Sint8 v = (Sint8)symU8("v"), r = v ^ 1; TXString t = GdtfConverter::ConvertInteger((Sint32)v); ASSERT(GdtfConverter::ConvertInteger(t, node, r), "integer text accepted"); ASSERT(r == v, "signed byte round trip"); }
    if (k == 3) { Uint8 v = symU8("v"), r = v ^ 1; TXString t = GdtfConverter::ConvertInteger((Sint32)v); ASSERT(GdtfConverter::ConvertInteger(t, node, r), "integer text accepted"); ASSERT(r == v, "unsigned byte round trip"); }
  }
  PART(2) { // every decimal text
    unsigned n = 1 + symChoose("len", 9); int32_t v; uint64_t v64; std::string s = digits(n, v, v64); bool neg = symChoose("neg", 2); if (neg) s = "-" + s; TXString t(s.c_str()); Sint32 want = neg ? -v : v; Sint64 want64 = neg ? -(Sint64)v64 : (Sint64)v64;
    Sint32 a; ASSERT(GdtfConverter::ConvertInteger(t, node, a), "decimal text accepted"); ASSERT(a == want, "decimal text value"); size_t z; if (!neg) { GdtfConverter::ConvertInteger(t, node, z); ASSERT(z == v64, "decimal text value (size)"); }
    Sint32 b; GdtfConverter::ConvertDmxBreak(t, node, b); ASSERT(b == want, "decimal text value (break)"); bool none = true; Sint32 c; GdtfConverter::ConvertInteger(t, node, c, none); ASSERT(sym_and(c == want, !none), "decimal text value (optional)"); ASSERT(t.atoi() == want, "text as 32-bit number"); ASSERT(t.atoi64() == want64, "text as 64-bit number"); REACH("decimal");
    Sint32 e = 77; ASSERT(!GdtfConverter::ConvertInteger(TXString(""), node, e), "empty text is no number");
  }
  PART(3) {
    double v = symF64("v"), r = 0; ASSUME(v == v); ASSUME(v - v == 0); TXString t = GdtfConverter::ConvertDouble(v); ASSERT(GdtfConverter::ConvertDouble(t, node, r), "double text accepted"); ASSERT(dbits(r) == dbits(sym_r6(v)), "double round trip to six decimals");
    double w = symF64("w"), x = 1, y = 2; ASSUME(w - w == 0); t = GdtfConverter::Convert2DPoint(v, w); ASSERT(GdtfConverter::Convert2DPoint(t, node, x, y), "2D point text accepted"); ASSERT(sym_and(dbits(x) == dbits(sym_r6(v)), dbits(y) == dbits(sym_r6(w))), "2D point round trip");
    unsigned n = 1 + symChoose("count", 4); TDoubleArray a, b; for (unsigned k = 0; k < n; k++) { char nm[4] = "e0"; nm[1] += k; double e = symF64(nm); ASSUME(e - e == 0); a.push_back(e); } { static const double big[] = {0, 1.5e300, -123456789012345678901234567890.0, 1e25}; unsigned at = symChoose("big", 4); if (at && n < 3) a[0] = big[at]; } bool br = symBool("brackets"); t = GdtfConverter::ConvertDoubleArray(a, br); ASSERT(GdtfConverter::ConvertDoubleArray(t, node, b), "double array text accepted"); ASSERT(b.size() == n, "double array length"); for (unsigned k = 0; k < n; k++) ASSERT(dbits(b[k]) == dbits(sym_r6(a[k])), "double array round trip"); REACH("double");
  }
  PART(4) {
    unsigned k = symChoose("kind", 3);
    if (k == 0) { size_t v = symU64("v"), r = 1; unsigned nib = symChoose("nibbles", 5); if (nib < 4) { ASSUME(v <= 65535); unsigned m = nib < 3 ? 0xffu << (4 * nib) : 0xf00f; ASSUME((v & ~m) == (symChoose("rest", 2) ? 0x5a96u & ~m : 0)); v &= 65535; } else ASSUME(v > 65535); TXString t = GdtfConverter::ConvertHexValue(v); ASSERT(GdtfConverter::ConvertHexValue(t, node, r), "hex text accepted"); ASSERT(r == (v > 65535 ? 65535 : v), "hex round trip"); std::string s = str(t); ASSERT(s.size() >= 3 && s[0] == '0' && s[1] == 'x', "hex prefix"); REACH("hex"); }
    if (k == 1) { unsigned n = symChoose("len", 6), v = 0; std::string s = "0x"; for (unsigned j = 0; j < n; j++) { char nm[4] = "h0"; nm[1] += j; uint8_t c = symU8(nm); int d = sym_and(c >= '0', c <= '9'), U = sym_and(c >= 'A', c <= 'F'), L = sym_and(c >= 'a', c <= 'f'); ASSUME(j < 3 ? sym_or(d, sym_or(U, L)) : j == 3 ? sym_or(d, U) : d); v = v * 16 + (unsigned)sym_ite(d, c - '0', sym_ite(U, c - 'A' + 10, c - 'a' + 10)); s += (char)c; } size_t r = 7; bool ok = GdtfConverter::ConvertHexValue(TXString(s.c_str()), node, r); ASSERT(ok == (v <= 65535), "hex text in range accepted"); ASSERT(r == (v > 65535 ? 65535 : v), "hex text value"); REACH("hex-parse"); }
    if (k == 2) { unsigned n = 17 + symChoose("len", 2); std::string s = "0x"; uint8_t c = (uint8_t)symRange("first", '1', '9'); s += (char)c; for (unsigned j = 1; j < n; j++) s += '0'; size_t r = 7; bool ok = GdtfConverter::ConvertHexValue(TXString(s.c_str()), node, r); ASSERT(!ok && r == 65535, "hex text with many digits is out of range"); REACH("hex-long"); }
  }
  PART(5) {
    Sint32 v = symI32("v"); TXString t = GdtfConverter::ConvertDmxBreak(v); Sint32 r = v ^ 1; ASSERT(GdtfConverter::ConvertDmxBreak(t, node, r), "break text accepted"); ASSERT(r == v, "break round trip"); ASSERT((int)(v == 0) == (int)(str(t) == "Overwrite"), "break 0 is Overwrite");
    bool b = symBool("b"), b2 = !b; ASSERT(GdtfConverter::ConvertBool(GdtfConverter::ConvertBool(b), node, b2), "bool text accepted"); ASSERT(b2 == b, "bool round trip"); bool c2 = !b; ASSERT(GdtfConverter::ConvertEGdtfCanHaveChildren(GdtfConverter::ConvertEGdtfCanHaveChildren(b), node, c2), "yes/no text accepted"); ASSERT(c2 == b, "yes/no round trip"); bool x = true; ASSERT(!GdtfConverter::ConvertBool(TXString("maybe"), node, x) && !x, "other text is no bool"); REACH("break");
  }
  PART(6) {
    unsigned n = 1 + symChoose("count", 3); TSint32Array a, b; for (unsigned k = 0; k < n; k++) { char nm[4] = "e0"; nm[1] += k; a.push_back((Sint32)(symRange(nm, 0, 200)) - 100); } bool br = symBool("brackets"); TXString t = GdtfConverter::ConvertIntegerArray(a, br); ASSERT(GdtfConverter::ConvertIntegerArray(t, node, b), "integer array text accepted"); ASSERT(b.size() == n, "integer array length"); for (unsigned k = 0; k < n; k++) ASSERT(b[k] == a[k], "integer array round trip"); REACH("array");
  }
  PART(7) {
    DMXAddress o[4], q[4] = { 9, 9, 9, 9 }; unsigned full = symChoose("full", 4); for (int k = 0; k < 4; k++) { char nm[4] = "o0"; nm[1] += k; if ((unsigned)k == full) o[k] = symU16(nm); else o[k] = (DMXAddress)symRange(nm, 0, 1) * (k + 3); } TXString t = GdtfConverter::ConvertDmxOffset(o[0], o[1], o[2], o[3]); GdtfConverter::ConvertDmxOffset(t, node, q[0], q[1], q[2], q[3]); int live = 1; for (int k = 0; k < 4; k++) { live = sym_and(live, o[k] > 0); ASSERT(q[k] == (DMXAddress)sym_ite(live, o[k], 0), "channel offsets round trip"); } REACH("offsets");
  }
  PART(8) { unsigned n = symChoose("len", (unsigned)sym_param("maxlen", 3) + 1);
    anyText([](const TXString& t) { Sint32 a = 0; size_t b = 0; bool c; double d; GdtfConverter::ConvertInteger(t, node, a); GdtfConverter::ConvertHexValue(t, node, b); ASSERT(b <= 65535, "hex value in range"); GdtfConverter::ConvertBool(t, node, c); GdtfConverter::ConvertDmxBreak(t, node, a); TSint32Array ia; GdtfConverter::ConvertIntegerArray(t, node, ia); DMXAddress e, f, g, h; GdtfConverter::ConvertDmxOffset(t, node, e, f, g, h); bool nn; GdtfConverter::ConvertInteger(t, node, a, nn); REACH("anytext"); }, n); }
}
