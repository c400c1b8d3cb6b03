// Points, matrices, colours and dates as text.  0: vectors and colours; 1: matrices; 2: rotations; 3: colour arrays; 4: dates; 5: wrong number of entries / missing braces; 6: arbitrary short text
#include "common.h"
static IXMLFileNodePtr node;
static double fin(const char* n, int k) { char nm[8] = "a0"; nm[0] = n[0]; nm[1] = 'a' + k; double d = symF64(nm); ASSUME(d - d == 0); return d; }
static int same6(double got, double want) { return dbits(got) == dbits(sym_r6(want)); }
static VWTransformMatrix mat(double (*f)(const char*, int)) { VWTransformMatrix m; for (int r = 0; r < 4; r++) for (int c = 0; c < 3; c++) m.fMatrix.mat[r][c] = f("m", r * 3 + c); return m; }
static std::string two(unsigned v) { std::string s; s += (char)('0' + v / 10); s += (char)('0' + v % 10); return s; }
extern "C" void sym_main() {
  node = newNode("Test"); Errors err;
  PART(0) {
    double a = fin("a", 0), b = fin("b", 0), c = fin("c", 0); VWPoint3D p(a, b, c), q(1, 2, 3); TXString t = GdtfConverter::ConvertVector3(p); ASSERT(GdtfConverter::ConvertVector3(t, node, q), "point text accepted"); ASSERT(sym_and(same6(q.x, a), sym_and(same6(q.y, b), same6(q.z, c))), "point round trip");
    CCieColor col(a, b, c), col2(1, 2, 3); t = GdtfConverter::ConvertColor(col); ASSERT(GdtfConverter::ConvertColor(t, node, col2), "colour text accepted"); ASSERT(sym_and(same6(col2.Get_x(), a), sym_and(same6(col2.Get_y(), b), same6(col2.Get_Y_luminance(), c))), "colour round trip");
    CieColor s = GdtfConverter::ConvertCColor(col); ASSERT(sym_and(dbits(s.fx) == dbits(a), sym_and(dbits(s.fy) == dbits(b), dbits(s.f_Y) == dbits(c))), "colour structure"); CCieColor back = GdtfConverter::ConvertCColor(s); ASSERT(sym_and(dbits(back.Get_x()) == dbits(a), sym_and(dbits(back.Get_y()) == dbits(b), dbits(back.Get_Y_luminance()) == dbits(c))), "colour class");
    ASSERT(err.n() == 0, "no error for written text"); q = VWPoint3D(1, 2, 3); ASSERT(GdtfConverter::ConvertVector3(TXString(""), node, q) && q.x == 0 && q.y == 0 && q.z == 0, "missing point is the origin"); ASSERT(GdtfConverter::ConvertColor(TXString(""), node, col2) && col2.Get_x() == 0.31273 && col2.Get_y() == 0.32902 && col2.Get_Y_luminance() == 100, "missing colour is white"); REACH("vector");
  }
  PART(1) {
    VWTransformMatrix m = mat(fin), r; bool four = symChoose("four", 2); TXString t = GdtfConverter::ConvertMatrix(m, four); ASSERT(GdtfConverter::ConvertMatrix(t, node, r), "matrix text accepted"); ASSERT(err.n() == 0, "no error for a written matrix");
    for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) ASSERT(same6(r.fMatrix.mat[i][j], m.fMatrix.mat[i][j]), i < 3 ? "matrix axes round trip" : "matrix offset round trip");
    VWTransformMatrix id, e = m; ASSERT(GdtfConverter::ConvertMatrix(TXString(""), node, e), "missing matrix accepted"); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) ASSERT(e.fMatrix.mat[i][j] == (i == j ? 1 : 0), "missing matrix is the identity"); REACH("matrix");
  }
  PART(2) {
    VWTransformMatrix m = mat(fin), r = mat([](const char*, int k) { return (double)k; }), r0 = r; TXString t = GdtfConverter::ConvertRotation(m); ASSERT(GdtfConverter::ConvertRotation(t, node, r), "rotation text accepted"); ASSERT(err.n() == 0, "no error for a written rotation"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ASSERT(same6(r.fMatrix.mat[i][j], m.fMatrix.mat[i][j]), "rotation round trip"); for (int j = 0; j < 3; j++) ASSERT(r.fMatrix.mat[3][j] == r0.fMatrix.mat[3][j], "rotation keeps the offset"); REACH("rotation");
  }
  PART(3) {
    unsigned n = symChoose("count", 4); TCCieColorArray a, b; double v[9]; for (unsigned k = 0; k < n; k++) { for (int j = 0; j < 3; j++) v[3 * k + j] = fin("v", 3 * k + j); a.push_back(new CCieColor(v[3 * k], v[3 * k + 1], v[3 * k + 2])); } TXString t = GdtfConverter::ConvertColorArray(a); ASSERT(GdtfConverter::ConvertColorArray(t, node, b), "colour list accepted"); ASSERT(err.n() == 0, "no error for a written colour list"); ASSERT(b.size() == n, "colour list length"); for (unsigned k = 0; k < n; k++) ASSERT(sym_and(same6(b[k]->Get_x(), v[3 * k]), sym_and(same6(b[k]->Get_y(), v[3 * k + 1]), same6(b[k]->Get_Y_luminance(), v[3 * k + 2]))), "colour list round trip"); REACH("colours");
  }
  PART(4) {
    unsigned full = symChoose("field", 6), kind = symChoose("kind", 2); Uint16 f[6] = { 2024, 2, 29, 13, 7, 59 }; STime d, e = { 1, 1, 1, 1, 1, 1 };
    if (kind == 0) { // written dates
      f[full] = full == 0 ? symU16("v") : (Uint16)symRange("v", 0, 99); unsigned other = symChoose("other", 3); for (unsigned k = 1; k < 6; k++) if (k != full) f[k] = other == 0 ? f[k] : other == 1 ? 0 : (Uint16)(9 + k); d = { f[0], f[1], f[2], f[3], f[4], f[5] }; TXString t = GdtfConverter::ConvertDate(d); ASSERT(GdtfConverter::ConvertDate(t, node, e), "date text accepted"); REACH("dates");
      if (full != 0) { std::string want = "2024-" + two(f[1]) + "-" + two(f[2]) + "T" + two(f[3]) + ":" + two(f[4]) + ":" + two(f[5]); ASSERT(eqs(str(t), want), "date text form"); }
    } else { // any date text of the standard form
      unsigned y = 2024; if (full == 0) { y = 0; std::string s; for (int k = 0; k < 4; k++) { char nm[4] = "y0"; nm[1] += k; y = y * 10 + ((unsigned)symRange(nm, '0', '9') - '0'); } f[0] = y; } std::string s; unsigned yy = y; char yb[4]; for (int k = 3; k >= 0; k--) { yb[k] = (char)('0' + yy % 10); yy /= 10; } s.assign(yb, 4); if (full) f[full] = (Uint16)symRange("v", 0, 99); s += "-" + two(f[1]) + "-" + two(f[2]) + "T" + two(f[3]) + ":" + two(f[4]) + ":" + two(f[5]); ASSERT(GdtfConverter::ConvertDate(TXString(s.c_str()), node, e), "date text accepted"); REACH("date-text"); }
    ASSERT(e.fYear == f[0], "year"); ASSERT(e.fMonth == f[1], "month"); ASSERT(e.fDay == f[2], "day"); ASSERT(e.fHour == f[3], "hour"); ASSERT(e.fMinute == f[4], "minute"); ASSERT(e.fSecond == f[5], "second"); ASSERT(err.n() == 0, "no error for a date");
    STime z = { 1, 1, 1, 1, 1, 1 }; ASSERT(GdtfConverter::ConvertDate(TXString(""), node, z) && z.fYear == 0 && z.fMonth == 0 && z.fDay == 0 && z.fHour == 0 && z.fMinute == 0 && z.fSecond == 0, "missing date is the zero date");
  }
  PART(5) { // structure errors are reported
    unsigned kind = symChoose("kind", 5), n = 1 + symChoose("entries", 6), lines = 1 + symChoose("lines", 5), br = symChoose("braces", 4); uint8_t dgt = (uint8_t)symRange("digit", '0', '9'); std::string row; for (unsigned k = 0; k < n; k++) { if (k) row += ","; row += (char)dgt; } std::string one = (br & 1 ? "" : "{") + row + (br & 2 ? "" : "}"), all; for (unsigned k = 0; k < lines; k++) all += (k ? "{" : br & 1 ? "" : "{") + row + (k + 1 < lines ? "}" : br & 2 ? "" : "}");
    bool good = br == 0;
    if (kind == 0) { VWPoint3D p; bool ok = GdtfConverter::ConvertVector3(TXString(one.c_str()), node, p); ASSERT(ok == (n == 3), "point needs three entries"); ASSERT((err.n() == 0) == (n == 3 && good), "malformed point reported"); }
    if (kind == 1) { VWTransformMatrix m; bool ok = GdtfConverter::ConvertMatrix(TXString(all.c_str()), node, m); ASSERT(ok == (lines == 4), "matrix needs four rows"); ASSERT((err.n() == 0) == (lines == 4 && good && (n == 3 || n == 4)), "malformed matrix reported"); }
    if (kind == 2) { VWTransformMatrix m; bool ok = GdtfConverter::ConvertRotation(TXString(all.c_str()), node, m); ASSERT(ok == (lines == 3), "rotation needs three rows"); ASSERT((err.n() == 0) == (lines == 3 && good && n == 3), "malformed rotation reported"); }
    if (kind == 3) { TCCieColorArray a; GdtfConverter::ConvertColorArray(TXString(all.c_str()), node, a); ASSERT((err.n() == 0) == (good && n == 3), "malformed colour list reported"); ASSERT(a.size() == (n == 3 ? lines : 0), "only complete colours are kept"); }
    if (kind == 4) { CCieColor c; bool ok = GdtfConverter::ConvertColor(TXString(row.c_str()), node, c); ASSERT(ok == (n == 3), "colour needs three entries"); ASSERT((err.n() == 0) == (n == 3), "malformed colour reported"); } REACH("structure");
  }
  PART(6) {
    unsigned n = symChoose("len", (unsigned)sym_param("maxlen", 2) + 1), kind = symChoose("kind", 6); std::string s; for (unsigned k = 0; k < n; k++) { char nm[8] = "c0"; nm[1] = 'a' + k; uint8_t c = symU8(nm); ASSUME(sym_and(c >= 32, c < 127)); s += (char)c; } unsigned pre = symChoose("pre", 3); if (pre == 1) s = "{1,2}{" + s; if (pre == 2) s += ",4}"; TXString t(s.c_str());
    try { if (kind == 0) { VWPoint3D p; GdtfConverter::ConvertVector3(t, node, p); } if (kind == 1) { VWTransformMatrix m; GdtfConverter::ConvertMatrix(t, node, m); } if (kind == 2) { VWTransformMatrix m; GdtfConverter::ConvertRotation(t, node, m); } if (kind == 3) { TCCieColorArray a; GdtfConverter::ConvertColorArray(t, node, a); } if (kind == 4) { CCieColor c; GdtfConverter::ConvertColor(t, node, c); } if (kind == 5) { STime d; bool ok = GdtfConverter::ConvertDate(t, node, d); if (n) ASSERT(!ok && err.n() == 1, "malformed date reported"); } } catch (std::exception&) { sym_fail("exception out of a text converter"); } REACH("anytext");
  }
  PART(7) { // a date whose form is disturbed at one place
    std::string s = "2020-05-06T01:02:03"; unsigned at = symChoose("at", 5), how = symChoose("how", 3); static const unsigned sep[] = {4, 7, 10, 13, 16}; uint8_t c = symU8("char"); ASSUME(sym_and(c >= 32, c < 127)); ASSUME(c != (uint8_t)s[sep[at]]);
    if (how == 0) s[sep[at]] = (char)c; else if (how == 1) s.erase(sep[at], 1); else s[sep[at]] = s[sep[at < 2 ? !at : at > 2 ? 7 - at : 2]] = (char)c;
    STime d = {}; d.fYear = 7; bool ok = GdtfConverter::ConvertDate(TXString(s.c_str()), node, d); ASSERT(!ok && err.n() == 1, "malformed date reported"); ASSERT(d.fYear == 0 && d.fMonth == 0 && d.fDay == 0 && d.fHour == 0 && d.fMinute == 0 && d.fSecond == 0, "malformed date is the zero date"); REACH("disturbed");
  }
}
