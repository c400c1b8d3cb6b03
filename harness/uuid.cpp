// UUID text and binary forms.  part 0: bytes -> text -> bytes; 1: text -> bytes (canonical, either case, with/without braces);
// 2: converter functions (36 characters, 47 characters spaced); 3: numeric forms; 4: malformed text is never taken as a UUID
#include "common.h"
static std::string ref(const uint8_t* b, bool br) { std::string s; if (br) s += '{'; for (int k = 0; k < 16; k++) { if (k == 4 || k == 6 || k == 8 || k == 10) s += '-'; s += hexUp(b[k] >> 4); s += hexUp(b[k] & 15); } if (br) s += '}'; return s; }
static int eqb(const VWUUID& u, const uint8_t* b) { uint8_t o[16]; u.GetUUID(o, 16); int r = 1; for (int k = 0; k < 16; k++) r = sym_and(r, o[k] == b[k]); return r; }
// symbolic hex digit text; returns its value through v
static char hexDigit(const char* n, unsigned& v) { uint8_t c = symU8(n); int d = sym_and(c >= '0', c <= '9'), U = sym_and(c >= 'A', c <= 'F'), L = sym_and(c >= 'a', c <= 'f'); ASSUME(sym_or(d, sym_or(U, L))); v = (unsigned)sym_ite(d, c - '0', sym_ite(U, c - 'A' + 10, c - 'a' + 10)); return (char)c; }
// printing is branch free and runs on 16 arbitrary bytes; parsing forks per digit, so it runs on 4 arbitrary bytes at a time
static void window(uint8_t* b) { unsigned w = symChoose("window", 4); for (unsigned k = 0; k < 16; k++) if (k / 4 != w) b[k] = (uint8_t)(0x1f * k + 0xA7); }
extern "C" void sym_main() {
  uint8_t b[16];
  PART(0) {
    sym_bytes(b, 16, "uuid"); VWUUID u(b, 16); bool br = symBool("brackets"); std::string t = str(u.ToString(br)); observeStr("text", t);
    ASSERT(eqs(t, ref(b, br)), "uuid text form"); window(b); VWUUID u2(b, 16); t = str(u2.ToString(br)); VWUUID w; bool ok = w.FromString(TXString(t.c_str()), br); ASSERT(ok, "uuid text accepted"); ASSERT(eqb(w, b), "uuid text round trip"); 
    ASSERT(eqs(str((TXString)u2), ref(b, true)), "uuid conversion operator"); REACH("roundtrip");
  }
  PART(1) {
    bool br = symBool("brackets"); std::string t; unsigned which = symChoose("window", 8); if (br) t += '{'; for (int k = 0; k < 16; k++) { if (k == 4 || k == 6 || k == 8 || k == 10) t += '-'; if (k / 2 == (int)which) { unsigned x, y; char n[8] = "h00"; n[1] = 'a' + k; t += hexDigit(n, x); n[2] = '1'; t += hexDigit(n, y); b[k] = (uint8_t)(x << 4 | y); } else { b[k] = (uint8_t)(0x11 * k); t += hexUp(b[k] >> 4); t += hexUp(b[k] & 15); } } if (br) t += '}';
    VWUUID w; ASSERT(w.FromString(TXString(t.c_str()), br), "uuid canonical text accepted"); ASSERT(eqb(w, b), "uuid digits decoded"); ASSERT(eqs(str(w.ToString(br)), ref(b, br)), "uuid re-printed"); REACH("decode");
  }
  PART(2) {
    sym_bytes(b, 16, "uuid"); VWUUID u(b, 16); TXString t = GdtfConverter::ConvertUUID(u); ASSERT(eqs(str(t), ref(b, false)), "converter text form"); window(b); u = VWUUID(b, 16); t = GdtfConverter::ConvertUUID(u);
    VWUUID w; IXMLFileNodePtr node; ASSERT(GdtfConverter::ConvertUUID(t, node, w), "converter accepts"); ASSERT(eqb(w, b), "converter round trip");
    MvrUUID m(0, 0, 0, 0); ASSERT(GdtfConverter::ConvertUUID(t, m), "converter accepts into four numbers"); VWUUID x(m.a, m.b, m.c, m.d); ASSERT(eqb(x, b), "converter round trip into four numbers");
    // the 47 character form: hex digits separated by blanks
    std::string sp; for (int k = 0; k < 16; k++) { if (k) sp += ' '; sp += hexUp(b[k] >> 4); sp += hexUp(b[k] & 15); }
    VWUUID y; ASSERT(GdtfConverter::ConvertUUID(TXString(sp.c_str()), node, y), "spaced form accepted"); ASSERT(eqb(y, b), "spaced form decoded"); REACH("converter");
    MvrUUID m2(0, 0, 0, 0); ASSERT(GdtfConverter::ConvertUUID(TXString(sp.c_str()), m2), "spaced form accepted into four numbers"); VWUUID z(m2.a, m2.b, m2.c, m2.d); ASSERT(eqb(z, b), "spaced form decoded into four numbers");
  }
  PART(3) {
    uint32_t q[4]; for (int k = 0; k < 4; k++) { char n[3] = "q0"; n[1] += k; q[k] = symU32(n); } VWUUID u(q[0], q[1], q[2], q[3]); Uint32 o[4]; u.GetUUID(o[0], o[1], o[2], o[3]);
    for (int k = 0; k < 4; k++) ASSERT(o[k] == q[k], "four number round trip"); uint8_t a[20]; memset(a, 7, 20); u.GetUUID(a, 20); for (int k = 0; k < 16; k++) ASSERT(a[k] == (uint8_t)(q[k / 4] >> (8 * (k % 4))), "byte order of the four numbers"); for (int k = 16; k < 20; k++) ASSERT(a[k] == 0, "bytes past the identifier are zero");
    VWIID iid; u.GetUUID(iid); VWUUID v(iid); ASSERT(eqb(v, a), "interface id round trip"); ASSERT(sym_and(u == v, !(u != v)), "equality"); 
    uint8_t c[16]; sym_bytes(c, 16, "other"); VWUUID w(c, 16); int same = 1; for (int k = 0; k < 16; k++) same = sym_and(same, a[k] == c[k]); ASSERT((int)(u == w) == same, "equality iff same bytes"); ASSERT((int)(u != w) == !same, "inequality iff different bytes");
    VWUUID cp(w); ASSERT(eqb(cp, c), "copy"); cp = u; ASSERT(eqb(cp, a), "assignment"); size_t n = symChoose("len", 17); VWUUID s(c, n); uint8_t sb[16]; s.GetUUID(sb, 16); for (size_t k = 0; k < 16; k++) ASSERT(sb[k] == (k < n ? c[k] : 0), "short arrays are zero extended"); REACH("numbers");
  }
  PART(4) {
    // a text with one arbitrary byte at an arbitrary position: accepted only when it is still canonical, and never any out-of-bounds read
    std::string t = "{09E95D97-364C-43D5-8ADF-FF4CE0EC41A7}"; bool br = symBool("brackets"); if (!br) t = t.substr(1, 36); unsigned pos = symChoose("pos", (unsigned)t.size()); uint8_t c = symU8("c"); ASSUME(sym_and(c >= 32, c < 127)); unsigned cut = symChoose("cut", 3); std::string orig = t; t[pos] = (char)c; if (cut == 1) t += '0'; if (cut == 2) t.resize(t.size() - 1);
    bool dash = orig[pos] == '-', brace = orig[pos] == '{' || orig[pos] == '}'; bool hex = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); bool valid = cut == 0 && (dash ? c == '-' : brace ? (char)c == orig[pos] : hex);
    VWUUID w; bool ok = false, threw = false; try { ok = w.FromString(TXString(t.c_str()), br); } catch (...) { threw = true; }
    sym_observe("ok", ok); ASSERT((ok && !threw) == valid, "only canonical text is accepted"); REACH("malformed");
  }
}
