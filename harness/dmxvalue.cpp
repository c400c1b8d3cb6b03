// DMX values and addresses as text.  0: round trip; 1: scaling between byte counts; 2: byte shifting; 3: out of range; 4: arbitrary text; 5: addresses; 6: arbitrary address text
#include "common.h"
static IXMLFileNodePtr node;
static std::string dec(uint64_t v) { return std::to_string((unsigned long long)v); }
static uint64_t maxOf(unsigned bytes) { return bytes == 4 ? 0xffffffffull : (1ull << (8 * bytes)) - 1; }
static bool conv(const std::string& s, unsigned reso, DmxValue& v) { return GdtfConverter::ConvertDMXValue(TXString(s.c_str()), node, (EGdtfChannelBitResolution)reso, v); }
static std::string anyText(unsigned n) { std::string s; for (unsigned k = 0; k < n; k++) { char nm[8] = "c0"; nm[1] = 'a' + k; uint8_t c = symU8(nm); ASSUME(sym_and(c >= 32, c < 127)); s += (char)c; } return s; }
extern "C" void sym_main() {
  node = newNode("Test"); Errors err;
  PART(0) {
    unsigned reso = 1 + symChoose("reso", 4); DmxValue v = reso == 1 ? symU8("v") : reso == 2 ? symU16("v") : reso == 3 ? (symU32("v") & 0xffffff) : symU32("v"); TXString t = GdtfConverter::ConvertDMXValue(v, (EGdtfChannelBitResolution)reso, false); DmxValue r = v ^ 1;
    ASSERT(GdtfConverter::ConvertDMXValue(t, node, (EGdtfChannelBitResolution)reso, r), "DMX value text accepted"); ASSERT(r == v, "DMX value round trip"); ASSERT(err.n() == 0, "no error for a written DMX value"); bool none = true; r = v ^ 1; ASSERT(GdtfConverter::ConvertDMXValue(t, node, (EGdtfChannelBitResolution)reso, r, none), "optional DMX value text accepted"); ASSERT(sym_and(!none, r == v), "optional DMX value round trip");
    t = GdtfConverter::ConvertDMXValue(v, (EGdtfChannelBitResolution)reso, true); none = false; GdtfConverter::ConvertDMXValue(t, node, (EGdtfChannelBitResolution)reso, r, none); ASSERT(none, "None marker round trip"); REACH("roundtrip");
  }
  PART(1) { // raw/spec read on a channel of another resolution: proportional, rounded to nearest
    unsigned spec = 1 + symChoose("spec", 4), reso = 1 + symChoose("reso", 4); uint64_t base = 0, m1 = maxOf(spec), m2 = maxOf(reso); unsigned pos = symChoose("byte", spec), fill = symChoose("fill", 3); for (unsigned k = 0; k < spec; k++) if (k != pos) base |= (uint64_t)(fill == 0 ? 0 : fill == 1 ? 0xff : 0x80 - 0x21 * k) << (8 * k);
    uint8_t b = symU8("b"); uint64_t raw = base + ((uint64_t)b << (8 * pos)); DmxValue v = 1; bool ok = conv(dec(raw) + "/" + dec(spec), reso, v); ASSERT(ok, "DMX value in range accepted"); ASSERT(v <= m2, "scaled value in range");
    unsigned __int128 num = (unsigned __int128)raw * m2 * 2 + m1; ASSERT(v == (uint64_t)(num / (2 * m1)), "value scaled to the nearest"); ASSERT(err.n() == 0, "no error for a value in range"); REACH("scale");
  }
  PART(2) {
    unsigned spec = 1 + symChoose("spec", 4), reso = 1 + symChoose("reso", 4); uint64_t raw = spec == 1 ? symU8("v") : spec == 2 ? symU16("v") : spec == 3 ? (symU32("v") & 0xffffff) : symU32("v"); DmxValue v = 1; ASSERT(conv(dec(raw) + "/" + dec(spec) + "s", reso, v), "shifted DMX value accepted"); uint64_t want = reso >= spec ? raw << (8 * (reso - spec)) : raw >> (8 * (spec - reso)); ASSERT(v == want, "shifted value"); REACH("shift");
  }
  PART(3) { // value above the channel's range at its own resolution
    unsigned reso = 1 + symChoose("reso", 4), sh = symChoose("shifted", 2); uint64_t raw = symU64("v"); ASSUME(raw > maxOf(reso)); ASSUME(raw < 1000000000000000000ull); DmxValue v = 1; ASSERT(!conv(dec(raw) + "/" + dec(reso) + (sh ? "s" : ""), reso, v), "value above the range refused"); ASSERT(err.n() == 1, "value above the range reported");
    std::string big = "9"; uint8_t d = (uint8_t)symRange("d", '1', '9'); unsigned n = 18 + symChoose("digits", 4); big[0] = (char)sym_concretize(d); for (unsigned k = 0; k < n; k++) big += '0'; ASSERT(!conv(big + "/" + dec(reso), reso, v), "huge value refused"); unsigned spec = 1 + symChoose("spec", 4); if (conv(big + "/" + dec(spec), reso, v)) ASSERT(v <= maxOf(reso), "huge value never becomes out of range"); if (spec != reso) ASSERT(v == maxOf(reso), "huge value saturates"); REACH("range");
  }
  PART(4) { unsigned n = symChoose("len", (unsigned)sym_param("maxlen", 3) + 1), reso = 1 + symChoose("reso", 2) * 3; std::string s = anyText(n); unsigned pre = symChoose("pre", 3); if (pre == 1) s = "5/" + s; if (pre == 2) s += "/1"; DmxValue v = 0; bool ok = conv(s, reso, v); if (ok) ASSERT(v <= maxOf(reso), "accepted value is in the channel's range"); if (pre == 0 && n > 0) { int slash = 0; for (char c : s) slash = sym_or(slash, c == '/'); if (!slash) ASSERT(!ok && err.n() > 0, "text without byte count refused"); } if (n == 0 && pre == 0) ASSERT(ok && v == 0, "empty text is zero");
    bool none; conv("x", reso, v); DmxValue w; GdtfConverter::ConvertDMXValue(TXString(s.c_str()), node, (EGdtfChannelBitResolution)reso, w, none); REACH("text"); }
  PART(5) {
    unsigned k = symChoose("kind", 3); DMXAddress r = 0;
    if (k == 0) { DMXAddress a = symU16("a"); ASSUME(a > 0); r = a ^ 1; TXString t = GdtfConverter::ConvertDMXAdress(a); ASSERT(GdtfConverter::ConvertDMXAdress(t, node, r), "address text accepted"); ASSERT(r == a, "address round trip"); ASSERT(err.n() == 0, "no error for a written address"); REACH("address"); }
    if (k == 1) { uint32_t u = symU16("u"), a = symU16("a"); bool ok = GdtfConverter::ConvertDMXAdress(TXString((dec(u) + "." + dec(a)).c_str()), node, r); bool valid = sym_and(sym_and(u > 0, a > 0), sym_and(a <= 512, u <= 128)) && !(u == 128 && a == 512); ASSERT(ok == valid, "universe.address accepted exactly when valid"); ASSERT((err.n() > 0) == !valid, "invalid address reported"); if (valid) ASSERT(r == (u - 1) * 512 + a, "universe.address is the absolute address"); REACH("universe"); }
    if (k == 2) { uint32_t a = symU32("a"); ASSUME(a < 2000000000u); bool ok = GdtfConverter::ConvertDMXAdress(TXString(dec(a).c_str()), node, r); ASSERT(ok == (bool)sym_and(a > 0, a < 65536), "absolute address accepted exactly when representable"); if (ok) ASSERT(r == a, "absolute address value"); REACH("absolute"); }
  }
  PART(6) { unsigned n = symChoose("len", (unsigned)sym_param("maxlen", 3) + 1); std::string s = anyText(n); DMXAddress r = 0; bool ok = GdtfConverter::ConvertDMXAdress(TXString(s.c_str()), node, r); if (ok) ASSERT(r > 0, "accepted address is positive"); if (n > 0) ASSERT(ok == (err.n() == 0), "refused address reported"); REACH("text"); }
}
