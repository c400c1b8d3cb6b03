// Keyword attributes.  part = index of the keyword set; each: every value <-> keyword, empty text, arbitrary short text, one altered character of every keyword
#include "common.h"
static IXMLFileNodePtr node;
struct Set { const char* name; std::vector<int> values; std::vector<const char*> words; int dflt; bool reports; std::function<TXString(int)> wr; std::function<bool(const TXString&, int&)> rd; bool emptyIsDefault = true; };
#define SET(T, FN, dflt, reports, ...) { #FN, {}, {}, (int)(dflt), reports, [](int v) { return GdtfConverter::FN((T)v); }, [](const TXString& t, int& v) { T x = (T)v; bool ok = GdtfConverter::FN(t, node, x); v = (int)x; return ok; }, ##__VA_ARGS__ }
static void fill(Set& s, std::initializer_list<std::pair<int, const char*>> l) { for (auto& p : l) { s.values.push_back(p.first); s.words.push_back(p.second); } }
static std::vector<Set> sets() {
  using namespace GdtfDefines; std::vector<Set> r;
#define ADD(T, FN, dflt, reports, ...) { r.push_back(SET(T, FN, dflt, reports)); fill(r.back(), __VA_ARGS__); }
  ADD(EGdtfModel_PrimitiveType, ConvertPrimitiveType, 0, true, {{0,"Undefined"},{1,"Cube"},{2,"Cylinder"},{3,"Sphere"},{4,"Base"},{5,"Yoke"},{6,"Head"},{7,"Scanner"},{8,"Conventional"},{9,"Pigtail"},{10,"Base1_1"},{11,"Scanner1_1"},{12,"Conventional1_1"}})
  ADD(EGdtfSpecial, ConvertSpecialAttrEnum, 0, true, {{0,"None"},{1,"Dimmer"},{2,"Pan"},{3,"Tilt"},{4,"X"},{5,"Y"},{6,"Z"},{7,"RGB"},{8,"Hue"},{9,"Saturation"},{10,"Brightness"},{11,"ColorWheel"},{12,"Focus"},{13,"Zoom"},{14,"Dummy"}})
  ADD(EGdtfPhysicalUnit, ConvertPhysicalUnitEnum, 0, true, {{0,"None"},{1,"Percent"},{2,"Length"},{3,"Mass"},{4,"Time"},{5,"Temperature"},{6,"LuminousIntensity"},{7,"Angle"},{8,"Force"},{9,"Frequency"},{10,"Current"},{12,"Voltage"},{13,"Power"},{14,"Energy"},{15,"Area"},{16,"Volume"},{17,"Speed"},{18,"Acceleration"},{19,"AngularSpeed"},{20,"AngularAccc"},{21,"WaveLength"},{22,"ColorComponent"}})
  ADD(EGdtfBeamType, ConvertBeamType, 0, true, {{0,"Wash"},{1,"Spot"},{2,"None"},{3,"Rectangle"},{4,"PC"},{5,"Fresnel"},{6,"Glow"}})
  ADD(EGdtfLampType, ConvertLampeType, 0, true, {{0,"Discharge"},{1,"Tungsten"},{2,"Halogen"},{3,"LED"}})
  ADD(EGdtfDmxSnap, ConvertSnapEnum, 1, true, {{0,"Yes"},{1,"No"},{2,"On"},{3,"Off"}})
  ADD(EGdtfDmxMaster, ConvertMasterEnum, 0, true, {{0,"None"},{1,"Grand"},{2,"Group"}})
  ADD(EGdtfDmxRelationType, ConvertRelationEnum, 2, true, {{1,"Multiply"},{2,"Override"}})
  ADD(EGdtfColorSpace, ConvertEGdtfColorSpace, -1, true, {{0,"sRGB"},{1,"Custom"},{2,"ProPhoto"},{3,"ANSI"}})
  ADD(EGdtfInterpolationTo, ConvertEGdtfInterpolationTo, 0, true, {{0,"Linear"},{1,"Step"},{2,"Log"}})
  ADD(bool, ConvertEGdtfCanHaveChildren, 1, true, {{1,"Yes"},{0,"No"}})
  ADD(ESourceType, ConvertESourceType, 0, false, {{0,"NDI"},{1,"File"},{3,"CITP"},{4,"CaptureDevice"}})
  ADD(EScaleHandlingType, ConvertEScaleHandlingType, 0, false, {{0,"ScaleKeepRatio"},{1,"ScaleIgnoreRatio"},{2,"KeepSizeCenter"}})
  ADD(EGdtfLaserColorType, ConvertLaserColorTypeEnum, 0, false, {{0,"RGB"},{1,"SingleWaveLength"}})
  ADD(EGdtfComponentType, ConvertComponentTypeEnum, 0, false, {{0,"Input"},{1,"Output"},{2,"PowerSource"},{3,"Consumer"},{4,"Fuse"},{5,"NetworkProvider"},{6,"NetworkInput"},{7,"NetworkOutput"},{8,"NetworkInOut"}})
  ADD(EGdtfOrientation, ConvertOrientationEnum, 0, false, {{0,"Left"},{1,"Right"},{2,"Top"},{3,"Bottom"}})
  ADD(EGdtfFuseRating, ConvertFuseRatingEnum, 0, false, {{0,"B"},{1,"C"},{2,"D"},{3,"K"},{4,"Z"}})
  ADD(EGdtfStructureType, ConvertStructureTypeEnum, 0, false, {{0,"CenterLineBased"},{1,"Detail"}})
  ADD(EGdtfCrossSectionType, ConvertCrossSectionTypeEnum, 0, false, {{0,"TrussFramework"},{1,"Tube"}})
  ADD(EGdtfSupportType, ConvertSupportTypeEnum, 0, false, {{0,"Rope"},{1,"GroundSupport"}})
  ADD(EGdtfSubPhysicalUnitType, ConvertSubPhysicalUnitTypeEnum, 0, false, {{0,"PlacementOffset"},{1,"Amplitude"},{2,"AmplitudeMin"},{3,"AmplitudeMax"},{4,"Duration"},{5,"DutyCycle"},{6,"TimeOffset"},{7,"MinimumOpening"},{8,"Value"},{9,"RatioHorizontal"},{10,"RatioVertical"}})
  ADD(ETransmissionType, ConvertTransmissionTypeEnum, 3, false, {{0,"Unicast"},{1,"Multicast"},{2,"Broadcast"},{3,"Anycast"}})
  { r.push_back(SET(EGdtfColorSample, ConvertEGdtfColorSampleEnum, -1, true)); for (int k = 0; k < 99; k++) { char* w = new char[8]; w[0] = 'C'; w[1] = 'E'; w[2] = 'S'; w[3] = '0' + (k + 1) / 10; w[4] = '0' + (k + 1) % 10; w[5] = 0; r.back().values.push_back(k); r.back().words.push_back(w); } }
  return r; }
static int lowerc(int c) { return (int)sym_ite(sym_and(c >= 'A', c <= 'Z'), c + 32, c); }
static int eqsNoCase(const std::string& a, const std::string& b) { if (a.size() != b.size()) return 0; int r = 1; for (size_t k = 0; k < a.size(); k++) r = sym_and(r, lowerc((uint8_t)a[k]) == lowerc((uint8_t)b[k])); return r; }
// the value the text means, or -1; near: some keyword in another letter case (whether that is accepted is not stated)
static int64_t meaning(const Set& s, const std::string& t, int& near) { uint64_t v = (uint64_t)-1; near = 0; for (size_t k = 0; k < s.words.size(); k++) { v = sym_ite(eqs(t, s.words[k]), (uint64_t)s.values[k], v); near = sym_or(near, eqsNoCase(t, s.words[k])); } return (int64_t)v; }
static void judge(const Set& s, const std::string& t, Errors& err) { int near; int64_t m = meaning(s, t, near); int v = s.values.back(); s.rd(TXString(t.c_str()), v); if (m >= 0) { ASSERT(v == (int)m, "keyword value"); ASSERT(err.n() == 0, "no error for a keyword"); } else if (!near) { if (s.dflt >= 0) ASSERT(v == s.dflt, "unknown keyword is the default"); else ASSERT(v == s.values.back(), "unknown keyword leaves the value"); if (s.reports) ASSERT(err.n() == 1, "unknown keyword reported"); } }
extern "C" void sym_main() {
  node = newNode("Test"); Errors err; std::vector<Set> all = sets(); unsigned lo = (unsigned)sym_param("lo", 0), hi = (unsigned)sym_param("hi", all.size()); if (hi > all.size()) hi = all.size(); Set& s = all[lo + symChoose("set", hi - lo)];
  PART(0) { // every value <-> its keyword
    unsigned k = symChoose("value", s.values.size()); TXString t = s.wr(s.values[k]); ASSERT(str(t) == s.words[k], "keyword written for the value"); int v = s.values[(k + 1) % s.values.size()]; ASSERT(s.rd(t, v), "keyword accepted"); ASSERT(v == s.values[k], "keyword reads back as the value"); ASSERT(err.n() == 0, "no error for a keyword");
    if (s.dflt >= 0) { v = s.values[(k + 1) % s.values.size()]; ASSERT(s.rd(TXString(""), v), "missing keyword accepted"); ASSERT(v == s.dflt, "missing keyword is the default"); ASSERT(err.n() == 0, "no error for a missing keyword"); } REACH("values"); }
  PART(1) { // arbitrary text of up to maxlen characters
    unsigned n = 1 + symChoose("len", (unsigned)sym_param("maxlen", 3)); std::string t; for (unsigned k = 0; k < n; k++) { char nm[8] = "c0"; nm[1] = 'a' + k; uint8_t c = symU8(nm); ASSUME(sym_and(c >= 32, c < 127)); t += (char)c; }
    judge(s, t, err); REACH("anytext"); }
  PART(2) { // one character of a keyword replaced by any other, or one more character
    unsigned k = symChoose("word", s.words.size()); std::string t = s.words[k]; unsigned p = symChoose("pos", t.size() + 1); uint8_t c = symU8("c"); ASSUME(sym_and(c >= 32, c < 127)); if (p == t.size()) t += (char)c; else t[p] = (char)c;
    judge(s, t, err); REACH("altered"); }
}
