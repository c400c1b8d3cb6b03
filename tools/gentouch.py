"""gentouch.py: writes harness/touch.h, which calls every getter of the fixture (Gdtf) interfaces, from the interface header (run by hand when the interface grows)."""
import os, re, sys
R = os.environ.get("VERIF_REPO", "/repo"); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(R + "/src/Include/IMediaRessourceVectorInterface.h", encoding="latin1").read(); src = re.sub(r"//[^\n]*", "", src); src = re.sub(r"/\*.*?\*/", "", src, flags=re.S)
LINKS = {("IGdtfActivationGroup", "GetAttribute"), ("IGdtfFeature", "GetAttribute"), ("IGdtfGeometry", "GetLinkedDmxChannel"), ("IGdtfGamut", "GetColorSpace")}
scene = len(sys.argv) > 1 # the interfaces of a scene
prefix = "I(?:SceneDataProvider|Position|Class|GeometryReference|SymDef|Source|MappingDefinition|Mapping|Connection|CustomCommand|Alignment|Overwrite|SceneObj)" if scene else "IGdtf\\w+"
UNORDERED = {("IGdtfActivationGroup", "GetAttribute"), ("IGdtfFeature", "GetAttribute")} # in the order in which they were linked
NOTES = """struct Note { const char* what; std::string text; unsigned long long v; bool number; };
static std::vector<Note> gNotes; static bool gNoting = true;
static inline void isSet(const char* what, bool is) { if (!is) { std::string l = std::string(what) + " was never set"; ASSERT(0, l.c_str()); } } // fresh memory is filled with this byte, in the native replay as well
static inline void note(const char* what, const char* s) { if (gNoting) gNotes.push_back({what, s ? s : "(none)", 0, false}); }
static inline void note(const char* what, double d) { isSet(what, dbits(d) != 0xAAAAAAAAAAAAAAAAull); if (gNoting) gNotes.push_back({what, "", dbits(d), true}); }
template <class T> static inline std::enable_if_t<std::is_enum<T>::value || std::is_integral<T>::value> note(const char* what, T v) { if (sizeof(T) > 1) isSet(what, (unsigned long long)v << (64 - 8 * sizeof(T)) != 0xAAAAAAAAAAAAAAAAull << (64 - 8 * sizeof(T))); else isSet(what, (unsigned char)v != 0xAA); if (gNoting) gNotes.push_back({what, "", (unsigned long long)v, true}); }
static inline void note(const char* what, const CieColor& c) { note(what, c.fx); note(what, c.fy); note(what, c.f_Y); }
static inline void note(const char* what, const SVector3& v) { note(what, v.x); note(what, v.y); note(what, v.z); }
static inline void note(const char* what, const MvrUUID& u) { note(what, u.a); note(what, u.b); note(what, u.c); note(what, u.d); }
static inline void note(const char* what, const STime& t) { note(what, t.fYear); note(what, t.fMonth); note(what, t.fDay); note(what, t.fHour); note(what, t.fMinute); note(what, t.fSecond); }
static inline void note(const char* what, const STransformMatrix& m) { const double d[] = {m.ux, m.uy, m.uz, m.vx, m.vy, m.vz, m.wx, m.wy, m.wz, m.ox, m.oy, m.oz}; for (double x : d) note(what, x); }
"""
out, fwd, skipped = [], [], []
for m in re.finditer(r"class\s+(?:DYNAMIC_ATTRIBUTE\s+)?(" + prefix + r")\s*:\s*public\s+IVWUnknown\s*\{(.*?)\n\s*\};", src, re.S):
    c, body = m.group(1), " ".join(m.group(2).split()); ms = re.findall(r"virtual\s+([\w:]+)\s*(\*?)\s*VCOM_CALLTYPE\s+(\w+)\s*\(([^)]*)\)\s*(?:const)?\s*=\s*0", body); names = {x[2] for x in ms}; L = []
    for ret, star, n, args in ms:
        a = [x.strip() for x in args.split(",") if x.strip()]
        if not re.match(r"Get|Is|Has", n) or n == "GetBoundObject": continue
        if ret == "MvrString" and not a: L.append('note("%s.%s", o->%s());' % (c, n, n)); continue
        if n.endswith("At") and len(a) == 2 and re.match(r"size_t\s*&?\s*at$", a[0]) and "**" in a[1]:
            b = n[:-2]; cn = b + "Count" if b + "Count" in names else "GetCount" + b[3:] if "GetCount" + b[3:] in names else None; t = re.match(r"([\w:]+)\s*\*\*", a[1]).group(1).split("::")[-1]
            if not cn: skipped.append((c, n)); continue
            deep = "visit(%s, %s)" % ("p", "0" if (c, b) in LINKS else "1")
            if (c, b) in UNORDERED: deep = "gNoting = false; %s; gNoting = true" % deep
            L.append("if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->%s(n))) { note(\"%s.%s\", n); for (size_t k = 0; k < n; k++) { VCOMPtr<%s> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->%s(at, &p)) && p, \"%s.%s\"); %s; } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<%s> p; size_t at = k; ASSERT(VCOM_FAILED(o->%s(at, &p)), \"%s.%s behind the last\"); } } }" % (cn, c, cn, t, n, c, n, deep, t, n, c, n)); continue
        if n.endswith("Count"): continue
        if len(a) == 1 and "**" in a[0]:
            t = re.match(r"([\w:]+)\s*\*\*", a[0]).group(1).split("::")[-1]; L.append("if (deep) { VCOMPtr<%s> p; bool ok = VCOM_SUCCEEDED(o->%s(&p)) && p; note(\"%s.%s\", ok); if (ok) visit(p, %d); }" % (t, n, c, n, 0 if not n.endswith(("RDM", "ArtNet", "SACN")) else 1)); continue
        if ret == "VCOMError" and a and all(re.match(r"(?!const)[\w:]+\s*&\s*\w+$", x) for x in a):
            d = "".join("%s x%d{}; " % (re.match(r"[\w:]+", x).group(0), k) for k, x in enumerate(a)); L.append("{ %sbool ok = VCOM_SUCCEEDED(o->%s(%s)); note(\"%s.%s\", ok); if (ok) { %s } }" % (d, n, ", ".join("x%d" % k for k in range(len(a))), c, n, " ".join('note("%s.%s", x%d);' % (c, n, k) for k in range(len(a))))); continue
        if ret in ("bool", "size_t") and not a: L.append('note("%s.%s", o->%s());' % (c, n, n)); continue
        skipped.append((c, n + "(" + args + ")"))
    if scene and "GetGuid" in names: L.insert(0, '{ MvrUUID u{}; ASSERT(VCOM_SUCCEEDED(o->GetGuid(u)), "%s handed out without content"); }' % c)
    if scene and c == "ISource": L.insert(0, '{ ESourceType t{}; ASSERT(VCOM_SUCCEEDED(o->GetType(t)), "%s handed out without content"); }' % c)
    for k, l in enumerate(L):
        if "ParsingError" in l or "GetGDTFVersion" in l: L[k] = "gNoting = false; %s gNoting = true;" % l # the errors are those of the reading, the version the one of the writer
    fwd.append("static void visit(%s* o, int deep);" % c); out.append("static void visit(%s* o, int deep) {\n  %s\n}" % (c, "\n  ".join(L)))
print("\n".join(map(str, skipped)))
open(V + "/harness/touch%s.h" % ("m" if scene else ""), "w").write("// calls every getter of an object and of everything below it (written by tools/gentouch.py)\n#pragma once\n" + ('#include "touch.h"\n' if scene else NOTES) + "" + "\n".join(fwd) + "\n" + "\n".join(out) + "\n")
