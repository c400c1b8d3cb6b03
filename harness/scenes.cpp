// scenes written by others: one attribute, value or element is missing, repeated, or has a value nobody expects
#include "mvr.h"
#include "touchm.h"
#include "alter.h"
static void le(std::string& s, uint32_t v, int n) { for (int i = 0; i < n; i++) s += (char)(v >> 8 * i); }
static std::string archive(const std::string& name, const std::string& c) {
  std::string z; z += "PK\3\4"; le(z, 20, 2); le(z, 0, 2); le(z, 0, 2); le(z, 0, 4); le(z, 0, 4); le(z, c.size(), 4); le(z, c.size(), 4); le(z, name.size(), 2); le(z, 0, 2); z += name; z += c; uint32_t at = z.size();
  z += "PK\1\2"; le(z, 20, 2); le(z, 20, 2); le(z, 0, 2); le(z, 0, 2); le(z, 0, 4); le(z, 0, 4); le(z, c.size(), 4); le(z, c.size(), 4); le(z, name.size(), 2); le(z, 0, 2); le(z, 0, 2); le(z, 0, 2); le(z, 0, 2); le(z, 0, 4); le(z, 0, 4); z += name; uint32_t n = z.size() - at;
  z += "PK\5\6"; le(z, 0, 4); le(z, 1, 2); le(z, 1, 2); le(z, n, 4); le(z, at, 4); le(z, 0, 2); return z; }
static void put(const std::string& path, const std::string& s) { FILE* f = fopen(path.c_str(), "wb"); ASSERT(f && fwrite(s.data(), 1, s.size(), f) == s.size(), "scratch file"); fclose(f); }
#define ID(k) #k "0000000-1111-2222-3333-44444444444" #k
#define MATRIX "<Matrix>{1.000000,0.000000,0.000000}{0.000000,1.000000,0.000000}{0.000000,0.000000,1.000000}{10.500000,20.000000,30.000000}</Matrix>"
#define HEAD "<?xml version=\"1.0\" encoding=\"UTF-8\"?><GeneralSceneDescription verMajor=\"1\" verMinor=\"6\" provider=\"P\" providerVersion=\"1\">"
#define DEVICE "<GDTFSpec>Spot</GDTFSpec><GDTFMode>Wide</GDTFMode>"
#define AUX "<AUXData><Symdef uuid=\"" ID(A) "\" name=\"Sym\"><ChildList><Geometry3D fileName=\"a.3ds\">" MATRIX "</Geometry3D></ChildList></Symdef><Position uuid=\"" ID(B) "\" name=\"Pos\"/><Class uuid=\"" ID(C) "\" name=\"Cls\"/>" \
  "<MappingDefinition uuid=\"" ID(D) "\" name=\"Map\"><SizeX>1920</SizeX><SizeY>1080</SizeY><Source linkedGeometry=\"Screen\" type=\"File\">movie.mov</Source><ScaleHandling>ScaleKeepRatio</ScaleHandling></MappingDefinition></AUXData>"
static const char* kScenes[] = {
  HEAD "<UserData><Data provider=\"Me\" ver=\"2\"><VWEntry key=\"k\">v</VWEntry><VWEntry key=\"l\">w</VWEntry></Data></UserData><Scene><Layers><Layer uuid=\"" ID(1) "\" name=\"Front\">" MATRIX "<ChildList><Fixture uuid=\"" ID(2) "\" name=\"Lamp\">" MATRIX DEVICE
    "<Addresses><Address break=\"0\">17</Address><Address break=\"1\">600</Address></Addresses><FixtureID>101</FixtureID><FixtureIDNumeric>101</FixtureIDNumeric><UnitNumber>3</UnitNumber><FixtureTypeId>1</FixtureTypeId><CustomId>5</CustomId><Color>0.300000,0.310000,50.000000</Color>"
    "<Gobo rotation=\"32.500000\">gobo.png</Gobo><Function>Key</Function><CastShadow>true</CastShadow><DMXInvertPan>true</DMXInvertPan><DMXInvertTilt>false</DMXInvertTilt><Protocols><Protocol geometry=\"In1\" name=\"p\" type=\"ArtNet\" version=\"4\" transmission=\"Multicast\"/></Protocols></Fixture>"
    "<SceneObject uuid=\"" ID(3) "\" name=\"Box\"/></ChildList></Layer></Layers><AUXData/></Scene></GeneralSceneDescription>",
  HEAD "<UserData/><Scene><Layers><Layer uuid=\"" ID(1) "\" name=\"Front\"><ChildList><Fixture uuid=\"" ID(2) "\" name=\"Lamp\"><Geometries><Symbol uuid=\"" ID(E) "\" symdef=\"" ID(A) "\">" MATRIX "</Symbol><Geometry3D fileName=\"b.3ds\">" MATRIX "</Geometry3D></Geometries><Classing>" ID(C) "</Classing>" DEVICE
    "<Focus>" ID(4) "</Focus><Position>" ID(B) "</Position><Addresses/><FixtureID>1</FixtureID><UnitNumber>0</UnitNumber><FixtureTypeId>0</FixtureTypeId><CustomId>0</CustomId><Color>0.312712,0.329008,100.000000</Color><CastShadow>false</CastShadow>"
    "<Mappings><Mapping linkedDef=\"" ID(D) "\"><ux>1</ux><uy>2</uy><ox>3</ox><oy>4</oy><rz>5.000000</rz></Mapping></Mappings><DMXInvertPan>false</DMXInvertPan><DMXInvertTilt>false</DMXInvertTilt><Protocols/></Fixture><FocusPoint uuid=\"" ID(4) "\" name=\"Focus\">" MATRIX "</FocusPoint>"
    "<Fixture uuid=\"" ID(7) "\" name=\"Second\"><Geometries><Symbol uuid=\"" ID(8) "\" symdef=\"" ID(A) "\"/></Geometries><Classing>" ID(C) "</Classing>" DEVICE "<Focus>" ID(4) "</Focus><Position>" ID(B) "</Position><Mappings><Mapping linkedDef=\"" ID(D) "\"/></Mappings></Fixture>"
    "<SceneObject uuid=\"" ID(3) "\" name=\"Box\"><Geometries><Symbol uuid=\"" ID(F) "\" symdef=\"" ID(A) "\"/></Geometries><Classing>" ID(C) "</Classing></SceneObject></ChildList></Layer></Layers>" AUX "</Scene></GeneralSceneDescription>",
  HEAD "<UserData/><Scene><Layers><Layer uuid=\"" ID(1) "\" name=\"Front\"><ChildList><GroupObject uuid=\"" ID(2) "\" name=\"Group\">" MATRIX "<ChildList><Truss uuid=\"" ID(3) "\" name=\"Truss\">" MATRIX "<CustomCommands><CustomCommand>Body_Pan,f 50.000000</CustomCommand><CustomCommand>Tilt/percent,f 5.000000</CustomCommand></CustomCommands>"
    "<Alignments><Alignment geometry=\"Beam\" up=\"{0.000000,0.000000,1.000000}\" direction=\"{0.000000,1.000000,0.000000}\"/></Alignments><Overwrites><Overwrite universal=\"Wheel\" target=\"Mine\"/></Overwrites><Connections><Connection own=\"o\" other=\"p\" toObject=\"" ID(4) "\"/></Connections>" DEVICE "</Truss></ChildList></GroupObject>"
    "<Support uuid=\"" ID(4) "\" name=\"Hoist\">" DEVICE "</Support><VideoScreen uuid=\"" ID(5) "\" name=\"Screen\">" DEVICE "<Sources><Source linkedGeometry=\"Screen\" type=\"NDI\">one</Source></Sources></VideoScreen>"
    "<Projector uuid=\"" ID(6) "\" name=\"Beamer\">" DEVICE "<Projections><Projection><Source linkedGeometry=\"Beam\" type=\"CITP\">two</Source><ScaleHandling>KeepSizeCenter</ScaleHandling></Projection></Projections></Projector><Fixture uuid=\"" ID(7) "\" name=\"Twin\" multipatch=\"" ID(4) "\">" DEVICE "</Fixture></ChildList></Layer>"
    "<Layer uuid=\"" ID(8) "\" name=\"Back\"/></Layers><AUXData/></Scene></GeneralSceneDescription>"};
struct Seen { ESceneObjType type; std::string name; std::vector<Note> notes; };
static void below(Mvr& m, ISceneObjPtr first, std::vector<Seen>& seen, bool top) {
  for (ISceneObjPtr o = first; o;) { ISceneObj* p = o; Seen s; gNotes.clear(); visit(p, 1); o->GetType(s.type); s.name = o->GetName(); ASSERT(seen.size() < 40, "number of objects");
    size_t n = 0; if (VCOM_SUCCEEDED(o->GetAdressCount(n))) { for (size_t k = 0; k < n; k++) { SDmxAdress a{}; ASSERT(VCOM_SUCCEEDED(o->GetAdressAt(k, a)), "address"); note("address", a.fAbsuluteAdress); note("break", a.fBreakId); } SDmxAdress a{}; for (size_t k : {n, n + 1, (size_t)-1}) ASSERT(VCOM_FAILED(o->GetAdressAt(k, a)), "address behind the last"); }
    n = 0; if (VCOM_SUCCEEDED(o->GetProtocolsCount(n))) { for (size_t k = 0; k < n; k++) { SProtocol a{}, *q = &a; ASSERT(VCOM_SUCCEEDED(o->GetProtocolAt(k, &q)), "protocol"); note("protocol", q->fName); note("protocol", q->fGeometry); note("protocol", q->fType); note("protocol", q->fVersion); note("protocol", q->fTransmision); } SProtocol a{}, *q = &a; for (size_t k : {n, n + 1, (size_t)-1}) ASSERT(VCOM_FAILED(o->GetProtocolAt(k, &q)), "protocol behind the last"); }
    s.notes = std::move(gNotes); seen.push_back(std::move(s)); ISceneObjPtr c; m->GetFirstChild(o, &c); below(m, c, seen, false); ISceneObjPtr x; m->GetNextObject(o, &x); o = x; } }
template <class T, class C, class A> static void list(C count, A at, const char* label) { size_t n = 0; if (VCOM_FAILED(count(n))) return; note(label, n); for (size_t k = 0; k < n; k++) { VCOMPtr<T> p; ASSERT(VCOM_SUCCEEDED(at(k, &p)) && p, label); T* q = p; visit(q, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<T> p; ASSERT(VCOM_FAILED(at(k, &p)), "object behind the last"); } }
static std::vector<Seen> examine(Mvr& m) {
  std::vector<Seen> seen; ISceneObjPtr l; m->GetFirstLayer(&l); below(m, l, seen, true); gNotes.clear();
#define LIST(T, Count, At) list<T>([&](size_t& n) { return m->Count(n); }, [&](size_t k, T** p) { return m->At(k, p); }, #At)
  LIST(IPosition, GetPositionObjectCount, GetPositionObjectAt); LIST(ISymDef, GetSymDefCount, GetSymDefAt); LIST(IClass, GetClassCount, GetClassAt); LIST(IMappingDefinition, GetMappingDefinitionCount, GetMappingDefinitionAt); LIST(ISceneDataProvider, GetDataProviderObjectCount, GetDataProviderObjectAt);
  size_t n = 0; m->GetDataProviderObjectCount(n); for (size_t k = 0; k < n; k++) { ISceneDataProviderPtr p; m->GetDataProviderObjectAt(k, &p); size_t c = 0; p->GetKeyValueCount(c); for (size_t e = 0; e <= c; e++) { note("key", p->GetKeyAt(e)); note("value", p->GetValueAt(e)); } }
  n = 0; m->GetAttachedFileCount(n); for (size_t k = 0; k <= n; k++) note("attached", m->GetAttachedFileCountAt(k)); n = 0; m->GetSceneObjectCount(n); note("objects", n); bool d = false; m->GetDuplicatedUuids(d); (void)d; Sint32 a = 0, b = 0; m->GetMVRVersion(a, b); note("version", a); note("version", b);
  Seen rest{}; rest.notes = std::move(gNotes); seen.push_back(std::move(rest)); return seen; } // the last: all but the objects
static bool same(const std::vector<Note>& a, const std::vector<Note>& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if (a[k].text != b[k].text || a[k].v != b[k].v) { if (sym_param("dbg", 0)) { sym_print(a[k].what, k); sym_print(a[k].text.c_str(), a[k].v); sym_print(b[k].text.c_str(), b[k].v); } return false; } return true; }
static bool within(const std::vector<Seen>& a, const std::vector<Seen>& b) { size_t k = 0; for (size_t n = 0; k < a.size() && n < b.size(); n++) if (a[k].type == b[n].type && a[k].name == b[n].name) k++; return k == a.size(); }
static std::vector<Seen> readScene(const std::string& doc) {
  put(scratch("t.mvr"), archive("GeneralSceneDescription.xml", doc)); Mvr m(IID_MediaRessourceVectorInterface); m->OpenForRead(scratch("t.mvr").c_str()); sym_reach("read"); std::vector<Seen> seen = examine(m); sym_reach("examined"); m->Close(); sym_reach("closed"); return seen; }
extern "C" void sym_main() {
  static const size_t objects[] = {4, 6, 9}; unsigned part = (unsigned)sym_param("part", 0); std::string doc = kScenes[part]; std::vector<Seen> whole = readScene(doc); if (sym_param("dbg", 0)) sym_print("objects", whole.size()); ASSERT(whole.size() == objects[part], "all objects read");
  readScene(renumbered(doc, "<Scene>")); doc = altered(doc); std::vector<Seen> seen = readScene(doc), again = readScene(doc);
  ASSERT(seen.size() == again.size(), "the same objects when read twice"); for (size_t k = 0; k < seen.size(); k++) ASSERT(same(seen[k].notes, again[k].notes), "the same values when read twice");
  bool inside = gAt > doc.find("<Layers>") && gAt < std::string(kScenes[part]).find("</Layers>");
  if (!gId && gAltered < 2 && seen.size() == whole.size()) {
    size_t other = 0; for (size_t k = 0; k + 1 < seen.size(); k++) if (!same(whole[k].notes, seen[k].notes)) other++; if (inside) { std::string o = kScenes[part]; size_t b = o.rfind('<', o.find("uuid=\"" ID(4))), e = o.find(part == 1 ? "<Fixture uuid=\"7" : "<VideoScreen"); bool referred = part && gAt >= b && gAt < e; /* what refers to an object shows its values */ ASSERT(other <= (referred ? part == 1 ? 3 : 2 : 1), "the other objects keep their values"); ASSERT(same(whole.back().notes, seen.back().notes), "what is not in the layers keeps its values"); } }
  switch (gAltered) {
    case 0: { ASSERT(seen.size() == whole.size(), "an altered value keeps the objects"); size_t other = 0; for (size_t k = 0; k < seen.size(); k++) { ASSERT(seen[k].type == whole[k].type, "an altered value keeps the kind of object"); if (seen[k].name != whole[k].name) other++; } ASSERT(other <= 1, "an altered value keeps the other names"); break; }
    case 1: if (gPart.size() && gPart.find("uuid=") == std::string::npos && gPart.find("<Layers>") == std::string::npos) ASSERT(seen.size() == whole.size(), "a missing detail keeps the objects"); ASSERT(within(seen, whole), "what is left keeps its order"); break;
    default: ASSERT(within(whole, seen), "an element there twice hides nothing"); }
}
