// Scene files: the values of the objects, the shared definitions and the references to them survive writing and reading.
#include "mvr.h"
// the file of a geometry is handed out with the folder it was unpacked to
static bool endsIn(const char* path, const std::string& file) { std::string p = path, f = "/" + file; if (p.size() < f.size()) return eqs(path, file); return eqs(p.substr(p.size() - f.size()).c_str(), f); }
static const ESceneObjType kinds[7] = {ESceneObjType::Fixture, ESceneObjType::SceneObj, ESceneObjType::Truss, ESceneObjType::VideoScreen, ESceneObjType::Projector, ESceneObjType::Support, ESceneObjType::FocusPoint};
static const ESourceType sources[4] = {ESourceType::NDI, ESourceType::File, ESourceType::CITP, ESourceType::CaptureDevice};
#define GUIDF(o, Set, Get, id) do { if (!w.phase) { MvrUUID g_ = guid(id); g_.b = (Uint32)w.newId(#Set); good(o->Set, #Set); } } while (0)
static void fixture(Walk& w, ISceneObjPtr o, unsigned prot) {
  TEXT(o, GdtfName); TEXT(o, GdtfMode); TEXT(o, FixtureId); UINT(o, FixtureIdNumeric, size_t); UINT(o, UnitNumber, Sint32); UINT(o, CustomId, size_t); UINT(o, FixtureTypeId, Sint8);
  TEXT(o, Function); TEXT(o, Gobo); if (!w.phase) { double d = w.newF("GoboRotation"); if (w.txt.back().empty()) { d = 0; w.num.back() = 0; } /* part of the gobo */ good(o->SetGoboRotation(d), "GoboRotation"); } else { double d = 9; good(o->GetGoboRotation(d), "GoboRotation"); w.sameF(d, "GoboRotation"); } COLOR(o, Color); FLAG(o, CastShadow); FLAG(o, DMXInvertPan); FLAG(o, DMXInvertTilt);
  unsigned na = w.pick % 3; size_t c = 99;
  for (unsigned k = 0; k < na; k++) { if (!w.phase) { size_t a = w.newU("address", 32) & 0x7FFFFFFF, b = w.newU("break", 8); if (w.extreme) w.num.back() = b = (b + k) & 255; /* one address per break */ w.num[w.num.size() - 2] = a; good(o->AddAdress(a, b), "AddAdress"); } else { SDmxAdress a; good(o->GetAdressAt(k, a), "GetAdressAt"); w.same(a.fAbsuluteAdress, "address"); w.same(a.fBreakId, "break"); } }
  if (w.phase) { good(o->GetAdressCount(c), "count"); ASSERT(c == na, "address count"); SDmxAdress a; ASSERT(VCOM_FAILED(o->GetAdressAt(na, a)), "address behind the last"); }
  for (unsigned k = 0; k < prot; k++) { if (!w.phase) { SProtocol p; std::string g = w.newT("geometry"); if (g.empty()) w.txt.back() = "NetworkInOut_1"; /* the default of the standard */ std::string n = w.newT("name"), t = w.newT("type"), v = w.newT("version"); p.fGeometry = g.c_str(); p.fName = n.c_str(); p.fType = t.c_str(); p.fVersion = v.c_str(); p.fTransmision = (ETransmissionType)w.newE(4); good(o->AddProtocol(p), "AddProtocol"); }
    else { SProtocol* p = nullptr; good(o->GetProtocolAt(k, &p), "GetProtocolAt"); ASSERT(p != nullptr, "protocol"); w.sameT(p->fGeometry, "protocol geometry"); w.sameT(p->fName, "protocol name"); w.sameT(p->fType, "protocol type"); w.sameT(p->fVersion, "protocol version"); w.same((uint64_t)p->fTransmision, "transmission"); } }
  if (w.phase) { good(o->GetProtocolsCount(c), "count"); ASSERT(c == prot, "protocol count"); SProtocol* p = nullptr; ASSERT(VCOM_FAILED(o->GetProtocolAt(prot, &p)), "protocol behind the last"); }
}
static void values() {
  Walk w; vary(w, 6, sym_param("fields", 30)); unsigned prot = w.pick % 3;
  roundTripM(w, [&](Mvr& m) { ISceneObjPtr l = layer(m, w); Kids k(m, w, l); fixture(w, k.add(ESceneObjType::Fixture, 1, "A"), prot); fixture(w, k.add(ESceneObjType::Fixture, 2, "B"), 1); });
}
// lists every object can have
static void extras(Walk& w, ISceneObjPtr o, unsigned n) {
  size_t c = 99;
  for (unsigned k = 0; k < n; k++) { ICustomCommandPtr x; if (!w.phase) { std::string f = w.newT("function"); for (char ch : f) ASSUME(ch != ','); bool p = w.newE(2); good(o->CreateCustomCommand(f.c_str(), p, w.newF("value"), &x), "command"); } else { good(o->GetCustomCommandAt(k, &x), "command"); w.sameT(x->GetChannelFunction(), "command function"); bool p = false; good(x->IsPercentage(p), "percentage"); w.same(p, "percentage"); double v = 0; good(x->GetValue(v), "value"); w.sameF(v, "command value"); } }
  if (w.phase) { good(o->GetCustomCommandCount(c), "count"); ASSERT(c == n, "command count"); }
  for (unsigned k = 0; k < n; k++) { IAlignmentPtr x; if (!w.phase) { std::string f = w.newT("beam"); SVector3 u, d; u.x = w.newF("ux"); u.y = w.newF("uy"); u.z = w.newF("uz"); d.x = w.newF("dx"); d.y = w.newF("dy"); d.z = w.newF("dz"); good(o->CreateAlignment(f.c_str(), u, d, &x), "alignment"); } else { good(o->GetAlignmentAt(k, &x), "alignment"); w.sameT(x->GetBeamGeometry(), "alignment beam"); SVector3 u, d; good(x->GetUpVector(u), "up"); good(x->GetDirection(d), "direction"); w.sameF(u.x, "up"); w.sameF(u.y, "up"); w.sameF(u.z, "up"); w.sameF(d.x, "direction"); w.sameF(d.y, "direction"); w.sameF(d.z, "direction"); } }
  if (w.phase) { good(o->GetAlignmentCount(c), "count"); ASSERT(c == n, "alignment count"); }
  for (unsigned k = 0; k < n; k++) { IOverwritePtr x; if (!w.phase) { std::string u = w.newT("universal"), t = w.newT("target"); good(o->CreateOverwrite(u.c_str(), t.c_str(), &x), "overwrite"); } else { good(o->GetOverwriteAt(k, &x), "overwrite"); w.sameT(x->GetUniversal(), "universal"); w.sameT(x->GetTarget(), "target"); } }
  if (w.phase) { good(o->GetOverwriteCount(c), "count"); ASSERT(c == n, "overwrite count"); }
  for (unsigned k = 0; k < n; k++) { IConnectionPtr x; if (!w.phase) { std::string a = w.newT("own"), b = w.newT("other"); MvrUUID g = guid(70 + k); g.b = (Uint32)w.newId("to"); good(o->CreateConnection(a.c_str(), b.c_str(), g, &x), "connection"); } else { good(o->GetConnectionAt(k, &x), "connection"); w.sameT(x->GetOwn(), "own"); w.sameT(x->GetOther(), "other"); MvrUUID g; good(x->GetToObject(g), "to"); MvrUUID e = guid(70 + k); e.b = (Uint32)w.n(); ASSERT(sameGuid(g, e), "connected object"); } }
  if (w.phase) { good(o->GetConnectionCount(c), "count"); ASSERT(c == n, "connection count"); }
}
static void source(Walk& w, ISourcePtr x) { w.sameT(x->GetValue(), "source value"); w.sameT(x->GetLinkedGeometry(), "linked geometry"); ESourceType t; good(x->GetType(t), "source type"); ASSERT(t == sources[w.n()], "source type"); }
static void lists() {
  Walk w; vary(w, 7, sym_param("fields", 25));
  roundTripM(w, [&](Mvr& m) { ISceneObjPtr l = layer(m, w); Kids k(m, w, l);
    for (unsigned i = 0; i < 2; i++) { ESceneObjType t = kinds[(w.pick + i) % 7]; ISceneObjPtr o = k.add(t, 1 + i, "A"); extras(w, o, 2 - i);
      if (t != ESceneObjType::FocusPoint) { TEXT(o, GdtfName); TEXT(o, GdtfMode); }
      if (t == ESceneObjType::VideoScreen) { if (!w.phase) { std::string a = w.newT("value"), b = w.newT("linked"); good(o->SetVideoScreenSource(a.c_str(), b.c_str(), sources[w.newE(4)]), "source"); } else { ISourcePtr s; good(o->GetVideoScreenSource(&s), "source"); source(w, s); } }
      if (t == ESceneObjType::Projector) { if (!w.phase) { std::string a = w.newT("value"), b = w.newT("linked"); good(o->SetProjectorSource(a.c_str(), b.c_str(), sources[w.newE(4)]), "source"); } else { ISourcePtr s; good(o->GetProjectorSource(&s), "source"); source(w, s); } ENUM(o, ScaleHandling, EScaleHandlingType, 3); }
    } });
}
// shared definitions and the references to them
static void aux() {
  Walk w; vary(w, 4, sym_param("fields", 29)); unsigned v = w.pick;
  roundTripM(w, [&](Mvr& m) {
    size_t c = 99; IPositionPtr pos[2]; IClassPtr cls[2]; ISymDefPtr sd[2]; MvrUUID gp[2], gc[2], gs[2], gm[2];
    for (unsigned k = 0; k < 2; k++) { gp[k] = guid(20 + k); gc[k] = guid(30 + k); gs[k] = guid(40 + k); gm[k] = guid(50 + k); MvrUUID* gg[4] = {&gp[k], &gc[k], &gs[k], &gm[k]}; std::string nm[4];
      for (unsigned j = 0; j < 4; j++) { if (!w.phase) { gg[j]->b = (Uint32)w.newId("guid"); nm[j] = std::string(k ? "two" : "one") + w.newT("name"); } else { gg[j]->b = (Uint32)w.n(); nm[j] = std::string(k ? "two" : "one") + w.t(); } }
      IMappingDefinitionPtr md;
      if (!w.phase) { good(m->CreatePositionObject(gp[k], nm[0].c_str(), &pos[k]), "position"); good(m->CreateClassObject(gc[k], nm[1].c_str(), &cls[k]), "class"); good(m->CreateSymDefObject(gs[k], nm[2].c_str(), &sd[k]), "symbol definition"); good(m->CreateMappingDefinitionObject(gm[k], nm[3].c_str(), &md), "mapping definition"); }
      else { good(m->GetPositionObjectAt(k, &pos[k]), "position"); good(m->GetClassAt(k, &cls[k]), "class"); good(m->GetSymDefAt(k, &sd[k]), "symbol definition"); good(m->GetMappingDefinitionAt(k, &md), "mapping definition"); MvrUUID g;
        good(pos[k]->GetGuid(g), "guid"); ASSERT(sameGuid(g, gp[k]), "position"); ASSERT(eqs(pos[k]->GetName(), nm[0]), "position name"); good(cls[k]->GetGuid(g), "guid"); ASSERT(sameGuid(g, gc[k]), "class"); ASSERT(eqs(cls[k]->GetName(), nm[1]), "class name");
        good(sd[k]->GetGuid(g), "guid"); ASSERT(sameGuid(g, gs[k]), "symbol definition"); ASSERT(eqs(sd[k]->GetName(), nm[2]), "symbol definition name"); good(md->GetGuid(g), "guid"); ASSERT(sameGuid(g, gm[k]), "mapping definition"); ASSERT(eqs(md->GetName(), nm[3]), "mapping definition name"); }
      UINT(md, SizeX, Uint32); UINT(md, SizeY, Uint32); ENUM(md, ScaleHandling, EScaleHandlingType, 3);
      if (!w.phase) { std::string a = w.newT("value"), b = w.newT("linked"); good(md->SetSource(a.c_str(), b.c_str(), sources[w.newE(4)]), "source"); } else { ISourcePtr s; good(md->GetSource(&s), "source"); source(w, s); } }
    if (w.phase) { good(m->GetPositionObjectCount(c), "count"); ASSERT(c == 2, "position count"); good(m->GetClassCount(c), "count"); ASSERT(c == 2, "class count"); good(m->GetSymDefCount(c), "count"); ASSERT(c == 2, "symbol definition count"); good(m->GetMappingDefinitionCount(c), "count"); ASSERT(c == 2, "mapping definition count"); }
    // the first symbol definition contains a file and, in some variants, the second symbol
    std::string file; if (!w.phase) file = w.newT("file"); else file = w.t();
    if (!w.phase) { good(sd[0]->AddGeometry(fixedMatrix(3), file.c_str()), "geometry"); if (v & 1) good(sd[0]->AddSymbol(guid(60), fixedMatrix(4), sd[1]), "symbol"); good(sd[1]->AddGeometry(identity(), "other"), "geometry"); }
    else { good(sd[0]->GetGeometryCount(c), "count"); ASSERT(c == 1 + (v & 1), "geometry count"); IGeometryReferencePtr g; good(sd[0]->GetGeometryAt(0, &g), "geometry"); bool s = true; good(g->GetIsSymbol(s), "symbol"); ASSERT(!s, "geometry"); ASSERT(endsIn(g->GetFileForGeometry(), file), "geometry file"); STransformMatrix x; good(g->GetTransfromMatrix(x), "matrix"); for (unsigned k = 0; k < 12; k++) ASSERT(sameF(comp(x, k), at(fixedMatrix(3), k), w.phase == 2), "geometry matrix");
      if (v & 1) { IGeometryReferencePtr h; good(sd[0]->GetGeometryAt(1, &h), "symbol"); good(h->GetIsSymbol(s), "symbol"); ASSERT(s, "symbol"); ISymDefPtr d; good(h->GetSymDef(&d), "symbol"); MvrUUID q; good(d->GetGuid(q), "guid"); ASSERT(sameGuid(q, gs[1]), "symbol in symbol"); } }
    ISceneObjPtr l = layer(m, w); Kids k(m, w, l); ISceneObjPtr fp, fx; if (v & 2) fp = k.add(ESceneObjType::FocusPoint, 1, "FP"); fx = k.add(ESceneObjType::Fixture, 2, "F"); if (!(v & 2)) fp = k.add(ESceneObjType::FocusPoint, 1, "FP"); ISceneObjPtr ob = k.add(kinds[1 + v % 6], 3, "O");
    if (!w.phase) { good(fx->SetPosition(pos[v & 1]), "set position"); good(fx->SetFocusPoint(fp), "set focus"); good(fx->SetClass(cls[v >> 1]), "set class"); good(ob->SetClass(cls[v & 1]), "set class"); good(fx->AddSymbol(guid(61), fixedMatrix(5), sd[v >> 1]), "add symbol"); good(fx->AddGeometry(fixedMatrix(6), file.c_str()), "add geometry"); good(fx->AddMapping(gm[v & 1]), "add mapping"); good(ob->AddSymbol(guid(62), identity(), sd[v & 1]), "add symbol"); }
    else { MvrUUID g; IPositionPtr p; good(fx->GetPosition(&p), "position"); good(p->GetGuid(g), "position"); ASSERT(sameGuid(g, gp[v & 1]), "position reference"); ISceneObjPtr f; good(fx->GetFocusPoint(&f), "focus"); good(f->GetGuid(g), "focus"); ASSERT(sameGuid(g, guid(1)), "focus reference");
      IClassPtr cl; good(fx->GetClass(&cl), "class"); good(cl->GetGuid(g), "class"); ASSERT(sameGuid(g, gc[v >> 1]), "class reference"); IClassPtr c2; good(ob->GetClass(&c2), "class"); good(c2->GetGuid(g), "class"); ASSERT(sameGuid(g, gc[v & 1]), "class reference");
      good(fx->GetGeometryCount(c), "count"); ASSERT(c == 2, "geometry count"); IGeometryReferencePtr a, b; good(fx->GetGeometryAt(0, &a), "geometry"); good(fx->GetGeometryAt(1, &b), "geometry"); bool s = false; good(a->GetIsSymbol(s), "symbol"); ASSERT(s, "symbol"); good(b->GetIsSymbol(s), "symbol"); ASSERT(!s, "symbol"); ISymDefPtr d; good(a->GetSymDef(&d), "symbol"); good(d->GetGuid(g), "symbol"); ASSERT(sameGuid(g, gs[v >> 1]), "symbol reference"); ASSERT(endsIn(b->GetFileForGeometry(), file), "geometry file");
      STransformMatrix x; good(a->GetTransfromMatrix(x), "matrix"); for (unsigned k = 0; k < 12; k++) ASSERT(sameF(comp(x, k), at(fixedMatrix(5), k), w.phase == 2), "symbol matrix"); good(b->GetTransfromMatrix(x), "matrix"); for (unsigned k = 0; k < 12; k++) ASSERT(sameF(comp(x, k), at(fixedMatrix(6), k), w.phase == 2), "geometry matrix");
      good(ob->GetGeometryCount(c), "count"); ASSERT(c == 1, "geometry count"); }
    IMappingPtr mp; if (w.phase) { good(fx->GetMappingCount(c), "count"); ASSERT(c == 1, "mapping count"); } good(fx->GetMappingAt(0, &mp), "mapping"); if (w.phase) { MvrUUID g; good(mp->GetLinkedDefUuid(g), "mapping"); ASSERT(sameGuid(g, gm[v & 1]), "mapping reference"); } UINT(mp, Ux, Uint32); UINT(mp, Uy, Uint32); UINT(mp, Ox, Uint32); UINT(mp, Oy, Uint32); F64(mp, Rz);
  });
}
static void providers() {
  Walk w; vary(w, 3, sym_param("fields", 10)); unsigned n = w.pick % 3;
  roundTripM(w, [&](Mvr& m) { size_t c = 99; layer(m, w);
    for (unsigned k = 0; k < 2; k++) { ISceneDataProviderPtr p; if (!w.phase) { std::string a = w.newT("provider"), b = w.newT("version"); good(m->CreateDataProviderObject(a.c_str(), b.c_str(), &p), "provider"); } else { good(m->GetDataProviderObjectAt(k, &p), "provider"); w.sameT(p->GetProviderName(), "provider"); w.sameT(p->GetVersion(), "provider version"); }
      for (unsigned i = 0; i < n + k; i++) { if (!w.phase) { std::string a = w.newT("key"); if (w.pick == 2 && w.focus == 9999 && !w.extreme) { static const char* const same[] = {"k", "K", "k"}; a = w.txt.back() = same[i % 3]; } std::string b = w.newT("value"); good(p->AddKeyValue(a.c_str(), b.c_str()), "entry"); } else { w.sameT(p->GetKeyAt(i), "key"); w.sameT(p->GetValueAt(i), "value"); } }
      if (w.phase) { good(p->GetKeyValueCount(c), "count"); ASSERT(c == n + k, "entry count"); } }
    if (w.phase) { good(m->GetDataProviderObjectCount(c), "count"); ASSERT(c == 2, "provider count"); } });
}
extern "C" void sym_main() { PART(0) values(); PART(1) lists(); PART(2) aux(); PART(3) providers(); }
