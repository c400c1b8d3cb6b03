// Fixture file write -> read: the geometry tree, every geometry kind with its values, and the links between geometries and to models and emitters.
#include "gdtf.h"
static const EGdtfObjectType kKinds[] = {eGdtfGeometry, eGdtfGeometryAxis, eGdtfGeometryBeamFilter, eGdtfGeometryColorFilter, eGdtfGeometryGoboFilter, eGdtfGeometryShaperFilter, eGdtfGeometryLamp, eGdtfGeometryMediaServerCamera, eGdtfGeometryMediaServerLayer, eGdtfGeometryMediaServerMaster, eGdtfGeometryDisplay, eGdtfGeometryLaser, eGdtfGeometryWiringObject, eGdtfGeometryInventory, eGdtfGeometryStructure, eGdtfGeometrySupport, eGdtfGeometryMagnet, eGdtfGeometryReference};
enum { KINDS = 18 };
static void values(Walk& w, IGdtfGeometryPtr& g, EGdtfObjectType t, IGdtfGeometryPtr& target) {
  switch (t) {
  case eGdtfGeometryLamp: ENUM(g, LampType, EGdtfLampType, 4); F64(g, PowerConsumption); F64(g, LuminousIntensity); F64(g, ColorTemperature); F64(g, BeamAngle); F64(g, FieldAngle); F64(g, BeamRadius); F64(g, ThrowRatio); F64(g, RectangleRatio); ENUM(g, BeamType, EGdtfBeamType, 7); UINT(g, ColorIndex, Sint32); break;
  case eGdtfGeometryDisplay: TEXT(g, Texture); UINT(g, Width, size_t); UINT(g, Height, size_t); FLAG(g, IsCurved); break;
  case eGdtfGeometryLaser: ENUM(g, ColorType, EGdtfLaserColorType, 2); F64(g, LaserColor); F64(g, OutputStrength); F64(g, BeamDiameter); F64(g, BeamDivergenceMin); F64(g, BeamDivergenceMax); F64(g, ScanAnglePan); F64(g, ScanAngleTilt); F64(g, ScanSpeed); break;
  case eGdtfGeometryWiringObject: TEXT(g, ConnectorType); ENUM(g, ComponentType, EGdtfComponentType, 9); TEXT(g, SignalType); UINT(g, PinCount, size_t); UINT(g, SignalLayer, size_t); ENUM(g, Orientation, EGdtfOrientation, 4); TEXT(g, WireGroup); F64(g, ElectricalPayLoad); F64(g, VoltageRangeMin); F64(g, VoltageRangeMax); F64(g, FrequencyRangeMin); F64(g, FrequencyRangeMax); F64(g, CosPhi); F64(g, MaxPayLoad); F64(g, Voltage); F64(g, FuseCurrent); ENUM(g, FuseRating, EGdtfFuseRating, 5); break;
  case eGdtfGeometryInventory: if (!w.phase) good(g->SetInventoryCount(w.newU("inventory", 64)), "inventory"); else { size_t n = 0; good(g->GetInventoryCount(n), "inventory"); w.same(n, "inventory count"); } break;
  case eGdtfGeometryStructure: ENUM(g, StructureType, EGdtfStructureType, 2); ENUM(g, CrossSectionType, EGdtfCrossSectionType, 2); F64(g, CrossSectionHeight); F64(g, CrossSectionWallThickness); TEXT(g, TrussCrossSection); if (!w.phase) good(g->SetStructureLinkedGeometry(target), "link"); break;
  case eGdtfGeometryReference: if (!w.phase) good(g->SetGeometryReference(target), "link"); break;
  case eGdtfGeometrySupport: ENUM(g, SupportType, EGdtfSupportType, 2); F64(g, CapacityX); F64(g, CapacityY); F64(g, CapacityZ); F64(g, CapacityXX); F64(g, CapacityYY); F64(g, CapacityZZ); TEXT(g, RopeCrossSection); F64(g, ResistanceX); F64(g, ResistanceY); F64(g, ResistanceZ); F64(g, ResistanceXX); F64(g, ResistanceYY); F64(g, ResistanceZZ);
    if (!w.phase) { double x = w.newF("ropeX"), y = w.newF("ropeY"), z = w.newF("ropeZ"); good(g->SetRopeOffset(x, y, z), "rope"); } else { SVector3 v; good(g->GetRopeOffset(v), "rope"); w.sameF(v.x, "rope offset x"); w.sameF(v.y, "rope offset y"); w.sameF(v.z, "rope offset z"); } break;
  default: break; }
}
// a geometry at an index of the fixture or of another geometry
static IGdtfGeometryPtr geo(Walk& w, IGdtfFixturePtr& f, IGdtfGeometryPtr* parent, size_t at, EGdtfObjectType t, const char* name, IGdtfModelPtr* model, bool matrix) {
  IGdtfGeometryPtr g; STransformMatrix m = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; double* d = (double*)&m;
  if (!w.phase) { if (matrix) for (int i = 0; i < 12; i++) d[i] = w.newF("matrix"); IGdtfModel* mp = nullptr; if (model) mp = *model; good(parent ? (*parent)->CreateGeometry(t, name, mp, m, &g) : f->CreateGeometry(t, name, mp, m, &g), "create geometry"); }
  else { good(parent ? (*parent)->GetInternalGeometryAt(at, &g) : f->GetGeometryAt(at, &g), "get geometry"); ASSERT(std::string(g->GetName()) == name, "geometry name"); EGdtfObjectType k; good(g->GetGeometryType(k), "kind"); ASSERT(k == t, "geometry kind");
    good(g->GetTransformMatrix(m), "matrix"); if (matrix) for (int i = 0; i < 12; i++) w.sameF(d[i], "geometry matrix"); else { STransformMatrix id = {1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0}; for (int i = 0; i < 12; i++) ASSERT(d[i] == ((double*)&id)[i], "identity matrix"); }
    IGdtfModelPtr x; bool has = VCOM_SUCCEEDED(g->GetModel(&x)); ASSERT(has == (model != nullptr), "has model"); if (has) ASSERT(std::string(x->GetName()) == (*model)->GetName(), "model");
    IGdtfGeometryPtr p; bool hp = VCOM_SUCCEEDED(g->GetParent(&p)); ASSERT(hp == (parent != nullptr), "has parent"); if (hp) ASSERT(std::string(p->GetName()) == (*parent)->GetName(), "parent"); }
  return g;
}
static void children(Walk& w, IGdtfGeometryPtr& g, size_t n) { if (w.phase) { size_t c = 99; good(g->GetInternalGeometryCount(c), "count"); ASSERT(c == n, "geometry child count"); } }
static bool named(IGdtfGeometryPtr& g, const char* n) { return std::string(g->GetName()) == n; }
extern "C" void sym_main() {
  Walk w; IGdtfFixturePtr f; newFixture(f);
  PART(0) { vary(w, KINDS, 0); unsigned k = w.pick;
    auto walk = [&](IGdtfFixturePtr& f) { IGdtfModelPtr m[2]; for (int i = 0; i < 2; i++) if (!w.phase) f->CreateModel(i ? "ModelB" : "ModelA", &m[i]); else f->GetModelAt(i, &m[i]);
      auto kind = [&](int j) { return kKinds[(k + j * 7) % KINDS]; };
      IGdtfGeometryPtr a = geo(w, f, nullptr, 0, kind(0), "Base", std::addressof(m[0]), true), a0 = geo(w, f, std::addressof(a), 0, kind(1), "Yoke", nullptr, false), a00 = geo(w, f, std::addressof(a0), 0, kind(2), "Head", std::addressof(m[1]), false), a01 = geo(w, f, std::addressof(a0), 1, kind(0), "Head 2", nullptr, false), a1 = geo(w, f, std::addressof(a), 1, kind(3), "Cell", std::addressof(m[0]), true), b = geo(w, f, nullptr, 1, kind(4), "Aux", nullptr, true), target = geo(w, f, nullptr, 2, eGdtfGeometry, "Target", nullptr, false);
      values(w, a, kind(0), target); values(w, a0, kind(1), target); values(w, a00, kind(2), target); values(w, a01, kind(0), target); values(w, a1, kind(3), target); values(w, b, kind(4), target);
      children(w, a, 2); children(w, a0, 2); children(w, a00, 0); children(w, a01, 0); children(w, a1, 0); children(w, b, 0); COUNT(f, Geometry, 3); };
    roundTrip(w, f, walk); REACH("kinds"); }
  PART(1) { unsigned kinds[] = {6, 10, 11, 12, 13, 14, 15}; unsigned k = kinds[symChoose("kind", 7)]; w.focus = symChoose("focus", kKinds[k] == eGdtfGeometryWiringObject ? 5 : kKinds[k] == eGdtfGeometryDisplay ? 3 : 1); w.pick = sym_param("pick", 1);
    auto walk = [&](IGdtfFixturePtr& f) { IGdtfGeometryPtr a = geo(w, f, nullptr, 0, kKinds[k], "Base", nullptr, false), target = geo(w, f, nullptr, 1, eGdtfGeometry, "Target", nullptr, false); values(w, a, kKinds[k], target); };
    roundTrip(w, f, walk); REACH("values"); }
  PART(2) { vary(w, 8, 10);
    auto walk = [&](IGdtfFixturePtr& f) { IGdtfPhysicalEmitterPtr em[2]; CieColor c = {0.3, 0.3, 1}; for (int i = 0; i < 2; i++) if (!w.phase) f->CreateEmitter(i ? "EmB" : "EmA", c, &em[i]); else f->GetEmitterAt(i, &em[i]);
      IGdtfGeometryPtr cell = geo(w, f, nullptr, 0, eGdtfGeometry, "Cell", nullptr, false), cell2 = geo(w, f, nullptr, 1, eGdtfGeometryAxis, "Cell2", nullptr, false), base = geo(w, f, nullptr, 2, eGdtfGeometry, "Base", nullptr, false);
      // references to top level geometries, with DMX breaks
      for (int i = 0; i < 2; i++) { IGdtfGeometryPtr r = geo(w, f, std::addressof(base), i, eGdtfGeometryReference, i ? "Ref2" : "Ref1", nullptr, false); bool second = ((w.pick >> i) & 1) != 0; if (!w.phase) good(r->SetGeometryReference(second ? cell2 : cell), "set reference"); else { IGdtfGeometryPtr x; good(r->GetGeometryReference(&x), "reference"); ASSERT(named(x, second ? "Cell2" : "Cell"), "reference target"); }
        for (int j = 0; j <= i; j++) { Sint32 brk = w.phase ? 0 : (Sint32)w.newU("break", 32), adr = w.phase ? 0 : (Sint32)(uint16_t)w.newU("address", 16); if (!w.phase && !adr) { adr = 600 + 17 * j; w.num.back() = adr; } if (!w.phase && w.fields - 2 == w.focus) ASSUME(sym_and(brk > 0, brk < 100)); OBJ(IGdtfBreakPtr, bk, r->CreateBreak(brk, adr, &bk), r->GetBreakAt(j, &bk)); if (w.phase) { bk->GetDmxBreak(brk); w.same((Uint32)brk, "break id"); DMXAddress da = 0; bk->GetDmxAddress(da); w.same((Uint32)da, "break address"); } }
        COUNT(r, Break, size_t(i + 1)); }
      // wiring objects at different depths patched to each other
      IGdtfGeometryPtr w1 = geo(w, f, std::addressof(base), 2, eGdtfGeometryWiringObject, "Plug", nullptr, false), w2 = geo(w, f, std::addressof(w1), 0, eGdtfGeometryWiringObject, "Inner", nullptr, false), w3 = geo(w, f, std::addressof(cell), 0, eGdtfGeometryWiringObject, "Socket", nullptr, false); IGdtfGeometryPtr* ws[] = {std::addressof(w1), std::addressof(w2), std::addressof(w3)}; static const char* const wn[] = {"Plug", "Inner", "Socket"};
      for (int i = 0; i < 2; i++) { int t = (w.pick + i) % 3; size_t from = w.phase ? 0 : w.newU("fromPin", 64), to = w.phase ? 0 : w.newU("toPin", 64); OBJ(IGdtfPinPatchPtr, p, w2->CreatePinPatch(*ws[t], from, to, &p), w2->GetPinPatchAt(i, &p)); if (w.phase) { p->GetFromPin(from); w.same(from, "from pin"); p->GetToPin(to); w.same(to, "to pin"); IGdtfGeometryPtr x; good(p->GetLinkedWiringObject(&x), "patched object"); ASSERT(named(x, wn[t]), "patched object name"); } } COUNT(w2, PinPatch, 2); COUNT(w1, PinPatch, 0);
      IGdtfGeometryPtr st = geo(w, f, std::addressof(base), 3, eGdtfGeometryStructure, "Truss", nullptr, false); { bool inner = w.pick & 1; if (!w.phase) good(st->SetStructureLinkedGeometry(inner ? w2 : cell2), "link"); else { IGdtfGeometryPtr x; good(st->GetStructureLinkedGeometry(&x), "linked"); ASSERT(named(x, inner ? "Inner" : "Cell2"), "structure link"); } }
      IGdtfGeometryPtr lamp = geo(w, f, std::addressof(base), 4, eGdtfGeometryLamp, "Beam", nullptr, false), las = geo(w, f, std::addressof(lamp), 0, eGdtfGeometryLaser, "Laser", nullptr, false); int e1 = w.pick & 1, e2 = (w.pick >> 1) & 1;
      if (!w.phase) { good(lamp->SetEmitterSpectrum(em[e1]), "spectrum"); good(las->SetEmitter(em[e2]), "emitter"); } else { IGdtfPhysicalEmitterPtr x; good(lamp->GetEmitterSpectrum(&x), "spectrum"); ASSERT(std::string(x->GetName()) == (e1 ? "EmB" : "EmA"), "spectrum emitter"); IGdtfPhysicalEmitterPtr y; good(las->GetEmitter(&y), "emitter"); ASSERT(std::string(y->GetName()) == (e2 ? "EmB" : "EmA"), "laser emitter"); }
      for (int i = 0; i < 2; i++) { OBJ(IGdtfLaserProtocolPtr, p, las->CreateLaserProtocol(i ? "ILDA" : "FB4", &p), las->GetLaserProtocolAt(i, &p)); NAME(p, i ? "ILDA" : "FB4"); } COUNT(las, LaserProtocol, 2);
      children(w, cell, 1); children(w, cell2, 0); children(w, base, 5); children(w, w1, 1); children(w, lamp, 1); COUNT(f, Geometry, 3); };
    roundTrip(w, f, walk); REACH("links"); }
}
