// Fixture file write -> read: header, revisions, attribute definitions, wheels, models, physical descriptions, protocols.
#include "gdtf.h"
static EGdtfPhysicalUnit unit(unsigned k) { k %= 22; return EGdtfPhysicalUnit(k >= 11 ? k + 1 : k); }
#define UNIT(o) do { if (!w.phase) { unsigned u_ = w.newE(22); good(o->SetPhysicalUnit(unit(u_)), "unit"); } else { EGdtfPhysicalUnit g_; good(o->GetPhysicalUnit(g_), "unit"); ASSERT(g_ == unit((unsigned)w.n()), "unit"); } } while (0)
extern "C" void sym_main() {
  Walk w; IGdtfFixturePtr f; newFixture(f);
  PART(0) { vary(w, 2, 20);
    auto walk = [&](IGdtfFixturePtr& f) {
      NAME(f, "Fixture"); if (w.phase) { ASSERT(std::string(f->GetManufacturer()) == "Maker", "manufacturer"); MvrUUID u; f->GetFixtureGUID(u); ASSERT(u.a == 1 && u.b == 2 && u.c == 3 && u.d == 4, "id"); }
      TEXT(f, ShortName); TEXT(f, LongName); TEXT(f, FixtureTypeDescription); TEXT(f, FixtureThumbnail); UINT(f, ThumbnailOffsetX, Sint32); UINT(f, ThumbnailOffsetY, Sint32); FLAG(f, CanHaveChildren);
      if (w.pick) { MvrUUID u; if (!w.phase) { u = {(Uint32)w.newId("la"), (Uint32)w.newId("lb"), (Uint32)w.newId("lc"), (Uint32)w.newId("ld")}; f->SetLinkedFixtureGUID(u); } else { bool h = false; f->HasLinkedFixtureGUID(h); ASSERT(h, "has linked id"); good(f->GetLinkedFixtureGUID(u), "linked id"); w.same(u.a, "linked a"); w.same(u.b, "linked b"); w.same(u.c, "linked c"); w.same(u.d, "linked d"); } } else if (w.phase) { bool h = true; f->HasLinkedFixtureGUID(h); ASSERT(!h, "no linked id"); }
      for (int k = 0; k < 2; k++) { STime d = {2020, 3, 4, 5, 6, 7}; std::string t = w.phase ? "" : w.newT("revText"); if (!w.phase) d.fYear = w.newU("year", 16); OBJ(IGdtfRevisionPtr, r, f->CreateRevision(t.c_str(), d, &r), f->GetRevisionAt(k, &r)); if (w.phase) { w.sameT(r->GetText(), "revision text"); STime g; r->GetDate(g); w.same(g.fYear, "revision year"); ASSERT(g.fMonth == 3 && g.fDay == 4 && g.fHour == 5 && g.fMinute == 6 && g.fSecond == 7, "revision date"); } UINT(r, UserId, size_t); TEXT(r, ModifiedBy); } COUNT(f, Revision, 2); };
    roundTrip(w, f, walk); REACH("header"); }
  PART(1) { vary(w, 64, 5);
    auto walk = [&](IGdtfFixturePtr& f) {
      IGdtfActivationGroupPtr ag[2]; IGdtfFeatureGroupPtr fg[2]; IGdtfFeaturePtr ft[4]; IGdtfAttributePtr at[3]; static const char* const an[] = {"Pan", "Tilt", "Dimmer"}; static const char* const fn[] = {"PT", "Dim", "PT", "X"};
      for (int k = 0; k < 2; k++) { if (!w.phase) good(f->CreateActivationGroup(k ? "Group B" : "Group A", &ag[k]), "create"); else good(f->GetActivationGroupAt(k, &ag[k]), "get"); NAME(ag[k], k ? "Group B" : "Group A"); }
      for (int k = 0; k < 2; k++) { std::string p = w.phase ? "" : w.newT("pretty"); if (!w.phase) good(f->CreateFeatureGroup(k ? "Control" : "Position", p.c_str(), &fg[k]), "create"); else { good(f->GetFeatureGroupAt(k, &fg[k]), "get"); w.sameT(fg[k]->GetPrettyName(), "feature group pretty name"); } NAME(fg[k], k ? "Control" : "Position"); for (int j = 0; j < 2; j++) { IGdtfFeaturePtr& x = ft[k * 2 + j]; if (!w.phase) good(fg[k]->CreateFeature(fn[k * 2 + j], &x), "create"); else good(fg[k]->GetFeatureAt(j, &x), "get"); NAME(x, fn[k * 2 + j]); } COUNT(fg[k], Feature, 2); }
      for (int k = 0; k < 3; k++) { std::string p = w.phase ? "" : w.newT("pretty"); if (!w.phase) good(f->CreateAttribute(an[k], p.c_str(), &at[k]), "create"); else { good(f->GetAttributeAt(k, &at[k]), "get"); w.sameT(at[k]->GetPrettyName(), "attribute pretty name"); } NAME(at[k], an[k]); UNIT(at[k]);
        int ai = (w.pick + k) % 3, fi = (w.pick / 3 + k) % 4; if (!w.phase) { if (ai < 2) at[k]->SetActivationGroup(ag[ai]); at[k]->SetFeature(ft[fi]); } else { IGdtfActivationGroupPtr g; bool h = VCOM_SUCCEEDED(at[k]->GetActivationGroup(&g)); ASSERT(h == (ai < 2), "has activation group"); if (h) ASSERT(std::string(g->GetName()) == (ai ? "Group B" : "Group A"), "activation group"); IGdtfFeaturePtr x; good(at[k]->GetFeature(&x), "feature"); IGdtfFeatureGroupPtr xg; ASSERT(std::string(x->GetName()) == fn[fi], "feature name"); good(x->GetFeatureGroup(&xg), "feature group"); ASSERT(std::string(xg->GetName()) == (fi / 2 ? "Control" : "Position"), "feature group name"); }
        if (k == 1) { if (!w.phase) at[k]->SetMainAttribute(at[0]); else { IGdtfAttributePtr m; good(at[k]->GetMainAttribute(&m), "main attribute"); ASSERT(std::string(m->GetName()) == "Pan", "main attribute name"); } } if (k == 2) COLOR(at[k], Color);
        if (k != 1) for (int j = 0; j < 2; j++) { EGdtfSubPhysicalUnitType ty = EGdtfSubPhysicalUnitType((w.pick + j * 3) % 11); IGdtfSubPhysicalUnitPtr s; if (!w.phase) good(at[k]->CreateSubPhysicalUnit(ty, &s), "create"); else good(at[k]->GetSubPhysicalUnitAt(j, &s), "get"); if (w.phase) { EGdtfSubPhysicalUnitType g; s->GetType(g); ASSERT(g == ty, "sub unit type"); } F64(s, PhysicalFrom); F64(s, PhysicalTo); EGdtfPhysicalUnit u = unit(w.pick + j); if (!w.phase) s->SetPhysicalUnit(u); else { EGdtfPhysicalUnit g; s->GetPhysicalUnit(g); ASSERT(g == u, "sub unit unit"); } } COUNT(at[k], SubPhysicalUnit, (k != 1 ? 2u : 0u)); }
      COUNT(f, ActivationGroup, 2); COUNT(f, FeatureGroup, 2); COUNT(f, Attribute, 3); };
    roundTrip(w, f, walk); REACH("attributes"); }
  PART(2) { vary(w, 4, 20);
    auto walk = [&](IGdtfFixturePtr& f) { CieColor white = {0, 0, 0};
      OBJ(IGdtfFilterPtr, fl, f->CreateFilter("Filter", white, &fl), f->GetFilterAt(0, &fl));
      for (int k = 0; k < 2; k++) { OBJ(IGdtfWheelPtr, wh, f->CreateWheel(k ? "Gobos" : "Colors", &wh), f->GetWheelAt(k, &wh)); NAME(wh, k ? "Gobos" : "Colors");
        for (int j = 0; j < 2; j++) { OBJ(IGdtfWheelSlotPtr, s, wh->CreateWheelSlot(j ? "B" : "A", &s), wh->GetWheelSlotAt(j, &s)); NAME(s, j ? "B" : "A"); COLOR(s, Color); TEXT(s, Gobo); if (!w.phase && w.fields++ != w.focus) { double d = w.newF("Duration"); ASSUME(sym_and(dbits(d) << 1 != 0, dbits(sym_r6(d)) << 1 != 0)); s->SetDuration(d); } else F64(s, Duration); UINT(s, Width, size_t); UINT(s, Height, size_t); UINT(s, FPS, size_t); bool hf = (w.pick + k + j) % 2; if (hf) { if (!w.phase) s->SetFilter(fl); else { IGdtfFilterPtr g; good(s->GetFilter(&g), "slot filter"); ASSERT(std::string(g->GetName()) == "Filter", "slot filter name"); } } else if (w.phase) { IGdtfFilterPtr g; ASSERT(VCOM_FAILED(s->GetFilter(&g)), "no filter"); }
          if (j == 0) { double v[7]; for (double& x : v) if (!w.phase) x = w.newF("anim"); OBJ(IGdtfWheelSlotAnimationSystemPtr, a, s->CreateAnimationSystem(v[0], v[1], v[2], v[3], v[4], v[5], v[6], &a), s->GetAnimationSystem(&a)); if (w.phase) { double g; a->GetP1_X(g); w.sameF(g, "P1_X"); a->GetP1_Y(g); w.sameF(g, "P1_Y"); a->GetP2_X(g); w.sameF(g, "P2_X"); a->GetP2_Y(g); w.sameF(g, "P2_Y"); a->GetP3_X(g); w.sameF(g, "P3_X"); a->GetP3_Y(g); w.sameF(g, "P3_Y"); a->GetRadius(g); w.sameF(g, "Radius"); } }
          else for (int q = 0; q < 2; q++) { STransformMatrix m; double* d = (double*)&m; for (int i = 0; i < 12; i++) d[i] = 0; static const int rot[] = {0, 1, 2, 3, 4, 5, 6, 7, 8}; if (!w.phase) for (int i : rot) d[i] = w.newF("rot"); size_t qq = q; OBJ(IGdtfWheelSlotPrismFacetPtr, p, s->CreatePrismFacet(m, &p), s->GetPrismFacetAt(qq, &p)); if (w.phase) { good(p->GetTransformMatrix(m), "facet rotation"); for (int i : rot) w.sameF(d[i], "facet rotation"); } COLOR(p, Color); }
          if (w.phase) { size_t c = 9; s->GetPrismFacetCount(c); ASSERT(c == (j ? 2u : 0u), "facet count"); } } COUNT(wh, WheelSlot, 2); } COUNT(f, Wheel, 2); };
    roundTrip(w, f, walk); REACH("wheels"); }
  PART(3) { vary(w, 32, 2);
    auto walk = [&](IGdtfFixturePtr& f) { for (int k = 0; k < 2; k++) { OBJ(IGdtfModelPtr, m, f->CreateModel(k ? "Yoke" : "Base", &m), f->GetModelAt(k, &m)); NAME(m, k ? "Yoke" : "Base"); F64(m, Length); F64(m, Width); F64(m, Height); ENUM(m, PrimitiveType, EGdtfModel_PrimitiveType, 13); F64(m, SVGOffsetX); F64(m, SVGOffsetY); F64(m, SVGSideOffsetX); F64(m, SVGSideOffsetY); F64(m, SVGFrontOffsetX); F64(m, SVGFrontOffsetY); if (!w.phase) { std::string s = w.newT("file"); m->SetGeometryFile(s.c_str()); } else w.sameT(m->GetGeometryFileName(), "file"); } COUNT(f, Model, 2); };
    roundTrip(w, f, walk); REACH("models"); }
  PART(4) { vary(w, 4, 2); CieColor zero = {0, 0, 0};
    auto meas = [&](auto& o, bool filter) { for (int k = 0; k < 2; k++) { OBJ(IGdtfMeasurementPtr, m, o->CreateMeasurement(&m), o->GetMeasurementAt(k, &m)); F64(m, Physical); if (filter) F64(m, Transmission); else F64(m, LuminousIntensity); ENUM(m, InterpolationTo, EGdtfInterpolationTo, 3); for (int j = 0; j < 2; j++) { OBJ(IGdtfMeasurementPointPtr, p, m->CreateMeasurementPoint(&p), m->GetMeasurementPointAt(j, &p)); F64(p, WaveLength); F64(p, Energy); } COUNT(m, MeasurementPoint, 2); } COUNT(o, Measurement, 2); };
    auto space = [&](IGdtfColorSpacePtr& c) { COLOR(c, Red); COLOR(c, Green); COLOR(c, Blue); COLOR(c, White); };
    auto walk = [&](IGdtfFixturePtr& f) { F64(f, OperatingTemperatureLow); F64(f, OperatingTemperatureHigh); F64(f, Weight); F64(f, LegHeight);
      for (int k = 0; k < 2; k++) { CieColor c = zero; if (!w.phase) { c.fx = w.newF("ex"); c.fy = w.newF("ey"); c.f_Y = w.newF("eY"); } OBJ(IGdtfPhysicalEmitterPtr, e, f->CreateEmitter(k ? "LED" : "Lamp", c, &e), f->GetEmitterAt(k, &e)); NAME(e, k ? "LED" : "Lamp"); if (w.phase) { e->GetColor(c); w.sameF(c.fx, "emitter x"); w.sameF(c.fy, "emitter y"); w.sameF(c.f_Y, "emitter Y"); } F64(e, DominantWaveLength); TEXT(e, DiodePart); if (k == 0) meas(e, false); } COUNT(f, Emitter, 2);
      for (int k = 0; k < 2; k++) { CieColor c = zero; if (!w.phase) { c.fx = w.newF("fx"); c.fy = w.newF("fy"); c.f_Y = w.newF("fY"); } OBJ(IGdtfFilterPtr, e, f->CreateFilter(k ? "CTO" : "CTB", c, &e), f->GetFilterAt(k, &e)); NAME(e, k ? "CTO" : "CTB"); if (w.phase) { e->GetColor(c); w.sameF(c.fx, "filter x"); w.sameF(c.fy, "filter y"); w.sameF(c.f_Y, "filter Y"); } if (k == 1) meas(e, true); } COUNT(f, Filter, 2); };
    roundTrip(w, f, walk); REACH("emitters"); }
  PART(5) { vary(w, 99, 10);
    auto space = [&](IGdtfColorSpacePtr& c) { COLOR(c, Red); COLOR(c, Green); COLOR(c, Blue); COLOR(c, White); };
    auto walk = [&](IGdtfFixturePtr& f) { IGdtfColorSpacePtr cs; good(f->GetColorSpace(&cs), "colour space"); EGdtfColorSpace main = EGdtfColorSpace(w.pick % 4); if (!w.phase) cs->SetColorSpace(main); else { EGdtfColorSpace g; cs->GetColorSpace(g); ASSERT(g == main, "colour space mode"); } if (main == EGdtfColorSpace::Custom) space(cs);
      for (int k = 0; k < 2; k++) { EGdtfColorSpace m = EGdtfColorSpace((w.pick / 4 + k) % 4); OBJ(IGdtfColorSpacePtr, c, f->CreateAdditionalColorSpace(k ? "CS2" : "CS1", m, &c), f->GetAdditionalColorSpaceAt(k, &c)); NAME(c, k ? "CS2" : "CS1"); if (w.phase) { EGdtfColorSpace g; c->GetColorSpace(g); ASSERT(g == m, "additional colour space mode"); } if (m == EGdtfColorSpace::Custom) space(c); } COUNT(f, AdditionalColorSpace, 2);
      for (int k = 0; k < 2; k++) { CieColor c[3]; if (!w.phase) for (auto& x : c) { x.fx = w.newF("gx"); x.fy = w.newF("gy"); x.f_Y = w.newF("gY"); } OBJ(IGdtfGamutPtr, g, f->CreateGamut(k ? "G2" : "G1", c[0], &g), f->GetGamutAt(k, &g)); NAME(g, k ? "G2" : "G1"); if (!w.phase) { g->CreatePoint(c[1]); g->CreatePoint(c[2]); } else for (int j = 0; j < 3; j++) { CieColor x; good(g->GetPointAt(j, x), "gamut point"); w.sameF(x.fx, "gamut x"); w.sameF(x.fy, "gamut y"); w.sameF(x.f_Y, "gamut Y"); } COUNT(g, Point, 3); } COUNT(f, Gamut, 2);
      for (int k = 0; k < 2; k++) { double v[5]; OBJ(IGdtfDMXProfilePtr, p, f->CreateDMXProfile(&p), f->GetDMXProfileAt(k, &p)); if (!w.phase) p->SetName(k ? "P2" : "P1"); NAME(p, k ? "P2" : "P1"); for (int j = 0; j < 2; j++) { if (!w.phase) for (double& x : v) x = w.newF("point"); OBJ(IGdtfPointPtr, q, p->CreatePoint(v[0], v[1], v[2], v[3], v[4], &q), p->GetPointAt(j, &q)); if (w.phase) { double g; q->GetDMXPercentage(g); w.sameF(g, "percentage"); q->GetCFC3(g); w.sameF(g, "CFC3"); q->GetCFC2(g); w.sameF(g, "CFC2"); q->GetCFC1(g); w.sameF(g, "CFC1"); q->GetCFC0(g); w.sameF(g, "CFC0"); } } COUNT(p, Point, 2); } COUNT(f, DMXProfile, 2);
      for (int k = 0; k < 2; k++) { double t = w.phase ? 0 : w.newF("crit"); OBJ(IGdtfCRIGroupPtr, g, f->CreateCRIGroup(t, &g), f->GetCRIGroupAt(k, &g)); if (w.phase) { g->GetColorTemperature(t); w.sameF(t, "CRI temperature"); } for (int j = 0; j < 2; j++) { EGdtfColorSample s = EGdtfColorSample((w.pick + j + 2 * k) % 99); OBJ(IGdtfCRIPtr, c, g->CreateCRI(s, 0, &c), g->GetCRIAt(j, &c)); if (!w.phase) c->SetColorRenderingIndex((Uint8)w.newU("cri", 8)); else { Uint8 v = 0; c->GetColorRenderingIndex(v); w.same(v, "CRI value"); } if (w.phase) ASSERT(impl(f)->fFixtureObject->GetPhysicalDesciptionsContainer().GetCRIGroupArray()[k]->GetCRI_Array()[j]->GetColorSample() == s, "CRI sample"); } COUNT(g, CRI, 2); } COUNT(f, CRIGroup, 2);
      for (int k = 0; k < 2; k++) { OBJ(IGdtfConnectorPtr, c, f->CreateConnector(k ? "Power" : "DMX In", k ? "powerCON" : "XLR5", &c), f->GetConnectorAt(k, &c)); NAME(c, k ? "Power" : "DMX In"); if (w.phase) ASSERT(std::string(c->GetType()) == (k ? "powerCON" : "XLR5"), "connector type"); UINT(c, DmxBreak, Uint32); UINT(c, Gender, Sint32); F64(c, Length); } COUNT(f, Connector, 2); };
    roundTrip(w, f, walk); REACH("physical"); }
}
