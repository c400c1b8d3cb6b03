// calls every getter of an object and of everything below it (written by tools/gentouch.py)
#pragma once
struct Note { const char* what; std::string text; unsigned long long v; bool number; };
static std::vector<Note> gNotes; static bool gNoting = true;
static inline void isSet(const char* what, bool is) { if (!is) { std::string l = std::string(what) + " was never set"; ASSERT(0, l.c_str()); } } // fresh memory is filled with this byte, in the native replay as well
static inline void note(const char* what, const char* s) { if (gNoting) gNotes.push_back({what, s ? s : "(none)", 0, false}); }
static inline void note(const char* what, double d) { isSet(what, dbits(d) != 0xAAAAAAAAAAAAAAAAull); if (gNoting) gNotes.push_back({what, "", dbits(d), true}); }
template <class T> static inline std::enable_if_t<std::is_enum<T>::value || std::is_integral<T>::value> note(const char* what, T v) { if (sizeof(T) > 1) isSet(what, (unsigned long long)v << (64 - 8 * sizeof(T)) != 0xAAAAAAAAAAAAAAAAull << (64 - 8 * sizeof(T))); else isSet(what, (unsigned char)v != 0xAA); if (gNoting) gNotes.push_back({what, "", (unsigned long long)v, true}); }
static inline void note(const char* what, const CieColor& c) { note(what, c.fx); note(what, c.fy); note(what, c.f_Y); }
static inline void note(const char* what, const SVector3& v) { note(what, v.x); note(what, v.y); note(what, v.z); }
static inline void note(const char* what, const MvrUUID& u) { note(what, u.a); note(what, u.b); note(what, u.c); note(what, u.d); }
static inline void note(const char* what, const STime& t) { note(what, t.fYear); note(what, t.fMonth); note(what, t.fDay); note(what, t.fHour); note(what, t.fMinute); note(what, t.fSecond); }
static inline void note(const char* what, const STransformMatrix& m) { const double d[] = {m.ux, m.uy, m.uz, m.vx, m.vy, m.vz, m.wx, m.wy, m.wz, m.ox, m.oy, m.oz}; for (double x : d) note(what, x); }
static void visit(IGdtfActivationGroup* o, int deep);
static void visit(IGdtfFeature* o, int deep);
static void visit(IGdtfFeatureGroup* o, int deep);
static void visit(IGdtfSubPhysicalUnit* o, int deep);
static void visit(IGdtfAttribute* o, int deep);
static void visit(IGdtfWheelSlotPrismFacet* o, int deep);
static void visit(IGdtfWheelSlotAnimationSystem* o, int deep);
static void visit(IGdtfWheelSlot* o, int deep);
static void visit(IGdtfWheel* o, int deep);
static void visit(IGdtfModel* o, int deep);
static void visit(IGdtfBreak* o, int deep);
static void visit(IGdtfLaserProtocol* o, int deep);
static void visit(IGdtfPinPatch* o, int deep);
static void visit(IGdtfGeometry* o, int deep);
static void visit(IGdtfDmxChannelSet* o, int deep);
static void visit(IGdtfDmxSubChannelSet* o, int deep);
static void visit(IGdtfDmxChannelFunction* o, int deep);
static void visit(IGdtfDmxLogicalChannel* o, int deep);
static void visit(IGdtfDmxChannel* o, int deep);
static void visit(IGdtfDmxRelation* o, int deep);
static void visit(IGdtfMacro* o, int deep);
static void visit(IGdtfMacroDMX* o, int deep);
static void visit(IGdtfMacroDMXStep* o, int deep);
static void visit(IGdtfMacroDMXValue* o, int deep);
static void visit(IGdtfMacroVisual* o, int deep);
static void visit(IGdtfMacroVisualStep* o, int deep);
static void visit(IGdtfMacroVisualValue* o, int deep);
static void visit(IGdtfDmxMode* o, int deep);
static void visit(IGdtfRevision* o, int deep);
static void visit(IGdtfUserPreset* o, int deep);
static void visit(IGdtfMeasurementPoint* o, int deep);
static void visit(IGdtfMeasurement* o, int deep);
static void visit(IGdtfFilter* o, int deep);
static void visit(IGdtfPhysicalEmitter* o, int deep);
static void visit(IGdtfColorSpace* o, int deep);
static void visit(IGdtfGamut* o, int deep);
static void visit(IGdtfCRI* o, int deep);
static void visit(IGdtfCRIGroup* o, int deep);
static void visit(IGdtfPoint* o, int deep);
static void visit(IGdtfDMXProfile* o, int deep);
static void visit(IGdtfConnector* o, int deep);
static void visit(IGdtfFixture* o, int deep);
static void visit(IGdtf_FTRDM* o, int deep);
static void visit(IGdtfMap* o, int deep);
static void visit(IGdtfArtNet* o, int deep);
static void visit(IGdtfSACN* o, int deep);
static void visit(IGdtfDMXPersonality* o, int deep);
static void visit(IGdtfSoftwareVersionID* o, int deep);
static void visit(IGdtfXmlParsingError* o, int deep);
static void visit(IGdtfActivationGroup* o, int deep) {
  note("IGdtfActivationGroup.GetName", o->GetName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetAttributeCount(n))) { note("IGdtfActivationGroup.GetAttributeCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfAttribute> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetAttributeAt(at, &p)) && p, "IGdtfActivationGroup.GetAttributeAt"); gNoting = false; visit(p, 0); gNoting = true; } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfAttribute> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetAttributeAt(at, &p)), "IGdtfActivationGroup.GetAttributeAt behind the last"); } } }
}
static void visit(IGdtfFeature* o, int deep) {
  note("IGdtfFeature.GetName", o->GetName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetAttributeCount(n))) { note("IGdtfFeature.GetAttributeCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfAttribute> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetAttributeAt(at, &p)) && p, "IGdtfFeature.GetAttributeAt"); gNoting = false; visit(p, 0); gNoting = true; } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfAttribute> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetAttributeAt(at, &p)), "IGdtfFeature.GetAttributeAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtfFeatureGroup> p; bool ok = VCOM_SUCCEEDED(o->GetFeatureGroup(&p)) && p; note("IGdtfFeature.GetFeatureGroup", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfFeatureGroup* o, int deep) {
  note("IGdtfFeatureGroup.GetName", o->GetName());
  note("IGdtfFeatureGroup.GetPrettyName", o->GetPrettyName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetFeatureCount(n))) { note("IGdtfFeatureGroup.GetFeatureCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfFeature> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetFeatureAt(at, &p)) && p, "IGdtfFeatureGroup.GetFeatureAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfFeature> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetFeatureAt(at, &p)), "IGdtfFeatureGroup.GetFeatureAt behind the last"); } } }
}
static void visit(IGdtfSubPhysicalUnit* o, int deep) {
  { GdtfDefines::EGdtfSubPhysicalUnitType x0{}; bool ok = VCOM_SUCCEEDED(o->GetType(x0)); note("IGdtfSubPhysicalUnit.GetType", ok); if (ok) { note("IGdtfSubPhysicalUnit.GetType", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalFrom(x0)); note("IGdtfSubPhysicalUnit.GetPhysicalFrom", ok); if (ok) { note("IGdtfSubPhysicalUnit.GetPhysicalFrom", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalTo(x0)); note("IGdtfSubPhysicalUnit.GetPhysicalTo", ok); if (ok) { note("IGdtfSubPhysicalUnit.GetPhysicalTo", x0); } }
  { GdtfDefines::EGdtfPhysicalUnit x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalUnit(x0)); note("IGdtfSubPhysicalUnit.GetPhysicalUnit", ok); if (ok) { note("IGdtfSubPhysicalUnit.GetPhysicalUnit", x0); } }
}
static void visit(IGdtfAttribute* o, int deep) {
  note("IGdtfAttribute.GetName", o->GetName());
  note("IGdtfAttribute.GetPrettyName", o->GetPrettyName());
  if (deep) { VCOMPtr<IGdtfActivationGroup> p; bool ok = VCOM_SUCCEEDED(o->GetActivationGroup(&p)) && p; note("IGdtfAttribute.GetActivationGroup", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfFeature> p; bool ok = VCOM_SUCCEEDED(o->GetFeature(&p)) && p; note("IGdtfAttribute.GetFeature", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfAttribute> p; bool ok = VCOM_SUCCEEDED(o->GetMainAttribute(&p)) && p; note("IGdtfAttribute.GetMainAttribute", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EGdtfPhysicalUnit x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalUnit(x0)); note("IGdtfAttribute.GetPhysicalUnit", ok); if (ok) { note("IGdtfAttribute.GetPhysicalUnit", x0); } }
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetColor(x0)); note("IGdtfAttribute.GetColor", ok); if (ok) { note("IGdtfAttribute.GetColor", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetSubPhysicalUnitCount(n))) { note("IGdtfAttribute.GetSubPhysicalUnitCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfSubPhysicalUnit> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetSubPhysicalUnitAt(at, &p)) && p, "IGdtfAttribute.GetSubPhysicalUnitAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfSubPhysicalUnit> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetSubPhysicalUnitAt(at, &p)), "IGdtfAttribute.GetSubPhysicalUnitAt behind the last"); } } }
}
static void visit(IGdtfWheelSlotPrismFacet* o, int deep) {
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetColor(x0)); note("IGdtfWheelSlotPrismFacet.GetColor", ok); if (ok) { note("IGdtfWheelSlotPrismFacet.GetColor", x0); } }
  { STransformMatrix x0{}; bool ok = VCOM_SUCCEEDED(o->GetTransformMatrix(x0)); note("IGdtfWheelSlotPrismFacet.GetTransformMatrix", ok); if (ok) { note("IGdtfWheelSlotPrismFacet.GetTransformMatrix", x0); } }
}
static void visit(IGdtfWheelSlotAnimationSystem* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetP1_X(x0)); note("IGdtfWheelSlotAnimationSystem.GetP1_X", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetP1_X", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetP1_Y(x0)); note("IGdtfWheelSlotAnimationSystem.GetP1_Y", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetP1_Y", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetP2_X(x0)); note("IGdtfWheelSlotAnimationSystem.GetP2_X", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetP2_X", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetP2_Y(x0)); note("IGdtfWheelSlotAnimationSystem.GetP2_Y", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetP2_Y", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetP3_X(x0)); note("IGdtfWheelSlotAnimationSystem.GetP3_X", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetP3_X", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetP3_Y(x0)); note("IGdtfWheelSlotAnimationSystem.GetP3_Y", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetP3_Y", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetRadius(x0)); note("IGdtfWheelSlotAnimationSystem.GetRadius", ok); if (ok) { note("IGdtfWheelSlotAnimationSystem.GetRadius", x0); } }
}
static void visit(IGdtfWheelSlot* o, int deep) {
  note("IGdtfWheelSlot.GetName", o->GetName());
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetColor(x0)); note("IGdtfWheelSlot.GetColor", ok); if (ok) { note("IGdtfWheelSlot.GetColor", x0); } }
  note("IGdtfWheelSlot.GetGobo", o->GetGobo());
  note("IGdtfWheelSlot.GetGoboFileFullPath", o->GetGoboFileFullPath());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetPrismFacetCount(n))) { note("IGdtfWheelSlot.GetPrismFacetCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfWheelSlotPrismFacet> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetPrismFacetAt(at, &p)) && p, "IGdtfWheelSlot.GetPrismFacetAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfWheelSlotPrismFacet> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetPrismFacetAt(at, &p)), "IGdtfWheelSlot.GetPrismFacetAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtfFilter> p; bool ok = VCOM_SUCCEEDED(o->GetFilter(&p)) && p; note("IGdtfWheelSlot.GetFilter", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfWheelSlotAnimationSystem> p; bool ok = VCOM_SUCCEEDED(o->GetAnimationSystem(&p)) && p; note("IGdtfWheelSlot.GetAnimationSystem", ok); if (ok) visit(p, 0); }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDuration(x0)); note("IGdtfWheelSlot.GetDuration", ok); if (ok) { note("IGdtfWheelSlot.GetDuration", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetWidth(x0)); note("IGdtfWheelSlot.GetWidth", ok); if (ok) { note("IGdtfWheelSlot.GetWidth", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetHeight(x0)); note("IGdtfWheelSlot.GetHeight", ok); if (ok) { note("IGdtfWheelSlot.GetHeight", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetFPS(x0)); note("IGdtfWheelSlot.GetFPS", ok); if (ok) { note("IGdtfWheelSlot.GetFPS", x0); } }
}
static void visit(IGdtfWheel* o, int deep) {
  note("IGdtfWheel.GetName", o->GetName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetWheelSlotCount(n))) { note("IGdtfWheel.GetWheelSlotCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfWheelSlot> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetWheelSlotAt(at, &p)) && p, "IGdtfWheel.GetWheelSlotAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfWheelSlot> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetWheelSlotAt(at, &p)), "IGdtfWheel.GetWheelSlotAt behind the last"); } } }
}
static void visit(IGdtfModel* o, int deep) {
  note("IGdtfModel.GetName", o->GetName());
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetLength(x0)); note("IGdtfModel.GetLength", ok); if (ok) { note("IGdtfModel.GetLength", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetWidth(x0)); note("IGdtfModel.GetWidth", ok); if (ok) { note("IGdtfModel.GetWidth", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetHeight(x0)); note("IGdtfModel.GetHeight", ok); if (ok) { note("IGdtfModel.GetHeight", x0); } }
  { GdtfDefines::EGdtfModel_PrimitiveType x0{}; bool ok = VCOM_SUCCEEDED(o->GetPrimitiveType(x0)); note("IGdtfModel.GetPrimitiveType", ok); if (ok) { note("IGdtfModel.GetPrimitiveType", x0); } }
  note("IGdtfModel.GetGeometryFileName", o->GetGeometryFileName());
  note("IGdtfModel.GetGeometryFile_3DS_FullPath", o->GetGeometryFile_3DS_FullPath());
  note("IGdtfModel.GetGeometryFile_SVG_FullPath", o->GetGeometryFile_SVG_FullPath());
  note("IGdtfModel.GetGeometryFile_GLTF_FullPath", o->GetGeometryFile_GLTF_FullPath());
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetSVGOffsetX(x0)); note("IGdtfModel.GetSVGOffsetX", ok); if (ok) { note("IGdtfModel.GetSVGOffsetX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetSVGOffsetY(x0)); note("IGdtfModel.GetSVGOffsetY", ok); if (ok) { note("IGdtfModel.GetSVGOffsetY", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetSVGSideOffsetX(x0)); note("IGdtfModel.GetSVGSideOffsetX", ok); if (ok) { note("IGdtfModel.GetSVGSideOffsetX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetSVGSideOffsetY(x0)); note("IGdtfModel.GetSVGSideOffsetY", ok); if (ok) { note("IGdtfModel.GetSVGSideOffsetY", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetSVGFrontOffsetX(x0)); note("IGdtfModel.GetSVGFrontOffsetX", ok); if (ok) { note("IGdtfModel.GetSVGFrontOffsetX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetSVGFrontOffsetY(x0)); note("IGdtfModel.GetSVGFrontOffsetY", ok); if (ok) { note("IGdtfModel.GetSVGFrontOffsetY", x0); } }
  note("IGdtfModel.GetGeometryFile_3DSLow_FullPath", o->GetGeometryFile_3DSLow_FullPath());
  note("IGdtfModel.GetGeometryFile_3DSHigh_FullPath", o->GetGeometryFile_3DSHigh_FullPath());
  note("IGdtfModel.GetGeometryFile_GLTFLow_FullPath", o->GetGeometryFile_GLTFLow_FullPath());
  note("IGdtfModel.GetGeometryFile_GLTFHigh_FullPath", o->GetGeometryFile_GLTFHigh_FullPath());
  note("IGdtfModel.GetGeometryFile_SVGSide_FullPath", o->GetGeometryFile_SVGSide_FullPath());
  note("IGdtfModel.GetGeometryFile_SVGFront_FullPath", o->GetGeometryFile_SVGFront_FullPath());
}
static void visit(IGdtfBreak* o, int deep) {
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxBreak(x0)); note("IGdtfBreak.GetDmxBreak", ok); if (ok) { note("IGdtfBreak.GetDmxBreak", x0); } }
  { GdtfDefines::DMXAddress x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxAddress(x0)); note("IGdtfBreak.GetDmxAddress", ok); if (ok) { note("IGdtfBreak.GetDmxAddress", x0); } }
}
static void visit(IGdtfLaserProtocol* o, int deep) {
  note("IGdtfLaserProtocol.GetName", o->GetName());
}
static void visit(IGdtfPinPatch* o, int deep) {
  if (deep) { VCOMPtr<IGdtfGeometry> p; bool ok = VCOM_SUCCEEDED(o->GetLinkedWiringObject(&p)) && p; note("IGdtfPinPatch.GetLinkedWiringObject", ok); if (ok) visit(p, 0); }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetFromPin(x0)); note("IGdtfPinPatch.GetFromPin", ok); if (ok) { note("IGdtfPinPatch.GetFromPin", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetToPin(x0)); note("IGdtfPinPatch.GetToPin", ok); if (ok) { note("IGdtfPinPatch.GetToPin", x0); } }
}
static void visit(IGdtfGeometry* o, int deep) {
  { GdtfDefines::EGdtfObjectType x0{}; bool ok = VCOM_SUCCEEDED(o->GetGeometryType(x0)); note("IGdtfGeometry.GetGeometryType", ok); if (ok) { note("IGdtfGeometry.GetGeometryType", x0); } }
  note("IGdtfGeometry.GetName", o->GetName());
  if (deep) { VCOMPtr<IGdtfModel> p; bool ok = VCOM_SUCCEEDED(o->GetModel(&p)) && p; note("IGdtfGeometry.GetModel", ok); if (ok) visit(p, 0); }
  { STransformMatrix x0{}; bool ok = VCOM_SUCCEEDED(o->GetTransformMatrix(x0)); note("IGdtfGeometry.GetTransformMatrix", ok); if (ok) { note("IGdtfGeometry.GetTransformMatrix", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetInternalGeometryCount(n))) { note("IGdtfGeometry.GetInternalGeometryCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfGeometry> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetInternalGeometryAt(at, &p)) && p, "IGdtfGeometry.GetInternalGeometryAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfGeometry> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetInternalGeometryAt(at, &p)), "IGdtfGeometry.GetInternalGeometryAt behind the last"); } } }
  { GdtfDefines::EGdtfLampType x0{}; bool ok = VCOM_SUCCEEDED(o->GetLampType(x0)); note("IGdtfGeometry.GetLampType", ok); if (ok) { note("IGdtfGeometry.GetLampType", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPowerConsumption(x0)); note("IGdtfGeometry.GetPowerConsumption", ok); if (ok) { note("IGdtfGeometry.GetPowerConsumption", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetLuminousIntensity(x0)); note("IGdtfGeometry.GetLuminousIntensity", ok); if (ok) { note("IGdtfGeometry.GetLuminousIntensity", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetColorTemperature(x0)); note("IGdtfGeometry.GetColorTemperature", ok); if (ok) { note("IGdtfGeometry.GetColorTemperature", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetBeamAngle(x0)); note("IGdtfGeometry.GetBeamAngle", ok); if (ok) { note("IGdtfGeometry.GetBeamAngle", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetFieldAngle(x0)); note("IGdtfGeometry.GetFieldAngle", ok); if (ok) { note("IGdtfGeometry.GetFieldAngle", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetBeamRadius(x0)); note("IGdtfGeometry.GetBeamRadius", ok); if (ok) { note("IGdtfGeometry.GetBeamRadius", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetThrowRatio(x0)); note("IGdtfGeometry.GetThrowRatio", ok); if (ok) { note("IGdtfGeometry.GetThrowRatio", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetRectangleRatio(x0)); note("IGdtfGeometry.GetRectangleRatio", ok); if (ok) { note("IGdtfGeometry.GetRectangleRatio", x0); } }
  { GdtfDefines::EGdtfBeamType x0{}; bool ok = VCOM_SUCCEEDED(o->GetBeamType(x0)); note("IGdtfGeometry.GetBeamType", ok); if (ok) { note("IGdtfGeometry.GetBeamType", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetColorIndex(x0)); note("IGdtfGeometry.GetColorIndex", ok); if (ok) { note("IGdtfGeometry.GetColorIndex", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetBreakCount(n))) { note("IGdtfGeometry.GetBreakCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfBreak> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetBreakAt(at, &p)) && p, "IGdtfGeometry.GetBreakAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfBreak> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetBreakAt(at, &p)), "IGdtfGeometry.GetBreakAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtfGeometry> p; bool ok = VCOM_SUCCEEDED(o->GetGeometryReference(&p)) && p; note("IGdtfGeometry.GetGeometryReference", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfGeometry> p; bool ok = VCOM_SUCCEEDED(o->GetParent(&p)) && p; note("IGdtfGeometry.GetParent", ok); if (ok) visit(p, 0); }
  note("IGdtfGeometry.GetTexture", o->GetTexture());
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetWidth(x0)); note("IGdtfGeometry.GetWidth", ok); if (ok) { note("IGdtfGeometry.GetWidth", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetHeight(x0)); note("IGdtfGeometry.GetHeight", ok); if (ok) { note("IGdtfGeometry.GetHeight", x0); } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetIsCurved(x0)); note("IGdtfGeometry.GetIsCurved", ok); if (ok) { note("IGdtfGeometry.GetIsCurved", x0); } }
  if (deep) { VCOMPtr<IGdtfPhysicalEmitter> p; bool ok = VCOM_SUCCEEDED(o->GetEmitterSpectrum(&p)) && p; note("IGdtfGeometry.GetEmitterSpectrum", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EGdtfLaserColorType x0{}; bool ok = VCOM_SUCCEEDED(o->GetColorType(x0)); note("IGdtfGeometry.GetColorType", ok); if (ok) { note("IGdtfGeometry.GetColorType", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetLaserColor(x0)); note("IGdtfGeometry.GetLaserColor", ok); if (ok) { note("IGdtfGeometry.GetLaserColor", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetOutputStrength(x0)); note("IGdtfGeometry.GetOutputStrength", ok); if (ok) { note("IGdtfGeometry.GetOutputStrength", x0); } }
  if (deep) { VCOMPtr<IGdtfPhysicalEmitter> p; bool ok = VCOM_SUCCEEDED(o->GetEmitter(&p)) && p; note("IGdtfGeometry.GetEmitter", ok); if (ok) visit(p, 0); }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetBeamDiameter(x0)); note("IGdtfGeometry.GetBeamDiameter", ok); if (ok) { note("IGdtfGeometry.GetBeamDiameter", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetBeamDivergenceMin(x0)); note("IGdtfGeometry.GetBeamDivergenceMin", ok); if (ok) { note("IGdtfGeometry.GetBeamDivergenceMin", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetBeamDivergenceMax(x0)); note("IGdtfGeometry.GetBeamDivergenceMax", ok); if (ok) { note("IGdtfGeometry.GetBeamDivergenceMax", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetScanAnglePan(x0)); note("IGdtfGeometry.GetScanAnglePan", ok); if (ok) { note("IGdtfGeometry.GetScanAnglePan", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetScanAngleTilt(x0)); note("IGdtfGeometry.GetScanAngleTilt", ok); if (ok) { note("IGdtfGeometry.GetScanAngleTilt", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetScanSpeed(x0)); note("IGdtfGeometry.GetScanSpeed", ok); if (ok) { note("IGdtfGeometry.GetScanSpeed", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetLaserProtocolCount(n))) { note("IGdtfGeometry.GetLaserProtocolCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfLaserProtocol> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetLaserProtocolAt(at, &p)) && p, "IGdtfGeometry.GetLaserProtocolAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfLaserProtocol> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetLaserProtocolAt(at, &p)), "IGdtfGeometry.GetLaserProtocolAt behind the last"); } } }
  note("IGdtfGeometry.GetConnectorType", o->GetConnectorType());
  { GdtfDefines::EGdtfComponentType x0{}; bool ok = VCOM_SUCCEEDED(o->GetComponentType(x0)); note("IGdtfGeometry.GetComponentType", ok); if (ok) { note("IGdtfGeometry.GetComponentType", x0); } }
  note("IGdtfGeometry.GetSignalType", o->GetSignalType());
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetSignalLayer(x0)); note("IGdtfGeometry.GetSignalLayer", ok); if (ok) { note("IGdtfGeometry.GetSignalLayer", x0); } }
  { GdtfDefines::EGdtfOrientation x0{}; bool ok = VCOM_SUCCEEDED(o->GetOrientation(x0)); note("IGdtfGeometry.GetOrientation", ok); if (ok) { note("IGdtfGeometry.GetOrientation", x0); } }
  note("IGdtfGeometry.GetWireGroup", o->GetWireGroup());
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetElectricalPayLoad(x0)); note("IGdtfGeometry.GetElectricalPayLoad", ok); if (ok) { note("IGdtfGeometry.GetElectricalPayLoad", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetVoltageRangeMin(x0)); note("IGdtfGeometry.GetVoltageRangeMin", ok); if (ok) { note("IGdtfGeometry.GetVoltageRangeMin", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetVoltageRangeMax(x0)); note("IGdtfGeometry.GetVoltageRangeMax", ok); if (ok) { note("IGdtfGeometry.GetVoltageRangeMax", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetFrequencyRangeMin(x0)); note("IGdtfGeometry.GetFrequencyRangeMin", ok); if (ok) { note("IGdtfGeometry.GetFrequencyRangeMin", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetFrequencyRangeMax(x0)); note("IGdtfGeometry.GetFrequencyRangeMax", ok); if (ok) { note("IGdtfGeometry.GetFrequencyRangeMax", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCosPhi(x0)); note("IGdtfGeometry.GetCosPhi", ok); if (ok) { note("IGdtfGeometry.GetCosPhi", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetMaxPayLoad(x0)); note("IGdtfGeometry.GetMaxPayLoad", ok); if (ok) { note("IGdtfGeometry.GetMaxPayLoad", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetVoltage(x0)); note("IGdtfGeometry.GetVoltage", ok); if (ok) { note("IGdtfGeometry.GetVoltage", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetFuseCurrent(x0)); note("IGdtfGeometry.GetFuseCurrent", ok); if (ok) { note("IGdtfGeometry.GetFuseCurrent", x0); } }
  { GdtfDefines::EGdtfFuseRating x0{}; bool ok = VCOM_SUCCEEDED(o->GetFuseRating(x0)); note("IGdtfGeometry.GetFuseRating", ok); if (ok) { note("IGdtfGeometry.GetFuseRating", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetPinPatchCount(n))) { note("IGdtfGeometry.GetPinPatchCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfPinPatch> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetPinPatchAt(at, &p)) && p, "IGdtfGeometry.GetPinPatchAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfPinPatch> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetPinPatchAt(at, &p)), "IGdtfGeometry.GetPinPatchAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtfGeometry> p; bool ok = VCOM_SUCCEEDED(o->GetStructureLinkedGeometry(&p)) && p; note("IGdtfGeometry.GetStructureLinkedGeometry", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EGdtfStructureType x0{}; bool ok = VCOM_SUCCEEDED(o->GetStructureType(x0)); note("IGdtfGeometry.GetStructureType", ok); if (ok) { note("IGdtfGeometry.GetStructureType", x0); } }
  { GdtfDefines::EGdtfCrossSectionType x0{}; bool ok = VCOM_SUCCEEDED(o->GetCrossSectionType(x0)); note("IGdtfGeometry.GetCrossSectionType", ok); if (ok) { note("IGdtfGeometry.GetCrossSectionType", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCrossSectionHeight(x0)); note("IGdtfGeometry.GetCrossSectionHeight", ok); if (ok) { note("IGdtfGeometry.GetCrossSectionHeight", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCrossSectionWallThickness(x0)); note("IGdtfGeometry.GetCrossSectionWallThickness", ok); if (ok) { note("IGdtfGeometry.GetCrossSectionWallThickness", x0); } }
  note("IGdtfGeometry.GetTrussCrossSection", o->GetTrussCrossSection());
  { GdtfDefines::EGdtfSupportType x0{}; bool ok = VCOM_SUCCEEDED(o->GetSupportType(x0)); note("IGdtfGeometry.GetSupportType", ok); if (ok) { note("IGdtfGeometry.GetSupportType", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCapacityX(x0)); note("IGdtfGeometry.GetCapacityX", ok); if (ok) { note("IGdtfGeometry.GetCapacityX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCapacityY(x0)); note("IGdtfGeometry.GetCapacityY", ok); if (ok) { note("IGdtfGeometry.GetCapacityY", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCapacityZ(x0)); note("IGdtfGeometry.GetCapacityZ", ok); if (ok) { note("IGdtfGeometry.GetCapacityZ", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCapacityXX(x0)); note("IGdtfGeometry.GetCapacityXX", ok); if (ok) { note("IGdtfGeometry.GetCapacityXX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCapacityYY(x0)); note("IGdtfGeometry.GetCapacityYY", ok); if (ok) { note("IGdtfGeometry.GetCapacityYY", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCapacityZZ(x0)); note("IGdtfGeometry.GetCapacityZZ", ok); if (ok) { note("IGdtfGeometry.GetCapacityZZ", x0); } }
  note("IGdtfGeometry.GetRopeCrossSection", o->GetRopeCrossSection());
  { SVector3 x0{}; bool ok = VCOM_SUCCEEDED(o->GetRopeOffset(x0)); note("IGdtfGeometry.GetRopeOffset", ok); if (ok) { note("IGdtfGeometry.GetRopeOffset", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetResistanceX(x0)); note("IGdtfGeometry.GetResistanceX", ok); if (ok) { note("IGdtfGeometry.GetResistanceX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetResistanceY(x0)); note("IGdtfGeometry.GetResistanceY", ok); if (ok) { note("IGdtfGeometry.GetResistanceY", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetResistanceZ(x0)); note("IGdtfGeometry.GetResistanceZ", ok); if (ok) { note("IGdtfGeometry.GetResistanceZ", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetResistanceXX(x0)); note("IGdtfGeometry.GetResistanceXX", ok); if (ok) { note("IGdtfGeometry.GetResistanceXX", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetResistanceYY(x0)); note("IGdtfGeometry.GetResistanceYY", ok); if (ok) { note("IGdtfGeometry.GetResistanceYY", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetResistanceZZ(x0)); note("IGdtfGeometry.GetResistanceZZ", ok); if (ok) { note("IGdtfGeometry.GetResistanceZZ", x0); } }
}
static void visit(IGdtfDmxChannelSet* o, int deep) {
  note("IGdtfDmxChannelSet.GetName", o->GetName());
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxStartAddress(x0)); note("IGdtfDmxChannelSet.GetDmxStartAddress", ok); if (ok) { note("IGdtfDmxChannelSet.GetDmxStartAddress", x0); } }
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxEndAddress(x0)); note("IGdtfDmxChannelSet.GetDmxEndAddress", ok); if (ok) { note("IGdtfDmxChannelSet.GetDmxEndAddress", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalStart(x0)); note("IGdtfDmxChannelSet.GetPhysicalStart", ok); if (ok) { note("IGdtfDmxChannelSet.GetPhysicalStart", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalEnd(x0)); note("IGdtfDmxChannelSet.GetPhysicalEnd", ok); if (ok) { note("IGdtfDmxChannelSet.GetPhysicalEnd", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetWheelSlot(x0)); note("IGdtfDmxChannelSet.GetWheelSlot", ok); if (ok) { note("IGdtfDmxChannelSet.GetWheelSlot", x0); } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetUsePhysicalFromParent(x0)); note("IGdtfDmxChannelSet.GetUsePhysicalFromParent", ok); if (ok) { note("IGdtfDmxChannelSet.GetUsePhysicalFromParent", x0); } }
}
static void visit(IGdtfDmxSubChannelSet* o, int deep) {
  note("IGdtfDmxSubChannelSet.GetName", o->GetName());
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalFrom(x0)); note("IGdtfDmxSubChannelSet.GetPhysicalFrom", ok); if (ok) { note("IGdtfDmxSubChannelSet.GetPhysicalFrom", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalTo(x0)); note("IGdtfDmxSubChannelSet.GetPhysicalTo", ok); if (ok) { note("IGdtfDmxSubChannelSet.GetPhysicalTo", x0); } }
  if (deep) { VCOMPtr<IGdtfSubPhysicalUnit> p; bool ok = VCOM_SUCCEEDED(o->GetSubPhysicalUnit(&p)) && p; note("IGdtfDmxSubChannelSet.GetSubPhysicalUnit", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfDMXProfile> p; bool ok = VCOM_SUCCEEDED(o->GetDMXProfile(&p)) && p; note("IGdtfDmxSubChannelSet.GetDMXProfile", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfDmxChannelFunction* o, int deep) {
  note("IGdtfDmxChannelFunction.GetName", o->GetName());
  if (deep) { VCOMPtr<IGdtfAttribute> p; bool ok = VCOM_SUCCEEDED(o->GetAttribute(&p)) && p; note("IGdtfDmxChannelFunction.GetAttribute", ok); if (ok) visit(p, 0); }
  note("IGdtfDmxChannelFunction.GetOriginalAttribute", o->GetOriginalAttribute());
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetStartAddress(x0)); note("IGdtfDmxChannelFunction.GetStartAddress", ok); if (ok) { note("IGdtfDmxChannelFunction.GetStartAddress", x0); } }
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetEndAddress(x0)); note("IGdtfDmxChannelFunction.GetEndAddress", ok); if (ok) { note("IGdtfDmxChannelFunction.GetEndAddress", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalStart(x0)); note("IGdtfDmxChannelFunction.GetPhysicalStart", ok); if (ok) { note("IGdtfDmxChannelFunction.GetPhysicalStart", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysicalEnd(x0)); note("IGdtfDmxChannelFunction.GetPhysicalEnd", ok); if (ok) { note("IGdtfDmxChannelFunction.GetPhysicalEnd", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetRealFade(x0)); note("IGdtfDmxChannelFunction.GetRealFade", ok); if (ok) { note("IGdtfDmxChannelFunction.GetRealFade", x0); } }
  if (deep) { VCOMPtr<IGdtfWheel> p; bool ok = VCOM_SUCCEEDED(o->GetOnWheel(&p)) && p; note("IGdtfDmxChannelFunction.GetOnWheel", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfPhysicalEmitter> p; bool ok = VCOM_SUCCEEDED(o->GetEmitter(&p)) && p; note("IGdtfDmxChannelFunction.GetEmitter", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfFilter> p; bool ok = VCOM_SUCCEEDED(o->GetFilter(&p)) && p; note("IGdtfDmxChannelFunction.GetFilter", ok); if (ok) visit(p, 0); }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxChannelSetCount(n))) { note("IGdtfDmxChannelFunction.GetDmxChannelSetCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxChannelSet> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxChannelSetAt(at, &p)) && p, "IGdtfDmxChannelFunction.GetDmxChannelSetAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxChannelSet> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxChannelSetAt(at, &p)), "IGdtfDmxChannelFunction.GetDmxChannelSetAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtfDmxLogicalChannel> p; bool ok = VCOM_SUCCEEDED(o->GetParentLogicalChannel(&p)) && p; note("IGdtfDmxChannelFunction.GetParentLogicalChannel", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EGdtfChannelBitResolution x0{}; bool ok = VCOM_SUCCEEDED(o->GetResolution(x0)); note("IGdtfDmxChannelFunction.GetResolution", ok); if (ok) { note("IGdtfDmxChannelFunction.GetResolution", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetRealAcceleration(x0)); note("IGdtfDmxChannelFunction.GetRealAcceleration", ok); if (ok) { note("IGdtfDmxChannelFunction.GetRealAcceleration", x0); } }
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetDefaultValue(x0)); note("IGdtfDmxChannelFunction.GetDefaultValue", ok); if (ok) { note("IGdtfDmxChannelFunction.GetDefaultValue", x0); } }
  if (deep) { VCOMPtr<IGdtfColorSpace> p; bool ok = VCOM_SUCCEEDED(o->GetColorSpace(&p)) && p; note("IGdtfDmxChannelFunction.GetColorSpace", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfGamut> p; bool ok = VCOM_SUCCEEDED(o->GetGamut(&p)) && p; note("IGdtfDmxChannelFunction.GetGamut", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfDMXProfile> p; bool ok = VCOM_SUCCEEDED(o->GetDMXProfile(&p)) && p; note("IGdtfDmxChannelFunction.GetDMXProfile", ok); if (ok) visit(p, 0); }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetMin(x0)); note("IGdtfDmxChannelFunction.GetMin", ok); if (ok) { note("IGdtfDmxChannelFunction.GetMin", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetMax(x0)); note("IGdtfDmxChannelFunction.GetMax", ok); if (ok) { note("IGdtfDmxChannelFunction.GetMax", x0); } }
  note("IGdtfDmxChannelFunction.GetCustomName", o->GetCustomName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxSubChannelSetCount(n))) { note("IGdtfDmxChannelFunction.GetDmxSubChannelSetCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxSubChannelSet> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxSubChannelSetAt(at, &p)) && p, "IGdtfDmxChannelFunction.GetDmxSubChannelSetAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxSubChannelSet> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxSubChannelSetAt(at, &p)), "IGdtfDmxChannelFunction.GetDmxSubChannelSetAt behind the last"); } } }
}
static void visit(IGdtfDmxLogicalChannel* o, int deep) {
  note("IGdtfDmxLogicalChannel.GetName", o->GetName());
  if (deep) { VCOMPtr<IGdtfAttribute> p; bool ok = VCOM_SUCCEEDED(o->GetAttribute(&p)) && p; note("IGdtfDmxLogicalChannel.GetAttribute", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EGdtfDmxSnap x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxSnap(x0)); note("IGdtfDmxLogicalChannel.GetDmxSnap", ok); if (ok) { note("IGdtfDmxLogicalChannel.GetDmxSnap", x0); } }
  { GdtfDefines::EGdtfDmxMaster x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxMaster(x0)); note("IGdtfDmxLogicalChannel.GetDmxMaster", ok); if (ok) { note("IGdtfDmxLogicalChannel.GetDmxMaster", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetMoveInBlackFrames(x0)); note("IGdtfDmxLogicalChannel.GetMoveInBlackFrames", ok); if (ok) { note("IGdtfDmxLogicalChannel.GetMoveInBlackFrames", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxChangeTimeLimit(x0)); note("IGdtfDmxLogicalChannel.GetDmxChangeTimeLimit", ok); if (ok) { note("IGdtfDmxLogicalChannel.GetDmxChangeTimeLimit", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxFunctionCount(n))) { note("IGdtfDmxLogicalChannel.GetDmxFunctionCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxChannelFunction> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxFunctionAt(at, &p)) && p, "IGdtfDmxLogicalChannel.GetDmxFunctionAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxChannelFunction> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxFunctionAt(at, &p)), "IGdtfDmxLogicalChannel.GetDmxFunctionAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtfDmxChannel> p; bool ok = VCOM_SUCCEEDED(o->GetParentDmxChannel(&p)) && p; note("IGdtfDmxLogicalChannel.GetParentDmxChannel", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfDmxChannel* o, int deep) {
  note("IGdtfDmxChannel.GetName", o->GetName());
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxBreak(x0)); note("IGdtfDmxChannel.GetDmxBreak", ok); if (ok) { note("IGdtfDmxChannel.GetDmxBreak", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetCoarse(x0)); note("IGdtfDmxChannel.GetCoarse", ok); if (ok) { note("IGdtfDmxChannel.GetCoarse", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetFine(x0)); note("IGdtfDmxChannel.GetFine", ok); if (ok) { note("IGdtfDmxChannel.GetFine", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetUltra(x0)); note("IGdtfDmxChannel.GetUltra", ok); if (ok) { note("IGdtfDmxChannel.GetUltra", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetUber(x0)); note("IGdtfDmxChannel.GetUber", ok); if (ok) { note("IGdtfDmxChannel.GetUber", x0); } }
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetHighlight(x0)); note("IGdtfDmxChannel.GetHighlight", ok); if (ok) { note("IGdtfDmxChannel.GetHighlight", x0); } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->HasHighlight(x0)); note("IGdtfDmxChannel.HasHighlight", ok); if (ok) { note("IGdtfDmxChannel.HasHighlight", x0); } }
  if (deep) { VCOMPtr<IGdtfGeometry> p; bool ok = VCOM_SUCCEEDED(o->GetGeometry(&p)) && p; note("IGdtfDmxChannel.GetGeometry", ok); if (ok) visit(p, 0); }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetLogicalChannelCount(n))) { note("IGdtfDmxChannel.GetLogicalChannelCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxLogicalChannel> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetLogicalChannelAt(at, &p)) && p, "IGdtfDmxChannel.GetLogicalChannelAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxLogicalChannel> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetLogicalChannelAt(at, &p)), "IGdtfDmxChannel.GetLogicalChannelAt behind the last"); } } }
  { GdtfDefines::EGdtfChannelBitResolution x0{}; bool ok = VCOM_SUCCEEDED(o->GetResolution(x0)); note("IGdtfDmxChannel.GetResolution", ok); if (ok) { note("IGdtfDmxChannel.GetResolution", x0); } }
  if (deep) { VCOMPtr<IGdtfDmxChannelFunction> p; bool ok = VCOM_SUCCEEDED(o->GetInitialFunction(&p)) && p; note("IGdtfDmxChannel.GetInitialFunction", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfDmxRelation* o, int deep) {
  note("IGdtfDmxRelation.GetName", o->GetName());
  if (deep) { VCOMPtr<IGdtfDmxChannel> p; bool ok = VCOM_SUCCEEDED(o->GetMasterChannel(&p)) && p; note("IGdtfDmxRelation.GetMasterChannel", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfDmxChannelFunction> p; bool ok = VCOM_SUCCEEDED(o->GetSlaveChannel(&p)) && p; note("IGdtfDmxRelation.GetSlaveChannel", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EGdtfDmxRelationType x0{}; bool ok = VCOM_SUCCEEDED(o->GetRelationType(x0)); note("IGdtfDmxRelation.GetRelationType", ok); if (ok) { note("IGdtfDmxRelation.GetRelationType", x0); } }
}
static void visit(IGdtfMacro* o, int deep) {
  note("IGdtfMacro.GetName", o->GetName());
  if (deep) { VCOMPtr<IGdtfMacroDMX> p; bool ok = VCOM_SUCCEEDED(o->GetMacroDMX(&p)) && p; note("IGdtfMacro.GetMacroDMX", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfMacroVisual> p; bool ok = VCOM_SUCCEEDED(o->GetMacroVisual(&p)) && p; note("IGdtfMacro.GetMacroVisual", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IGdtfDmxChannelFunction> p; bool ok = VCOM_SUCCEEDED(o->GetChannelFunction(&p)) && p; note("IGdtfMacro.GetChannelFunction", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfMacroDMX* o, int deep) {
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetStepCount(n))) { note("IGdtfMacroDMX.GetStepCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMacroDMXStep> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetStepAt(at, &p)) && p, "IGdtfMacroDMX.GetStepAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMacroDMXStep> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetStepAt(at, &p)), "IGdtfMacroDMX.GetStepAt behind the last"); } } }
}
static void visit(IGdtfMacroDMXStep* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDuration(x0)); note("IGdtfMacroDMXStep.GetDuration", ok); if (ok) { note("IGdtfMacroDMXStep.GetDuration", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDMXValueCount(n))) { note("IGdtfMacroDMXStep.GetDMXValueCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMacroDMXValue> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDMXValueAt(at, &p)) && p, "IGdtfMacroDMXStep.GetDMXValueAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMacroDMXValue> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDMXValueAt(at, &p)), "IGdtfMacroDMXStep.GetDMXValueAt behind the last"); } } }
}
static void visit(IGdtfMacroDMXValue* o, int deep) {
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxValue(x0)); note("IGdtfMacroDMXValue.GetDmxValue", ok); if (ok) { note("IGdtfMacroDMXValue.GetDmxValue", x0); } }
  if (deep) { VCOMPtr<IGdtfDmxChannel> p; bool ok = VCOM_SUCCEEDED(o->GetDmxChannel(&p)) && p; note("IGdtfMacroDMXValue.GetDmxChannel", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfMacroVisual* o, int deep) {
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetVisualStepCount(n))) { note("IGdtfMacroVisual.GetVisualStepCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMacroVisualStep> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetVisualStepAt(at, &p)) && p, "IGdtfMacroVisual.GetVisualStepAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMacroVisualStep> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetVisualStepAt(at, &p)), "IGdtfMacroVisual.GetVisualStepAt behind the last"); } } }
}
static void visit(IGdtfMacroVisualStep* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDuration(x0)); note("IGdtfMacroVisualStep.GetDuration", ok); if (ok) { note("IGdtfMacroVisualStep.GetDuration", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetFade(x0)); note("IGdtfMacroVisualStep.GetFade", ok); if (ok) { note("IGdtfMacroVisualStep.GetFade", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDelay(x0)); note("IGdtfMacroVisualStep.GetDelay", ok); if (ok) { note("IGdtfMacroVisualStep.GetDelay", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetVisualValueCount(n))) { note("IGdtfMacroVisualStep.GetVisualValueCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMacroVisualValue> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetVisualValueAt(at, &p)) && p, "IGdtfMacroVisualStep.GetVisualValueAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMacroVisualValue> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetVisualValueAt(at, &p)), "IGdtfMacroVisualStep.GetVisualValueAt behind the last"); } } }
}
static void visit(IGdtfMacroVisualValue* o, int deep) {
  { GdtfDefines::DmxValue x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxValue(x0)); note("IGdtfMacroVisualValue.GetDmxValue", ok); if (ok) { note("IGdtfMacroVisualValue.GetDmxValue", x0); } }
  if (deep) { VCOMPtr<IGdtfDmxChannelFunction> p; bool ok = VCOM_SUCCEEDED(o->GetDmxChannel(&p)) && p; note("IGdtfMacroVisualValue.GetDmxChannel", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfDmxMode* o, int deep) {
  note("IGdtfDmxMode.GetName", o->GetName());
  if (deep) { VCOMPtr<IGdtfGeometry> p; bool ok = VCOM_SUCCEEDED(o->GetGeometry(&p)) && p; note("IGdtfDmxMode.GetGeometry", ok); if (ok) visit(p, 0); }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxChannelCount(n))) { note("IGdtfDmxMode.GetDmxChannelCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxChannel> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxChannelAt(at, &p)) && p, "IGdtfDmxMode.GetDmxChannelAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxChannel> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxChannelAt(at, &p)), "IGdtfDmxMode.GetDmxChannelAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxRelationCount(n))) { note("IGdtfDmxMode.GetDmxRelationCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxRelation> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxRelationAt(at, &p)) && p, "IGdtfDmxMode.GetDmxRelationAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxRelation> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxRelationAt(at, &p)), "IGdtfDmxMode.GetDmxRelationAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxMacroCount(n))) { note("IGdtfDmxMode.GetDmxMacroCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMacro> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxMacroAt(at, &p)) && p, "IGdtfDmxMode.GetDmxMacroAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMacro> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxMacroAt(at, &p)), "IGdtfDmxMode.GetDmxMacroAt behind the last"); } } }
  note("IGdtfDmxMode.GetDescription", o->GetDescription());
}
static void visit(IGdtfRevision* o, int deep) {
  note("IGdtfRevision.GetText", o->GetText());
  { STime x0{}; bool ok = VCOM_SUCCEEDED(o->GetDate(x0)); note("IGdtfRevision.GetDate", ok); if (ok) { note("IGdtfRevision.GetDate", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetUserId(x0)); note("IGdtfRevision.GetUserId", ok); if (ok) { note("IGdtfRevision.GetUserId", x0); } }
  note("IGdtfRevision.GetModifiedBy", o->GetModifiedBy());
}
static void visit(IGdtfUserPreset* o, int deep) {
  
}
static void visit(IGdtfMeasurementPoint* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetWaveLength(x0)); note("IGdtfMeasurementPoint.GetWaveLength", ok); if (ok) { note("IGdtfMeasurementPoint.GetWaveLength", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetEnergy(x0)); note("IGdtfMeasurementPoint.GetEnergy", ok); if (ok) { note("IGdtfMeasurementPoint.GetEnergy", x0); } }
}
static void visit(IGdtfMeasurement* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetPhysical(x0)); note("IGdtfMeasurement.GetPhysical", ok); if (ok) { note("IGdtfMeasurement.GetPhysical", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetLuminousIntensity(x0)); note("IGdtfMeasurement.GetLuminousIntensity", ok); if (ok) { note("IGdtfMeasurement.GetLuminousIntensity", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetTransmission(x0)); note("IGdtfMeasurement.GetTransmission", ok); if (ok) { note("IGdtfMeasurement.GetTransmission", x0); } }
  { GdtfDefines::EGdtfInterpolationTo x0{}; bool ok = VCOM_SUCCEEDED(o->GetInterpolationTo(x0)); note("IGdtfMeasurement.GetInterpolationTo", ok); if (ok) { note("IGdtfMeasurement.GetInterpolationTo", x0); } }
}
static void visit(IGdtfFilter* o, int deep) {
  note("IGdtfFilter.GetName", o->GetName());
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetColor(x0)); note("IGdtfFilter.GetColor", ok); if (ok) { note("IGdtfFilter.GetColor", x0); } }
}
static void visit(IGdtfPhysicalEmitter* o, int deep) {
  note("IGdtfPhysicalEmitter.GetName", o->GetName());
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetColor(x0)); note("IGdtfPhysicalEmitter.GetColor", ok); if (ok) { note("IGdtfPhysicalEmitter.GetColor", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetMeasurementCount(n))) { note("IGdtfPhysicalEmitter.GetMeasurementCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMeasurement> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetMeasurementAt(at, &p)) && p, "IGdtfPhysicalEmitter.GetMeasurementAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMeasurement> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetMeasurementAt(at, &p)), "IGdtfPhysicalEmitter.GetMeasurementAt behind the last"); } } }
  note("IGdtfPhysicalEmitter.GetDiodePart", o->GetDiodePart());
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDominantWaveLength(x0)); note("IGdtfPhysicalEmitter.GetDominantWaveLength", ok); if (ok) { note("IGdtfPhysicalEmitter.GetDominantWaveLength", x0); } }
}
static void visit(IGdtfColorSpace* o, int deep) {
  { GdtfDefines::EGdtfColorSpace x0{}; bool ok = VCOM_SUCCEEDED(o->GetColorSpace(x0)); note("IGdtfColorSpace.GetColorSpace", ok); if (ok) { note("IGdtfColorSpace.GetColorSpace", x0); } }
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetRed(x0)); note("IGdtfColorSpace.GetRed", ok); if (ok) { note("IGdtfColorSpace.GetRed", x0); } }
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetGreen(x0)); note("IGdtfColorSpace.GetGreen", ok); if (ok) { note("IGdtfColorSpace.GetGreen", x0); } }
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetBlue(x0)); note("IGdtfColorSpace.GetBlue", ok); if (ok) { note("IGdtfColorSpace.GetBlue", x0); } }
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetWhite(x0)); note("IGdtfColorSpace.GetWhite", ok); if (ok) { note("IGdtfColorSpace.GetWhite", x0); } }
  note("IGdtfColorSpace.GetName", o->GetName());
}
static void visit(IGdtfGamut* o, int deep) {
  note("IGdtfGamut.GetName", o->GetName());
}
static void visit(IGdtfCRI* o, int deep) {
  { Uint8 x0{}; bool ok = VCOM_SUCCEEDED(o->GetColorRenderingIndex(x0)); note("IGdtfCRI.GetColorRenderingIndex", ok); if (ok) { note("IGdtfCRI.GetColorRenderingIndex", x0); } }
}
static void visit(IGdtfCRIGroup* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetColorTemperature(x0)); note("IGdtfCRIGroup.GetColorTemperature", ok); if (ok) { note("IGdtfCRIGroup.GetColorTemperature", x0); } }
}
static void visit(IGdtfPoint* o, int deep) {
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetDMXPercentage(x0)); note("IGdtfPoint.GetDMXPercentage", ok); if (ok) { note("IGdtfPoint.GetDMXPercentage", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCFC3(x0)); note("IGdtfPoint.GetCFC3", ok); if (ok) { note("IGdtfPoint.GetCFC3", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCFC2(x0)); note("IGdtfPoint.GetCFC2", ok); if (ok) { note("IGdtfPoint.GetCFC2", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCFC1(x0)); note("IGdtfPoint.GetCFC1", ok); if (ok) { note("IGdtfPoint.GetCFC1", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetCFC0(x0)); note("IGdtfPoint.GetCFC0", ok); if (ok) { note("IGdtfPoint.GetCFC0", x0); } }
}
static void visit(IGdtfDMXProfile* o, int deep) {
  note("IGdtfDMXProfile.GetName", o->GetName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetPointCount(n))) { note("IGdtfDMXProfile.GetPointCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfPoint> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetPointAt(at, &p)) && p, "IGdtfDMXProfile.GetPointAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfPoint> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetPointAt(at, &p)), "IGdtfDMXProfile.GetPointAt behind the last"); } } }
}
static void visit(IGdtfConnector* o, int deep) {
  note("IGdtfConnector.GetName", o->GetName());
  note("IGdtfConnector.GetType", o->GetType());
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetDmxBreak(x0)); note("IGdtfConnector.GetDmxBreak", ok); if (ok) { note("IGdtfConnector.GetDmxBreak", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetGender(x0)); note("IGdtfConnector.GetGender", ok); if (ok) { note("IGdtfConnector.GetGender", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetLength(x0)); note("IGdtfConnector.GetLength", ok); if (ok) { note("IGdtfConnector.GetLength", x0); } }
}
static void visit(IGdtfFixture* o, int deep) {
  gNoting = false; { Sint32 x0{}; Sint32 x1{}; bool ok = VCOM_SUCCEEDED(o->GetGDTFVersion(x0, x1)); note("IGdtfFixture.GetGDTFVersion", ok); if (ok) { note("IGdtfFixture.GetGDTFVersion", x0); note("IGdtfFixture.GetGDTFVersion", x1); } } gNoting = true;
  note("IGdtfFixture.GetName", o->GetName());
  note("IGdtfFixture.GetManufacturer", o->GetManufacturer());
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetFixtureGUID(x0)); note("IGdtfFixture.GetFixtureGUID", ok); if (ok) { note("IGdtfFixture.GetFixtureGUID", x0); } }
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetLinkedFixtureGUID(x0)); note("IGdtfFixture.GetLinkedFixtureGUID", ok); if (ok) { note("IGdtfFixture.GetLinkedFixtureGUID", x0); } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->HasLinkedFixtureGUID(x0)); note("IGdtfFixture.HasLinkedFixtureGUID", ok); if (ok) { note("IGdtfFixture.HasLinkedFixtureGUID", x0); } }
  note("IGdtfFixture.GetFixtureTypeDescription", o->GetFixtureTypeDescription());
  note("IGdtfFixture.GetShortName", o->GetShortName());
  note("IGdtfFixture.GetFixtureThumbnail", o->GetFixtureThumbnail());
  note("IGdtfFixture.GetFixtureThumbnail_PNG_FullPath", o->GetFixtureThumbnail_PNG_FullPath());
  note("IGdtfFixture.GetFixtureThumbnail_SVG_FullPath", o->GetFixtureThumbnail_SVG_FullPath());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetActivationGroupCount(n))) { note("IGdtfFixture.GetActivationGroupCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfActivationGroup> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetActivationGroupAt(at, &p)) && p, "IGdtfFixture.GetActivationGroupAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfActivationGroup> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetActivationGroupAt(at, &p)), "IGdtfFixture.GetActivationGroupAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetFeatureGroupCount(n))) { note("IGdtfFixture.GetFeatureGroupCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfFeatureGroup> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetFeatureGroupAt(at, &p)) && p, "IGdtfFixture.GetFeatureGroupAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfFeatureGroup> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetFeatureGroupAt(at, &p)), "IGdtfFixture.GetFeatureGroupAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetAttributeCount(n))) { note("IGdtfFixture.GetAttributeCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfAttribute> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetAttributeAt(at, &p)) && p, "IGdtfFixture.GetAttributeAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfAttribute> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetAttributeAt(at, &p)), "IGdtfFixture.GetAttributeAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetWheelCount(n))) { note("IGdtfFixture.GetWheelCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfWheel> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetWheelAt(at, &p)) && p, "IGdtfFixture.GetWheelAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfWheel> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetWheelAt(at, &p)), "IGdtfFixture.GetWheelAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetModelCount(n))) { note("IGdtfFixture.GetModelCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfModel> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetModelAt(at, &p)) && p, "IGdtfFixture.GetModelAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfModel> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetModelAt(at, &p)), "IGdtfFixture.GetModelAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetGeometryCount(n))) { note("IGdtfFixture.GetGeometryCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfGeometry> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetGeometryAt(at, &p)) && p, "IGdtfFixture.GetGeometryAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfGeometry> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetGeometryAt(at, &p)), "IGdtfFixture.GetGeometryAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDmxModeCount(n))) { note("IGdtfFixture.GetDmxModeCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDmxMode> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDmxModeAt(at, &p)) && p, "IGdtfFixture.GetDmxModeAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDmxMode> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDmxModeAt(at, &p)), "IGdtfFixture.GetDmxModeAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetRevisionCount(n))) { note("IGdtfFixture.GetRevisionCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfRevision> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetRevisionAt(at, &p)) && p, "IGdtfFixture.GetRevisionAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfRevision> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetRevisionAt(at, &p)), "IGdtfFixture.GetRevisionAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetPresetCount(n))) { note("IGdtfFixture.GetPresetCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfUserPreset> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetPresetAt(at, &p)) && p, "IGdtfFixture.GetPresetAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfUserPreset> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetPresetAt(at, &p)), "IGdtfFixture.GetPresetAt behind the last"); } } }
  if (deep) { VCOMPtr<IGdtf_FTRDM> p; bool ok = VCOM_SUCCEEDED(o->GetRDM(&p)) && p; note("IGdtfFixture.GetRDM", ok); if (ok) visit(p, 1); }
  gNoting = false; if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetParsingErrorCount(n))) { note("IGdtfFixture.GetParsingErrorCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfXmlParsingError> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetParsingErrorAt(at, &p)) && p, "IGdtfFixture.GetParsingErrorAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfXmlParsingError> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetParsingErrorAt(at, &p)), "IGdtfFixture.GetParsingErrorAt behind the last"); } } } gNoting = true;
  note("IGdtfFixture.GetLongName", o->GetLongName());
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetBufferLength(x0)); note("IGdtfFixture.GetBufferLength", ok); if (ok) { note("IGdtfFixture.GetBufferLength", x0); } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetCanHaveChildren(x0)); note("IGdtfFixture.GetCanHaveChildren", ok); if (ok) { note("IGdtfFixture.GetCanHaveChildren", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetOperatingTemperatureLow(x0)); note("IGdtfFixture.GetOperatingTemperatureLow", ok); if (ok) { note("IGdtfFixture.GetOperatingTemperatureLow", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetOperatingTemperatureHigh(x0)); note("IGdtfFixture.GetOperatingTemperatureHigh", ok); if (ok) { note("IGdtfFixture.GetOperatingTemperatureHigh", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetWeight(x0)); note("IGdtfFixture.GetWeight", ok); if (ok) { note("IGdtfFixture.GetWeight", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetLegHeight(x0)); note("IGdtfFixture.GetLegHeight", ok); if (ok) { note("IGdtfFixture.GetLegHeight", x0); } }
  if (deep) { VCOMPtr<IGdtfArtNet> p; bool ok = VCOM_SUCCEEDED(o->GetArtNet(&p)) && p; note("IGdtfFixture.GetArtNet", ok); if (ok) visit(p, 1); }
  if (deep) { VCOMPtr<IGdtfSACN> p; bool ok = VCOM_SUCCEEDED(o->GetSACN(&p)) && p; note("IGdtfFixture.GetSACN", ok); if (ok) visit(p, 1); }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetAdditionalColorSpaceCount(n))) { note("IGdtfFixture.GetAdditionalColorSpaceCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfColorSpace> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetAdditionalColorSpaceAt(at, &p)) && p, "IGdtfFixture.GetAdditionalColorSpaceAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfColorSpace> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetAdditionalColorSpaceAt(at, &p)), "IGdtfFixture.GetAdditionalColorSpaceAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetGamutCount(n))) { note("IGdtfFixture.GetGamutCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfGamut> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetGamutAt(at, &p)) && p, "IGdtfFixture.GetGamutAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfGamut> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetGamutAt(at, &p)), "IGdtfFixture.GetGamutAt behind the last"); } } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetThumbnailOffsetX(x0)); note("IGdtfFixture.GetThumbnailOffsetX", ok); if (ok) { note("IGdtfFixture.GetThumbnailOffsetX", x0); } }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetThumbnailOffsetY(x0)); note("IGdtfFixture.GetThumbnailOffsetY", ok); if (ok) { note("IGdtfFixture.GetThumbnailOffsetY", x0); } }
}
static void visit(IGdtf_FTRDM* o, int deep) {
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetManufacturerID(x0)); note("IGdtf_FTRDM.GetManufacturerID", ok); if (ok) { note("IGdtf_FTRDM.GetManufacturerID", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetDeviceModelID(x0)); note("IGdtf_FTRDM.GetDeviceModelID", ok); if (ok) { note("IGdtf_FTRDM.GetDeviceModelID", x0); } }
}
static void visit(IGdtfMap* o, int deep) {
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetKey(x0)); note("IGdtfMap.GetKey", ok); if (ok) { note("IGdtfMap.GetKey", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetValue(x0)); note("IGdtfMap.GetValue", ok); if (ok) { note("IGdtfMap.GetValue", x0); } }
}
static void visit(IGdtfArtNet* o, int deep) {
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetMapCount(n))) { note("IGdtfArtNet.GetMapCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMap> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetMapAt(at, &p)) && p, "IGdtfArtNet.GetMapAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMap> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetMapAt(at, &p)), "IGdtfArtNet.GetMapAt behind the last"); } } }
}
static void visit(IGdtfSACN* o, int deep) {
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetMapCount(n))) { note("IGdtfSACN.GetMapCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfMap> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetMapAt(at, &p)) && p, "IGdtfSACN.GetMapAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfMap> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetMapAt(at, &p)), "IGdtfSACN.GetMapAt behind the last"); } } }
}
static void visit(IGdtfDMXPersonality* o, int deep) {
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetValue(x0)); note("IGdtfDMXPersonality.GetValue", ok); if (ok) { note("IGdtfDMXPersonality.GetValue", x0); } }
  if (deep) { VCOMPtr<IGdtfDmxMode> p; bool ok = VCOM_SUCCEEDED(o->GetDmxMode(&p)) && p; note("IGdtfDMXPersonality.GetDmxMode", ok); if (ok) visit(p, 0); }
}
static void visit(IGdtfSoftwareVersionID* o, int deep) {
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetValue(x0)); note("IGdtfSoftwareVersionID.GetValue", ok); if (ok) { note("IGdtfSoftwareVersionID.GetValue", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetDMXPersonalityCount(n))) { note("IGdtfSoftwareVersionID.GetDMXPersonalityCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGdtfDMXPersonality> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetDMXPersonalityAt(at, &p)) && p, "IGdtfSoftwareVersionID.GetDMXPersonalityAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGdtfDMXPersonality> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetDMXPersonalityAt(at, &p)), "IGdtfSoftwareVersionID.GetDMXPersonalityAt behind the last"); } } }
}
static void visit(IGdtfXmlParsingError* o, int deep) {
  gNoting = false; { GdtfDefines::EGdtfParsingError x0{}; bool ok = VCOM_SUCCEEDED(o->GetErrorType(x0)); note("IGdtfXmlParsingError.GetErrorType", ok); if (ok) { note("IGdtfXmlParsingError.GetErrorType", x0); } } gNoting = true;
  gNoting = false; note("IGdtfXmlParsingError.GetErrorMessage", o->GetErrorMessage()); gNoting = true;
  gNoting = false; note("IGdtfXmlParsingError.GetNodeName", o->GetNodeName()); gNoting = true;
  gNoting = false; { size_t x0{}; size_t x1{}; bool ok = VCOM_SUCCEEDED(o->GetLineAndColumnNumber(x0, x1)); note("IGdtfXmlParsingError.GetLineAndColumnNumber", ok); if (ok) { note("IGdtfXmlParsingError.GetLineAndColumnNumber", x0); note("IGdtfXmlParsingError.GetLineAndColumnNumber", x1); } } gNoting = true;
  gNoting = false; note("IGdtfXmlParsingError.GetObjectName", o->GetObjectName()); gNoting = true;
}
