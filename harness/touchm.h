// calls every getter of an object and of everything below it (written by tools/gentouch.py)
#pragma once
#include "touch.h"
static void visit(ISceneDataProvider* o, int deep);
static void visit(IPosition* o, int deep);
static void visit(IClass* o, int deep);
static void visit(IGeometryReference* o, int deep);
static void visit(ISymDef* o, int deep);
static void visit(ISource* o, int deep);
static void visit(IMappingDefinition* o, int deep);
static void visit(IMapping* o, int deep);
static void visit(IConnection* o, int deep);
static void visit(ICustomCommand* o, int deep);
static void visit(IAlignment* o, int deep);
static void visit(IOverwrite* o, int deep);
static void visit(ISceneObj* o, int deep);
static void visit(ISceneDataProvider* o, int deep) {
  note("ISceneDataProvider.GetProviderName", o->GetProviderName());
  note("ISceneDataProvider.GetVersion", o->GetVersion());
}
static void visit(IPosition* o, int deep) {
  { MvrUUID u{}; ASSERT(VCOM_SUCCEEDED(o->GetGuid(u)), "IPosition handed out without content"); }
  note("IPosition.GetName", o->GetName());
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetGuid(x0)); note("IPosition.GetGuid", ok); if (ok) { note("IPosition.GetGuid", x0); } }
}
static void visit(IClass* o, int deep) {
  { MvrUUID u{}; ASSERT(VCOM_SUCCEEDED(o->GetGuid(u)), "IClass handed out without content"); }
  note("IClass.GetName", o->GetName());
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetGuid(x0)); note("IClass.GetGuid", ok); if (ok) { note("IClass.GetGuid", x0); } }
}
static void visit(IGeometryReference* o, int deep) {
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetIsSymbol(x0)); note("IGeometryReference.GetIsSymbol", ok); if (ok) { note("IGeometryReference.GetIsSymbol", x0); } }
  note("IGeometryReference.GetFileForGeometry", o->GetFileForGeometry());
  if (deep) { VCOMPtr<ISymDef> p; bool ok = VCOM_SUCCEEDED(o->GetSymDef(&p)) && p; note("IGeometryReference.GetSymDef", ok); if (ok) visit(p, 0); }
  { STransformMatrix x0{}; bool ok = VCOM_SUCCEEDED(o->GetTransfromMatrix(x0)); note("IGeometryReference.GetTransfromMatrix", ok); if (ok) { note("IGeometryReference.GetTransfromMatrix", x0); } }
}
static void visit(ISymDef* o, int deep) {
  { MvrUUID u{}; ASSERT(VCOM_SUCCEEDED(o->GetGuid(u)), "ISymDef handed out without content"); }
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetGuid(x0)); note("ISymDef.GetGuid", ok); if (ok) { note("ISymDef.GetGuid", x0); } }
  note("ISymDef.GetName", o->GetName());
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetGeometryCount(n))) { note("ISymDef.GetGeometryCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGeometryReference> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetGeometryAt(at, &p)) && p, "ISymDef.GetGeometryAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGeometryReference> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetGeometryAt(at, &p)), "ISymDef.GetGeometryAt behind the last"); } } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetIsContaingSymbolGeomtery(x0)); note("ISymDef.GetIsContaingSymbolGeomtery", ok); if (ok) { note("ISymDef.GetIsContaingSymbolGeomtery", x0); } }
}
static void visit(ISource* o, int deep) {
  { ESourceType t{}; ASSERT(VCOM_SUCCEEDED(o->GetType(t)), "ISource handed out without content"); }
  note("ISource.GetValue", o->GetValue());
  note("ISource.GetLinkedGeometry", o->GetLinkedGeometry());
  { GdtfDefines::ESourceType x0{}; bool ok = VCOM_SUCCEEDED(o->GetType(x0)); note("ISource.GetType", ok); if (ok) { note("ISource.GetType", x0); } }
}
static void visit(IMappingDefinition* o, int deep) {
  { MvrUUID u{}; ASSERT(VCOM_SUCCEEDED(o->GetGuid(u)), "IMappingDefinition handed out without content"); }
  note("IMappingDefinition.GetName", o->GetName());
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetGuid(x0)); note("IMappingDefinition.GetGuid", ok); if (ok) { note("IMappingDefinition.GetGuid", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetSizeX(x0)); note("IMappingDefinition.GetSizeX", ok); if (ok) { note("IMappingDefinition.GetSizeX", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetSizeY(x0)); note("IMappingDefinition.GetSizeY", ok); if (ok) { note("IMappingDefinition.GetSizeY", x0); } }
  if (deep) { VCOMPtr<ISource> p; bool ok = VCOM_SUCCEEDED(o->GetSource(&p)) && p; note("IMappingDefinition.GetSource", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EScaleHandlingType x0{}; bool ok = VCOM_SUCCEEDED(o->GetScaleHandling(x0)); note("IMappingDefinition.GetScaleHandling", ok); if (ok) { note("IMappingDefinition.GetScaleHandling", x0); } }
}
static void visit(IMapping* o, int deep) {
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetLinkedDefUuid(x0)); note("IMapping.GetLinkedDefUuid", ok); if (ok) { note("IMapping.GetLinkedDefUuid", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetUx(x0)); note("IMapping.GetUx", ok); if (ok) { note("IMapping.GetUx", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetUy(x0)); note("IMapping.GetUy", ok); if (ok) { note("IMapping.GetUy", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetOx(x0)); note("IMapping.GetOx", ok); if (ok) { note("IMapping.GetOx", x0); } }
  { Uint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetOy(x0)); note("IMapping.GetOy", ok); if (ok) { note("IMapping.GetOy", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetRz(x0)); note("IMapping.GetRz", ok); if (ok) { note("IMapping.GetRz", x0); } }
}
static void visit(IConnection* o, int deep) {
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetToObject(x0)); note("IConnection.GetToObject", ok); if (ok) { note("IConnection.GetToObject", x0); } }
  note("IConnection.GetOwn", o->GetOwn());
  note("IConnection.GetOther", o->GetOther());
}
static void visit(ICustomCommand* o, int deep) {
  note("ICustomCommand.GetChannelFunction", o->GetChannelFunction());
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->IsPercentage(x0)); note("ICustomCommand.IsPercentage", ok); if (ok) { note("ICustomCommand.IsPercentage", x0); } }
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetValue(x0)); note("ICustomCommand.GetValue", ok); if (ok) { note("ICustomCommand.GetValue", x0); } }
}
static void visit(IAlignment* o, int deep) {
  note("IAlignment.GetBeamGeometry", o->GetBeamGeometry());
  { SVector3 x0{}; bool ok = VCOM_SUCCEEDED(o->GetUpVector(x0)); note("IAlignment.GetUpVector", ok); if (ok) { note("IAlignment.GetUpVector", x0); } }
  { SVector3 x0{}; bool ok = VCOM_SUCCEEDED(o->GetDirection(x0)); note("IAlignment.GetDirection", ok); if (ok) { note("IAlignment.GetDirection", x0); } }
}
static void visit(IOverwrite* o, int deep) {
  note("IOverwrite.GetUniversal", o->GetUniversal());
  note("IOverwrite.GetTarget", o->GetTarget());
}
static void visit(ISceneObj* o, int deep) {
  { MvrUUID u{}; ASSERT(VCOM_SUCCEEDED(o->GetGuid(u)), "ISceneObj handed out without content"); }
  { ESceneObjType x0{}; bool ok = VCOM_SUCCEEDED(o->GetType(x0)); note("ISceneObj.GetType", ok); if (ok) { note("ISceneObj.GetType", x0); } }
  note("ISceneObj.GetName", o->GetName());
  { MvrUUID x0{}; bool ok = VCOM_SUCCEEDED(o->GetGuid(x0)); note("ISceneObj.GetGuid", ok); if (ok) { note("ISceneObj.GetGuid", x0); } }
  { STransformMatrix x0{}; bool ok = VCOM_SUCCEEDED(o->GetTransfromMatrix(x0)); note("ISceneObj.GetTransfromMatrix", ok); if (ok) { note("ISceneObj.GetTransfromMatrix", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetGeometryCount(n))) { note("ISceneObj.GetGeometryCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IGeometryReference> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetGeometryAt(at, &p)) && p, "ISceneObj.GetGeometryAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IGeometryReference> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetGeometryAt(at, &p)), "ISceneObj.GetGeometryAt behind the last"); } } }
  if (deep) { VCOMPtr<ISceneObj> p; bool ok = VCOM_SUCCEEDED(o->GetMultipatchParent(&p)) && p; note("ISceneObj.GetMultipatchParent", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IClass> p; bool ok = VCOM_SUCCEEDED(o->GetClass(&p)) && p; note("ISceneObj.GetClass", ok); if (ok) visit(p, 0); }
  note("ISceneObj.GetGdtfName", o->GetGdtfName());
  if (deep) { VCOMPtr<IGdtfFixture> p; bool ok = VCOM_SUCCEEDED(o->GetGdtfFixture(&p)) && p; note("ISceneObj.GetGdtfFixture", ok); if (ok) visit(p, 0); }
  note("ISceneObj.GetGdtfMode", o->GetGdtfMode());
  note("ISceneObj.GetFunction", o->GetFunction());
  if (deep) { VCOMPtr<ISceneObj> p; bool ok = VCOM_SUCCEEDED(o->GetFocusPoint(&p)) && p; note("ISceneObj.GetFocusPoint", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<IPosition> p; bool ok = VCOM_SUCCEEDED(o->GetPosition(&p)) && p; note("ISceneObj.GetPosition", ok); if (ok) visit(p, 0); }
  { Sint32 x0{}; bool ok = VCOM_SUCCEEDED(o->GetUnitNumber(x0)); note("ISceneObj.GetUnitNumber", ok); if (ok) { note("ISceneObj.GetUnitNumber", x0); } }
  note("ISceneObj.GetFixtureId", o->GetFixtureId());
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetFixtureIdNumeric(x0)); note("ISceneObj.GetFixtureIdNumeric", ok); if (ok) { note("ISceneObj.GetFixtureIdNumeric", x0); } }
  { CieColor x0{}; bool ok = VCOM_SUCCEEDED(o->GetColor(x0)); note("ISceneObj.GetColor", ok); if (ok) { note("ISceneObj.GetColor", x0); } }
  { Sint8 x0{}; bool ok = VCOM_SUCCEEDED(o->GetFixtureTypeId(x0)); note("ISceneObj.GetFixtureTypeId", ok); if (ok) { note("ISceneObj.GetFixtureTypeId", x0); } }
  { size_t x0{}; bool ok = VCOM_SUCCEEDED(o->GetCustomId(x0)); note("ISceneObj.GetCustomId", ok); if (ok) { note("ISceneObj.GetCustomId", x0); } }
  note("ISceneObj.GetGobo", o->GetGobo());
  { double x0{}; bool ok = VCOM_SUCCEEDED(o->GetGoboRotation(x0)); note("ISceneObj.GetGoboRotation", ok); if (ok) { note("ISceneObj.GetGoboRotation", x0); } }
  note("ISceneObj.GetGoboFullPath", o->GetGoboFullPath());
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetCastShadow(x0)); note("ISceneObj.GetCastShadow", ok); if (ok) { note("ISceneObj.GetCastShadow", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetMappingCount(n))) { note("ISceneObj.GetMappingCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IMapping> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetMappingAt(at, &p)) && p, "ISceneObj.GetMappingAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IMapping> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetMappingAt(at, &p)), "ISceneObj.GetMappingAt behind the last"); } } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetDMXInvertPan(x0)); note("ISceneObj.GetDMXInvertPan", ok); if (ok) { note("ISceneObj.GetDMXInvertPan", x0); } }
  { bool x0{}; bool ok = VCOM_SUCCEEDED(o->GetDMXInvertTilt(x0)); note("ISceneObj.GetDMXInvertTilt", ok); if (ok) { note("ISceneObj.GetDMXInvertTilt", x0); } }
  if (deep) { VCOMPtr<ISource> p; bool ok = VCOM_SUCCEEDED(o->GetVideoScreenSource(&p)) && p; note("ISceneObj.GetVideoScreenSource", ok); if (ok) visit(p, 0); }
  if (deep) { VCOMPtr<ISource> p; bool ok = VCOM_SUCCEEDED(o->GetProjectorSource(&p)) && p; note("ISceneObj.GetProjectorSource", ok); if (ok) visit(p, 0); }
  { GdtfDefines::EScaleHandlingType x0{}; bool ok = VCOM_SUCCEEDED(o->GetScaleHandling(x0)); note("ISceneObj.GetScaleHandling", ok); if (ok) { note("ISceneObj.GetScaleHandling", x0); } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetConnectionCount(n))) { note("ISceneObj.GetConnectionCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IConnection> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetConnectionAt(at, &p)) && p, "ISceneObj.GetConnectionAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IConnection> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetConnectionAt(at, &p)), "ISceneObj.GetConnectionAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetCustomCommandCount(n))) { note("ISceneObj.GetCustomCommandCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<ICustomCommand> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetCustomCommandAt(at, &p)) && p, "ISceneObj.GetCustomCommandAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<ICustomCommand> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetCustomCommandAt(at, &p)), "ISceneObj.GetCustomCommandAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetAlignmentCount(n))) { note("ISceneObj.GetAlignmentCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IAlignment> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetAlignmentAt(at, &p)) && p, "ISceneObj.GetAlignmentAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IAlignment> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetAlignmentAt(at, &p)), "ISceneObj.GetAlignmentAt behind the last"); } } }
  if (deep) { size_t n = 0; if (VCOM_SUCCEEDED(o->GetOverwriteCount(n))) { note("ISceneObj.GetOverwriteCount", n); for (size_t k = 0; k < n; k++) { VCOMPtr<IOverwrite> p; size_t at = k; ASSERT(VCOM_SUCCEEDED(o->GetOverwriteAt(at, &p)) && p, "ISceneObj.GetOverwriteAt"); visit(p, 1); } for (size_t k : {n, n + 1, (size_t)-1}) { VCOMPtr<IOverwrite> p; size_t at = k; ASSERT(VCOM_FAILED(o->GetOverwriteAt(at, &p)), "ISceneObj.GetOverwriteAt behind the last"); } } }
}
