// Shared by the scene-file harnesses: a scene is built through the public interface, written as an archive, read and walked again.
#pragma once
#include "gdtf.h"
#include "zipmodel.h"
#include "Implementation/CMediaRessourceVectorImpl.h"
#include <pwd.h>
#include <unistd.h>
typedef IMediaRessourceVectorInterfacePtr Mvr;
static inline std::string scratch(const char* n) { return std::string(getpwuid(getuid())->pw_dir) + "/" + n; }
static inline Mvr newWriter() { Mvr m(IID_MediaRessourceVectorInterface); good(m->OpenForWrite(scratch("t.mvr").c_str()), "open for writing"); return m; }
static inline Mvr reopen(Mvr& w) { good(w->Close(), "write"); Mvr m(IID_MediaRessourceVectorInterface); good(m->OpenForRead(scratch("t.mvr").c_str()), "open for reading"); return m; }
static inline MvrUUID guid(unsigned i) { return MvrUUID(0x10000000u + i, 0xABCDEF01u, 0x8899AABBu + i, 0x12345678u ^ i << 16); }
static inline int sameGuid(const MvrUUID& a, const MvrUUID& b) { return sym_and(sym_and(a.a == b.a, a.b == b.b), sym_and(a.c == b.c, a.d == b.d)); }
static inline double& comp(STransformMatrix& m, unsigned k) { double* p[12] = {&m.ux, &m.uy, &m.uz, &m.vx, &m.vy, &m.vz, &m.wx, &m.wy, &m.wz, &m.ox, &m.oy, &m.oz}; return *p[k]; }
static inline STransformMatrix fixedMatrix(unsigned i) { STransformMatrix m; for (unsigned k = 0; k < 12; k++) comp(m, k) = (i * 16 + k) * 0.25 - 1.5; return m; }
static inline STransformMatrix identity() { STransformMatrix m; for (unsigned k = 0; k < 12; k++) comp(m, k) = (k == 0 || k == 4 || k == 8); return m; }
static inline double at(const STransformMatrix& m, unsigned k) { STransformMatrix c = m; return comp(c, k); }
static inline int sameF(double got, double want, bool written) { uint64_t e = dbits(written ? sym_r6(want) : want); return sym_or(dbits(got) == e, sym_and(dbits(got) << 1 == 0, e << 1 == 0)); }
template<class F> static inline void roundTripM(Walk& w, F walk) { Mvr m = newWriter(); walk(m); if (sym_param("dbg", 0)) sym_print("fields", w.fields); sym_reach("set up"); w.next(); walk(m); Mvr r = reopen(m); w.next(); walk(r); }
// creates an object on the first pass and finds it again on the others
static inline ISceneObjPtr layer(Mvr& m, Walk& w, unsigned id = 500) { ISceneObjPtr o; if (!w.phase) good(m->CreateLayerObject(guid(id), "Layer", &o), "layer"); else good(m->GetFirstLayer(&o), "layer"); return o; }
struct Kids { Mvr& m; Walk& w; ISceneObjPtr parent, last; unsigned n = 0; Kids(Mvr& m_, Walk& w_, ISceneObjPtr p) : m(m_), w(w_), parent(p) {}
  ISceneObjPtr add(ESceneObjType t, unsigned id, const char* name) { ISceneObjPtr o; if (!w.phase) { VCOMError e = kVCOMError_Failed; MvrUUID g = guid(id); STransformMatrix x = identity(); ISceneObj* p = parent; ISceneObj** out = &o;
      switch (t) { case ESceneObjType::Group: e = m->CreateGroupObject(g, x, name, p, out); break; case ESceneObjType::SceneObj: e = m->CreateSceneObject(g, x, name, p, out); break; case ESceneObjType::FocusPoint: e = m->CreateFocusPoint(g, x, name, p, out); break; case ESceneObjType::Truss: e = m->CreateTruss(g, x, name, p, out); break; case ESceneObjType::VideoScreen: e = m->CreateVideoScreen(g, x, name, p, out); break; case ESceneObjType::Fixture: e = m->CreateFixture(g, x, name, p, out); break; case ESceneObjType::Projector: e = m->CreateProjector(g, x, name, p, out); break; case ESceneObjType::Support: e = m->CreateSupport(g, x, name, p, out); break; default: break; } good(e, "create"); }
    else { if (!n) m->GetFirstChild(parent, &o); else m->GetNextObject(last, &o); ASSERT((bool)o, "object missing"); ESceneObjType k; good(o->GetType(k), "type"); ASSERT(k == t, "type"); }
    n++; last = o; return o; }
};
