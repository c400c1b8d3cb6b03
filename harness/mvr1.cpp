// Scene files: the object tree survives writing and reading.
#include "mvr.h"
enum { N = 10 }; static const int parentOf[N] = {-1, 0, 0, 2, 2, 2, 5, 0, -1, 8};
static ESceneObjType kindOf(unsigned i, unsigned v) { static const ESceneObjType k[8] = {ESceneObjType::SceneObj, ESceneObjType::FocusPoint, ESceneObjType::Truss, ESceneObjType::VideoScreen, ESceneObjType::Fixture, ESceneObjType::Projector, ESceneObjType::Support, ESceneObjType::Group}; if (parentOf[i] < 0) return ESceneObjType::Layer; unsigned r = (i + v) % 8; bool leaf = true; for (int j = 0; j < N; j++) if (parentOf[j] == (int)i) leaf = false; if (leaf && r == 7) r = (v + 3) % 7; if (v == 8 && !leaf) r = 7; return k[r]; } // variant 8: groups in groups
struct Scene { MvrUUID id[N]; std::string name[N]; STransformMatrix mx[N]; ISceneObjPtr o[N]; unsigned v; };
static void check(Mvr& m, Scene& s, int parent, ISceneObjPtr first, bool file) {
  ISceneObjPtr cur = first;
  for (int i = 0; i < N; i++) if (parentOf[i] == parent) {
    ASSERT((bool)cur, "object missing"); ESceneObjType t; good(cur->GetType(t), "type"); ASSERT(t == kindOf(i, s.v), "type");
    MvrUUID g; good(cur->GetGuid(g), "guid"); ASSERT(sameGuid(g, s.id[i]), "guid"); ASSERT(eqs(cur->GetName(), s.name[i]), "name");
    if (t != ESceneObjType::Layer) { STransformMatrix x; good(cur->GetTransfromMatrix(x), "matrix"); for (unsigned k = 0; k < 12; k++) ASSERT(sameF(comp(x, k), comp(s.mx[i], k), file), "matrix"); }
    ISceneObjPtr ch; m->GetFirstChild(cur, &ch); bool has = false; for (int j = 0; j < N; j++) has |= parentOf[j] == i;
    ASSERT((bool)ch == has, "children"); if (has) check(m, s, i, ch, file);
    ISceneObjPtr nx; m->GetNextObject(cur, &nx); cur = nx;
  }
  ASSERT(!cur, "object added");
}
static void tree() {
  Scene s; s.v = symChoose("kinds", 9); if (s.v < 8) s.v = (s.v + 5) % 8; int fo = -1, fk = -1; // one field is arbitrary on a path: an identifier byte, a character of a name or one number of a matrix
  if (s.v == 5) { fo = symChoose("object", N + 1); if (fo == N) fo = -1; else fk = symChoose("field", parentOf[fo] < 0 ? 2 : 14); }
  for (int i = 0; i < N; i++) {
    s.id[i] = guid(i); s.name[i] = "N" + std::to_string(i); s.mx[i] = i % 3 == 1 && fo != i ? identity() : fixedMatrix(i);
    if (fo == i) { if (fk == 0) s.id[i].a = 0xA1B20000u | symU8("guid"); else if (fk == 1) { uint8_t c = symU8("name"); ASSUME(sym_and(c >= 32, c <= 126)); s.name[i] += (char)c; s.name[i] += "z"; } else { double d = symF64("matrix"); ASSUME((dbits(d) >> 52 & 0x7FF) != 0x7FF); comp(s.mx[i], fk - 2) = d; } }
  }
  Mvr m = newWriter();
  for (int i = 0; i < N; i++) { ISceneObj* p = parentOf[i] < 0 ? nullptr : (ISceneObj*)s.o[parentOf[i]]; ISceneObj** out = &s.o[i]; const char* n = s.name[i].c_str(); VCOMError e = kVCOMError_Failed;
    switch (kindOf(i, s.v)) { case ESceneObjType::Layer: e = m->CreateLayerObject(s.id[i], n, out); break; case ESceneObjType::Group: e = m->CreateGroupObject(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::SceneObj: e = m->CreateSceneObject(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::FocusPoint: e = m->CreateFocusPoint(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::Truss: e = m->CreateTruss(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::VideoScreen: e = m->CreateVideoScreen(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::Fixture: e = m->CreateFixture(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::Projector: e = m->CreateProjector(s.id[i], s.mx[i], n, p, out); break; case ESceneObjType::Support: e = m->CreateSupport(s.id[i], s.mx[i], n, p, out); break; }
    good(e, "create"); }
  ISceneObjPtr f; m->GetFirstLayer(&f); check(m, s, -1, f, false); sym_reach("tree");
  Mvr r = reopen(m); ISceneObjPtr g; r->GetFirstLayer(&g); check(r, s, -1, g, true);
  size_t n = 0; good(r->GetSceneObjectCount(n), "count"); size_t want = 0; for (int i = 0; i < N; i++) { ESceneObjType t = kindOf(i, s.v); want += t != ESceneObjType::Layer && t != ESceneObjType::Group; } ASSERT(n == want, "object count");
  Sint32 ma = 0, mi = 0; good(r->GetMVRVersion(ma, mi), "version"); ASSERT(ma == kMVR_MajorVersion && mi == kMVR_MinorVersion, "version");
  size_t a = 9; good(r->GetAttachedFileCount(a), "files"); ASSERT(a == 0, "files");
  bool d = true; good(r->GetDuplicatedUuids(d), "duplicates"); if (fk == 0 || fo < 0) ASSERT(!d, "duplicates");
}
static void duplicates() {
  // three objects at different depths; the identifier of one is arbitrary
  Mvr m = newWriter(); ISceneObjPtr l, a, b, c, g; MvrUUID ia = guid(1), ib = guid(2), ic = guid(3); unsigned w = symChoose("which", 3), part = symChoose("part", 4); MvrUUID& x = w == 0 ? ia : w == 1 ? ib : ic; x = guid(1 + (w + 1) % 3); (part == 0 ? x.a : part == 1 ? x.b : part == 2 ? x.c : x.d) ^= symU8("guid");
  good(m->CreateLayerObject(guid(9), "L", &l), "layer"); good(m->CreateGroupObject(guid(8), identity(), "G", l, &g), "group");
  good(m->CreateFixture(ia, identity(), "A", l, &a), "a"); good(m->CreateTruss(ib, identity(), "B", g, &b), "b"); good(m->CreateSceneObject(ic, identity(), "C", b, &c), "c");
  Mvr r = reopen(m); bool d = false; good(r->GetDuplicatedUuids(d), "duplicates"); sym_reach("duplicates"); ASSERT(d == (bool)sym_or(sameGuid(ia, ib), sym_or(sameGuid(ia, ic), sameGuid(ib, ic))), "duplicated identifiers");
}
extern "C" void sym_main() { PART(0) tree(); PART(1) duplicates(); }
