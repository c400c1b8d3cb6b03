#include "engine.h"
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Intrinsics.h>
#include <cmath>
using namespace llvm; using namespace std;
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (isC(e) && e->width <= 64) return V((u64)e->v); return Val{0, e}; }
typedef bool (*BF)(Engine&, State&, const Ins&, CallInfo&, vector<Val>&);
static vector<pair<string, BF>> gB; static unordered_map<string, int> gBid;
static void reg(const char* n, BF f) { gBid[n] = gB.size(); gB.push_back({n, f}); }
#define B(name) static bool name(Engine& en, State& s, const Ins& i, CallInfo& ci, vector<Val>& a)
#define RET(v) do { en.setRet(s, i, (v)); en.finishCall(s, i); return true; } while (0)
#define RET0() do { en.finishCall(s, i); return true; } while (0)

static u64 conc(Engine& en, State& s, Val v, unsigned w = 64) { u64 r; en.concretize(s, v, w, r); return r; }
static Val doAlloc(Engine& en, State& s, Val n, ObjKind k, const char* what, u8 fill, bool& failed, unsigned align = 16) {
  failed = false; E sz = nullptr; u64 cap;
  if (n.e) {
    // small ranges are enumerated, larger ones get an object of symbolic size
    Model m; bool unk; E e = n.e->width < 64 ? mkZExt(n.e, 64) : n.e;
    u64 lim = en.opt.maxAlloc;
    State* ot = nullptr; int r = en.branch(s, mkCmp(K_ULE, e, mkConst(lim, 64)), &ot);
    if (r == 2) { ot->st.back().pc--; en.work.push_back(ot); if (!en.side) { failed = true; return V(0); } }
    if (r == 0) { failed = true; return V(0); }
    u64 mx = lim; for (u64 t = 16; t < lim; t *= 4) { if (!en.query(s, mkCmp(K_ULT, mkConst(t, 64), e), m, unk) && !unk) { mx = t; break; } }
    u64 first = (u64)evalE(e, *s.model); bool single = !en.query(s, mkNot(mkCmp(K_EQ, e, mkConst(first, 64))), m, unk) && !unk;
    if (single) cap = first; else { cap = mx; sz = e; }
  } else { cap = n.c; if (cap > en.opt.maxAlloc * 16ull) { failed = true; return V(0); } }
  Obj* o = en.alloc(s, cap, k, what, align, fill); o->symSize = sz; return V(o->base);
}
static bool throwStd(Engine& en, State& s, const char* fn) {
  // call the runtime's throwing helper
  auto* f = en.M->getFunction(fn); if (!f || f->isDeclaration()) { en.report(s, "exception", fn, true); return false; }
  vector<Val> no; return en.enter(s, en.getF(f), no, nullptr, nullptr, 0);
}
B(b_new) { bool f; bool arr = i.I && false; (void)arr; Val p = doAlloc(en, s, a[0], OK_NEW, "heap", 0xAA, f); if (f) { return throwStd(en, s, "_ZSt17__throw_bad_allocv"); } RET(p); }
B(b_newarr) { bool f; Val p = doAlloc(en, s, a[0], OK_NEWARR, "heap", 0xAA, f); if (f) { return throwStd(en, s, "_ZSt17__throw_bad_allocv"); } RET(p); }
B(b_newnt) { bool f; Val p = doAlloc(en, s, a[0], OK_NEW, "heap", 0xAA, f); RET(p); }
B(b_newal) { bool f; unsigned al = (unsigned)conc(en, s, a[1]); Val p = doAlloc(en, s, a[0], OK_NEW, "heap", 0xAA, f, al); if (f) { return throwStd(en, s, "_ZSt17__throw_bad_allocv"); } RET(p); }
B(b_malloc) { bool f; Val p = doAlloc(en, s, a[0], OK_HEAP, "heap", 0xAA, f); RET(p); }
B(b_calloc) { bool f; Val n = fromE(mkBin(K_MUL, toE(a[0], 64), toE(a[1], 64))); Val p = doAlloc(en, s, n, OK_HEAP, "heap", 0, f); RET(p); }
static bool dofree(Engine& en, State& s, const Ins& i, Val p, bool& ok) {
  ok = true; u64 x = conc(en, s, p); if (!x) return true;
  Obj* o = s.mem.floor(x);
  if (!o || o->base != x || o->kind < OK_HEAP || o->kind > OK_NEWARR) { ok = false; en.report(s, "memory", "invalid or double free", true); return false; }
  en.freeObj(s, o); return true;
}
B(b_free) { bool ok; if (!dofree(en, s, i, a[0], ok)) return false; RET0(); }
B(b_realloc) {
  u64 p = conc(en, s, a[0]); bool f; Val n = doAlloc(en, s, a[1], OK_HEAP, "heap", 0xAA, f); if (f) RET(V(0));
  if (p) { Obj* o = s.mem.floor(p); if (!o || o->base != p) { en.report(s, "memory", "realloc of an invalid pointer", true); return false; } Obj* d = en.find(s, n.c); u64 c = o->size; if (d && d->size < c) c = d->size; if (c && !o->symSize && (!d || !d->symSize)) { bool ok; if (!en.copyMem(s, n, V(p), V(c), ok)) return false; } o = s.mem.floor(p); en.freeObj(s, o); }
  RET(n);
}
B(b_posix_memalign) { bool f; Val p = doAlloc(en, s, a[2], OK_HEAP, "heap", 0xAA, f, (unsigned)conc(en, s, a[1])); if (f) RET(V(12)); if (!en.doStore(s, a[0], 64, p)) return false; RET(V(0)); }
B(b_memcpy) { bool ok; size_t d = s.st.size(); (void)d; if (!en.copyMem(s, a[0], a[1], a[2], ok)) return false; RET(a[0]); }
B(b_memset) { Val c = a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : V(a[1].c & 255); if (!en.setMem(s, a[0], c, a[2])) return false; RET(a[0]); }
B(b_memcmp) {
  u64 n = conc(en, s, a[2]), x = conc(en, s, a[0]), y = conc(en, s, a[1]); if (!n) RET(V(0));
  Obj *o, *p; u64 f, g; E e;
  // only the bytes up to the first concrete difference are really needed, but the full range must be readable
  if (!en.resolve(s, V(x), n, false, o, f, e, "block compare")) return false; if (!en.resolve(s, V(y), n, false, p, g, e, "block compare")) return false;
  o = en.find(s, x); p = en.find(s, y); E r = mkConst(0, 32); i64 last = -1; vector<i64> idx;
  for (u64 k = 0; k < n; k++) { E u = o->symAt(f + k), v = p->symAt(g + k); if (!u && !v) { if (o->conc(f + k) != p->conc(g + k)) { r = mkConst(o->conc(f + k) < p->conc(g + k) ? -1 : 1, 32); break; } } else idx.push_back(k); last = k; }
  (void)last;
  for (auto it = idx.rbegin(); it != idx.rend(); ++it) { E u = toE(en.readBytes(o, f + *it, 8), 8), v = toE(en.readBytes(p, g + *it, 8), 8); r = mkIte(mkCmp(K_EQ, u, v), r, mkIte(mkCmp(K_ULT, u, v), mkConst(-1, 32), mkConst(1, 32))); }
  RET(fromE(r));
}
B(b_abort) { en.report(s, "abort", "abort() called", true); return false; }
B(b_terminate) { en.report(s, "exception", "std::terminate called", true); return false; }
B(b_exit) { en.paths++; en.endState(s); return false; }
B(b_assertfail) { string t; en.cstr(s, conc(en, s, a[0]), t); en.report(s, "abort", "assertion failed: " + t, true); return false; }
B(b_purevirt) { en.report(s, "abort", "pure virtual call", true); return false; }
B(b_nop0) { RET(V(0)); }
B(b_arg0) { RET(a[0]); }
// ---- exceptions
B(b_exc_alloc) { bool f; Val p = doAlloc(en, s, a[0], OK_HEAP, "exception", 0, f); RET(p); }
B(b_exc_throw) { u64 o = conc(en, s, a[0]), t = conc(en, s, a[1]); s.excs.push_back({o, t, o, 0}); s.st.back().call = &i; 
  // the throwing call itself may be an invoke
  en.throwExc(s, o); return !en.dead; }
B(b_exc_begin) { u64 o = conc(en, s, a[0]); s.caught.push_back(o); u64 adj = o; for (auto& e : s.excs) if (e.obj == o) { adj = e.adj; e.handlers++; } RET(V(adj)); }
B(b_exc_getptr) { u64 o = conc(en, s, a[0]); u64 adj = o; for (auto& e : s.excs) if (e.obj == o) adj = e.adj; RET(V(adj)); }
B(b_exc_end) { if (!s.caught.empty()) s.caught.pop_back(); RET0(); }
B(b_exc_rethrow) { if (s.caught.empty()) { en.report(s, "exception", "rethrow without exception", true); return false; } u64 o = s.caught.back(); s.st.back().call = &i; en.throwExc(s, o); return !en.dead; }
B(b_unexpected) { en.report(s, "exception", "exception violates a throw() specification", true); return false; }
B(b_uncaught) { RET(V(0)); }
B(b_curexc) { RET(V(s.caught.empty() ? 0 : s.caught.back())); }
B(b_exctype) { u64 o = conc(en, s, a[0]); u64 t = 0; for (auto& e : s.excs) if (e.obj == o) t = e.tinfo; RET(V(t)); }
B(b_dyncast) {
  u64 o = conc(en, s, a[0]); if (!o) RET(V(0)); u64 vp = en.rd64(s, o); i64 top = (i64)en.rd64(s, vp - 16); u64 ti = en.rd64(s, vp - 8), dst = conc(en, s, a[2]);
  if (!vp || !ti) { en.report(s, "memory", "dynamic_cast on invalid object", true); return false; }
  vector<pair<u64, u64>> bs; en.bases(s, ti, o + top, 0, bs); for (auto& b : bs) if (b.first == dst) RET(V(b.second)); RET(V(0));
}
// ---- symbolic API
static E freshByte(const string& n, unsigned k) { return mkVar(newVar(n + "[" + to_string(k) + "]", 8)); }
static map<string, u32> gVarByName; // one variable per (name, occurrence): the same on every path
static u32 namedVar(State& s, const string& base, unsigned w) {
  u64 n = s.named["v:" + base]++; string full = n ? base + "#" + to_string(n) : base; full += ":" + to_string(w);
  auto it = gVarByName.find(full); if (it != gVarByName.end()) return it->second; u32 v = newVar(full, w); gVarByName[full] = v; return v;
}
B(b_sym_bytes) {
  string n; en.cstr(s, conc(en, s, a[2]), n); u64 p = conc(en, s, a[0]), len = conc(en, s, a[1]); SymObj so; so.name = n;
  for (u64 k = 0; k < len; k++) { u32 v = namedVar(s, n + "[" + to_string(k) + "]", 8); E e = mkVar(v); so.bytes.push_back(e); if (!en.doStore(s, V(p + k), 8, Val{0, e})) return false; }
  s.syms.push_back(so); RET0();
}
B(b_sym_int) {
  string n; en.cstr(s, conc(en, s, a[0]), n); unsigned w = (unsigned)conc(en, s, a[1]); if (w < 1 || w > 64) w = 64; E e = mkVar(namedVar(s, n, w)); SymObj so; so.name = n; E z = mkZExt(e, 64); for (unsigned k = 0; k < 8; k++) so.bytes.push_back(mkExtract(z, 8 * k, 8)); s.syms.push_back(so); RET(fromE(z));
}
B(b_udec) { // void __sym_udec(char* buf, size_t n, uint64_t v): the n decimal digits of v (n is the exact digit count on this path)
  u64 p = conc(en, s, a[0]), n = conc(en, s, a[1]); E v = toE(a[2], 64); u64 val = en.evalV(s, a[2]); auto m = make_shared<Model>(); m->val = s.model->val; vector<u32> ids; E sum = mkConst(0, 64), pre = sum; vector<E> cs; u64 t = val; vector<u64> dg(n); for (u64 k = n; k-- > 0;) { dg[k] = t % 10; t /= 10; }
  for (u64 k = 0; k < n; k++) { u32 id = namedVar(s, "~digit", 8); ids.push_back(id); if (m->val.size() <= id) m->val.resize(id + 1); m->val[id] = '0' + dg[k]; E c = mkVar(id); cs.push_back(mkCmp(K_ULE, mkConst(k == 0 && n > 1 ? '1' : '0', 8), c)); cs.push_back(mkCmp(K_ULE, c, mkConst(n == 20 && k == 0 ? '1' : '9', 8))); pre = sum; sum = mkBin(K_ADD, mkBin(K_MUL, sum, mkConst(10, 64)), mkZExt(mkBin(K_SUB, c, mkConst('0', 8)), 64)); if (!en.doStore(s, V(p + k), 8, Val{0, c})) return false; }
  s.model = m; for (E c : cs) en.addC(s, c); if (n == 20) { en.addC(s, mkCmp(K_ULE, pre, mkConst(1844674407370955161ull, 64))); en.addC(s, mkCmp(K_ULE, mkConst(10000000000000000000ull, 64), sum)); }
  en.addC(s, mkCmp(K_EQ, sum, v)); s.decs[ids[0]] = {v, ids}; RET0();
}
B(b_undec) { // int __sym_undec(const char* s, size_t n, uint64_t* v)
  u64 p = conc(en, s, a[0]), n = conc(en, s, a[1]); Obj* o = en.find(s, p); if (!o) RET(V(0)); u64 off = p - o->base; if (off + n > o->size) RET(V(0));
  E f = o->symAt(off); if (!f || f->k != K_VAR) RET(V(0)); auto it = s.decs.find(f->aux); if (it == s.decs.end() || it->second.second.size() != n) RET(V(0));
  for (u64 k = 0; k < n; k++) { E c = o->symAt(off + k); if (!c || c->k != K_VAR || c->aux != it->second.second[k]) RET(V(0)); }
  if (!en.doStore(s, a[2], 64, fromE(it->second.first))) return false; RET(V(1));
}
static E boolOf(Val v, unsigned w) { return v.e ? mkNot(mkCmp(K_EQ, v.e, mkConst(0, v.e->width))) : mkConst((v.c & mask64(w)) != 0, 1); }
B(b_sym_assume) {
  E c = boolOf(a[0], 32); if (isTrue(c)) RET0(); 
  if (isFalse(c)) { en.pathsAssumeFail++; en.endState(s); return false; }
  State* o = nullptr; int r = en.branch(s, c, &o);
  if (r == 1) { RET0(); }
  if (r == 0) { en.pathsAssumeFail++; en.endState(s); return false; }
  if (en.side) { delete o; RET0(); }
  // the model violates the assumption: continue with the sibling
  o->st.back().pc--; en.work.push_back(o); en.endState(s); return false;
}
B(b_sym_assert) {
  string lab; en.cstr(s, conc(en, s, a[1]), lab); E c = boolOf(a[0], 32); en.assertChecks++; en.asserts[lab]++;
  if (isTrue(c)) { en.assertProved++; RET0(); }
  State* o = nullptr; int r = en.branch(s, c, &o);
  if (en.lastUnknown) { en.assertUnknown++; if (r == 1) RET0(); }
  if (r == 1) { en.assertProved++; RET0(); }
  if (r == 0) { en.report(s, "assert", lab, true); return false; }
  if (en.side) { en.report(*o, "assert", lab, true); delete o; RET0(); }
  o->st.back().pc--; en.work.push_back(o); en.report(s, "assert", lab, true); return false;
}
B(b_sym_reach) { string l; en.cstr(s, conc(en, s, a[0]), l); en.reached[l]++; RET0(); }
B(b_sym_observe) { string l; en.cstr(s, conc(en, s, a[0]), l); Obs o; o.label = l; o.e = a[1].e; o.c = a[1].c; s.obs.push_back(o); RET0(); }
B(b_sym_fail) { string l; en.cstr(s, conc(en, s, a[0]), l); en.asserts[l]++; en.assertChecks++; en.report(s, "assert", l, true); return false; }
B(b_sym_conc) { u64 r = conc(en, s, a[0]); RET(V(r)); }
B(b_sym_param) { string n; en.cstr(s, conc(en, s, a[0]), n); auto it = en.opt.params.find(n); RET(it == en.opt.params.end() ? a[1] : V(it->second)); }
B(b_sym_r6) { RET(fromE(mkUF(0, toE(a[0], 64)))); }
B(b_sym_rg) { RET(fromE(mkUF((u32)conc(en, s, a[1]), toE(a[0], 64)))); }
B(b_sym_issym) { RET(V(a[0].e != nullptr)); }
B(b_sym_print) { string n; en.cstr(s, conc(en, s, a[0]), n); errs() << "[print] " << n; if (a.size() > 1) { if (a[1].e) errs() << " = " << toStr(a[1].e) << " model " << (u64)evalE(a[1].e, *s.model); else errs() << " = " << a[1].c; } errs() << "\n"; RET0(); }
B(b_sym_prune) { en.pathsAssumeFail++; en.endState(s); return false; }
B(b_sym_and) { E x = boolOf(a[0], 32), y = boolOf(a[1], 32); RET(fromE(mkZExt(mkBin(K_AND, x, y), 32))); }
B(b_sym_or) { E x = boolOf(a[0], 32), y = boolOf(a[1], 32); RET(fromE(mkZExt(mkBin(K_OR, x, y), 32))); }
B(b_sym_ite) { E c = boolOf(a[0], 32); RET(fromE(mkIte(c, toE(a[1], 64), toE(a[2], 64)))); }
// number of live heap objects (for leak / lifetime checks)
B(b_sym_unsupported) { string n; en.cstr(s, conc(en, s, a[0]), n); en.unsupported[n]++; en.pathsIncomplete++; s.incomplete = true; if (en.opt.verbose) errs() << "unsupported: " << n << "\n" << en.stack(s); en.endState(s); return false; }
// ---- double formatting / parsing
static const double TOK = 867530000.0;
B(b_fmt_double) { // int __sym_fmt_double(char* buf, size_t cap, const char* fmt, double v)
  string f; en.cstr(s, conc(en, s, a[2]), f); u64 p = conc(en, s, a[0]), cap = conc(en, s, a[1]); char buf[1024];
  if (!a[3].e) snprintf(buf, sizeof buf, f.c_str(), bitsD(a[3].c));
  else {
    u32 fn; unsigned n; char cc; if (f == "%f" || f == "%.6f") fn = 0; else if (sscanf(f.c_str(), "%%.%u%c", &n, &cc) == 2 && cc == 'f') fn = 100 + n; else if (sscanf(f.c_str(), "%%.%u%c", &n, &cc) == 2 && cc == 'g') fn = n; else if (f == "%g") fn = 6; else { en.unsupported["format " + f]++; en.pathsIncomplete++; s.incomplete = true; en.endState(s); return false; }
    auto key = make_pair(a[3].e, fn); auto it = en.tokenOf.find(key); u64 k; if (it != en.tokenOf.end()) k = it->second; else { k = en.tokenCount++; en.tokenOf[key] = k; en.tokens[k] = key; }
    snprintf(buf, sizeof buf, "%.6f", TOK + k + 0.015625);
  }
  size_t n = strlen(buf); for (size_t k = 0; k <= n && k < cap; k++) { char ch = k + 1 == cap ? 0 : buf[k]; if (!en.doStore(s, V(p + k), 8, V((u8)ch))) return false; }
  RET(V(n));
}
B(b_strtod) { // double __sym_strtod(const char* text, size_t* consumed)
  u64 p = conc(en, s, a[0]); string t; Obj* o = en.find(s, p); if (!o) { en.report(s, "memory", "invalid pointer read", true); return false; }
  for (u64 k = p;; k++) { Val v; if (!en.doLoad(s, V(k), 8, v)) return false; u64 c = conc(en, s, v, 8); if (!c || t.size() > 400) break; t += (char)c; if (!isspace((int)c) && !isalnum((int)c) && c != '.' && c != '+' && c != '-' && c != '(' && c != ')' && c != '_') break; }
  char* e; double d = strtod(t.c_str(), &e); u64 used = e - t.c_str();
  u64 cp = conc(en, s, a[1]); if (cp && !en.doStore(s, V(cp), 64, V(used))) return false;
  double k = d - TOK - 0.015625; bool neg = false; if (d < 0) { double k2 = -d - TOK - 0.015625; if (k2 >= 0 && k2 < 1e6 && k2 == floor(k2)) { k = k2; neg = true; } }
  if (k >= 0 && k < 1e6 && k == floor(k)) { auto it = en.tokens.find((u64)k); if (it != en.tokens.end()) { E r = mkUF(it->second.second, it->second.first); if (neg) r = mkFUn(K_FNEG, r, 0, 64); RET(fromE(r)); } }
  RET(V(dBits(d)));
}
// ---- math
static bool math1(Engine& en, State& s, const Ins& i, Val a, double (*f)(double), const char* n, unsigned w) {
  if (a.e) { en.unsupported[string("math function on symbolic value: ") + n]++; en.pathsIncomplete++; s.incomplete = true; en.endState(s); return false; }
  Val r = w == 64 ? V(dBits(f(bitsD(a.c)))) : V(fBits((float)f(bitsF((u32)a.c)))); en.setRet(s, i, r); en.finishCall(s, i); return true;
}
#define M1(n) B(b_##n) { return math1(en, s, i, a[0], ::n, #n, 64); } B(b_##n##f) { return math1(en, s, i, a[0], ::n, #n, 32); }
M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(exp) M1(log) M1(log10) M1(log2) M1(cbrt) M1(sinh) M1(cosh) M1(tanh)
static bool math2(Engine& en, State& s, const Ins& i, Val a, Val b, double (*f)(double, double), const char* n) {
  if (a.e || b.e) { en.unsupported[string("math function on symbolic value: ") + n]++; en.pathsIncomplete++; s.incomplete = true; en.endState(s); return false; }
  en.setRet(s, i, V(dBits(f(bitsD(a.c), bitsD(b.c))))); en.finishCall(s, i); return true;
}
B(b_pow) { return math2(en, s, i, a[0], a[1], ::pow, "pow"); } B(b_atan2) { return math2(en, s, i, a[0], a[1], ::atan2, "atan2"); } B(b_fmod) { return math2(en, s, i, a[0], a[1], ::fmod, "fmod"); } B(b_hypot) { return math2(en, s, i, a[0], a[1], ::hypot, "hypot"); }
#define U1(n, K, aux) B(b_##n) { RET(fromE(mkFUn(K, toE(a[0], 64), aux, 64))); } B(b_##n##f) { RET(fromE(mkFUn(K, toE(a[0], 32), aux, 32))); }
U1(sqrt, K_FSQRT, 0) U1(floor, K_FROUND, RM_FLOOR) U1(ceil, K_FROUND, RM_CEIL) U1(trunc, K_FROUND, RM_TRUNC) U1(round, K_FROUND, RM_ROUND) U1(rint, K_FROUND, RM_RINT) U1(fabs, K_FABS, 0)

static void initB() {
  if (!gB.empty()) return;
  reg("_Znwm", b_new); reg("_Znam", b_newarr); reg("_ZnwmRKSt9nothrow_t", b_newnt); reg("_ZnamRKSt9nothrow_t", b_newnt); reg("_ZnwmSt11align_val_t", b_newal); reg("_ZnamSt11align_val_t", b_newal);
  for (const char* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) reg(n, b_free);
  reg("malloc", b_malloc); reg("calloc", b_calloc); reg("realloc", b_realloc); reg("posix_memalign", b_posix_memalign);
  reg("memcpy", b_memcpy); reg("memmove", b_memcpy); reg("memset", b_memset); reg("memcmp", b_memcmp); reg("bcmp", b_memcmp);
  reg("abort", b_abort); reg("_ZSt9terminatev", b_terminate); reg("exit", b_exit); reg("_exit", b_exit); reg("__assert_fail", b_assertfail); reg("__cxa_pure_virtual", b_purevirt); reg("__cxa_deleted_virtual", b_purevirt);
  for (const char* n : {"__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock", "pthread_cond_broadcast", "pthread_cond_signal", "pthread_cond_destroy", "pthread_cond_init"}) reg(n, b_nop0);
  reg("__cxa_allocate_exception", b_exc_alloc); reg("__cxa_free_exception", b_nop0); reg("__cxa_throw", b_exc_throw); reg("__cxa_begin_catch", b_exc_begin); reg("__cxa_get_exception_ptr", b_exc_getptr); reg("__cxa_end_catch", b_exc_end); reg("__cxa_rethrow", b_exc_rethrow); reg("__cxa_call_unexpected", b_unexpected); reg("_ZSt18uncaught_exceptionv", b_uncaught); reg("_ZSt19uncaught_exceptionsv", b_uncaught); reg("__dynamic_cast", b_dyncast);
  reg("atexit", b_nop0); reg("__sym_current_exception", b_curexc); reg("__sym_exception_type", b_exctype);
  reg("sym_bytes", b_sym_bytes); reg("__sym_udec", b_udec); reg("__sym_undec", b_undec); reg("__sym_int", b_sym_int); reg("__sym_assume", b_sym_assume); reg("__sym_assert", b_sym_assert); reg("sym_reach", b_sym_reach); reg("sym_observe", b_sym_observe); reg("sym_fail", b_sym_fail); reg("sym_concretize", b_sym_conc); reg("sym_param", b_sym_param); reg("sym_r6", b_sym_r6); reg("sym_rfmt", b_sym_rg); reg("sym_is_symbolic", b_sym_issym); reg("sym_print", b_sym_print); reg("sym_prune", b_sym_prune); reg("sym_and", b_sym_and); reg("sym_or", b_sym_or); reg("sym_ite", b_sym_ite); reg("__sym_unsupported", b_sym_unsupported);
  reg("__sym_fmt_double", b_fmt_double); reg("__sym_strtod", b_strtod);
#define RM(n) reg(#n, b_##n); reg(#n "f", b_##n##f);
  RM(sin) RM(cos) RM(tan) RM(asin) RM(acos) RM(atan) RM(exp) RM(log) RM(log10) RM(log2) RM(cbrt) RM(sinh) RM(cosh) RM(tanh) RM(sqrt) RM(floor) RM(ceil) RM(trunc) RM(round) RM(rint) RM(fabs)
  reg("pow", b_pow); reg("atan2", b_atan2); reg("fmod", b_fmod); reg("hypot", b_hypot); reg("nearbyint", b_rint);
}
int Engine::builtinId(const Function* f) {
  initB(); auto it = gBid.find(f->getName().str()); if (it == gBid.end()) return -1;
  if (!f->isDeclaration() && f->getName().substr(0, 4) != "_Zdl" ) { /* builtin wins over a body */ }
  return it->second;
}
bool Engine::builtin(State& s, const Ins& i, CallInfo& ci, int id, vector<Val>& a) { return gB[id].second(*this, s, i, ci, a); }

bool Engine::intrinsic(State& s, const Ins& i, CallInfo& ci, vector<Val>& a) {
  auto done = [&](Val v) { setRet(s, i, v); finishCall(s, i); return true; };
  auto bad = [&]() { unsupported["intrinsic " + ci.callee->getName().str()]++; pathsIncomplete++; s.incomplete = true; endState(s); return false; };
  unsigned w = ci.argW.empty() ? 0 : ci.argW[0]; bool vec = ci.callee->getReturnType()->isVectorTy();
  auto& R = s.st.back().regs;
  if (vec) { // elementwise for the few that matter
    unsigned n = ci.retN; unsigned id = ci.intrinsic;
    auto ew = [&](function<Val(unsigned)> fn) { vector<Val> r; for (unsigned k = 0; k < n; k++) r.push_back(fn(k)); for (unsigned k = 0; k < n; k++) R[i.dst + k] = r[k]; finishCall(s, i); return true; };
    switch (id) {
      case Intrinsic::fabs: return ew([&](unsigned k) { return fromE(mkFUn(K_FABS, toE(a[k], ci.argW[k]), 0, ci.argW[k])); });
      case Intrinsic::umin: return ew([&](unsigned k) { E x = toE(a[k], w), y = toE(a[n + k], w); return fromE(mkIte(mkCmp(K_ULT, x, y), x, y)); });
      case Intrinsic::umax: return ew([&](unsigned k) { E x = toE(a[k], w), y = toE(a[n + k], w); return fromE(mkIte(mkCmp(K_ULT, x, y), y, x)); });
      case Intrinsic::smin: return ew([&](unsigned k) { E x = toE(a[k], w), y = toE(a[n + k], w); return fromE(mkIte(mkCmp(K_SLT, x, y), x, y)); });
      case Intrinsic::smax: return ew([&](unsigned k) { E x = toE(a[k], w), y = toE(a[n + k], w); return fromE(mkIte(mkCmp(K_SLT, x, y), y, x)); });
      case Intrinsic::fmuladd: return ew([&](unsigned k) { return fromE(mkFBin(K_FADD, mkFBin(K_FMUL, toE(a[k], w), toE(a[n + k], w)), toE(a[2 * n + k], w))); });
      default: return bad();
    }
  }
  switch (ci.intrinsic) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { bool ok; if (!copyMem(s, a[0], a[1], a[2], ok)) return false; finishCall(s, i); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { if (!setMem(s, a[0], a[1], a[2])) return false; finishCall(s, i); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::invariant_start: return done(a[0]);
    case Intrinsic::is_constant: return done(V(0));
    case Intrinsic::objectsize: return done(V(~0ull));
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: report(s, "abort", "trap", true); return false;
    case Intrinsic::stacksave: return done(V(0));
    case Intrinsic::stackrestore: finishCall(s, i); return true;
    case Intrinsic::eh_typeid_for: { u64 t = a[0].c; return done(V(t ? t & 0xffffffff : 1)); }
    case Intrinsic::bswap: { E x = toE(a[0], w), r = nullptr; for (unsigned k = 0; k < w / 8; k++) { E b = mkExtract(x, 8 * k, 8); r = r ? mkConcat(r, b) : b; } return done(fromE(r)); }
    case Intrinsic::ctpop: { E x = toE(a[0], w), r = mkConst(0, w); for (unsigned k = 0; k < w; k++) r = mkBin(K_ADD, r, mkZExt(mkExtract(x, k, 1), w)); return done(fromE(r)); }
    case Intrinsic::ctlz: { E x = toE(a[0], w), r = mkConst(w, w); for (unsigned k = 0; k < w; k++) r = mkIte(mkExtract(x, k, 1), mkConst(w - 1 - k, w), r); return done(fromE(r)); }
    case Intrinsic::cttz: { E x = toE(a[0], w), r = mkConst(w, w); for (int k = (int)w - 1; k >= 0; k--) r = mkIte(mkExtract(x, k, 1), mkConst(k, w), r); return done(fromE(r)); }
    case Intrinsic::abs: { E x = toE(a[0], w); return done(fromE(mkIte(mkCmp(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x))); }
    case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); return done(fromE(mkIte(mkCmp(K_ULT, x, y), x, y))); }
    case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); return done(fromE(mkIte(mkCmp(K_ULT, x, y), y, x))); }
    case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); return done(fromE(mkIte(mkCmp(K_SLT, x, y), x, y))); }
    case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); return done(fromE(mkIte(mkCmp(K_SLT, x, y), y, x))); }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); return done(fromE(mkIte(mkCmp(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y)))); }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w), t = mkBin(K_ADD, x, y); return done(fromE(mkIte(mkCmp(K_ULT, t, x), mkConst(maskW(w), w), t))); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E x = toE(a[0], w), y = toE(a[1], w), c = toE(a[2], w); bool L = ci.intrinsic == Intrinsic::fshl;
      if (isC(c)) { unsigned k = (unsigned)(c->v % w); if (!k) return done(fromE(L ? x : y)); if (!L) k = w - k; return done(fromE(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k)))); }
      E m = mkBin(K_UREM, c, mkConst(w, w)), inv = mkBin(K_SUB, mkConst(w, w), m), z = mkCmp(K_EQ, m, mkConst(0, w));
      E r = L ? mkIte(z, x, mkBin(K_OR, mkBin(K_SHL, x, m), mkBin(K_LSHR, y, inv))) : mkIte(z, y, mkBin(K_OR, mkBin(K_LSHR, y, m), mkBin(K_SHL, x, inv))); return done(fromE(r)); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = toE(a[0], w), y = toE(a[1], w), r, ov; unsigned id = ci.intrinsic;
      if (id == Intrinsic::uadd_with_overflow) { r = mkBin(K_ADD, x, y); ov = mkCmp(K_ULT, r, x); }
      else if (id == Intrinsic::usub_with_overflow) { r = mkBin(K_SUB, x, y); ov = mkCmp(K_ULT, x, y); }
      else if (w > 64) return bad();
      else if (id == Intrinsic::umul_with_overflow) { E p = mkBin(K_MUL, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); r = mkExtract(p, 0, w); ov = mkNot(mkCmp(K_EQ, mkExtract(p, w, w), mkConst(0, w))); }
      else { Kind k = id == Intrinsic::sadd_with_overflow ? K_ADD : id == Intrinsic::ssub_with_overflow ? K_SUB : K_MUL; unsigned W = k == K_MUL ? 2 * w : w + 1; E p = mkBin(k, mkSExt(x, W), mkSExt(y, W)); r = mkExtract(p, 0, w); ov = mkNot(mkCmp(K_EQ, mkSExt(r, W), p)); }
      R[i.dst] = fromE(r); R[i.dst + 1] = fromE(ov); finishCall(s, i); return true; }
    case Intrinsic::fabs: return done(fromE(mkFUn(K_FABS, toE(a[0], w), 0, w)));
    case Intrinsic::sqrt: return done(fromE(mkFUn(K_FSQRT, toE(a[0], w), 0, w)));
    case Intrinsic::floor: return done(fromE(mkFUn(K_FROUND, toE(a[0], w), RM_FLOOR, w)));
    case Intrinsic::ceil: return done(fromE(mkFUn(K_FROUND, toE(a[0], w), RM_CEIL, w)));
    case Intrinsic::trunc: return done(fromE(mkFUn(K_FROUND, toE(a[0], w), RM_TRUNC, w)));
    case Intrinsic::round: return done(fromE(mkFUn(K_FROUND, toE(a[0], w), RM_ROUND, w)));
    case Intrinsic::rint: case Intrinsic::nearbyint: return done(fromE(mkFUn(K_FROUND, toE(a[0], w), RM_RINT, w)));
    case Intrinsic::fmuladd: return done(fromE(mkFBin(K_FADD, mkFBin(K_FMUL, toE(a[0], w), toE(a[1], w)), toE(a[2], w))));
    case Intrinsic::is_fpclass: { u64 m = a[1].c; E x = toE(a[0], w); E nan = mkFCmp(K_FUNO, x, x); E ab = mkFUn(K_FABS, x, 0, w); E inf = mkCmp(K_EQ, ab, mkConst(w == 64 ? 0x7ff0000000000000ull : 0x7f800000ull, w)); E r = mkConst(0, 1); if ((m & 3) == 3) r = mkBin(K_OR, r, nan); if ((m & 0x204) == 0x204) r = mkBin(K_OR, r, inf); if (m & ~0x207ull) return bad(); return done(fromE(r)); }
    case Intrinsic::copysign: { E x = toE(a[0], w), y = toE(a[1], w); return done(fromE(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1)))); }
    case Intrinsic::maxnum: case Intrinsic::minnum: { E x = toE(a[0], w), y = toE(a[1], w); E lt = mkFCmp(K_FOLT, x, y); E r = ci.intrinsic == Intrinsic::maxnum ? mkIte(lt, y, x) : mkIte(lt, x, y); r = mkIte(mkFCmp(K_FUNO, x, x), y, r); r = mkIte(mkFCmp(K_FUNO, y, y), x, r); return done(fromE(r)); }
    case Intrinsic::sin: return math1(*this, s, i, a[0], ::sin, "sin", w); case Intrinsic::cos: return math1(*this, s, i, a[0], ::cos, "cos", w); case Intrinsic::exp: return math1(*this, s, i, a[0], ::exp, "exp", w); case Intrinsic::log: return math1(*this, s, i, a[0], ::log, "log", w); case Intrinsic::pow: return math2(*this, s, i, a[0], a[1], ::pow, "pow");
    case Intrinsic::vastart: {
      Frame& f = s.st.back(); u64 n = f.varargs.size(); Obj* o = alloc(s, max<u64>(n, 1) * 8, OK_STACK, "varargs"); f.allocas.push_back(o->base); u64 b = o->base;
      for (u64 k = 0; k < n; k++) { Val v = f.varargs[k]; unsigned vw = f.varW[k]; if (v.e && v.e->width < 64) v = fromE(mkZExt(v.e, 64)); (void)vw; if (!doStore(s, V(b + 8 * k), 64, v)) return false; }
      u64 ap = a[0].c; if (!doStore(s, V(ap), 32, V(48)) || !doStore(s, V(ap + 4), 32, V(176)) || !doStore(s, V(ap + 8), 64, V(b)) || !doStore(s, V(ap + 16), 64, V(b))) return false; finishCall(s, i); return true; }
    case Intrinsic::vaend: finishCall(s, i); return true;
    case Intrinsic::vacopy: { bool ok; if (!copyMem(s, a[0], a[1], V(24), ok)) return false; finishCall(s, i); return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: { Kind k = ci.intrinsic == Intrinsic::vector_reduce_add ? K_ADD : ci.intrinsic == Intrinsic::vector_reduce_or ? K_OR : ci.intrinsic == Intrinsic::vector_reduce_and ? K_AND : K_XOR; E r = toE(a[0], w); for (size_t j = 1; j < a.size(); j++) r = mkBin(k, r, toE(a[j], w)); return done(fromE(r)); }
    default: return bad();
  }
}
