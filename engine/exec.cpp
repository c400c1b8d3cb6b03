#include "engine.h"
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <algorithm>
using namespace llvm; using namespace std;
u64 AddrMap::nextKey = 0;
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (isC(e) && e->width <= 64) return V((u64)e->v); return Val{0, e}; }
#define REG(x) ((x) >= 0 ? R[x] : K[-1 - (x)])

// ------------------------------------------------------------------ memory
Obj* Engine::find(State& s, u64 a) {
  Obj*& c = s.cache[(a >> 5) & 255];
  if (c && a - c->base < c->size) return c;
  Obj* o = s.mem.floor(a);
  if (!o || a - o->base >= max<u64>(o->size, 1)) return nullptr;
  c = o; return o;
}
static void purge(State& s, Obj* o) { for (auto& c : s.cache) if (c == o) c = nullptr; }
Obj* Engine::wr(State& s, Obj* o) { if (o->owner == s.mem.key) return o; Obj* n = s.mem.writable(o); if (n != o) for (auto& c : s.cache) if (c == o) c = n; return n; }
Obj* Engine::alloc(State& s, u64 size, ObjKind k, const char* what, unsigned align, u8 fill) {
  Obj* o = new Obj(); o->refs = 1; o->owner = s.mem.key; o->size = size; o->kind = k; o->ro = false; o->fill = fill; o->symSize = nullptr; o->what = what;
  if (align < 16) align = 16;
  u64 a = (s.nextAddr + align - 1) & ~(u64)(align - 1); o->base = a; s.nextAddr = a + size + 32; if (size > 4096) s.nextAddr += 4096;
  s.mem.insert(o); return o;
}
void Engine::freeObj(State& s, Obj* o) { u64 b = o->base; purge(s, o); s.mem.erase(b); }
Val Engine::readBytes(Obj* o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool symb = false;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->symAt(off + i)) { symb = true; break; }
  if (!symb) {
    if (n <= 8) { u64 v = 0; if (off + n <= o->d.size()) memcpy(&v, &o->d[off], n); else for (unsigned i = 0; i < n; i++) v |= (u64)o->conc(off + i) << (8 * i); return V(v & mask64(w)); }
    u128 v = 0; for (unsigned i = 0; i < n; i++) v |= (u128)o->conc(off + i) << (8 * i); return Val{0, mkConst(v, w)};
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E b = o->symAt(off + i); if (!b) b = mkConst(o->conc(off + i), 8); r = r ? mkConcat(b, r) : b; }
  if (w < n * 8) r = mkExtract(r, 0, w);
  return fromE(r);
}
void Engine::writeBytes(State& s, Obj* o, u64 off, unsigned w, Val v) {
  unsigned n = (w + 7) / 8; o = wr(s, o); o->need(off + n);
  if (v.e && isC(v.e)) { if (v.e->width <= 64) v = V((u64)v.e->v); else { u128 x = v.e->v; for (unsigned i = 0; i < n; i++) { o->d[off + i] = (u8)(x >> (8 * i)); if (!o->sym.empty()) o->sym[off + i] = nullptr; } return; } }
  if (!v.e) { u64 x = v.c & mask64(w); if (n <= 8) memcpy(&o->d[off], &x, n); else { memcpy(&o->d[off], &x, 8); memset(&o->d[off + 8], 0, n - 8); } if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  E e = v.e; if (e->width < n * 8) e = mkZExt(e, n * 8);
  if (o->sym.empty()) o->sym.resize(o->d.size(), nullptr);
  for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, 8 * i, 8); if (isC(b)) { o->sym[off + i] = nullptr; o->d[off + i] = (u8)b->v; } else o->sym[off + i] = b; }
}
bool Engine::cstr(State& s, u64 a, string& out) { out.clear(); Obj* o = find(s, a); if (!o) return false; for (u64 k = a - o->base; k < o->size; k++) { E e = o->symAt(k); if (e) { out += (char)evalE(e, *s.model); if (!out.back()) { out.pop_back(); return true; } continue; } if (!o->conc(k)) return true; out += (char)o->conc(k); } return true; }

// ------------------------------------------------------------------ constraints
static void setBit(vector<u64>& v, u32 i) { if (v.size() <= i / 64) v.resize(i / 64 + 1); v[i / 64] |= 1ull << (i & 63); }
static bool getBit(const vector<u64>& v, u32 i) { return i / 64 < v.size() && (v[i / 64] >> (i & 63) & 1); }

// ------------------------------------------------------------------ unsigned intervals under the state's per-variable bounds
struct Iv { u64 lo, hi; };
static bool sIv(const Iv& r, unsigned w, i64& lo, i64& hi) { u64 h = 1ull << (w - 1); if ((r.lo >= h) != (r.hi >= h)) return false; lo = sext64(r.lo, w); hi = sext64(r.hi, w); return true; }
static Iv ivOf(State& s, E e, unordered_map<u32, Iv>& memo, int& bud) {
  unsigned w = e->width; Iv full{0, mask64(w > 64 ? 64 : w)}; if (w > 64) return full;
  if (isC(e)) return Iv{(u64)e->v, (u64)e->v}; if (e->fp || --bud < 0) return full;
  if (e->k == K_VAR) {
    Iv r = full; auto it = s.dom.find(e->aux); if (it != s.dom.end()) { int lo = -1, hi = -1; for (int i = 0; i < 4; i++) if (it->second.t[i]) { if (lo < 0) lo = i * 64 + __builtin_ctzll(it->second.t[i]); hi = i * 64 + 63 - __builtin_clzll(it->second.t[i]); } if (lo >= 0) { r.lo = max<u64>(r.lo, lo); r.hi = min<u64>(r.hi, hi); } }
    auto q = s.rng.find(e->aux); if (q != s.rng.end()) { r.lo = max(r.lo, q->second.first); r.hi = min(r.hi, q->second.second); } return r.lo <= r.hi ? r : full; }
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Iv r = full; auto R = [&](E x) { return ivOf(s, x, memo, bud); }; u64 M = mask64(w);
  switch (e->k) {
    case K_ADD: { if (isC(e->b)) { u64 c = (u64)e->b->v; Iv a = R(e->a); if (a.hi <= M - c) r = Iv{a.lo + c, a.hi + c}; else if (a.lo > M - c) r = Iv{(a.lo + c) & M, (a.hi + c) & M}; break; } Iv a = R(e->a), b = R(e->b); if (a.hi <= M - b.hi) r = Iv{a.lo + b.lo, a.hi + b.hi}; break; }
    case K_SUB: { Iv a = R(e->a), b = R(e->b); if (a.lo >= b.hi) r = Iv{a.lo - b.hi, a.hi - b.lo}; break; }
    case K_MUL: { Iv a = R(e->a), b = R(e->b); if ((u128)a.hi * b.hi <= M) r = Iv{a.lo * b.lo, a.hi * b.hi}; break; }
    case K_UDIV: { if (isC(e->b) && e->b->v) { Iv a = R(e->a); r = Iv{a.lo / (u64)e->b->v, a.hi / (u64)e->b->v}; } break; }
    case K_UREM: { if (isC(e->b) && e->b->v) { Iv a = R(e->a); u64 c = (u64)e->b->v; if (a.hi < c) r = a; else r = Iv{0, c - 1}; } break; }
    case K_SHL: { if (isC(e->b) && e->b->v < w) { Iv a = R(e->a); unsigned c = (unsigned)e->b->v; if (a.hi <= (M >> c)) r = Iv{a.lo << c, a.hi << c}; } break; }
    case K_LSHR: { if (isC(e->b) && e->b->v < w) { Iv a = R(e->a); unsigned c = (unsigned)e->b->v; r = Iv{a.lo >> c, a.hi >> c}; } break; }
    case K_AND: { Iv a = R(e->a), b = R(e->b); r = Iv{0, min(a.hi, b.hi)}; break; }
    case K_OR: case K_XOR: { Iv a = R(e->a), b = R(e->b); u64 h = a.hi | b.hi; if (h) h = h | (~0ull >> __builtin_clzll(h)); r = Iv{e->k == K_OR ? max(a.lo, b.lo) : 0, h & M}; break; }
    case K_ZEXT: r = R(e->a); break;
    case K_SEXT: { Iv a = R(e->a); if (a.hi < (1ull << (e->a->width - 1))) r = a; else if (a.lo >= (1ull << (e->a->width - 1))) r = Iv{(u64)sext64(a.lo, e->a->width) & M, (u64)sext64(a.hi, e->a->width) & M}; break; }
    case K_EXTRACT: { if (e->a->width > 64) break; Iv a = R(e->a); unsigned o = e->aux; a.lo >>= o; a.hi >>= o; if (a.hi <= M) r = a; break; }
    case K_CONCAT: { Iv a = R(e->a), b = R(e->b); unsigned bw = e->b->width; r = Iv{(a.lo << bw) | b.lo, (a.hi << bw) | b.hi}; break; }
    case K_ITE: { Iv a = R(e->b), b = R(e->c); r = Iv{min(a.lo, b.lo), max(a.hi, b.hi)}; break; }
    case K_EQ: { if (e->a->width > 64 || e->a->fp) break; Iv a = R(e->a), b = R(e->b); if (a.hi < b.lo || b.hi < a.lo) r = Iv{0, 0}; else if (a.lo == a.hi && b.lo == b.hi) r = Iv{1, 1}; break; }
    case K_ULT: case K_ULE: { if (e->a->width > 64) break; Iv a = R(e->a), b = R(e->b); bool le = e->k == K_ULE; if (le ? a.hi <= b.lo : a.hi < b.lo) r = Iv{1, 1}; else if (le ? a.lo > b.hi : a.lo >= b.hi) r = Iv{0, 0}; break; }
    case K_SLT: case K_SLE: { if (e->a->width > 64) break; Iv a = R(e->a), b = R(e->b); i64 al, ah, bl, bh; if (!sIv(a, e->a->width, al, ah) || !sIv(b, e->a->width, bl, bh)) break; bool le = e->k == K_SLE; if (le ? ah <= bl : ah < bl) r = Iv{1, 1}; else if (le ? al > bh : al >= bh) r = Iv{0, 0}; break; }
    default: break;
  }
  memo[e->id] = r; return r;
}
static void noteBound(State& s, E c) { // var <= const and the like
  bool neg = false; while (c->k == K_XOR && c->width == 1 && isC(c->b)) { if (c->b->v & 1) neg = !neg; c = c->a; }
  if (c->k != K_ULT && c->k != K_ULE && c->k != K_EQ) return; E a = c->a, b = c->b; bool sw = false; if (isC(a)) { E t = a; a = b; b = t; sw = true; } if (!isC(b) || b->width > 64) return; while (a->k == K_ZEXT) a = a->a; if (a->k != K_VAR) return;
  u64 v = (u64)b->v, lo = 0, hi = ~0ull; 
  if (c->k == K_EQ) { if (neg) return; lo = hi = v; }
  else { bool le = c->k == K_ULE; // (a op v) or (v op a), possibly negated
    if (!sw) { if (!neg) hi = le ? v : v - 1; else lo = le ? v + 1 : v; } else { if (!neg) lo = le ? v : v + 1; else hi = le ? v - 1 : v; } }
  auto& r = s.rng.emplace(a->aux, make_pair((u64)0, mask64(gVars[a->aux].width))).first->second; r.first = max(r.first, lo); r.second = min(r.second, hi);
}
void Engine::addC(State& s, E c) {
  if (isTrue(c)) return;
  if (c->k == K_AND && c->width == 1) { addC(s, c->a); addC(s, c->b); return; }
  for (E x : s.cs) if (x == c) return;
  noteBound(s, c);
  u32 v; const Tab* t = truthTable(c, v);
  if (t) {
    auto it = s.dom.find(v); if (it == s.dom.end()) { Dom d; unsigned w = gVars[v].width; for (int i = 0; i < 4; i++) d.t[i] = ~0ull; if (w < 8) { d.t[1] = d.t[2] = d.t[3] = 0; d.t[0] = w >= 6 ? ~0ull : (1ull << (1u << w)) - 1; if (w == 7) d.t[1] = ~0ull; } it = s.dom.emplace(v, d).first; }
    int n = 0; for (int i = 0; i < 4; i++) { it->second.t[i] &= t->t[i]; n += __builtin_popcountll(it->second.t[i]); }
    if (n == 1) setBit(s.pinned, v);
  } else {
    // x == const on a whole variable pins it
    if (c->k == K_EQ && c->a->k == K_VAR && isC(c->b)) setBit(s.pinned, c->a->aux);
    if (s.entangled.size() < c->vars->w.size()) s.entangled.resize(c->vars->w.size());
    for (size_t i = 0; i < c->vars->w.size(); i++) s.entangled[i] |= c->vars->w[i];
  }
  s.cs.push_back(c);
}
bool Engine::mustFromDomain(State& s, E c, bool& val) {
  bool all = true; for (size_t i = 0; i < c->vars->w.size(); i++) { u64 p = i < s.pinned.size() ? s.pinned[i] : 0; if (c->vars->w[i] & ~p) { all = false; break; } }
  if (all && !c->fp) { val = evalE(c, *s.model) != 0; gSS.domainHits++; return true; }
  u32 v; const Tab* t = truthTable(c, v); if (!t) { unordered_map<u32, Iv> memo; int bud = 300; Iv r = ivOf(s, c, memo, bud); if (r.lo == r.hi) { gSS.domainHits++; val = r.lo != 0; return true; } return false; }
  auto it = s.dom.find(v); Dom full; const Dom* d; if (it == s.dom.end()) { unsigned w = gVars[v].width; for (int i = 0; i < 4; i++) full.t[i] = ~0ull; if (w < 8) { full.t[1] = full.t[2] = full.t[3] = 0; full.t[0] = w >= 6 ? ~0ull : (1ull << (1u << w)) - 1; if (w == 7) full.t[1] = ~0ull; } d = &full; } else d = &it->second;
  bool canT = false, canF = false; for (int i = 0; i < 4; i++) { if (d->t[i] & t->t[i]) canT = true; if (d->t[i] & ~t->t[i]) canF = true; }
  if (canT && canF) return false;
  gSS.domainHits++; val = canT; return true;
}
// rewrites a boolean under the per-variable domains of the state: decided conjuncts / disjuncts disappear
static E simplifyUnder(Engine& en, State& s, E c, int& budget) {
  if (c->width != 1 || isC(c) || --budget < 0) return c;
  bool v; if (en.mustFromDomain(s, c, v)) return mkConst(v, 1);
  if (c->k == K_AND || c->k == K_OR) {
    E a = simplifyUnder(en, s, c->a, budget); if (isC(a) && (bool)a->v == (c->k == K_OR)) return a;
    E b = simplifyUnder(en, s, c->b, budget); if (a == c->a && b == c->b) return c; return mkBin(c->k, a, b);
  }
  if (c->k == K_XOR && isC(c->b)) { E a = simplifyUnder(en, s, c->a, budget); return a == c->a ? c : mkBin(K_XOR, a, c->b); }
  if (c->k == K_ITE) { E x = simplifyUnder(en, s, c->a, budget); if (isC(x)) return simplifyUnder(en, s, x->v ? c->b : c->c, budget); }
  return c;
}
// a single-variable way of satisfying c without touching entangled variables
static bool easySat(Engine& en, State& s, E c, bool neg, u32& var, u64& val, int& budget) {
  if (--budget < 0) return false;
  if (c->k == K_XOR && isC(c->b)) return easySat(en, s, c->a, neg ^ (c->b->v & 1), var, val, budget);
  if ((c->k == K_OR && !neg) || (c->k == K_AND && neg && c->width == 1)) return easySat(en, s, c->a, neg, var, val, budget) || easySat(en, s, c->b, neg, var, val, budget);
  const Tab* t = truthTable(c, var); if (!t || (var / 64 < s.entangled.size() && (s.entangled[var / 64] >> (var & 63) & 1))) return false;
  auto it = s.dom.find(var); unsigned w = gVars[var].width;
  for (int i = 0; i < 4; i++) { u64 b = (neg ? ~t->t[i] : t->t[i]) & (it == s.dom.end() ? ~0ull : it->second.t[i]); if (it == s.dom.end() && w < 8) { if (i * 64 >= (1 << w)) b = 0; else if (w < 6) b &= (1ull << (1u << w)) - 1; } if (b) { val = i * 64 + __builtin_ctzll(b); return true; } }
  return false;
}
// is c possible together with the state's constraints?
bool Engine::query(State& s, E c, Model& m, bool& unk) {
  unk = false; bool v;
  if (!isC(c)) { int bud = 4000; c = simplifyUnder(*this, s, c, bud); }
  if (isC(c)) { if (c->v) { m.val = s.model->val; return true; } return false; }
  if (mustFromDomain(s, c, v)) { if (!v) return false; m.val = s.model->val; return true; }
  u32 var; const Tab* t = truthTable(c, var);
  if (t && !getBit(s.entangled, var)) { // exact: only unary constraints on this variable
    auto it = s.dom.find(var); for (int i = 0; i < 4; i++) { u64 b = t->t[i] & (it == s.dom.end() ? ~0ull : it->second.t[i]); if (b) { m.val = s.model->val; if (m.val.size() <= var) m.val.resize(var + 1); m.val[var] = i * 64 + __builtin_ctzll(b); m.memo.clear(); gSS.domainHits++; return true; } }
    return false;
  }
  if (!t) { u32 ev; u64 evl; int bud = 4000; if (easySat(*this, s, c, false, ev, evl, bud)) { m.val = s.model->val; if (m.val.size() <= ev) m.val.resize(ev + 1); m.val[ev] = evl; m.memo.clear(); gSS.domainHits++; return true; } }
  // slice
  vector<E> sl{c}; const VarSet* vs = c->vars; vector<char> in(s.cs.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cs.size(); i++) if (!in[i] && overlap(vs, s.cs[i]->vars)) { in[i] = 1; ch = true; vs = unionSet(vs, s.cs[i]->vars); sl.push_back(s.cs[i]); } }
  Model r; Sat k = solveConj(sl, r);
  if (k == UNKNOWN) { unk = true; return false; }
  if (k == UNSAT) return false;
  m.val = s.model->val; m.memo.clear();
  for (size_t i = 0; i < vs->w.size(); i++) for (u64 b = vs->w[i]; b; b &= b - 1) { u32 x = i * 64 + __builtin_ctzll(b); if (m.val.size() <= x) m.val.resize(x + 1); m.val[x] = r.get(x); }
  return true;
}
static std::map<string, u64> gForkProfile; static bool gProfileForks = getenv("SYMEX_FORKS") != nullptr;
void dumpForkProfile() { vector<std::pair<u64, string>> v; for (auto& p : gForkProfile) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t k = 0; k < v.size() && k < 25; k++) errs() << v[k].first << " forks at\n" << v[k].second; }
State* Engine::forkState(State& s) { if (gProfileForks) { string t = stack(s); size_t p = 0; for (int k = 0; k < 9 && p != string::npos; k++) p = t.find('\n', p + 1); gForkProfile[t.substr(0, p) + "\n"]++; }
  State* n = new State(s); n->id = ++nextStateId; forks++; s.forks++; n->forks = s.forks; return n; }
int Engine::branch(State& s, E c, State** other) {
  lastUnknown = false;
  if (isC(c)) return c->v ? 1 : 0;
  bool v; if (mustFromDomain(s, c, v)) return v;
  bool mv = evalE(c, *s.model) != 0; E nc = mkNot(c);
  auto m = make_shared<Model>(); bool unk;
  bool can = query(s, mv ? nc : c, *m, unk);
  if (unk) { s.incomplete = true; lastUnknown = true; addC(s, mv ? c : nc); return mv; }
  if (!can) { return mv; }
  side = mv;
  if (other) { State* o = forkState(s); o->model = m; addC(*o, mv ? nc : c); *other = o; addC(s, mv ? c : nc); }
  else { // caller only wants to know; keep the alternative model
    s.named["__alt"] = 0; altModel = m; }
  return 2;
}
bool Engine::concretize(State& s, Val v, unsigned w, u64& out) {
  if (!v.e) { out = v.c; return true; }
  if (isC(v.e)) { out = (u64)v.e->v; return true; }
  u64 x = (u64)evalE(v.e, *s.model); E c = mkCmp(K_EQ, v.e, mkConst(x, v.e->width)); State* o = nullptr;
  int r = branch(s, c, &o);
  if (r == 2) { o->st.back().pc--; work.push_back(o); }  // s took the model's side (equal); the sibling re-executes
  out = x; return true;
}
void Engine::endState(State& s) { dead = true; }
string Engine::where(State& s, bool full) {
  // innermost frame of the repository, else innermost frame
  string r, first;
  for (int i = (int)s.st.size() - 1; i >= 0; i--) { Frame& f = s.st[i]; const Ins* in = (i == (int)s.st.size() - 1) ? (f.pc > 0 ? &f.f->code[f.pc - 1] : nullptr) : f.call; string l = f.f->name; unsigned ln = 0; if (in && in->I) if (auto& dl = in->I->getDebugLoc()) { ln = dl.getLine(); }
    string t = demangle(l); if (first.empty()) first = t; if (f.f->repo) { string fl = f.f->file; size_t p = fl.rfind('/'); if (p != string::npos) fl = fl.substr(p + 1); r = t + " (" + fl; if (full) r += ":" + to_string(ln); r += ")"; return r; } }
  return first;
}
string Engine::stack(State& s) {
  string r; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 14; i--, n++) { Frame& f = s.st[i]; const Ins* in = (i == (int)s.st.size() - 1) ? (f.pc > 0 ? &f.f->code[f.pc - 1] : nullptr) : f.call; string loc; if (in && in->I) if (auto& dl = in->I->getDebugLoc()) { auto* sc = cast<DIScope>(dl.getScope()); loc = sc->getFilename().str() + ":" + to_string(dl.getLine()); } string nm = demangle(f.f->name); if (nm.size() > 120) nm = nm.substr(0, 120) + "..."; r += "    #" + to_string(n) + " " + nm + "  " + loc + "\n"; }
  return r;
}
void Engine::writeCase(State& s, const string& file, const string& head) {
  FILE* f = fopen(file.c_str(), "w"); if (!f) return;
  fprintf(f, "%s", head.c_str());
  for (auto& o : s.syms) { fprintf(f, "S %s %zu ", o.name.c_str(), o.bytes.size()); for (E b : o.bytes) fprintf(f, "%02x", (unsigned)evalE(b, *s.model)); fprintf(f, "\n"); }
  for (auto& o : s.obs) fprintf(f, "O %s %llx\n", o.label.c_str(), (unsigned long long)(o.e ? (u64)evalE(o.e, *s.model) : o.c));
  fclose(f);
}
void Engine::report(State& s, const string& kind, const string& label, bool term) {
  string w = where(s, true); string key = kind + "|" + label + "|" + (kind == "assert" ? "" : where(s, false));
  auto it = findings.find(key);
  if (it != findings.end()) { it->second.count++; }
  else if (findings.size() < opt.maxFindings * 4) {
    Finding f; f.kind = kind; f.label = label; f.where = w; f.stack = stack(s);
    f.file = opt.out + "/finding" + to_string(findings.size()) + ".case";
    string h = "# kind: " + kind + "\n# label: " + label + "\n# where: " + w + "\n"; { string st = f.stack, line; size_t p = 0; while (p < st.size()) { size_t q = st.find('\n', p); h += "#" + st.substr(p, q - p) + "\n"; p = q + 1; } }
    writeCase(s, f.file, h);
    if (opt.verbose) errs() << "FINDING " << kind << " " << label << " at " << w << "\n" << f.stack;
    findings[key] = f;
  }
  if (term) { pathsError++; if (&s == cur) endState(s); }
}
// ------------------------------------------------------------------ symbolic addressing
bool Engine::resolve(State& s, Val addr, u64 len, bool write, Obj*& o, u64& off, E& soff, const char* what) {
  soff = nullptr; memChecks++;
  if (!addr.e) {
    o = find(s, addr.c);
    if (!o) { char b[128]; snprintf(b, 128, addr.c < 4096 ? "null pointer %s" : "invalid pointer %s (dangling or out of bounds)", what); report(s, "memory", b, true); return false; }
    off = addr.c - o->base;
    if (off + len > o->size) { char b[128]; snprintf(b, 128, "out of bounds %s (%s object)", what, o->what); report(s, "memory", b, true); return false; }
    if (o->symSize) {
      E c = mkCmp(K_ULE, mkConst(off + len, 64), o->symSize); State* ot = nullptr; int r = branch(s, c, &ot);
      if (r == 0) { char b[128]; snprintf(b, 128, "out of bounds %s (%s object)", what, o->what); report(s, "memory", b, true); return false; }
      if (r == 2) { State* bad = side ? ot : &s; State* good = side ? &s : ot; string lab = string("out of bounds ") + what + " (" + o->what + " object)";
        if (bad == &s) { // report, then continue with the good one later
          good->st.back().pc--; work.push_back(good); report(s, "memory", lab, true); return false; }
        report(*bad, "memory", lab, true); delete bad; }
    }
    if (write && o->ro) { report(s, "memory", "write to read-only memory", true); return false; }
    memProved++;
    return true;
  }
  // candidate object: constant part of the address first, else the model's value
  u64 a0 = (u64)evalE(addr.e, *s.model);
  o = find(s, a0);
  if (!o || a0 - o->base + len > o->size) {
    Obj* oc = nullptr; if (addr.e->k == K_ADD && isC(addr.e->b)) oc = find(s, (u64)addr.e->b->v);
    // the model's address is outside every object: this is an error for the model; the remaining values are explored separately
    if (oc) { E in = mkCmp(K_ULE, mkBin(K_SUB, addr.e, mkConst(oc->base, 64)), mkConst(oc->size >= len ? oc->size - len : 0, 64)); State* ot = nullptr; int r = oc->size >= len ? branch(s, in, &ot) : 0; if (r == 2) { ot->st.back().pc--; work.push_back(ot); } if (r == 1) { o = oc; goto have; } }
    else if (o) { /* partially inside */ }
    report(s, "memory", string(o ? "out of bounds " : "invalid pointer ") + what, true); return false;
  }
have:
  { u64 lim = o->size - len; E of = mkBin(K_SUB, addr.e, mkConst(o->base, 64));
    E in = mkCmp(K_ULE, of, mkConst(lim, 64));
    if (o->symSize) in = mkBin(K_AND, in, mkBin(K_AND, mkCmp(K_ULE, mkConst(len, 64), o->symSize), mkCmp(K_ULE, of, mkBin(K_SUB, o->symSize, mkConst(len, 64)))));
    State* ot = nullptr; int r = branch(s, in, &ot);
    if (r == 0) { report(s, "memory", string("out of bounds ") + what + " (" + o->what + " object)", true); return false; }
    if (r == 2) { // other side: maybe another object, maybe an error; it re-executes
      State* outs = side ? ot : &s; State* ins = side ? ot : ot;
      if (side) { outs->st.back().pc--; work.push_back(outs); }
      else { ins->st.back().pc--; work.push_back(ins); s.st.back().pc--; retry = true; return false; }
    }
    if (write && o->ro) { report(s, "memory", "write to read-only memory", true); return false; }
    memProved++;
    if (isC(of)) { off = (u64)of->v; return true; }
    // pinned by the path condition?
    soff = of; off = a0 - o->base; return true; }
}
static unsigned trailZeros(E e) { if (isC(e)) { if (!e->v) return 64; unsigned n = 0; u128 v = e->v; while (!(v & 1)) { v >>= 1; n++; } return n; } switch (e->k) { case K_CONCAT: { unsigned t = trailZeros(e->b); return t >= e->b->width ? e->b->width + trailZeros(e->a) : t; } case K_ZEXT: case K_SEXT: return trailZeros(e->a); case K_ADD: case K_SUB: case K_OR: case K_XOR: return min(trailZeros(e->a), trailZeros(e->b)); case K_MUL: return trailZeros(e->a) + trailZeros(e->b); case K_AND: return max(trailZeros(e->a), trailZeros(e->b)); case K_ITE: return min(trailZeros(e->b), trailZeros(e->c)); default: return 0; } }
bool Engine::candidates(State& s, E soff, u64 lim, vector<u64>& out, size_t maxN) {
  // exact set through a single small variable
  { const VarSet* vs = soff->vars; int n = 0; u32 v = 0; for (size_t i = 0; i < vs->w.size(); i++) if (vs->w[i]) { n += __builtin_popcountll(vs->w[i]); v = i * 64 + __builtin_ctzll(vs->w[i]); }
    if (n == 1 && gVars[v].width <= 8) { auto it = s.dom.find(v); set<u64> r; Model m; m.val.resize(v + 1); for (u32 x = 0; x < (1u << gVars[v].width); x++) { if (it != s.dom.end() && !(it->second.t[x >> 6] >> (x & 63) & 1)) continue; m.val[v] = x; m.memo.clear(); u64 o = (u64)evalE(soff, m); if (o <= lim) r.insert(o); } out.assign(r.begin(), r.end()); return out.size() <= maxN; } }
  unsigned tz = min(trailZeros(soff), 20u); if (soff->k == K_ADD && isC(soff->b)) {}
  u64 step = 1ull << tz;
  if (lim / step + 1 <= maxN) { for (u64 o = 0; o <= lim; o += step) out.push_back(o); return true; }
  // enumerate with the solver
  vector<E> extra; Model m; bool unk; E c = mkConst(1, 1);
  while (out.size() <= maxN) { if (!query(s, c, m, unk)) { if (unk) return false; return true; } m.memo.clear(); u64 o = (u64)evalE(soff, m); out.push_back(o); c = mkBin(K_AND, c, mkNot(mkCmp(K_EQ, soff, mkConst(o, 64)))); if (out.size() > 300) return false; }
  return false;
}
static E muxTree(E idx, const vector<pair<u64, E>>& es, size_t lo, size_t hi, unsigned w) {
  // es sorted by offset; balanced comparison tree
  if (hi - lo == 1) return es[lo].second;
  bool same = true; for (size_t i = lo + 1; i < hi; i++) if (es[i].second != es[lo].second) { same = false; break; }
  if (same) return es[lo].second;
  size_t mid = (lo + hi) / 2;
  E l = muxTree(idx, es, lo, mid, w), r = muxTree(idx, es, mid, hi, w);
  return mkIte(mkCmp(K_ULT, idx, mkConst(es[mid].first, idx->width)), l, r);
}
Val Engine::readSym(State& s, Obj* o, E soff, unsigned w) {
  vector<u64> cand; u64 len = (w + 7) / 8;
  if (!candidates(s, soff, o->size - len, cand, 4096) || cand.empty()) { retry = true; return V(0); }
  vector<pair<u64, E>> es; for (u64 c : cand) es.push_back({c, toE(readBytes(o, c, w), w)});
  std::sort(es.begin(), es.end(), [](const pair<u64, E>& a, const pair<u64, E>& b) { return a.first < b.first; });
  return fromE(muxTree(soff, es, 0, es.size(), w));
}
bool Engine::writeSym(State& s, Obj* o, E soff, unsigned w, Val v) {
  vector<u64> cand; u64 len = (w + 7) / 8;
  if (!candidates(s, soff, o->size - len, cand, 128) || cand.empty()) return false;
  u64 base = o->base; for (u64 c : cand) { o = find(s, base + c); E old = toE(readBytes(o, c, w), w); E nv = mkIte(mkCmp(K_EQ, soff, mkConst(c, 64)), toE(v, w), old); writeBytes(s, o, c, w, fromE(nv)); }
  return true;
}
bool Engine::doLoad(State& s, Val addr, unsigned w, Val& out) {
  Obj* o; u64 off; E so;
  if (!addr.e) { // fast path
    o = find(s, addr.c); if (o && !o->symSize) { off = addr.c - o->base; if (off + (w + 7) / 8 <= o->size) { memChecks++; memProved++; out = readBytes(o, off, w); return true; } } }
  if (!resolve(s, addr, (w + 7) / 8, false, o, off, so, "read")) return false;
  if (!so) { out = readBytes(o, off, w); return true; }
  retry = false; Val r = readSym(s, o, so, w);
  if (retry) { retry = false; u64 a; concretize(s, addr, 64, a); o = find(s, a); out = readBytes(o, a - o->base, w); return true; }
  out = r; return true;
}
bool Engine::doStore(State& s, Val addr, unsigned w, Val v) {
  Obj* o; u64 off; E so;
  if (!addr.e) { o = find(s, addr.c); if (o && !o->symSize && !o->ro) { off = addr.c - o->base; if (off + (w + 7) / 8 <= o->size) { memChecks++; memProved++; writeBytes(s, o, off, w, v); return true; } } }
  if (!resolve(s, addr, (w + 7) / 8, true, o, off, so, "write")) return false;
  if (!so) { writeBytes(s, o, off, w, v); return true; }
  if (writeSym(s, o, so, w, v)) return true;
  u64 a; concretize(s, addr, 64, a);
  o = find(s, a); writeBytes(s, o, a - o->base, w, v); return true;
}
// ------------------------------------------------------------------ frames
void Engine::popFrame(State& s) { Frame& f = s.st.back(); for (u64 a : f.allocas) { Obj* o = s.mem.floor(a); if (o && o->base == a) freeObj(s, o); } s.st.pop_back(); }
void Engine::jump(State& s, const Edge& e) {
  Frame& f = s.st.back(); auto& R = f.regs; auto& K = f.f->consts;
  if (e.moves.size() == 1) { R[e.moves[0].first] = REG(e.moves[0].second); }
  else if (!e.moves.empty()) { Val tmp[64]; vector<Val> big; Val* t = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); } for (size_t i = 0; i < e.moves.size(); i++) t[i] = REG(e.moves[i].second); for (size_t i = 0; i < e.moves.size(); i++) R[e.moves[i].first] = t[i]; }
  f.pc = e.target;
}
void Engine::setRet(State& s, const Ins& i, Val v) { auto* ci = (CallInfo*)i.p; if (ci->retN) { unsigned w = ci->retW[0]; if (!v.e && w < 64) v.c &= mask64(w); s.st.back().regs[i.dst] = v; } }
void Engine::finishCall(State& s, const Ins& i) { auto* ci = (CallInfo*)i.p; if (ci->invoke) jump(s, ci->normal); }
bool Engine::enter(State& s, FInfo* fi, vector<Val>& args, const Ins* in, const vector<u16>* ws, unsigned nFixed) {
  if (!fi->decoded) decode(*fi);
  if (s.st.size() > opt.maxDepth) { report(s, "steplimit", "call depth limit (unbounded recursion?)", true); return false; }
  fi->calls++;
  s.st.emplace_back(); Frame& f = s.st.back(); f.f = fi; f.pc = 0; f.call = nullptr; f.regs.resize(fi->nslots, V(0));
  size_t na = 0; for (auto& a : fi->F->args()) na += nLeaves(a.getType());
  for (size_t k = 0; k < na && k < args.size(); k++) f.regs[k] = args[k];
  if (fi->F->isVarArg()) for (size_t k = nFixed; k < args.size(); k++) { f.varargs.push_back(args[k]); f.varW.push_back(ws ? (*ws)[k] : 64); }
  return true;
}
bool Engine::call(State& s, const Ins& i) {
  auto* ci = (CallInfo*)i.p; Frame& f = s.st.back(); auto& R = f.regs; auto& K = f.f->consts;
  vector<Val> a(ci->args.size()); for (size_t k = 0; k < a.size(); k++) a[k] = REG(ci->args[k]);
  FInfo* fi = ci->fi; int b = ci->builtin; const Function* cf = ci->callee;
  if (ci->indirect) {
    Val fv = REG(ci->fnSlot); u64 fa; if (fv.e) { concretize(s, fv, 64, fa); } else fa = fv.c;
    auto it = addrFn.find(fa); if (it == addrFn.end()) { report(s, "memory", "call through invalid function pointer", true); return false; }
    cf = it->second; fi = getF(cf); b = builtinId(cf);
  }
  f.call = &i;
  if (ci->intrinsic) return intrinsic(s, i, *ci, a);
  if (b >= 0) return builtin(s, i, *ci, b, a);
  if (cf->isDeclaration() && fi->F->isDeclaration()) { string n = cf->getName().str(); unsupported["call to " + n]++; s.incomplete = true; pathsIncomplete++; if (opt.verbose) errs() << "unsupported external " << n << "\n" << stack(s); endState(s); return false; }
  vector<u64> copies;
  for (size_t k = 0; k < a.size(); k++) if (ci->byval[k]) { Obj* o = alloc(s, ci->byval[k], OK_STACK, "stack"); u64 src; concretize(s, a[k], 64, src); bool ok; if (!copyMem(s, V(o->base), V(src), V(ci->byval[k]), ok)) return false; a[k] = V(o->base); copies.push_back(o->base); }
  if (!enter(s, fi, a, &i, &ci->argW, ci->nFixed)) return false;
  for (u64 c : copies) s.st.back().allocas.push_back(c);
  return true;
}
// ------------------------------------------------------------------ block memory
bool Engine::copyMem(State& s, Val d, Val src, Val n, bool& ok) {
  ok = true; u64 da, sa;
  if (!n.e && n.c == 0) return true;
  auto conc = [&](Val v) { u64 a; concretize(s, v, 64, a); return a; };
  da = conc(d); sa = conc(src);
  Obj *od = find(s, da), *os = find(s, sa);
  if (n.e) {
    // symbolic length: bounded conditional copy
    E z = mkCmp(K_EQ, n.e, mkConst(0, n.e->width)); E nz = n.e->width < 64 ? mkZExt(n.e, 64) : n.e;
    if (!od || !os) { State* ot = nullptr; int r = branch(s, z, &ot); if (r == 1) return true; if (r == 2) { if (side) { report(*ot, "memory", "invalid pointer in block copy", false); delete ot; return true; } ot->st.back().pc--; work.push_back(ot); } report(s, "memory", "invalid pointer in block copy", true); return false; }
    u64 av = min(od->size - (da - od->base), os->size - (sa - os->base));
    E in = mkCmp(K_ULE, nz, mkConst(av, 64));
    if (od->symSize) { u64 o = da - od->base; in = mkBin(K_AND, in, mkBin(K_AND, mkCmp(K_ULE, mkConst(o, 64), od->symSize), mkCmp(K_ULE, nz, mkBin(K_SUB, od->symSize, mkConst(o, 64))))); }
    if (os->symSize) { u64 o = sa - os->base; in = mkBin(K_AND, in, mkBin(K_AND, mkCmp(K_ULE, mkConst(o, 64), os->symSize), mkCmp(K_ULE, nz, mkBin(K_SUB, os->symSize, mkConst(o, 64))))); }
    State* ot = nullptr; memChecks++; int r = branch(s, in, &ot);
    if (r == 2) { if (side) { report(*ot, "memory", "out of bounds block copy", true); delete ot; } else { ot->st.back().pc--; work.push_back(ot); report(s, "memory", "out of bounds block copy", true); return false; } }
    if (r == 0) { report(s, "memory", "out of bounds block copy", true); return false; }
    memProved++;
    // largest feasible length
    u64 mx = av; if (mx > 8192) { // probe smaller bounds
      Model m; bool unk; for (u64 t = 64; t < mx; t *= 2) { if (!query(s, mkCmp(K_ULT, mkConst(t, 64), nz), m, unk) && !unk) { mx = t; break; } } }
    if (mx > 70000) { u64 c; concretize(s, n, 64, c); return copyMem(s, V(da), V(sa), V(c), ok); }
    vector<E> v(mx); for (u64 k = 0; k < mx; k++) v[k] = toE(readBytes(os, sa - os->base + k, 8), 8);
    for (u64 k = 0; k < mx; k++) { E old = toE(readBytes(od, da - od->base + k, 8), 8); if (old == v[k]) continue; writeBytes(s, od, da - od->base + k, 8, fromE(mkIte(mkCmp(K_ULT, mkConst(k, 64), nz), v[k], old))); od = find(s, da); }
    return true;
  }
  u64 len = n.c; u64 o1, o2; E e;
  Obj *x, *y;
  if (!resolve(s, V(sa), len, false, y, o2, e, "block read")) return false;
  if (!resolve(s, V(da), len, true, x, o1, e, "block write")) return false;
  y = find(s, sa); x = wr(s, find(s, da)); y = find(s, sa);
  x->need(o1 + len);
  if (y->sym.empty() && x->sym.empty() && o2 + len <= y->d.size()) { memmove(&x->d[o1], &y->d[o2], len); return true; }
  vector<u8> tb(len); vector<E> te(len); bool any = false; for (u64 k = 0; k < len; k++) { tb[k] = y->conc(o2 + k); te[k] = y->symAt(o2 + k); any |= te[k] != nullptr; }
  memcpy(&x->d[o1], tb.data(), len);
  if (any && x->sym.empty()) x->sym.resize(x->d.size(), nullptr);
  if (!x->sym.empty()) for (u64 k = 0; k < len; k++) x->sym[o1 + k] = te[k];
  return true;
}
bool Engine::setMem(State& s, Val d, Val c, Val n) {
  if (!n.e && n.c == 0) return true;
  u64 len, da; concretize(s, d, 64, da);
  if (n.e) {
    Obj* od = find(s, da); E nz = n.e->width < 64 ? mkZExt(n.e, 64) : n.e;
    if (!od) { report(s, "memory", "invalid pointer in block fill", true); return false; }
    u64 av = od->size - (da - od->base); E in = mkCmp(K_ULE, nz, mkConst(av, 64));
    if (od->symSize) { u64 o = da - od->base; in = mkBin(K_AND, in, mkCmp(K_ULE, nz, mkBin(K_SUB, od->symSize, mkConst(o, 64)))); }
    State* ot = nullptr; int r = branch(s, in, &ot);
    if (r == 2) { if (side) { report(*ot, "memory", "out of bounds block fill", true); delete ot; } else { ot->st.back().pc--; work.push_back(ot); report(s, "memory", "out of bounds block fill", true); return false; } }
    if (r == 0) { report(s, "memory", "out of bounds block fill", true); return false; }
    if (av <= 8192) { E cv = toE(c, 8); for (u64 j = 0; j < av; j++) { E old = toE(readBytes(od, da - od->base + j, 8), 8); if (old == cv) continue; writeBytes(s, od, da - od->base + j, 8, fromE(mkIte(mkCmp(K_ULT, mkConst(j, 64), nz), cv, old))); od = find(s, da); } return true; }
    concretize(s, n, 64, len);
    if (!len) return true;
  } else len = n.c;
  Obj* o; u64 off; E e; if (!resolve(s, V(da), len, true, o, off, e, "block fill")) return false;
  o = wr(s, find(s, da));
  if (!c.e && off == 0 && len == o->size) { o->d.clear(); o->sym.clear(); o->fill = (u8)c.c; o->d.shrink_to_fit(); return true; }
  o->need(off + len);
  if (!c.e) { memset(&o->d[off], (int)c.c, len); if (!o->sym.empty()) for (u64 j = 0; j < len; j++) o->sym[off + j] = nullptr; }
  else for (u64 j = 0; j < len; j++) writeBytes(s, o, off + j, 8, c);
  return true;
}
// ------------------------------------------------------------------ exceptions
static string g(Engine& E, u64 a) { auto it = E.addrName.find(a); return it == E.addrName.end() ? "" : it->second; }
// all (type, address) base subobjects of an object of dynamic type ti at obj
bool Engine::bases(State& s, u64 ti, u64 obj, u64 off, vector<pair<u64, u64>>& out) {
  out.push_back({ti, obj});
  u64 vt = rd64(s, ti); string n; for (u64 d : {16, 0}) { n = g(*this, vt - d); if (!n.empty()) break; }
  if (n.find("__si_class_type_info") != string::npos) return bases(s, rd64(s, ti + 16), obj, 0, out);
  if (n.find("__vmi_class_type_info") != string::npos) {
    u64 fc = rd64(s, ti + 16); unsigned cnt = (unsigned)(fc >> 32);
    for (unsigned k = 0; k < cnt; k++) { u64 b = rd64(s, ti + 24 + 16 * k); i64 fl = (i64)rd64(s, ti + 32 + 16 * k); i64 o = fl >> 8; u64 sub; if (fl & 1) { u64 vp = rd64(s, obj); i64 vo = (i64)rd64(s, vp + o); sub = obj + vo; } else sub = obj + o; bases(s, b, sub, 0, out); }
  }
  return true;
}
bool Engine::typeMatch(State& s, u64 thrown, u64 want, u64 obj, u64& adj) {
  if (want == 0) { adj = obj; return true; }
  vector<pair<u64, u64>> bs; bases(s, thrown, obj, 0, bs);
  for (auto& b : bs) if (b.first == want) { adj = b.second; return true; }
  return false;
}
void Engine::throwExc(State& s, u64 obj) {
  ExcInfo* ex = nullptr; for (auto& e : s.excs) if (e.obj == obj) ex = &e;
  u64 ti = ex ? ex->tinfo : 0;
  // phase 1
  int h = -1; bool cleanupAny = false; (void)cleanupAny;
  auto look = [&](int fi, u64& sel, u64& adj, bool& cleanup) -> bool {
    Frame& f = s.st[fi]; if (!f.call || f.call->op != OP_CALL) return false; auto* ci = (CallInfo*)f.call->p; if (!ci->invoke) return false;
    u32 pc = ci->unwind.target; while (f.f->code[pc].op != OP_LANDINGPAD) pc++; // first instruction after phis
    auto* li = (LpadInfo*)f.f->code[pc].p; cleanup = li->cleanup;
    for (auto& c : li->cl) { if (c.filter) { bool allowed = false; for (u64 t : c.tis) if (typeMatch(s, ti, t, obj, adj)) allowed = true; if (!allowed) { sel = (u64)(u32)-1; adj = obj; return true; } } else if (typeMatch(s, ti, c.tis[0], obj, adj)) { sel = c.tis[0] ? (u32)c.tis[0] : 1; return true; } }
    return false; };
  u64 sel, adj; bool cl;
  for (int k = (int)s.st.size() - 1; k >= 0; k--) if (look(k, sel, adj, cl)) { h = k; break; }
  if (h < 0) { string t = g(*this, ti); report(s, "exception", "uncaught exception " + demangle(t), true); return; }
  while (!s.st.empty()) {
    int k = (int)s.st.size() - 1; cl = false; sel = 0; adj = obj;
    bool m = look(k, sel, adj, cl);
    if (m || cl) {
      Frame& f = s.st[k]; auto* ci = (CallInfo*)f.call->p;
      if (m && ex) ex->adj = adj; else sel = 0;
      jump(s, ci->unwind); u32 pc = f.pc; while (f.f->code[pc].op != OP_LANDINGPAD) pc++;
      const Ins& L = f.f->code[pc]; f.regs[L.dst] = V(obj); f.regs[L.dst + 1] = V(m ? sel & 0xffffffff : 0); f.pc = pc + 1; f.call = nullptr; return;
    }
    popFrame(s);
  }
}
// ------------------------------------------------------------------ main loop
static inline bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sext64(a, w) > sext64(b, w); case CmpInst::ICMP_SGE: return sext64(a, w) >= sext64(b, w); case CmpInst::ICMP_SLT: return sext64(a, w) < sext64(b, w); default: return sext64(a, w) <= sext64(b, w); }
}
static E icmpE(unsigned p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkCmp(K_EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkCmp(K_EQ, a, b)); case CmpInst::ICMP_UGT: return mkCmp(K_ULT, b, a); case CmpInst::ICMP_UGE: return mkCmp(K_ULE, b, a); case CmpInst::ICMP_ULT: return mkCmp(K_ULT, a, b); case CmpInst::ICMP_ULE: return mkCmp(K_ULE, a, b);
    case CmpInst::ICMP_SGT: return mkCmp(K_SLT, b, a); case CmpInst::ICMP_SGE: return mkCmp(K_SLE, b, a); case CmpInst::ICMP_SLT: return mkCmp(K_SLT, a, b); default: return mkCmp(K_SLE, a, b); }
}
static E fcmpE(unsigned p, E a, E b) {
  E u = mkFCmp(K_FUNO, a, b), r;
  switch (p) { case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1); case CmpInst::FCMP_OEQ: return mkFCmp(K_FOEQ, a, b); case CmpInst::FCMP_OGT: return mkFCmp(K_FOLT, b, a); case CmpInst::FCMP_OGE: return mkFCmp(K_FOLE, b, a); case CmpInst::FCMP_OLT: return mkFCmp(K_FOLT, a, b); case CmpInst::FCMP_OLE: return mkFCmp(K_FOLE, a, b);
    case CmpInst::FCMP_ONE: return mkBin(K_AND, mkNot(u), mkNot(mkFCmp(K_FOEQ, a, b))); case CmpInst::FCMP_ORD: return mkNot(u); case CmpInst::FCMP_UNO: return u; case CmpInst::FCMP_UEQ: r = mkFCmp(K_FOEQ, a, b); break; case CmpInst::FCMP_UGT: r = mkFCmp(K_FOLT, b, a); break; case CmpInst::FCMP_UGE: r = mkFCmp(K_FOLE, b, a); break; case CmpInst::FCMP_ULT: r = mkFCmp(K_FOLT, a, b); break; case CmpInst::FCMP_ULE: r = mkFCmp(K_FOLE, a, b); break; default: return mkNot(mkFCmp(K_FOEQ, a, b)); }
  return mkBin(K_OR, u, r);
}
void Engine::runState(State* sp) {
  State& s = *sp; cur = sp; dead = false; u64 tick = 0;
  while (!dead) {
    if (s.st.empty()) { break; }
    Frame& f = s.st.back();
    auto* R = f.regs.data(); auto* K = f.f->consts.data(); const Ins* code = f.f->code.data();
    u64 st0 = s.steps; (void)st0;
    // run inside this frame until it changes
    for (;;) {
      const Ins& i = code[f.pc++]; s.steps++;
      if ((++tick & 0xffff) == 0) { if (elapsed() > opt.maxTime) { timeout = true; steps += tick; pathsIncomplete++; return; } if (s.steps > opt.maxSteps) { report(s, "steplimit", "step limit reached (possible non-termination)", true); steps += tick; return; } }
      switch (i.op) {
        case OP_BIN: {
          Val a = REG(i.a), b = REG(i.b); unsigned w = i.w;
          if ((i.sub == K_UDIV || i.sub == K_SDIV || i.sub == K_UREM || i.sub == K_SREM)) {
            if (!b.e) { if (b.c == 0) { report(s, "arith", "division by zero", true); steps += tick; return; } }
            else { State* o = nullptr; int r = branch(s, mkCmp(K_EQ, b.e, mkConst(0, w)), &o); if (r == 1) { report(s, "arith", "division by zero", true); steps += tick; return; } if (r == 2) { if (side) { o->st.back().pc--; work.push_back(o); report(s, "arith", "division by zero", true); steps += tick; return; } report(*o, "arith", "division by zero", true); delete o; } }
          }
          if (!a.e && !b.e) {
            u64 x = a.c, y = b.c, r; u64 m = mask64(w);
            switch (i.sub) { case K_ADD: r = x + y; break; case K_SUB: r = x - y; break; case K_MUL: r = x * y; break; case K_AND: r = x & y; break; case K_OR: r = x | y; break; case K_XOR: r = x ^ y; break;
              case K_UDIV: r = x / y; break; case K_UREM: r = x % y; break;
              case K_SDIV: { i64 p = sext64(x, w), q = sext64(y, w); r = q == -1 ? (u64)(0 - (u64)p) : (u64)(p / q); break; } case K_SREM: { i64 p = sext64(x, w), q = sext64(y, w); r = q == -1 ? 0 : (u64)(p % q); break; }
              case K_SHL: y &= (w == 64 ? 63 : w == 32 ? 31 : ~0ull); r = y >= w ? 0 : x << y; break; case K_LSHR: y &= (w == 64 ? 63 : w == 32 ? 31 : ~0ull); r = y >= w ? 0 : x >> y; break; default: y &= (w == 64 ? 63 : w == 32 ? 31 : ~0ull); r = (u64)(sext64(x, w) >> (y >= w ? w - 1 : y)); break; }
            R[i.dst] = V(r & m);
          } else { E eb = toE(b, w); if ((i.sub == K_SHL || i.sub == K_LSHR || i.sub == K_ASHR) && (w == 32 || w == 64) && !isC(eb)) eb = mkBin(K_AND, eb, mkConst(w - 1, w)); R[i.dst] = fromE(mkBin((Kind)i.sub, toE(a, w), eb)); }
          break; }
        case OP_ICMP: { Val a = REG(i.a), b = REG(i.b); if (!a.e && !b.e) R[i.dst] = V(icmpC(i.sub, a.c, b.c, i.w)); else R[i.dst] = fromE(icmpE(i.sub, toE(a, i.w), toE(b, i.w))); break; }
        case OP_FBIN: { Val a = REG(i.a), b = REG(i.b); if (!a.e && !b.e) R[i.dst] = V(foldFBin((Kind)i.sub, a.c, b.c, i.w)); else R[i.dst] = fromE(mkFBin((Kind)i.sub, toE(a, i.w), toE(b, i.w))); break; }
        case OP_FCMP: { Val a = REG(i.a), b = REG(i.b); R[i.dst] = fromE(fcmpE(i.sub, toE(a, i.w), toE(b, i.w))); break; }
        case OP_FUN: { Val a = REG(i.a); unsigned ws = i.w2 ? i.w2 : i.w; R[i.dst] = fromE(mkFUn((Kind)i.sub, toE(a, ws), (unsigned)i.imm, i.w)); break; }
        case OP_SELECT: { Val c = REG(i.a); if (!c.e) R[i.dst] = c.c & 1 ? REG(i.b) : REG(i.c); else { Val a = REG(i.b), b = REG(i.c); if (!a.e && !b.e && a.c == b.c) R[i.dst] = a; else R[i.dst] = fromE(mkIte(c.e, toE(a, i.w), toE(b, i.w))); } break; }
        case OP_ZEXT: { Val a = REG(i.a); if (!a.e) { if (i.w <= 64) R[i.dst] = a; else R[i.dst] = Val{0, mkConst(a.c, i.w)}; } else R[i.dst] = fromE(mkZExt(a.e, i.w)); break; }
        case OP_SEXT: { Val a = REG(i.a); if (!a.e) { if (i.w <= 64) R[i.dst] = V((u64)sext64(a.c, i.w2) & mask64(i.w)); else R[i.dst] = Val{0, mkSExt(mkConst(a.c, i.w2), i.w)}; } else R[i.dst] = fromE(mkSExt(a.e, i.w)); break; }
        case OP_TRUNC: { Val a = REG(i.a); if (!a.e) R[i.dst] = V(a.c & mask64(i.w)); else R[i.dst] = fromE(mkExtract(a.e, 0, i.w)); break; }
        case OP_COPY: R[i.dst] = REG(i.a); break;
        case OP_NOP: break;
        case OP_LOAD: { Val a = REG(i.a); if (i.imm) { if (!a.e) a.c += i.imm; else a = fromE(mkBin(K_ADD, a.e, mkConst(i.imm, 64))); } Val v; if (!doLoad(s, a, i.w, v)) { steps += tick; tick = 0; if (dead) return; goto reframe; } R[i.dst] = v; break; }
        case OP_STORE: { Val a = REG(i.a); if (i.imm) { if (!a.e) a.c += i.imm; else a = fromE(mkBin(K_ADD, a.e, mkConst(i.imm, 64))); } if (!doStore(s, a, i.w, REG(i.b))) { steps += tick; tick = 0; if (dead) return; goto reframe; } break; }
        case OP_GEP: {
          Val a = REG(i.a); u64 c = i.imm; E e = a.e; if (!e) c += a.c;
          if (i.sub) { auto* gi = (GepInfo*)i.p; for (auto& t : gi->terms) { Val x = REG(t.slot); if (!x.e) c += (u64)sext64(x.c, t.w) * (u64)t.scale; else { E y = mkSExt(x.e, 64); if (t.w > 64) y = mkExtract(x.e, 0, 64); y = mkBin(K_MUL, y, mkConst((u64)t.scale, 64)); e = e ? mkBin(K_ADD, e, y) : y; } } }
          R[i.dst] = e ? fromE(mkBin(K_ADD, e, mkConst(c, 64))) : V(c); break; }
        case OP_ALLOCA: { u64 n; Val a = REG(i.a); concretize(s, a, i.w, n); Obj* o = alloc(s, i.imm * n, OK_STACK, "stack", i.w2); f.allocas.push_back(o->base); R[i.dst] = V(o->base); break; }
        case OP_BR: jump(s, *(Edge*)i.p); break;
        case OP_CONDBR: {
          Val c = REG(i.a); auto* p = (pair<Edge, Edge>*)i.p;
          if (!c.e) { jump(s, c.c & 1 ? p->first : p->second); break; }
          State* o = nullptr; int r = branch(s, c.e, &o);
          if (r == 2) { bool mine = side; s.depth++; o->depth++; jump(*o, mine ? p->second : p->first); work.push_back(o); jump(s, mine ? p->first : p->second); }
          else jump(s, r ? p->first : p->second);
          break; }
        case OP_SWITCH: {
          Val c = REG(i.a); auto* si = (SwitchInfo*)i.p;
          if (!c.e) { const Edge* e = &si->def; for (auto& x : si->cases) if (x.first == c.c) { e = &x.second; break; } jump(s, *e); break; }
          // the model's case first; siblings re-execute the switch without it
          u64 mv = (u64)evalE(c.e, *s.model); const Edge* e = nullptr; for (auto& x : si->cases) if (x.first == mv) e = &x.second;
          E cond;
          if (e) { // all case values sharing this target
            cond = mkConst(0, 1); for (auto& x : si->cases) if (x.second.target == e->target && x.second.moves == e->moves) cond = mkBin(K_OR, cond, mkCmp(K_EQ, c.e, mkConst(x.first, i.w)));
          } else { e = &si->def; cond = mkConst(1, 1); for (auto& x : si->cases) cond = mkBin(K_AND, cond, mkNot(mkCmp(K_EQ, c.e, mkConst(x.first, i.w)))); }
          State* o = nullptr; int r = branch(s, cond, &o);
          if (r == 2) { o->st.back().pc--; s.depth++; o->depth++; work.push_back(o); }
          jump(s, *e); break; }
        case OP_RET: {
          vector<Val> rv(i.ops.size()); for (size_t k = 0; k < rv.size(); k++) rv[k] = REG(i.ops[k]);
          popFrame(s); if (s.st.empty()) { steps += tick; return; }
          Frame& g = s.st.back(); const Ins* c = g.call; g.call = nullptr;
          if (c) { auto* ci = (CallInfo*)c->p; for (size_t k = 0; k < rv.size() && k < ci->retN; k++) g.regs[c->dst + k] = rv[k]; if (ci->invoke) jump(s, ci->normal); }
          goto reframe; }
        case OP_CALL: { call(s, i); steps += tick; tick = 0; if (elapsedTick()) { timeout = true; pathsIncomplete++; return; } if (dead) return; goto reframe; }
        case OP_UNREACHABLE: report(s, "unreachable", "unreachable code reached", true); steps += tick; return;
        case OP_RESUME: { u64 obj = REG(i.a).c; f.call = nullptr; popFrame(s); throwExc(s, obj); steps += tick; tick = 0; if (dead) return; goto reframe; }
        case OP_LANDINGPAD: break;
        case OP_VCAT: {
          // concatenate the source elements, then split
          E e = nullptr; for (size_t k = 0; k < i.ops.size(); k++) { E x = toE(REG(i.ops[k]), i.ws[k]); e = e ? mkConcat(x, e) : x; }
          for (u64 k = 0; k < i.imm; k++) R[i.dst + k] = fromE(mkExtract(e, k * i.w, i.w)); break; }
        case OP_RMW: {
          Val a = REG(i.a), b = REG(i.b), v; if (!doLoad(s, a, i.w, v)) { if (dead) { steps += tick; return; } goto reframe; }
          E x = toE(v, i.w), y = toE(b, i.w), r; switch (i.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(K_ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(K_SUB, x, y); break; case AtomicRMWInst::And: r = mkBin(K_AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(K_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(K_XOR, x, y); break; default: r = y; }
          if (!doStore(s, a, i.w, fromE(r))) { if (dead) { steps += tick; return; } goto reframe; } R[i.dst] = v; break; }
        case OP_CMPXCHG: {
          Val a = REG(i.a), v; if (!doLoad(s, a, i.w, v)) { if (dead) { steps += tick; return; } goto reframe; }
          E eq = mkCmp(K_EQ, toE(v, i.w), toE(REG(i.b), i.w)); Val nv = fromE(mkIte(eq, toE(REG(i.c), i.w), toE(v, i.w))); doStore(s, a, i.w, nv); R[i.dst] = v; R[i.dst + 1] = fromE(eq); break; }
        default: { string t; raw_string_ostream os(t); if (i.I) i.I->print(os); unsupported["instruction " + t.substr(0, 100)]++; pathsIncomplete++; s.incomplete = true; endState(s); steps += tick; return; }
      }
    }
  reframe:;
  }
  steps += tick;
}
void Engine::run(const string& entry) {
  t0 = chrono::steady_clock::now();
  State* s = new State(); s->model = make_shared<Model>(); s->nextAddr = 0x100000000ull;
  initGlobals(*s);
  // constructors, then the entry point, as a chain of frames (last pushed runs first)
  vector<const Function*> order; vector<pair<unsigned, const Function*>> ctors;
  if (auto* gv = M->getNamedGlobal("llvm.global_ctors")) if (gv->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer())) for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
  stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* ef = M->getFunction(entry); if (!ef) { errs() << "no entry " << entry << "\n"; exit(3); }
  vector<Val> noargs; enter(*s, getF(ef), noargs, nullptr, nullptr, 0);
  for (int k = (int)ctors.size() - 1; k >= 0; k--) enter(*s, getF(ctors[k].second), noargs, nullptr, nullptr, 0);
  work.push_back(s);
  while (!work.empty()) {
    if (elapsed() > opt.maxTime) { timeout = true; break; }
    if (paths >= opt.maxPaths || findings.size() >= opt.maxFindings) { limitHit = true; break; }
    size_t pick = work.size() - 1; if (opt.search == "bfs") pick = 0; else if (opt.search == "mix" && (paths & 1)) pick = (paths * 7919) % work.size();
    State* x = work[pick]; work.erase(work.begin() + pick);
    runState(x);
    if (timeout) { delete x; break; }
    if (!dead) { // ran to completion
      paths++; if (x->incomplete) pathsIncomplete++;
      if (opt.samples && (samplesWritten < opt.samples || paths % 97 == 0) && samplesWritten < opt.samples * 2) writeCase(*x, opt.out + "/sample" + to_string(samplesWritten++) + ".case", "# sample path\n");
    }
    delete x;
  }
  pending = work.size();
}
