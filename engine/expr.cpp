#include "expr.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <map>
#include <algorithm>
using namespace std;

vector<VarInfo> gVars;
u32 newVar(const string& name, unsigned width) { gVars.push_back({name, width}); return (u32)gVars.size() - 1; }

static const size_t CHUNK = 1 << 14;
static vector<Expr*> gChunks; static size_t gUsed = CHUNK; static u32 gNext = 0;
u32 numExprs() { return gNext; }

// ---- var sets -----------------------------------------------------------
struct VSHash { size_t operator()(const VarSet* s) const { size_t h = 7; for (u64 x : s->w) h = h * 0x9E3779B97F4A7C15ull + x + (h >> 29); return h; } };
struct VSEq { bool operator()(const VarSet* a, const VarSet* b) const { return a->w == b->w; } };
static unordered_set<const VarSet*, VSHash, VSEq> gSets;
static const VarSet* internSet(VarSet&& s) {
  while (!s.w.empty() && !s.w.back()) s.w.pop_back();
  auto it = gSets.find(&s); if (it != gSets.end()) return *it;
  auto* n = new VarSet(move(s)); gSets.insert(n); return n;
}
static const VarSet* gEmpty = internSet(VarSet());
bool overlap(const VarSet* a, const VarSet* b) {
  size_t n = min(a->w.size(), b->w.size());
  for (size_t i = 0; i < n; i++) if (a->w[i] & b->w[i]) return true;
  return false;
}
const VarSet* unionSet(const VarSet* a, const VarSet* b) {
  if (a == b || b->w.empty()) return a;
  if (a->w.empty()) return b;
  if (a->w.size() < b->w.size()) swap(a, b);
  bool sub = true;
  for (size_t i = 0; i < b->w.size(); i++) if (b->w[i] & ~a->w[i]) { sub = false; break; }
  if (sub) return a;
  VarSet s = *a; for (size_t i = 0; i < b->w.size(); i++) s.w[i] |= b->w[i];
  return internSet(move(s));
}

// ---- interning ----------------------------------------------------------
struct EH { size_t operator()(E e) const {
  u64 h = e->k * 31 + e->width; auto mix = [&](u64 x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; };
  mix(e->aux); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); mix((u64)e->v); mix((u64)(e->v >> 64)); return h; } };
struct EQ { bool operator()(E x, E y) const { return x->k == y->k && x->width == y->width && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v; } };
static unordered_set<E, EH, EQ> gTab;
static E intern(Kind k, unsigned w, E a, E b, E c, u32 aux, u128 v) {
  Expr t; t.k = k; t.width = w; t.a = a; t.b = b; t.c = c; t.aux = aux; t.v = v; t.id = 0; t.vars = nullptr; t.fp = false;
  auto it = gTab.find(&t); if (it != gTab.end()) return *it;
  if (gUsed == CHUNK) { gChunks.push_back((Expr*)malloc(sizeof(Expr) * CHUNK)); gUsed = 0; }
  Expr* n = gChunks.back() + gUsed++; *n = t; n->id = gNext++;
  if (k == K_VAR) { VarSet s; s.w.resize(aux / 64 + 1); s.w[aux / 64] = 1ull << (aux & 63); n->vars = internSet(move(s)); }
  else { const VarSet* s = gEmpty; if (a) s = a->vars; if (b) s = unionSet(s, b->vars); if (c) s = unionSet(s, c->vars); n->vars = s; }
  n->fp = (k >= K_FADD) || (a && a->fp) || (b && b->fp) || (c && c->fp);
  gTab.insert(n); return n;
}
E mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, 0, 0, 0, v & maskW(w)); }
E mkVar(u32 i) { return intern(K_VAR, gVars[i].width, 0, 0, 0, i, 0); }
static E T1 = nullptr, F1 = nullptr;
static E mkB(bool b) { if (!T1) { T1 = mkConst(1, 1); F1 = mkConst(0, 1); } return b ? T1 : F1; }

static __int128 sx(u128 v, unsigned w) { if (w >= 128) return (__int128)v; u128 m = (u128)1 << (w - 1); v &= maskW(w); return (__int128)((v ^ m) - m); }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
  u128 M = maskW(w);
  switch (k) {
    case K_ADD: return (a + b) & M; case K_SUB: return (a - b) & M; case K_MUL: return (a * b) & M;
    case K_UDIV: return b ? a / b : M; case K_UREM: return b ? a % b : a;
    case K_SDIV: { __int128 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : M); if (y == -1) return ((u128)0 - (u128)x) & M; return (u128)(x / y) & M; }
    case K_SREM: { __int128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: return (u128)(sx(a, w) >> (b >= w ? w - 1 : (unsigned)b)) & M;
    default: abort();
  }
}
bool foldCmp(Kind k, u128 a, u128 b, unsigned w) {
  switch (k) { case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b; case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w); default: abort(); }
}
static bool isComm(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR; }
static bool isPow2(u128 v, unsigned& n) { if (!v || (v & (v - 1))) return false; n = 0; while (!(v & 1)) { v >>= 1; n++; } return true; }

// known-zero upper bits: number of significant low bits
static unsigned sigBits(E e, int d = 4) {
  if (isC(e)) { unsigned n = 0; u128 v = e->v; while (v) { n++; v >>= 1; } return n; }
  if (d == 0) return e->width;
  switch (e->k) {
    case K_ZEXT: return sigBits(e->a, d - 1);
    case K_ITE: return max(sigBits(e->b, d - 1), sigBits(e->c, d - 1));
    case K_AND: return min(sigBits(e->a, d - 1), sigBits(e->b, d - 1));
    case K_OR: case K_XOR: return max(sigBits(e->a, d - 1), sigBits(e->b, d - 1));
    case K_LSHR: if (isC(e->b) && e->b->v < e->width) { unsigned s = sigBits(e->a, d - 1), n = (unsigned)e->b->v; return s > n ? s - n : 0; } return sigBits(e->a, d - 1);
    case K_UDIV: return isC(e->b) && e->b->v ? sigBits(e->a, d - 1) : e->width;
    case K_UREM: if (isC(e->b) && e->b->v) return min(sigBits(e->a, d - 1), sigBits(e->b, d - 1)); return sigBits(e->a, d - 1);
    case K_ADD: { unsigned s = max(sigBits(e->a, d - 1), sigBits(e->b, d - 1)) + 1; return min<unsigned>(s, e->width); }
    case K_MUL: { unsigned s = sigBits(e->a, d - 1) + sigBits(e->b, d - 1); return min<unsigned>(s, e->width); }
    case K_SHL: if (isC(e->b) && e->b->v < e->width) return min<unsigned>(e->width, sigBits(e->a, d - 1) + (unsigned)e->b->v); return e->width;
    case K_CONCAT: { unsigned s = sigBits(e->a, d - 1); return s ? s + e->b->width : sigBits(e->b, d - 1); }
    default: return e->width;
  }
}

// ---- linear normal form: sum of coefficient * term + constant, terms sorted ---------------------
static const unsigned LIN_MAX = 24;
struct Lin { std::vector<std::pair<E, u128>> t; u128 c = 0; bool ok = true; };
static void linCollect(E e, u128 coef, Lin& l) {
  if (!l.ok) return; unsigned w = e->width; u128 M = maskW(w);
  if (isC(e)) { l.c = (l.c + coef * e->v) & M; return; }
  if (e->k == K_ADD) { linCollect(e->a, coef, l); linCollect(e->b, coef, l); return; }
  if (e->k == K_SUB) { linCollect(e->a, coef, l); linCollect(e->b, ((u128)0 - coef) & M, l); return; }
  if (e->k == K_MUL && isC(e->b)) { linCollect(e->a, (coef * e->b->v) & M, l); return; }
  for (auto& p : l.t) if (p.first == e) { p.second = (p.second + coef) & M; return; }
  if (l.t.size() >= LIN_MAX) { l.ok = false; return; }
  l.t.push_back({e, coef & M});
}
static E linBuild(Lin& l, unsigned w) {
  u128 M = maskW(w); sort(l.t.begin(), l.t.end(), [](auto& x, auto& y) { return x.first->id < y.first->id; });
  E acc = nullptr; u128 c = l.c & M;
  auto term = [&](E t, u128 k) -> E { if (k == 1) return t; unsigned n; if (isPow2(k, n)) return mkBin(K_SHL, t, mkConst(n, w)); return intern(K_MUL, w, t, mkConst(k, w), 0, 0, 0); };
  for (auto& p : l.t) if (p.second && !(p.second >> (w - 1))) { E t = term(p.first, p.second); if (!acc) acc = t; else { E x = acc, y = t; if (x->id > y->id) swap(x, y); acc = intern(K_ADD, w, x, y, 0, 0, 0); } }
  bool neg = false; for (auto& p : l.t) if (p.second && (p.second >> (w - 1))) { if (!acc) { acc = mkConst(c, w); c = 0; } neg = true; E t = term(p.first, ((u128)0 - p.second) & M); acc = intern(K_SUB, w, acc, t, 0, 0, 0); }
  (void)neg; if (!acc) return mkConst(c, w); if (!c) return acc; return intern(K_ADD, w, acc, mkConst(c, w), 0, 0, 0);
}
static bool linKind(E e) { return e->k == K_ADD || e->k == K_SUB || (e->k == K_MUL && isC(e->b)); }
E mkNot(E a) { return mkBin(K_XOR, a, mkConst(maskW(a->width), a->width)); }
E mkBin(Kind k, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "mkBin width mismatch %d %d kind %d\n", a->width, b->width, k); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->v, b->v, w), w);
  if (isComm(k)) { if (isC(a)) swap(a, b); else if (!isC(b) && a->id > b->id) swap(a, b); }
  u128 M = maskW(w); unsigned n;
  switch (k) {
    case K_ADD:
      if (isC(b)) { if (!b->v) return a;
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->v + b->v, w));
        if (a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkConst(a->a->v + b->v, w), a->b);
        if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v + b->v, w), mkConst(a->c->v + b->v, w)); }
      else if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      else if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_SUB && b->b == a) return b->a;
      if (a->k == K_SUB && a->b == b) return a->a;
      if (w == 1) return mkBin(K_XOR, a, b);
      for (int t = 0; t < 2; t++) { E x = t ? b : a, y = t ? a : b; if (x->k == K_CONCAT && isC(x->b) && x->b->v == 0 && sigBits(y) <= x->b->width) return mkBin(K_OR, x, y); }
      if (linKind(a) || linKind(b)) { Lin l; linCollect(a, 1, l); linCollect(b, 1, l); if (l.ok) return linBuild(l, w); }
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(a) && b->k == K_SUB && isC(b->a)) return mkBin(K_ADD, b->b, mkConst(a->v - b->a->v, w));
      if (isC(b)) return mkBin(K_ADD, a, mkConst((u128)0 - b->v, w));
      if (a->k == K_ADD && a->b == b) return a->a;
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst((u128)0 - b->b->v, w));
      if (w == 1) return mkBin(K_XOR, a, b);
      if (linKind(a) || linKind(b)) { Lin l; linCollect(a, 1, l); linCollect(b, maskW(w), l); if (l.ok) return linBuild(l, w); }
      break;
    case K_MUL:
      if (isC(b)) { if (!b->v) return b; if (b->v == 1) return a; if (isPow2(b->v, n)) return mkBin(K_SHL, a, mkConst(n, w));
        if (a->k == K_MUL && isC(a->b)) return mkBin(K_MUL, a->a, mkConst(a->b->v * b->v, w));
        if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v * b->v, w), mkConst(a->c->v * b->v, w));
        if (linKind(a)) { Lin l; linCollect(a, b->v, l); if (l.ok) return linBuild(l, w); } }
      break;
    case K_UDIV: if (isC(b)) { if (b->v == 1) return a; if (isPow2(b->v, n)) return mkBin(K_LSHR, a, mkConst(n, w));
        unsigned s = max(sigBits(a), sigBits(b)); if (b->v && s < w && s <= w / 2) { if (s == 0) return mkConst(0, w); return mkZExt(mkBin(K_UDIV, mkExtract(a, 0, s), mkConst(b->v, s)), w); } } break;
    case K_UREM: if (isC(b)) { if (b->v == 1) return mkConst(0, w); if (isPow2(b->v, n)) return n ? mkZExt(mkExtract(a, 0, n), w) : mkConst(0, w);
        unsigned s = max(sigBits(a), sigBits(b)); if (b->v && s < w && s <= w / 2) { if (s == 0) return mkConst(0, w); return mkZExt(mkBin(K_UREM, mkExtract(a, 0, s), mkConst(b->v, s)), w); } } break;
    case K_SDIV: case K_SREM:
      if (isC(b) && sx(b->v, w) > 0 && sigBits(a) < w) return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
      break;
    case K_AND:
      if (a == b) return a;
      if (isC(b)) { if (!b->v) return b; if (b->v == M) return a;
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->v & b->v, w));
        if (isPow2(b->v + 1, n)) { if (sigBits(a) <= n) return a; return mkZExt(mkExtract(a, 0, n), w); }
        if (isPow2(b->v, n)) { // single bit
          E bit = mkExtract(a, n, 1);
          return mkBin(K_SHL, mkZExt(bit, w), mkConst(n, w)); }
        if (a->k == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkConst(b->v >> a->b->width, a->a->width)), mkBin(K_AND, a->b, mkConst(b->v, a->b->width)));
        if (a->k == K_ZEXT) return mkZExt(mkBin(K_AND, a->a, mkConst(b->v, a->a->width)), w);
        { // contiguous high mask: x & (M << n)
          u128 inv = (~b->v) & M; unsigned n2; if (isPow2(inv + 1, n2)) return mkConcat(mkExtract(a, n2, w - n2), mkConst(0, n2)); } }
      if (w == 1) { if (a->k == K_XOR && isC(a->b) && a->a == b) return mkConst(0, 1); if (b->k == K_XOR && isC(b->b) && b->a == a) return mkConst(0, 1); }
      break;
    case K_OR:
      if (a == b) return a;
      if (isC(b)) { if (!b->v) return a; if (b->v == M) return b;
        if (a->k == K_CONCAT) return mkConcat(mkBin(K_OR, a->a, mkConst(b->v >> a->b->width, a->a->width)), mkBin(K_OR, a->b, mkConst(b->v, a->b->width))); }
      else {
        // disjoint pieces -> concat
        for (int t = 0; t < 2; t++) {
          E x = t ? b : a, y = t ? a : b; // x low part, y high part
          unsigned s = sigBits(x);
          if (s && s < w) {
            E yl = nullptr;
            if (y->k == K_SHL && isC(y->b) && y->b->v >= s && y->b->v < w) { unsigned sh = (unsigned)y->b->v; return mkConcat(mkExtract(y->a, 0, w - sh), mkExtract(x, 0, sh)); }
            if (y->k == K_CONCAT && isC(y->b) && y->b->v == 0 && y->b->width >= s) return mkConcat(y->a, mkExtract(x, 0, y->b->width));
            if (y->k == K_ZEXT && y->a->k == K_CONCAT && isC(y->a->b) && y->a->b->v == 0 && y->a->b->width >= s) return mkZExt(mkConcat(y->a->a, mkExtract(x, 0, y->a->b->width)), w);
            (void)yl;
          }
        }
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->width == b->b->width) return mkConcat(mkBin(K_OR, a->a, b->a), mkBin(K_OR, a->b, b->b));
      }
      if (w == 1) { if (a->k == K_XOR && isC(a->b) && a->a == b) return mkConst(1, 1); if (b->k == K_XOR && isC(b->b) && b->a == a) return mkConst(1, 1); }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (!b->v) return a; if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->v ^ b->v, w));
        if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v ^ b->v, w), mkConst(a->c->v ^ b->v, w));
        if (w == 1) { // not
          if (a->k == K_ULT) return mkCmp(K_ULE, a->b, a->a); if (a->k == K_ULE) return mkCmp(K_ULT, a->b, a->a);
          if (a->k == K_SLT) return mkCmp(K_SLE, a->b, a->a); if (a->k == K_SLE) return mkCmp(K_SLT, a->b, a->a); } }
      break;
    case K_SHL:
      if (isC(b)) { if (!b->v) return a; if (b->v >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->v;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      if (isC(a) && !a->v) return a; break;
    case K_LSHR:
      if (isC(b)) { if (!b->v) return a; if (b->v >= w) return mkConst(0, w); unsigned s = (unsigned)b->v; return mkZExt(mkExtract(a, s, w - s), w); }
      if (isC(a) && !a->v) return a; break;
    case K_ASHR:
      if (isC(b)) { if (!b->v) return a; unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    default: break;
  }
  return intern(k, w, a, b, 0, 0, 0);
}
E mkCmp(Kind k, E a, E b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "mkCmp width mismatch %d %d\n", a->width, b->width); abort(); }
  if (isC(a) && isC(b)) return mkB(foldCmp(k, a->v, b->v, w));
  if (a == b) return mkB(k == K_EQ || k == K_ULE || k == K_SLE);
  if (k == K_EQ) {
    if (isC(a)) swap(a, b); else if (!isC(b) && a->id > b->id) swap(a, b);
    if (w == 1) { if (isC(b)) return b->v ? a : mkNot(a); }
    if (isC(b)) {
      switch (a->k) {
        case K_ZEXT: if (b->v >> a->a->width) return mkB(false); return mkCmp(K_EQ, a->a, mkConst(b->v, a->a->width));
        case K_SEXT: { u128 lo = b->v & maskW(a->a->width); if ((((u128)sx(lo, a->a->width)) & maskW(w)) != b->v) return mkB(false); return mkCmp(K_EQ, a->a, mkConst(lo, a->a->width)); }
        case K_ADD: if (isC(a->b)) return mkCmp(K_EQ, a->a, mkConst(b->v - a->b->v, w)); break;
        case K_SUB: if (isC(a->a)) return mkCmp(K_EQ, a->b, mkConst(a->a->v - b->v, w)); if (b->v == 0) return mkCmp(K_EQ, a->a, a->b); break;
        case K_XOR: if (isC(a->b)) return mkCmp(K_EQ, a->a, mkConst(a->b->v ^ b->v, w)); if (b->v == 0) return mkCmp(K_EQ, a->a, a->b); break;
        case K_CONCAT: { unsigned lw = a->b->width; E hi = mkCmp(K_EQ, a->a, mkConst(b->v >> lw, a->a->width)); if (isFalse(hi)) return hi; E lo = mkCmp(K_EQ, a->b, mkConst(b->v, lw)); return mkBin(K_AND, hi, lo); }
        case K_OR: if (b->v == 0) return mkBin(K_AND, mkCmp(K_EQ, a->a, b), mkCmp(K_EQ, a->b, b)); break;
        case K_ITE: {
          if (isC(a->b) && isC(a->c)) { bool x = a->b->v == b->v, y = a->c->v == b->v; if (x && y) return mkB(true); if (!x && !y) return mkB(false); return x ? a->a : mkNot(a->a); }
          if (isC(a->b)) { E r = mkCmp(K_EQ, a->c, b); return a->b->v == b->v ? mkBin(K_OR, a->a, r) : mkBin(K_AND, mkNot(a->a), r); }
          if (isC(a->c)) { E r = mkCmp(K_EQ, a->b, b); return a->c->v == b->v ? mkBin(K_OR, mkNot(a->a), r) : mkBin(K_AND, a->a, r); }
          break; }
        default: { unsigned s = sigBits(a); if (s < 128 && (b->v >> s)) return mkB(false); }
      }
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->width == b->a->width) return mkCmp(K_EQ, a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->width == b->a->width) return mkCmp(K_EQ, a->a, b->a);
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && a->b == b->b) return mkCmp(K_EQ, a->a, b->a);
      if (linKind(a) || linKind(b)) { Lin l; linCollect(a, 1, l); linCollect(b, maskW(w), l); if (l.ok) { unsigned nz = 0; E t = nullptr; u128 k = 0; for (auto& p : l.t) if (p.second) { nz++; t = p.first; k = p.second; } if (!nz) return mkB(!(l.c & maskW(w))); if (nz == 1 && (k == 1 || k == maskW(w))) return mkCmp(K_EQ, t, mkConst(k == 1 ? (u128)0 - l.c : l.c, w)); } }
      if (a->k == K_ADD && isC(a->b) && a->a == b) return mkB(false);
      if (b->k == K_ADD && isC(b->b) && b->a == a) return mkB(false);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->width == b->b->width) return mkBin(K_AND, mkCmp(K_EQ, a->a, b->a), mkCmp(K_EQ, a->b, b->b));
    }
  } else if (k == K_ULT || k == K_ULE) {
    if (k == K_ULE) {
      if (isC(b)) { if (b->v == maskW(w)) return mkB(true); return mkCmp(K_ULT, a, mkConst(b->v + 1, w)); }
      if (isC(a)) { if (a->v == 0) return mkB(true); return mkCmp(K_ULT, mkConst(a->v - 1, w), b); }
    } else {
      if (isC(b)) { if (b->v == 0) return mkB(false); if (b->v == 1) return mkCmp(K_EQ, a, mkConst(0, w));
        unsigned s = sigBits(a); if (s < 128 && b->v > maskW(s)) return mkB(true);
        if (s == 0) return mkB(true);
        if (a->k == K_ZEXT) return mkCmp(k, a->a, mkConst(b->v, a->a->width));
        if (a->k == K_ITE && isC(a->b) && isC(a->c)) { bool x = a->b->v < b->v, y = a->c->v < b->v; if (x == y) return mkB(x); return x ? a->a : mkNot(a->a); } }
      if (isC(a)) { if (a->v == maskW(w)) return mkB(false); if (a->v == 0) return mkNot(mkCmp(K_EQ, b, mkConst(0, w)));
        unsigned s = sigBits(b); if (s < 128 && a->v >= maskW(s)) return mkB(false);
        if (b->k == K_ZEXT) return mkCmp(k, mkConst(a->v, b->a->width), b->a);
        if (b->k == K_ITE && isC(b->b) && isC(b->c)) { bool x = a->v < b->b->v, y = a->v < b->c->v; if (x == y) return mkB(x); return x ? b->a : mkNot(b->a); } }
    }
    if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->width == b->a->width) return mkCmp(k, a->a, b->a);
  } else {
    // signed: if both sides are known non-negative use the unsigned comparison
    if (sigBits(a) < w && sigBits(b) < w) return mkCmp(k == K_SLT ? K_ULT : K_ULE, a, b);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->width == b->a->width) return mkCmp(k, a->a, b->a);
    if (a->k == K_SEXT && isC(b)) { unsigned aw = a->a->width; __int128 v = sx(b->v, w); if (v >= -((__int128)1 << (aw - 1)) && v < ((__int128)1 << (aw - 1))) return mkCmp(k, a->a, mkConst(b->v, aw)); return mkB(v > 0); }
    if (b->k == K_SEXT && isC(a)) { unsigned bw = b->a->width; __int128 v = sx(a->v, w); if (v >= -((__int128)1 << (bw - 1)) && v < ((__int128)1 << (bw - 1))) return mkCmp(k, mkConst(a->v, bw), b->a); return mkB(v < 0); }
    if (isC(b) && sigBits(a) < w) { __int128 v = sx(b->v, w); if (v < 0) return mkB(false); }
    if (isC(a) && sigBits(b) < w) { __int128 v = sx(a->v, w); if (v < 0) return mkB(true); }
    if (a->k == K_ITE && isC(a->b) && isC(a->c) && isC(b)) { bool x = foldCmp(k, a->b->v, b->v, w), y = foldCmp(k, a->c->v, b->v, w); if (x == y) return mkB(x); return x ? a->a : mkNot(a->a); }
    if (b->k == K_ITE && isC(b->b) && isC(b->c) && isC(a)) { bool x = foldCmp(k, a->v, b->b->v, w), y = foldCmp(k, a->v, b->c->v, w); if (x == y) return mkB(x); return x ? b->a : mkNot(b->a); }
  }
  return intern(k, 1, a, b, 0, 0, 0);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (a->width != b->width) { fprintf(stderr, "mkIte width mismatch\n"); abort(); }
  if (c->k == K_XOR && isC(c->b)) return mkIte(c->a, b, a);
  if (a->width == 1) {
    if (isC(a)) return a->v ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isC(b)) return b->v ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->c);
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->width == b->a->width) return mkZExt(mkIte(c, a->a, b->a), a->width);
  if (a->k == K_ZEXT && isC(b) && !(b->v >> a->a->width)) return mkZExt(mkIte(c, a->a, mkConst(b->v, a->a->width)), a->width);
  if (b->k == K_ZEXT && isC(a) && !(a->v >> b->a->width)) return mkZExt(mkIte(c, mkConst(a->v, b->a->width), b->a), b->width);
  return intern(K_ITE, a->width, c, a, b, 0, 0);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->width) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->width) return mkExtract(hi->a, lo->aux, w);
  if (hi->k == K_EXTRACT && hi->a == lo && hi->aux == lo->width) return mkExtract(lo, 0, w);
  if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a->k == K_EXTRACT && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->width) return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (isC(lo) && hi->k == K_CONCAT && isC(hi->b)) return mkConcat(hi->a, mkConst((hi->b->v << lo->width) | lo->v, hi->b->width + lo->width));
  if (lo->k == K_CONCAT && isC(hi) && isC(lo->a)) return mkConcat(mkConst((hi->v << lo->a->width) | lo->a->v, hi->width + lo->a->width), lo->b);
  if (hi->k == K_EXTRACT && hi->aux == lo->width && linKind(hi->a) && mkExtract(hi->a, 0, hi->aux) == lo) return mkExtract(hi->a, 0, w);
  // same-condition ite
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  // canonical: right-nested
  if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return intern(K_CONCAT, w, hi, lo, 0, 0, 0);
}
static E mkExtract0(E a, unsigned off, unsigned w);
static struct XMemo { E a, r; u32 off, w; } gXMemo[1 << 16]; // shared subexpressions are cut only once
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  switch (a->k) { case K_AND: case K_OR: case K_XOR: case K_ADD: case K_SUB: case K_MUL: case K_ITE: { XMemo& m = gXMemo[(((size_t)a >> 4) * 31 + off * 7 + w * 131) & 0xFFFF]; if (m.a == a && m.off == off && m.w == w) return m.r; E r = mkExtract0(a, off, w); m = XMemo{a, r, off, w}; return r; } default: return mkExtract0(a, off, w); }
}
static E mkExtract0(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (off + w > a->width) { fprintf(stderr, "bad extract %u %u of %u\n", off, w, a->width); abort(); }
  switch (a->k) {
    case K_CONST: return mkConst(a->v >> off, w);
    case K_EXTRACT: return mkExtract(a->a, a->aux + off, w);
    case K_CONCAT: { unsigned lw = a->b->width; if (off >= lw) return mkExtract(a->a, off - lw, w); if (off + w <= lw) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
    case K_ZEXT: { unsigned iw = a->a->width; if (off >= iw) return mkConst(0, w); if (off + w <= iw) return mkExtract(a->a, off, w); return mkZExt(mkExtract(a->a, off, iw - off), w); }
    case K_SEXT: { unsigned iw = a->a->width; if (off + w <= iw) return mkExtract(a->a, off, w); if (off < iw) return mkSExt(mkExtract(a->a, off, iw - off), w); return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
    case K_AND: case K_OR: case K_XOR: return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case K_ADD: case K_SUB: case K_MUL: if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    case K_ITE: if (isC(a->b) || isC(a->c) || (a->b->k == K_ITE) == false) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
    default: break;
  }
  { unsigned s = sigBits(a); if (off >= s) return mkConst(0, w); }
  return intern(K_EXTRACT, w, a, 0, 0, off, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  return intern(K_ZEXT, w, a, 0, 0, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst((u128)sx(a->v, a->width), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT || sigBits(a) < a->width) return mkZExt(a, w);
  if (a->k == K_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  if (w <= 64 && linKind(a)) { // no signed overflow possible: extend the terms instead
    Lin l; linCollect(a, 1, l); unsigned aw = a->width; if (l.ok && l.t.size() <= 8) { __int128 lo = sx(l.c, aw), hi = lo, lim = (__int128)1 << (aw - 1); bool ok = true;
      for (auto& p : l.t) if (p.second) { unsigned sb = sigBits(p.first); if (sb >= aw) { ok = false; break; } __int128 k = sx(p.second, aw), mx = k * (__int128)maskW(sb); if (k > 0) hi += mx; else lo += mx; if (hi >= lim || lo < -lim) { ok = false; break; } }
      if (ok) { Lin m; m.c = (u128)sx(l.c, aw) & maskW(w); for (auto& p : l.t) if (p.second) linCollect(mkZExt(p.first, w), (u128)sx(p.second, aw) & maskW(w), m); if (m.ok) return linBuild(m, w); } } }
  return intern(K_SEXT, w, a, 0, 0, 0, 0);
}
// ---- floating point -------------------------------------------------------
double roundMode(double x, unsigned m) { switch (m) { case RM_FLOOR: return floor(x); case RM_CEIL: return ceil(x); case RM_TRUNC: return trunc(x); case RM_ROUND: return round(x); default: return nearbyint(x); } }
u64 foldFBin(Kind k, u64 a, u64 b, unsigned w) {
  if (w == 64) { double x = bitsD(a), y = bitsD(b), r; switch (k) { case K_FADD: r = x + y; break; case K_FSUB: r = x - y; break; case K_FMUL: r = x * y; break; case K_FDIV: r = x / y; break; default: abort(); } return dBits(r); }
  float x = bitsF((u32)a), y = bitsF((u32)b), r; switch (k) { case K_FADD: r = x + y; break; case K_FSUB: r = x - y; break; case K_FMUL: r = x * y; break; case K_FDIV: r = x / y; break; default: abort(); } return fBits(r);
}
u64 foldFUn(Kind k, u64 a, unsigned aux, unsigned sw, unsigned w) {
  auto src = [&]() { return sw == 64 ? bitsD(a) : (double)bitsF((u32)a); };
  auto out = [&](double d) -> u64 { return w == 64 ? dBits(d) : fBits((float)d); };
  switch (k) {
    case K_FNEG: return a ^ (1ull << (sw - 1));
    case K_FABS: return a & ~(1ull << (sw - 1));
    case K_FSQRT: return sw == 64 ? dBits(sqrt(bitsD(a))) : fBits(sqrtf(bitsF((u32)a)));
    case K_FROUND: return sw == 64 ? dBits(roundMode(bitsD(a), aux)) : fBits((float)roundMode(bitsF((u32)a), aux));
    case K_FEXT: return dBits((double)bitsF((u32)a));
    case K_FTRUNC: return fBits((float)bitsD(a));
    case K_SITOF: { i64 v = sext64(a, sw); return w == 64 ? dBits((double)v) : fBits((float)v); }
    case K_UITOF: { u64 v = a & mask64(sw); return w == 64 ? dBits((double)v) : fBits((float)v); }
    // x86-64 behaviour for values out of range (the conversion itself is undefined in C++)
    case K_FTOSI: { double d = src(); if (w == 64) return (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (u64)(i64)d : 1ull << 63;
      return ((d > -2147483649.0 && d < 2147483648.0) ? (u64)(i64)d : 0x80000000ull) & mask64(w); }
    case K_FTOUI: { double d = src(); auto c64 = [](double d) -> u64 { return (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (u64)(i64)d : 1ull << 63; };
      if (w < 64) return c64(d) & mask64(w);
      return d >= 9223372036854775808.0 ? c64(d - 9223372036854775808.0) ^ (1ull << 63) : c64(d); }
    default: (void)out; abort();
  }
}
bool foldFCmp(Kind k, u64 a, u64 b, unsigned w) {
  double x = w == 64 ? bitsD(a) : bitsF((u32)a), y = w == 64 ? bitsD(b) : bitsF((u32)b);
  switch (k) { case K_FOEQ: return x == y; case K_FOLT: return x < y; case K_FOLE: return x <= y; case K_FUNO: return x != x || y != y; default: abort(); }
}
E mkFBin(Kind k, E a, E b) {
  if (isC(a) && isC(b)) return mkConst(foldFBin(k, (u64)a->v, (u64)b->v, a->width), a->width);
  return intern(k, a->width, a, b, 0, 0, 0);
}
E mkFUn(Kind k, E a, unsigned aux, unsigned w) {
  if (isC(a)) return mkConst(foldFUn(k, (u64)a->v, aux, a->width, w), w);
  if (k == K_FNEG) return mkBin(K_XOR, a, mkConst((u128)1 << (a->width - 1), a->width));
  if (k == K_FABS) return mkBin(K_AND, a, mkConst(maskW(a->width - 1), a->width));
  if (k == K_FTRUNC && a->k == K_FEXT) return a->a;
  if ((k == K_SITOF || k == K_UITOF) && a->k == K_ZEXT && a->a->width < 64) return mkFUn(K_UITOF, a->a, aux, w); // shortest form of the integer operand
  if (k == K_SITOF && a->k == K_SEXT) return mkFUn(K_SITOF, a->a, aux, w);
  if (k == K_SITOF || k == K_UITOF) { unsigned s = sigBits(a); if (s < a->width) return s ? mkFUn(K_UITOF, mkExtract(a, 0, s), aux, w) : mkConst(0, w); }
  if ((k == K_FTOUI || k == K_FTOSI) && a->width == 64 && a->k == K_UITOF && a->a->width <= 53 && (a->a->width < w || (a->a->width == w && k == K_FTOUI))) return mkZExt(a->a, w); // exact
  if (k == K_FTOSI && a->width == 64 && a->k == K_SITOF && a->a->width <= 53 && a->a->width <= w) return mkSExt(a->a, w);
  return intern(k, w, a, 0, 0, aux, 0);
}
E mkFCmp(Kind k, E a, E b) {
  if (isC(a) && isC(b)) return mkB(foldFCmp(k, (u64)a->v, (u64)b->v, a->width));
  if (a->width == 64) { // comparisons of converted integers (exact up to 53 bits) with each other and with constants
    auto isI = [](E x) { return x->k == K_UITOF && x->a->width <= 53; };
    auto num = [](E x) { return isC(x) && !std::isnan(bitsD((u64)x->v)); };
    if (isI(a) && isI(b)) { unsigned w = max(a->a->width, b->a->width); E x = mkZExt(a->a, w), y = mkZExt(b->a, w); switch (k) { case K_FUNO: return mkB(false); case K_FOEQ: return mkCmp(K_EQ, x, y); case K_FOLT: return mkCmp(K_ULT, x, y); case K_FOLE: return mkCmp(K_ULE, x, y); default: break; } }
    if (isI(a) && num(b)) { double c = bitsD((u64)b->v), top = std::ldexp(1.0, (int)a->a->width); E x = a->a; auto K = [&](double v) { return mkConst((u128)v, x->width); };
      switch (k) { case K_FUNO: return mkB(false); case K_FOEQ: return c < 0 || c >= top || c != std::floor(c) ? mkB(false) : mkCmp(K_EQ, x, K(c));
        case K_FOLT: return c <= 0 ? mkB(false) : std::ceil(c) >= top ? mkB(true) : mkCmp(K_ULT, x, K(std::ceil(c))); case K_FOLE: return c < 0 ? mkB(false) : c >= top ? mkB(true) : mkCmp(K_ULE, x, K(std::floor(c))); default: break; } }
    if (num(a) && isI(b)) { double c = bitsD((u64)a->v), top = std::ldexp(1.0, (int)b->a->width); E x = b->a; auto K = [&](double v) { return mkConst((u128)v, x->width); };
      switch (k) { case K_FUNO: return mkB(false); case K_FOEQ: return c < 0 || c >= top || c != std::floor(c) ? mkB(false) : mkCmp(K_EQ, x, K(c));
        case K_FOLT: return c < 0 ? mkB(true) : std::floor(c) >= top ? mkB(false) : mkCmp(K_ULT, K(std::floor(c)), x); case K_FOLE: return c <= 0 ? mkB(true) : std::ceil(c) >= top ? mkB(false) : mkCmp(K_ULE, K(std::ceil(c)), x); default: break; } }
  }
  return intern(k, 1, a, b, 0, 0, 0);
}
E mkUF(u32 fn, E a) { if (isC(a)) return mkConst(evalUF(fn, (u64)a->v), 64); if (a->k == K_UF && a->aux == fn) return a; return intern(K_UF, 64, a, 0, 0, fn, 0); }
// UF 0: the value a double has after being written with "%f" and read back
// UF n (1..17): same with "%.<n>g"; 100+n: "%.nf"
u64 evalUF(u32 fn, u64 x) {
  char f[16], buf[512]; double d = bitsD(x);
  if (fn == 0) strcpy(f, "%f"); else if (fn >= 100) snprintf(f, 16, "%%.%uf", fn - 100); else snprintf(f, 16, "%%.%ug", fn);
  snprintf(buf, sizeof buf, f, d); return dBits(strtod(buf, nullptr));
}
void collectUF(E e, vector<E>& out) {
  unordered_set<E> seen; vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!x || !x->fp || !seen.insert(x).second) continue; if (x->k == K_UF) out.push_back(x); st.push_back(x->a); st.push_back(x->b); st.push_back(x->c); }
}
// ---- evaluation -----------------------------------------------------------
static u128 evalNode(E e, const Model& m) {
  auto V = [&](E x) -> u128 { return x->k == K_CONST ? x->v : x->k == K_VAR ? (u128)(m.get(x->aux) & mask64(x->width)) : m.memo.find(x->id)->second; };
  unsigned w = e->width;
  switch (e->k) {
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: return foldCmp(e->k, V(e->a), V(e->b), e->a->width);
    case K_CONCAT: return (V(e->a) << e->b->width) | V(e->b);
    case K_EXTRACT: return (V(e->a) >> e->aux) & maskW(w);
    case K_ZEXT: return V(e->a);
    case K_SEXT: return (u128)sx(V(e->a), e->a->width) & maskW(w);
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: return foldFBin(e->k, (u64)V(e->a), (u64)V(e->b), w);
    case K_FOEQ: case K_FOLT: case K_FOLE: case K_FUNO: return foldFCmp(e->k, (u64)V(e->a), (u64)V(e->b), e->a->width);
    case K_UF: return evalUF(e->aux, (u64)V(e->a));
    default: if (e->k >= K_FNEG) return foldFUn(e->k, (u64)V(e->a), e->aux, e->a->width, w) & maskW(w); return foldBin(e->k, V(e->a), V(e->b), w);
  }
}
u128 evalE(E e0, const Model& m) {
  if (e0->k == K_CONST) return e0->v;
  if (e0->k == K_VAR) return m.get(e0->aux) & mask64(e0->width);
  auto it0 = m.memo.find(e0->id); if (it0 != m.memo.end()) return it0->second;
  vector<E> st{e0};
  auto known = [&](E x) { return !x || x->k == K_CONST || x->k == K_VAR || m.memo.count(x->id); };
  while (!st.empty()) {
    E e = st.back();
    if (known(e)) { st.pop_back(); continue; }
    if (e->k == K_ITE) { // lazy
      if (!known(e->a)) { st.push_back(e->a); continue; }
      u128 c = e->a->k == K_CONST ? e->a->v : e->a->k == K_VAR ? (u128)m.get(e->a->aux) & 1 : m.memo[e->a->id];
      E t = c ? e->b : e->c; if (!known(t)) { st.push_back(t); continue; }
      m.memo[e->id] = t->k == K_CONST ? t->v : t->k == K_VAR ? (u128)(m.get(t->aux) & mask64(t->width)) : m.memo[t->id];
      st.pop_back(); continue;
    }
    bool ok = true;
    for (E x : {e->a, e->b, e->c}) if (!known(x)) { st.push_back(x); ok = false; }
    if (!ok) continue;
    u128 r = evalNode(e, m); m.memo[e->id] = r; st.pop_back();
  }
  return m.memo[e0->id];
}
static const char* kn[] = {"c","v","+","-","*","u/","s/","u%","s%","&","|","^","<<","u>>","s>>","==","u<","u<=","s<","s<=","ite","@","ext","zx","sx","f+","f-","f*","f/","fneg","fabs","fsqrt","fround","f==","f<","f<=","funo","f2si","f2ui","si2f","ui2f","fext","ftrunc","UF"};
string toStr(E e, int d) {
  char buf[64];
  if (isC(e)) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->v, e->width); return buf; }
  if (e->k == K_VAR) return gVars[e->aux].name;
  if (d == 0) return "...";
  string s = string("(") + kn[e->k]; if (e->k == K_EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->aux, e->width); s += buf; }
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + toStr(x, d - 1);
  return s + ")";
}
