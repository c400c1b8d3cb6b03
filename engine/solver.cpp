#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <cstdio>
using namespace std;
SolverStats gSS; unsigned gQueryTimeoutMs = 20000;
static z3::context* C = nullptr;
static vector<Z3_ast> gTr;  // by expr id, inc-ref'd
static z3::sort *F64, *F32;
struct Fn { Z3_func_decl d; };
static map<u32, Z3_func_decl> gUFd;
static void init() {
  if (C) return;
  C = new z3::context();
  F64 = new z3::sort(C->fpa_sort(11, 53)); F32 = new z3::sort(C->fpa_sort(8, 24));
}
static z3::expr W(Z3_ast a) { return z3::expr(*C, a); }
static Z3_ast tr1(E e, const vector<Z3_ast>& T) {
  auto g = [&](E x) { return W(T[x->id]); };                       // Bool for width 1, else BV
  auto bv = [&](E x) { z3::expr r = g(x); return x->width == 1 ? z3::ite(r, C->bv_val(1, 1), C->bv_val(0, 1)) : r; };
  auto asB = [&](z3::expr r) { return r.is_bool() ? r : (r == C->bv_val(1, 1)); };
  auto fp = [&](E x) { z3::expr r = g(x); return W(Z3_mk_fpa_to_fp_bv(*C, r, x->width == 64 ? *F64 : *F32)); };
  auto ieee = [&](z3::expr f) { return W(Z3_mk_fpa_to_ieee_bv(*C, f)); };
  auto rne = W(Z3_mk_fpa_rne(*C));
  unsigned w = e->width;
  z3::expr r(*C);
  switch (e->k) {
    case K_CONST: if (w == 1) { r = C->bool_val(e->v != 0); break; }
      if (w <= 64) r = C->bv_val((uint64_t)e->v, w); else r = z3::concat(C->bv_val((uint64_t)(e->v >> 64), w - 64), C->bv_val((uint64_t)e->v, 64)); break;
    case K_VAR: { string n = "v" + to_string(e->aux); r = w == 1 ? C->bool_const(n.c_str()) : C->bv_const(n.c_str(), w); break; }
    case K_ADD: r = g(e->a) + g(e->b); break; case K_SUB: r = g(e->a) - g(e->b); break; case K_MUL: r = bv(e->a) * bv(e->b); break;
    case K_UDIV: r = z3::udiv(bv(e->a), bv(e->b)); break; case K_SDIV: r = bv(e->a) / bv(e->b); break;
    case K_UREM: r = z3::urem(bv(e->a), bv(e->b)); break; case K_SREM: r = z3::srem(bv(e->a), bv(e->b)); break;
    case K_AND: r = w == 1 ? g(e->a) && g(e->b) : g(e->a) & g(e->b); break;
    case K_OR: r = w == 1 ? g(e->a) || g(e->b) : g(e->a) | g(e->b); break;
    case K_XOR: r = w == 1 ? (isC(e->b) ? (e->b->v ? !g(e->a) : g(e->a)) : g(e->a) != g(e->b)) : g(e->a) ^ g(e->b); break;
    case K_SHL: r = z3::shl(bv(e->a), bv(e->b)); break; case K_LSHR: r = z3::lshr(bv(e->a), bv(e->b)); break; case K_ASHR: r = z3::ashr(bv(e->a), bv(e->b)); break;
    case K_EQ: r = g(e->a) == g(e->b); break;
    case K_ULT: r = z3::ult(bv(e->a), bv(e->b)); break; case K_ULE: r = z3::ule(bv(e->a), bv(e->b)); break;
    case K_SLT: r = bv(e->a) < bv(e->b); break; case K_SLE: r = bv(e->a) <= bv(e->b); break;
    case K_ITE: r = z3::ite(g(e->a), g(e->b), g(e->c)); break;
    case K_CONCAT: r = z3::concat(bv(e->a), bv(e->b)); break;
    case K_EXTRACT: r = bv(e->a).extract(e->aux + w - 1, e->aux); break;
    case K_ZEXT: r = z3::zext(bv(e->a), w - e->a->width); break;
    case K_SEXT: r = z3::sext(bv(e->a), w - e->a->width); break;
    case K_FADD: r = ieee(W(Z3_mk_fpa_add(*C, rne, fp(e->a), fp(e->b)))); break;
    case K_FSUB: r = ieee(W(Z3_mk_fpa_sub(*C, rne, fp(e->a), fp(e->b)))); break;
    case K_FMUL: r = ieee(W(Z3_mk_fpa_mul(*C, rne, fp(e->a), fp(e->b)))); break;
    case K_FDIV: r = ieee(W(Z3_mk_fpa_div(*C, rne, fp(e->a), fp(e->b)))); break;
    case K_FSQRT: r = ieee(W(Z3_mk_fpa_sqrt(*C, rne, fp(e->a)))); break;
    case K_FROUND: { Z3_ast m = e->aux == RM_FLOOR ? Z3_mk_fpa_rtn(*C) : e->aux == RM_CEIL ? Z3_mk_fpa_rtp(*C) : e->aux == RM_TRUNC ? Z3_mk_fpa_rtz(*C) : e->aux == RM_ROUND ? Z3_mk_fpa_rna(*C) : Z3_mk_fpa_rne(*C);
      r = ieee(W(Z3_mk_fpa_round_to_integral(*C, W(m), fp(e->a)))); break; }
    case K_FOEQ: r = W(Z3_mk_fpa_eq(*C, fp(e->a), fp(e->b))); break;
    case K_FOLT: r = W(Z3_mk_fpa_lt(*C, fp(e->a), fp(e->b))); break;
    case K_FOLE: r = W(Z3_mk_fpa_leq(*C, fp(e->a), fp(e->b))); break;
    case K_FUNO: r = W(Z3_mk_fpa_is_nan(*C, fp(e->a))) || W(Z3_mk_fpa_is_nan(*C, fp(e->b))); break;
    case K_FTOSI: case K_FTOUI: {
      auto rtz = W(Z3_mk_fpa_rtz(*C)); z3::expr f = fp(e->a);
      if (e->a->width == 32) f = W(Z3_mk_fpa_to_fp_float(*C, rne, f, *F64));
      auto dv = [&](double d) { return W(Z3_mk_fpa_numeral_double(*C, d, *F64)); };
      auto lt = [&](z3::expr a, z3::expr b) { return W(Z3_mk_fpa_lt(*C, a, b)); };
      auto conv = [&](z3::expr f, unsigned n, double lo, bool loStrict, double hi, uint64_t bad) {
        z3::expr in = (loStrict ? lt(dv(lo), f) : !lt(f, dv(lo)) && !W(Z3_mk_fpa_is_nan(*C, f))) && lt(f, dv(hi));
        return z3::ite(in, W(Z3_mk_fpa_to_sbv(*C, rtz, f, n)), C->bv_val((uint64_t)bad, n)); };
      auto c64 = [&](z3::expr f) { return conv(f, 64, -9223372036854775808.0, false, 9223372036854775808.0, 1ull << 63); };
      if (e->k == K_FTOSI) { if (w == 64) r = c64(f); else { r = conv(f, 32, -2147483649.0, true, 2147483648.0, 0x80000000ull); if (w < 32) r = r.extract(w - 1, 0); } }
      else { if (w < 64) r = c64(f).extract(w - 1, 0);
        else { z3::expr big = !lt(f, dv(9223372036854775808.0)) && !W(Z3_mk_fpa_is_nan(*C, f));
          r = z3::ite(big, c64(W(Z3_mk_fpa_sub(*C, rne, f, dv(9223372036854775808.0)))) ^ C->bv_val((uint64_t)1 << 63, 64), c64(f)); } }
      if (w == 1) r = asB(r); break; }
    case K_SITOF: r = ieee(W(Z3_mk_fpa_to_fp_signed(*C, rne, bv(e->a), w == 64 ? *F64 : *F32))); break;
    case K_UITOF: r = ieee(W(Z3_mk_fpa_to_fp_unsigned(*C, rne, bv(e->a), w == 64 ? *F64 : *F32))); break;
    case K_FEXT: r = ieee(W(Z3_mk_fpa_to_fp_float(*C, rne, fp(e->a), *F64))); break;
    case K_FTRUNC: r = ieee(W(Z3_mk_fpa_to_fp_float(*C, rne, fp(e->a), *F32))); break;
    case K_UF: { auto it = gUFd.find(e->aux); if (it == gUFd.end()) { auto fd = z3::function(("uf" + to_string(e->aux)).c_str(), C->bv_sort(64), C->bv_sort(64)); Z3_inc_ref(*C, Z3_func_decl_to_ast(*C, fd)); it = gUFd.emplace(e->aux, (Z3_func_decl)fd).first; }
      Z3_ast arg = g(e->a); r = W(Z3_mk_app(*C, it->second, 1, &arg)); break; }
    default: fprintf(stderr, "tr: kind %d\n", e->k); abort();
  }
  if (w == 1 && !r.is_bool()) r = asB(r);
  Z3_ast a = r; Z3_inc_ref(*C, a); return a;
}
static Z3_ast tr(E e0) {
  if (gTr.size() < numExprs()) gTr.resize(numExprs() + 4096, nullptr);
  vector<E> st{e0};
  while (!st.empty()) {
    E e = st.back(); if (gTr[e->id]) { st.pop_back(); continue; }
    bool ok = true; for (E x : {e->a, e->b, e->c}) if (x && !gTr[x->id]) { st.push_back(x); ok = false; }
    if (!ok) continue;
    gTr[e->id] = tr1(e, gTr); st.pop_back();
  }
  return gTr[e0->id];
}
static z3::solver* S = nullptr; static unordered_map<u32, Z3_ast> gLit; static unsigned sCount = 0; static unsigned sTimeout = 0;
static double now() { return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count(); }
static void collectVars(const vector<E>& cs, vector<u32>& vs) {
  const VarSet* s = nullptr; for (E e : cs) s = s ? unionSet(s, e->vars) : e->vars;
  if (s) for (size_t i = 0; i < s->w.size(); i++) for (u64 b = s->w[i]; b; b &= b - 1) vs.push_back(i * 64 + __builtin_ctzll(b));
}
static void readModel(z3::model md, const vector<E>& cs, Model& m) {
  vector<u32> vs; collectVars(cs, vs);
  m.val.clear(); m.memo.clear();
  for (u32 v : vs) {
    E ve = mkVar(v); z3::expr x = md.eval(W(tr(ve)), true);
    u64 val = 0; if (ve->width == 1) val = x.is_true(); else { val = x.is_numeral() ? x.get_numeral_uint64() : 0; }
    if (m.val.size() <= v) m.val.resize(v + 1); m.val[v] = val;
  }
}
static bool holds(const vector<E>& cs, const Model& m) { for (E e : cs) if (!evalE(e, m)) return false; return true; }
struct KeyHash { size_t operator()(const vector<u32>& v) const { size_t h = v.size(); for (u32 x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 31); return h; } };
struct CacheEnt { Sat r; shared_ptr<Model> m; };
static unordered_map<vector<u32>, CacheEnt, KeyHash> gCache;
static vector<shared_ptr<Model>> gRecent; static size_t gRecentPos = 0;
static Sat z3solve(const vector<E>& cs, Model& m) {
  init();
  bool fp = false; for (E e : cs) fp |= e->fp;
  double t0 = now(); gSS.z3calls++;
  Sat res = UNKNOWN;
  try {
    if (!fp) {
      if (!S || sCount > 30000) { delete S; S = new z3::solver(*C, "QF_BV"); for (auto& p : gLit) Z3_dec_ref(*C, p.second); gLit.clear(); sCount = 0; sTimeout = 0; }
      unsigned quick = min(gQueryTimeoutMs, 250u); if (sTimeout != quick) { z3::params p(*C); p.set("timeout", quick); S->set(p); sTimeout = quick; }
      z3::expr_vector as(*C);
      for (E e : cs) {
        auto it = gLit.find(e->id);
        if (it == gLit.end()) {
          z3::expr l = C->bool_const(("p" + to_string(e->id)).c_str()); Z3_inc_ref(*C, l);
          S->add(z3::implies(l, W(tr(e)))); it = gLit.emplace(e->id, (Z3_ast)l).first; sCount++;
        }
        as.push_back(W(it->second));
      }
      auto r = S->check(as);
      if (r == z3::unknown) { // from scratch, with preprocessing
        z3::solver s2 = z3::tactic(*C, "qfbv").mk_solver(); z3::params p(*C); p.set("timeout", gQueryTimeoutMs); s2.set(p);
        for (E e : cs) s2.add(W(tr(e))); r = s2.check();
        if (r == z3::sat) { readModel(s2.get_model(), cs, m); res = SAT; } else res = r == z3::unsat ? UNSAT : UNKNOWN;
      } else if (r == z3::sat) { readModel(S->get_model(), cs, m); res = SAT; } else res = UNSAT;
    } else {
      vector<E> ufs; for (E e : cs) collectUF(e, ufs);
      sort(ufs.begin(), ufs.end()); ufs.erase(unique(ufs.begin(), ufs.end()), ufs.end());
      z3::solver s2(*C); z3::params p(*C); p.set("timeout", gQueryTimeoutMs); s2.set(p);
      for (E e : cs) s2.add(W(tr(e)));
      for (int round = 0; round < 40; round++) {
        auto r = s2.check();
        if (r == z3::unsat) { res = UNSAT; break; } if (r == z3::unknown) { res = UNKNOWN; break; }
        readModel(s2.get_model(), cs, m);
        if (holds(cs, m)) { res = SAT; break; }
        if (ufs.empty()) { res = UNKNOWN; gSS.badModels++; break; }
        // look for a counterexample among typical numbers first, whose rounding is known
        if (round == 1) {
          static const double cand[] = {1.5, -2.25, 1000.125, 0.1234564, 0.0, 1e-9, 3.75, 42.0}; s2.push();
          for (E u : ufs) { z3::expr_vector any(*C); for (double d : cand) { u64 x; memcpy(&x, &d, 8); z3::expr is = W(tr(u->a)) == C->bv_val((uint64_t)x, 64); any.push_back(is); s2.add(z3::implies(is, W(tr(u)) == C->bv_val((uint64_t)evalUF(u->aux, x), 64))); } s2.add(z3::mk_or(any)); }
          if (s2.check() == z3::sat) { readModel(s2.get_model(), cs, m); if (holds(cs, m)) { res = SAT; break; } }
          s2.pop();
        }
        // the model uses an interpretation of the rounding function that is not the real one: add the real points
        for (E u : ufs) { u64 x = (u64)evalE(u->a, m); s2.add(W(tr(u->a)) != C->bv_val((uint64_t)x, 64) || W(tr(u)) == C->bv_val((uint64_t)evalUF(u->aux, x), 64)); }
        if (round == 39) { res = UNKNOWN; gSS.badModels++; }
      }
    }
  } catch (z3::exception& ex) { fprintf(stderr, "z3 exception: %s\n", ex.msg()); res = UNKNOWN; delete S; S = nullptr; }
  if (res == SAT && !holds(cs, m)) { gSS.badModels++; fprintf(stderr, "engine: solver model does not satisfy the query under concrete evaluation\n"); for (E e : cs) if (!evalE(e, m)) fprintf(stderr, "   %s\n", toStr(e).c_str()); res = UNKNOWN; }
  double dt = now() - t0; gSS.z3time += dt;
  if (getenv("SYMEX_SLOW") && dt > (getenv("SYMEX_SLOWT") ? atof(getenv("SYMEX_SLOWT")) : 2)) { static int k = 0; z3::solver d(*C); for (E e : cs) d.add(W(tr(e))); string fn = string(getenv("SYMEX_SLOW")) + "/q" + to_string(k++) + ".smt2"; FILE* f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "; %.1f s result %d\n%s(check-sat)\n", dt, (int)res, d.to_smt2().c_str()); fclose(f); } } gSS.maxq = max(gSS.maxq, dt); if (res == UNKNOWN) gSS.unknowns++;
  return res;
}
Sat solveConj(const vector<E>& cs0, Model& m) {
  gSS.queries++;
  vector<E> cs; for (E e : cs0) { if (isFalse(e)) return UNSAT; if (!isTrue(e)) cs.push_back(e); }
  if (cs.empty()) { m = Model(); return SAT; }
  vector<u32> key; for (E e : cs) key.push_back(e->id); sort(key.begin(), key.end()); key.erase(unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it != gCache.end()) { gSS.cacheHits++; if (it->second.r == SAT) { m.val = it->second.m->val; m.memo.clear(); } return it->second.r; }
  for (auto& r : gRecent) if (holds(cs, *r)) { gSS.modelHits++;
      // keep only the involved variables
      vector<u32> vs; collectVars(cs, vs); m.val.clear(); m.memo.clear(); for (u32 v : vs) { if (m.val.size() <= v) m.val.resize(v + 1); m.val[v] = r->get(v); }
      return SAT; }
  Sat r = z3solve(cs, m);
  CacheEnt ce{r, nullptr};
  if (r == SAT) { ce.m = make_shared<Model>(); ce.m->val = m.val; if (gRecent.size() < 24) gRecent.push_back(ce.m); else { gRecent[gRecentPos++ % 24] = ce.m; } }
  if (r != UNKNOWN) gCache.emplace(move(key), ce);
  return r;
}
// ---- truth tables -----------------------------------------------------------
static unordered_map<u32, unique_ptr<Tab>> gTabs;
const Tab* truthTable(E e, u32& var) {
  const VarSet* s = e->vars; int n = 0; u32 v = 0;
  for (size_t i = 0; i < s->w.size(); i++) if (s->w[i]) { n += __builtin_popcountll(s->w[i]); v = i * 64 + __builtin_ctzll(s->w[i]); }
  if (n != 1 || gVars[v].width > 8) return nullptr;
  var = v;
  auto it = gTabs.find(e->id); if (it != gTabs.end()) return it->second.get();
  unique_ptr<Tab> t(new Tab()); memset(t->t, 0, sizeof t->t);
  u32 lim = 1u << gVars[v].width;
  Model m; m.val.resize(v + 1);
  for (u32 x = 0; x < lim; x++) { m.val[v] = x; m.memo.clear(); if (evalE(e, m)) t->t[x >> 6] |= 1ull << (x & 63); }
  return (gTabs[e->id] = move(t)).get();
}
