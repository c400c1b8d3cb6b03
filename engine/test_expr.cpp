// Differential test of the expression simplifier: random expressions are built through the simplifying constructors and, at the same time,
// evaluated directly on concrete values; both must agree.
#include "expr.h"
#include <cstdio>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <random>
using namespace std;
static mt19937_64 R(12345);
static u64 rnd(u64 n) { return R() % n; }
struct P { E e; u128 v; };
int main(int argc, char** argv) {
  long rounds = argc > 1 ? atol(argv[1]) : 20000; long bad = 0;
  for (int k = 0; k < 4; k++) newVar("b" + to_string(k), 8);
  newVar("h", 16); newVar("w", 32); newVar("q", 64); newVar("f", 1); newVar("d", 8);
  for (long r = 0; r < rounds; r++) {
    Model m; m.val.resize(gVars.size()); for (size_t k = 0; k < gVars.size(); k++) { u64 x = R(); switch (rnd(4)) { case 0: x = rnd(4); break; case 1: x = ~rnd(4); break; case 2: x = 1ull << rnd(64); } m.val[k] = x & mask64(gVars[k].width); }
    vector<P> pool; for (size_t k = 0; k < gVars.size(); k++) pool.push_back({mkVar(k), m.val[k]});
    for (int k = 0; k < 6; k++) { static const unsigned ws[] = {1, 8, 16, 32, 64, 3}; unsigned w = ws[rnd(6)]; u64 c = rnd(3) ? rnd(100) : rnd(2) ? 1ull << rnd(64) : ~rnd(60); pool.push_back({mkConst(c, w), (u128)c & maskW(w)}); }
    for (int s = 0; s < 24; s++) {
      P a = pool[rnd(3) ? pool.size() - 1 - rnd(min<size_t>(8, pool.size())) : rnd(pool.size())], b = pool[rnd(pool.size())], o; unsigned w = a.e->width;
      if (b.e->width != w && rnd(2)) { if (b.e->width > w) b = {mkExtract(b.e, 0, w), b.v & maskW(w)}; else if (rnd(2)) b = {mkZExt(b.e, w), b.v}; else { __int128 x = (__int128)sext64((u64)b.v, b.e->width); b = {mkSExt(b.e, w), (u128)x & maskW(w)}; if (w > 64) continue; } }
      if (b.e->width != w) { unsigned ww = b.e->width; u128 c = rnd(2) ? rnd(64) : (u128)R(); (void)ww; b = {mkConst(c, w), c & maskW(w)}; }
      if (rnd(5) == 0) { u128 c = rnd(2) ? rnd(64) : (u128)0 - rnd(64); b = {mkConst(c, w), c & maskW(w)}; }
      if (rnd(2)) swap(a, b);
      switch (rnd(9)) {
        case 0: case 1: case 2: { Kind k = (Kind)(K_ADD + rnd(K_ASHR - K_ADD + 1)); if (rnd(2)) { static Kind lk[] = {K_ADD, K_SUB, K_MUL, K_AND, K_OR, K_SHL}; k = lk[rnd(6)]; } if (w > 64 && (k == K_SDIV || k == K_SREM)) continue; o = {mkBin(k, a.e, b.e), foldBin(k, a.v, b.v, w)}; break; }
        case 3: { Kind k = (Kind)(K_EQ + rnd(5)); o = {mkCmp(k, a.e, b.e), foldCmp(k, a.v, b.v, w)}; break; }
        case 4: { P c = {nullptr, 0}; for (int t = 0; t < 20; t++) { c = pool[rnd(pool.size())]; if (c.e->width == 1) break; } if (c.e->width != 1) continue; o = {mkIte(c.e, a.e, b.e), c.v ? a.v : b.v}; break; }
        case 5: { P c = pool[rnd(pool.size())]; if (w + c.e->width > 64) continue; o = {mkConcat(a.e, c.e), (a.v << c.e->width) | c.v}; break; }
        case 6: { unsigned off = rnd(w), n = 1 + rnd(w - off); if (rnd(2) && w >= 8) { off = 8 * rnd(w / 8); n = 8; } o = {mkExtract(a.e, off, n), (a.v >> off) & maskW(n)}; break; }
        case 7: { unsigned n = w + rnd(65 - min(64u, w)); if (n > 64) continue; o = {mkZExt(a.e, n), a.v}; break; }
        default: { unsigned n = w + rnd(65 - min(64u, w)); if (n > 64) continue; o = {mkSExt(a.e, n), (u128)(__int128)sext64((u64)a.v, w) & maskW(n)}; break; }
      }
      u128 got = evalE(o.e, m);
      if (got != o.v || isC(o.e) && o.e->v != o.v) { printf("MISMATCH width %u got %llx want %llx\n  a=%s\n  b=%s\n  r=%s\n", o.e->width, (unsigned long long)got, (unsigned long long)o.v, toStr(a.e).c_str(), toStr(b.e).c_str(), toStr(o.e).c_str()); if (++bad > 5) return 1; break; }
      pool.push_back(o);
    }
  }
  for (long r = 0; r < rounds; r++) { // conversions of integers to doubles and comparisons of them
    Model m; m.val.resize(gVars.size()); for (size_t k = 0; k < gVars.size(); k++) m.val[k] = R() & maskW(gVars[k].width) >> (rnd(2) ? rnd(8) : 0);
    auto operand = [&](double& d) -> E { if (rnd(3) == 0) { static const double cs[] = {0, -0.0, -1, 0.5, 1, 2, 99.5, 127, 255, 256, 255.5, 65535, 65536, 4294967295.0, 4294967296.0, 1e300, -1e300, HUGE_VAL, -HUGE_VAL, NAN}; d = cs[rnd(20)]; u64 b; memcpy(&b, &d, 8); return mkConst(b, 64); }
      E v = mkVar(rnd(gVars.size())); u64 x = m.val[rnd(1) + 0]; x = (u64)evalE(v, m); E e = mkZExt(v, 64); if (rnd(2)) { u64 c = rnd(300); e = mkBin(K_ADD, e, mkConst(c, 64)); x += c; } bool sg = rnd(2); d = sg ? (double)(i64)x : (double)x; return mkFUn(sg ? K_SITOF : K_UITOF, e, 0, 64); };
    double a, b; E x = operand(a), y = operand(b); u64 ba, bb; memcpy(&ba, &a, 8); memcpy(&bb, &b, 8); static const Kind ks[] = {K_FOEQ, K_FOLT, K_FOLE, K_FUNO}; Kind k = ks[rnd(4)]; bool want = foldFCmp(k, ba, bb, 64);
    if ((bool)evalE(mkFCmp(k, x, y), m) != want || (u64)evalE(x, m) != ba) { printf("FP MISMATCH kind %d %g %g\n", (int)k, a, b); if (++bad > 5) return 1; } }
  printf("%ld rounds, %ld mismatches, %u nodes\n", rounds, bad, numExprs()); return bad != 0;
}
