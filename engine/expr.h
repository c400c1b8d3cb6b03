// Hash-consed bit-vector expressions, constant folding, concrete evaluation.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128;

enum Kind : u8 {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
  // floating point over IEEE bit patterns (width 32 or 64)
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG, K_FABS, K_FSQRT, K_FROUND /*aux: mode*/,
  K_FOEQ, K_FOLT, K_FOLE, K_FUNO, K_FTOSI, K_FTOUI, K_SITOF, K_UITOF, K_FEXT, K_FTRUNC,
  K_UF  // aux = function id, a = 64-bit argument, 64-bit result; concrete meaning in evalUF
};
enum { RM_FLOOR = 0, RM_CEIL = 1, RM_TRUNC = 2, RM_ROUND = 3 /*half away*/, RM_RINT = 4 };
struct VarSet { std::vector<u64> w; };
struct Expr {
  Kind k; bool fp; u16 width; u32 aux; u32 id; const Expr *a, *b, *c; u128 v; const VarSet* vars;
};
typedef const Expr* E;

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext64(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1); v &= mask64(w); return (i64)((v ^ m) - m);
}
struct VarInfo { std::string name; unsigned width; };
extern std::vector<VarInfo> gVars;
u32 newVar(const std::string& name, unsigned width);
E mkConst(u128 v, unsigned w);
E mkVar(u32 idx);
E mkBin(Kind k, E a, E b);   // ADD..ASHR
E mkCmp(Kind k, E a, E b);   // EQ ULT ULE SLT SLE -> width 1
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFBin(Kind k, E a, E b);
E mkFUn(Kind k, E a, unsigned aux, unsigned w);
E mkFCmp(Kind k, E a, E b);
E mkUF(u32 fn, E a);
inline bool isC(E e) { return e->k == K_CONST; }
inline bool isTrue(E e) { return e->k == K_CONST && e->v == 1; }
inline bool isFalse(E e) { return e->k == K_CONST && e->v == 0; }
u64 evalUF(u32 fn, u64 x);

struct Model {
  std::vector<u64> val;  // by var index; missing = 0
  mutable std::unordered_map<u32, u128> memo;
  u64 get(u32 i) const { return i < val.size() ? val[i] : 0; }
};
u128 evalE(E e, const Model& m);
std::string toStr(E e, int depth = 6);
u32 numExprs();
bool overlap(const VarSet* a, const VarSet* b);
const VarSet* unionSet(const VarSet* a, const VarSet* b);
void collectUF(E e, std::vector<E>& out);
inline double bitsD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 dBits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
inline float bitsF(u32 b) { float d; memcpy(&d, &b, 4); return d; }
inline u32 fBits(float d) { u32 b; memcpy(&b, &d, 4); return b; }
double roundMode(double x, unsigned mode);
// concrete semantics shared by folding and evaluation
u128 foldBin(Kind k, u128 a, u128 b, unsigned w);
bool foldCmp(Kind k, u128 a, u128 b, unsigned w);
u64 foldFBin(Kind k, u64 a, u64 b, unsigned w);
u64 foldFUn(Kind k, u64 a, unsigned aux, unsigned sw, unsigned w);
bool foldFCmp(Kind k, u64 a, u64 b, unsigned w);
