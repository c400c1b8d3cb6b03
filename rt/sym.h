// Harness interface: the same harness source is executed symbolically (engine builtins) and natively (replay.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
extern "C" {
void sym_bytes(void* p, size_t n, const char* name);
uint64_t __sym_int(const char* name, unsigned bits);
void __sym_assume(int c);
void __sym_assert(int c, const char* label);
void sym_reach(const char* label);
void sym_observe(const char* label, uint64_t v);
void sym_fail(const char* label);
uint64_t sym_concretize(uint64_t v);
uint64_t sym_param(const char* name, uint64_t dflt);
double sym_r6(double v);
double sym_rfmt(double v, unsigned fn);
int sym_is_symbolic(uint64_t v);
void sym_print(const char* s, uint64_t v);
void sym_prune();
int sym_and(int a, int b);
int sym_or(int a, int b);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
}
#define ASSUME(c) __sym_assume((c) ? 1 : 0)
#define ASSERT(c, label) __sym_assert((c) ? 1 : 0, label)
#define REACH(label) sym_reach(label)
static inline uint8_t symU8(const char* n) { return (uint8_t)__sym_int(n, 8); }
static inline uint16_t symU16(const char* n) { return (uint16_t)__sym_int(n, 16); }
static inline uint32_t symU32(const char* n) { return (uint32_t)__sym_int(n, 32); }
static inline int32_t symI32(const char* n) { return (int32_t)__sym_int(n, 32); }
static inline uint64_t symU64(const char* n) { return __sym_int(n, 64); }
static inline bool symBool(const char* n) { return (__sym_int(n, 8) & 1) != 0; }
static inline double symF64(const char* n) { union { uint64_t u; double d; } x; x.u = __sym_int(n, 64); return x.d; }
// value in [lo,hi]
static inline uint64_t symRange(const char* n, uint64_t lo, uint64_t hi) { unsigned b = hi < 256 ? 8 : hi < 65536 ? 16 : hi < (1ull << 32) ? 32 : 64; uint64_t v = __sym_int(n, b); __sym_assume(sym_and(v >= lo, v <= hi)); return v; }
// choose concretely (forks)
static inline unsigned symChoose(const char* n, unsigned count) { return (unsigned)sym_concretize(symRange(n, 0, count - 1)); }
static inline uint64_t dbits(double d) { union { uint64_t u; double d; } x; x.d = d; return x.u; }
