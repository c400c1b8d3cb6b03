#pragma once
#include "expr.h"
typedef int32_t i32;
#include "mem.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <functional>

enum Op : u8 { OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_FUN, OP_SELECT, OP_ZEXT, OP_SEXT, OP_TRUNC, OP_COPY, OP_LOAD, OP_STORE, OP_GEP, OP_ALLOCA,
  OP_BR, OP_CONDBR, OP_SWITCH, OP_RET, OP_CALL, OP_UNREACHABLE, OP_RESUME, OP_LANDINGPAD, OP_UNSUPPORTED, OP_VCAT, OP_NOP, OP_RMW, OP_CMPXCHG, OP_EXTELT, OP_INSELT };
struct FInfo;
struct Edge { u32 target; std::vector<std::pair<i32, i32>> moves; };
struct CallInfo {
  const llvm::Function* callee = nullptr; FInfo* fi = nullptr; i32 fnSlot = 0; bool indirect = false; int builtin = -1; unsigned intrinsic = 0;
  std::vector<i32> args; std::vector<u16> argW; std::vector<int> byval; /* per flat arg: size or 0 */
  unsigned nFixed = 0; bool invoke = false; Edge normal, unwind; unsigned retN = 0; std::vector<u16> retW; const llvm::CallBase* cb = nullptr;
};
struct GepInfo { i64 off = 0; struct T { i32 slot; u16 w; i64 scale; }; std::vector<T> terms; };
struct SwitchInfo { std::vector<std::pair<u64, Edge>> cases; Edge def; };
struct LpadInfo { bool cleanup; struct Cl { bool filter; std::vector<u64> tis; }; std::vector<Cl> cl; };
struct Ins { Op op; u8 sub; u16 w, w2; i32 dst, a, b, c; u64 imm; void* p; const llvm::Instruction* I; std::vector<i32> ops; std::vector<u16> ws; };
struct FInfo {
  const llvm::Function* F; std::string name; u32 nslots = 0; std::vector<Val> consts; std::vector<Ins> code; bool decoded = false; bool repo = false; u64 calls = 0; std::string file; unsigned line = 0;
  std::map<const llvm::BasicBlock*, u32> bb;
};
struct Frame { FInfo* f; u32 pc; std::vector<Val> regs; std::vector<u64> allocas; std::vector<Val> varargs; std::vector<u16> varW; const Ins* call; };
struct SymObj { std::string name; std::vector<E> bytes; };
struct Obs { std::string label; E e; u64 c; };
struct ExcInfo { u64 obj, tinfo, adj; int handlers; };
struct Dom { u64 t[4]; };
struct State {
  AddrMap mem; std::vector<Frame> st; std::vector<E> cs; std::map<u32, Dom> dom; std::map<u32, std::pair<u64, u64>> rng; std::map<u32, std::pair<E, std::vector<u32>>> decs; std::vector<u64> entangled, pinned;
  std::shared_ptr<Model> model; u64 nextAddr = 0, nextStack = 0; std::vector<SymObj> syms; std::vector<Obs> obs; std::vector<ExcInfo> excs; std::vector<u64> caught;
  u64 steps = 0; u32 depth = 0; bool incomplete = false; u32 forks = 0; u64 id = 0; std::map<std::string, u64> named; std::set<std::string> tags;
  Obj* cache[256];
  State() { memset(cache, 0, sizeof cache); }
  State(State& o) : mem(o.mem), st(o.st), cs(o.cs), dom(o.dom), rng(o.rng), decs(o.decs), entangled(o.entangled), pinned(o.pinned), model(o.model), nextAddr(o.nextAddr), nextStack(o.nextStack), syms(o.syms), obs(o.obs), excs(o.excs), caught(o.caught), steps(o.steps), depth(o.depth), incomplete(o.incomplete), forks(o.forks), named(o.named), tags(o.tags) { memcpy(cache, o.cache, sizeof cache); }
};
