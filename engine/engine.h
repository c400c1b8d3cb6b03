#pragma once
#include "exec.h"
#include <chrono>
struct Leaf { u64 off; u16 w; };
struct Finding { std::string kind, label, where, stack, file; State* dummy = nullptr; u64 count = 1; };
struct Opts {
  u64 maxSteps = 40000000; double maxTime = 300; u64 maxPaths = 1000000; unsigned maxFindings = 12; std::string out = "."; unsigned samples = 24; unsigned seed = 1; bool verbose = false; u64 maxDepth = 3000; unsigned maxAlloc = 1 << 26; std::string search = "dfs"; std::string trace;
  std::map<std::string, u64> params;
};
class Engine {
 public:
  const llvm::DataLayout* DL; llvm::Module* M; Opts opt; std::string repoPrefix = "/repo/";
  std::map<const llvm::Function*, u64> fnAddr; std::map<u64, const llvm::Function*> addrFn; std::map<const llvm::GlobalVariable*, u64> globalAddr; std::map<u64, std::string> addrName;
  std::unordered_map<const llvm::Function*, std::unique_ptr<FInfo>> finfo;
  std::vector<State*> work; State* cur = nullptr; u64 nextStateId = 0;
  // results
  std::map<std::string, Finding> findings; std::map<std::string, u64> reached, asserts, unsupported; u64 paths = 0, pathsAssumeFail = 0, pathsError = 0, pathsIncomplete = 0, steps = 0, forks = 0, assertChecks = 0, assertProved = 0, assertUnknown = 0, memChecks = 0, memProved = 0; unsigned samplesWritten = 0; bool timeout = false;
  std::chrono::steady_clock::time_point t0;
  void leaves(llvm::Type* t, u64 off, std::vector<Leaf>& out);
  unsigned nLeaves(llvm::Type* t);
  void constLeaves(const llvm::Constant* c, std::vector<Val>& out);
  u64 constAddr(const llvm::Constant* c);
  FInfo* getF(const llvm::Function* F);
  void decode(FInfo& f);
  int builtinId(const llvm::Function* f);
  void load(llvm::Module* m);
  void initGlobals(State& s);
  void run(const std::string& entry);
  void runState(State* s);
  void report(State& s, const std::string& kind, const std::string& label, bool terminates);
  double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  // state helpers
  int branch(State& s, E c, State** other);  // 1: only true, 0: only false, 2: both (s takes the model's side, other = state for the opposite, side in *side)
  bool side = false; bool lastUnknown = false;
  void addC(State& s, E c);
  bool query(State& s, E c, Model& m, bool& unk);
  bool mustFromDomain(State& s, E c, bool& val);
  u64 evalV(State& s, const Val& v) { return v.e ? (u64)evalE(v.e, *s.model) : v.c; }
  bool concretize(State& s, Val v, unsigned w, u64& out);  // may push a sibling that re-executes the instruction
  State* forkState(State& s);
  Obj* alloc(State& s, u64 size, ObjKind k, const char* what, unsigned align = 16, u8 fill = 0xAA);
  void freeObj(State& s, Obj* o);
  Obj* find(State& s, u64 a);
  Obj* wr(State& s, Obj* o);
  Val readBytes(Obj* o, u64 off, unsigned w);
  void writeBytes(State& s, Obj* o, u64 off, unsigned w, Val v);
  // returns false when the state ended or must re-execute; on success obj and offset (concrete or symbolic)
  bool resolve(State& s, Val addr, u64 len, bool write, Obj*& o, u64& off, E& soff, const char* what);
  bool doLoad(State& s, Val addr, unsigned w, Val& out);
  bool doStore(State& s, Val addr, unsigned w, Val v);
  Val readSym(State& s, Obj* o, E soff, unsigned w);
  bool writeSym(State& s, Obj* o, E soff, unsigned w, Val v);
  bool cstr(State& s, u64 a, std::string& out);
  u64 rd64(State& s, u64 a) { Obj* o = find(s, a); if (!o || a + 8 > o->base + o->size) return 0; Val v = readBytes(o, a - o->base, 64); return v.e ? evalV(s, v) : v.c; }
  void endState(State& s); bool dead = false; bool retry = false;
  bool call(State& s, const Ins& i);
  bool enter(State& s, FInfo* fi, std::vector<Val>& args, const Ins* ci, const std::vector<u16>* ws, unsigned nFixed);
  bool builtin(State& s, const Ins& i, CallInfo& ci, int id, std::vector<Val>& a);
  bool intrinsic(State& s, const Ins& i, CallInfo& ci, std::vector<Val>& a);
  void popFrame(State& s);
  void setRet(State& s, const Ins& i, Val v);
  void finishCall(State& s, const Ins& i);
  void jump(State& s, const Edge& e);
  void throwExc(State& s, u64 obj);
  bool typeMatch(State& s, u64 thrown, u64 want, u64 obj, u64& adj);
  bool copyMem(State& s, Val d, Val src, Val n, bool& ok);
  bool setMem(State& s, Val d, Val c, Val n);
  std::string where(State& s, bool full); std::string stack(State& s);
  void writeCase(State& s, const std::string& file, const std::string& head);
  bool bases(State& s, u64 ti, u64 obj, u64 off, std::vector<std::pair<u64, u64>>& out);
  u64 tokenCount = 0; std::map<u64, std::pair<E, u32>> tokens; std::map<std::pair<E, u32>, u64> tokenOf;
  std::shared_ptr<Model> altModel; bool candidates(State& s, E soff, u64 lim, std::vector<u64>& out, size_t maxN); bool limitHit = false; u64 pending = 0; u64 ct = 0; bool elapsedTick() { return (++ct & 0x3ff) == 0 && elapsed() > opt.maxTime; }
};
