#include <unistd.h>
#include "engine.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm; using namespace std;
void Engine::load(Module* m) { M = m; DL = &m->getDataLayout(); }
void Engine::initGlobals(State& s) {
  u64 a = 0x10000; for (auto& f : *M) { fnAddr[&f] = a; addrFn[a] = &f; addrName[a] = f.getName().str(); a += 16; }
  u64 save = s.nextAddr; s.nextAddr = 0x20000000;
  for (auto& g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0; bool ext = g.isDeclaration(); if (ext) sz = max<u64>(sz, 256);
    Obj* o = alloc(s, sz ? sz : 1, ext ? OK_EXTERN : OK_GLOBAL, "global", g.getAlign() ? g.getAlign()->value() : 16, 0); globalAddr[&g] = o->base; addrName[o->base] = g.getName().str();
  }
  if (s.nextAddr > 0xf0000000ull) { errs() << "globals too large\n"; exit(3); }
  s.nextAddr = save;
  function<void(const Constant*, u64)> wrC = [&](const Constant* c, u64 at) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    Type* t = c->getType();
    if (auto* cs = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cs->getRawDataValues(); Obj* o = find(s, at); o->need(at - o->base + r.size()); memcpy(&o->d[at - o->base], r.data(), r.size()); return; }
    if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(st->getType()); for (unsigned k = 0; k < st->getNumOperands(); k++) wrC(st->getOperand(k), at + L->getElementOffset(k)); return; }
    if (auto* ar = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ar->getType()->getElementType()); for (unsigned k = 0; k < ar->getNumOperands(); k++) wrC(ar->getOperand(k), at + k * es); return; }
    vector<Leaf> l; leaves(t, 0, l); vector<Val> v; constLeaves(c, v); for (size_t k = 0; k < l.size(); k++) { Obj* o = find(s, at); writeBytes(s, o, at + l[k].off - o->base, l[k].w, v[k]); }
  };
  for (auto& g : M->globals()) if (g.hasInitializer()) { if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.global_dtors" || g.getName() == "llvm.compiler.used") continue; wrC(g.getInitializer(), globalAddr[&g]); }
  for (auto& g : M->globals()) if (g.hasInitializer() && g.isConstant()) { Obj* o = find(s, globalAddr[&g]); if (o) o->ro = true; }
}
static string js(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
void dumpForkProfile();
int main(int argc, char** argv) {
  Opts o; vector<string> files; string entry = "sym_main", summary;
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; }; const char* v;
    if ((v = val("--entry="))) entry = v; else if ((v = val("--out="))) o.out = v; else if ((v = val("--max-time="))) o.maxTime = atof(v); else if ((v = val("--max-steps="))) o.maxSteps = strtoull(v, 0, 10); else if ((v = val("--max-paths="))) o.maxPaths = strtoull(v, 0, 10);
    else if ((v = val("--query-timeout="))) gQueryTimeoutMs = atoi(v); else if ((v = val("--max-findings="))) o.maxFindings = atoi(v); else if ((v = val("--samples="))) o.samples = atoi(v); else if ((v = val("--search="))) o.search = v; else if ((v = val("--max-alloc="))) o.maxAlloc = atoi(v); else if (a == "-v") o.verbose = true;
    else if ((v = val("--param="))) { string p = v; size_t e = p.find('='); o.params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); }
    else files.push_back(a);
  }
  LLVMContext ctx; SMDiagnostic err; unique_ptr<Module> M;
  for (auto& f : files) { auto m = parseIRFile(f, err, ctx); if (!m) { err.print("symex", errs()); return 3; } if (!M) M = move(m); else if (Linker::linkModules(*M, move(m))) { errs() << "link failed " << f << "\n"; return 3; } }
  Engine e; e.opt = o; e.load(M.get()); e.run(entry); dumpForkProfile();
  string r = "{\n";
  auto num = [&](const char* k, double v, bool c = true) { char b[128]; if (v == (double)(long long)v) snprintf(b, 128, "  \"%s\": %lld%s\n", k, (long long)v, c ? "," : ""); else snprintf(b, 128, "  \"%s\": %.3f%s\n", k, v, c ? "," : ""); r += b; };
  num("paths", e.paths); num("paths_assume_false", e.pathsAssumeFail); num("paths_error", e.pathsError); num("paths_incomplete", e.pathsIncomplete); num("pending", e.pending); num("steps", e.steps); num("forks", e.forks);
  num("assert_checks", e.assertChecks); num("assert_proved", e.assertProved); num("assert_unknown", e.assertUnknown); num("mem_checks", e.memChecks); num("mem_proved", e.memProved); num("timeout", e.timeout); num("limit_hit", e.limitHit); num("samples", e.samplesWritten);
  num("queries", gSS.queries); num("z3_calls", gSS.z3calls); num("cache_hits", gSS.cacheHits); num("model_hits", gSS.modelHits); num("domain_hits", gSS.domainHits); num("unknowns", gSS.unknowns); num("bad_models", gSS.badModels); num("solver_s", gSS.z3time); num("max_query_s", gSS.maxq); num("wall_s", e.elapsed()); num("exprs", numExprs()); num("vars", gVars.size());
  auto mp = [&](const char* k, map<string, u64>& m) { r += string("  \"") + k + "\": {"; bool f = true; for (auto& p : m) { r += (f ? "" : ", ") + js(p.first) + ": " + to_string(p.second); f = false; } r += "},\n"; };
  mp("reached", e.reached); mp("asserts", e.asserts); mp("unsupported", e.unsupported);
  r += "  \"functions\": ["; { bool f = true; for (auto& p : e.finfo) if (p.second->repo && p.second->calls) { r += string(f ? "" : ", ") + js(demangle(p.second->name)); f = false; } } r += "],\n";
  r += "  \"findings\": ["; { bool f = true; for (auto& p : e.findings) { auto& x = p.second; r += string(f ? "" : ",") + "\n    {\"kind\": " + js(x.kind) + ", \"label\": " + js(x.label) + ", \"where\": " + js(x.where) + ", \"case\": " + js(x.file) + ", \"count\": " + to_string(x.count) + ", \"stack\": " + js(x.stack) + "}"; f = false; } } r += "]\n}\n";
  FILE* f = fopen((o.out + "/summary.json").c_str(), "w"); if (f) { fputs(r.c_str(), f); fclose(f); }
  if (o.verbose) fputs(r.c_str(), stdout);
  _exit(0);
}
