#include "exec.h"
#include "engine.h"
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm; using namespace std;

void Engine::leaves(Type* t, u64 off, vector<Leaf>& out) {
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * sz, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeStoreSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * sz, out); return; }
  if (t->isPointerTy()) { out.push_back({off, 64}); return; }
  if (t->isIntegerTy()) { out.push_back({off, (u16)min(128u, t->getIntegerBitWidth())}); return; }
  if (t->isFloatTy()) { out.push_back({off, 32}); return; }
  if (t->isDoubleTy()) { out.push_back({off, 64}); return; }
  out.push_back({off, 64});
}
unsigned Engine::nLeaves(Type* t) { vector<Leaf> v; leaves(t, 0, v); return v.size(); }

static Val mk(const APInt& v, unsigned w) { if (w <= 64) return V(v.getZExtValue()); u128 x = v.getRawData()[0]; if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64; return Val{(u64)x, mkConst(x, w)}; }
void Engine::constLeaves(const Constant* c, vector<Val>& out) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) { vector<Leaf> l; leaves(t, 0, l); for (auto& x : l) out.push_back(x.w <= 64 ? V(0xAAAAAAAAAAAAAAAAull & mask64(x.w)) : Val{0, mkConst(0, x.w)}); return; }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { vector<Leaf> l; leaves(t, 0, l); for (auto& x : l) out.push_back(x.w <= 64 ? V(0) : Val{0, mkConst(0, x.w)}); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(mk(ci->getValue(), ci->getBitWidth())); return; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (t->isFloatTy() || t->isDoubleTy()) out.push_back(V(cf->getValueAPF().bitcastToAPInt().getZExtValue())); else out.push_back(V(0)); return; }
  if (auto* cs = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cs->getNumElements(); i++) constLeaves(cs->getElementAsConstant(i), out); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constLeaves(cast<Constant>(ca->getOperand(i)), out); return; }
  out.push_back(V(constAddr(c)));
}
u64 Engine::constAddr(const Constant* c) {
  if (auto* f = dyn_cast<Function>(c)) return fnAddr.at(f);
  if (auto* g = dyn_cast<GlobalVariable>(c)) return globalAddr.at(g);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) { errs() << "gep const\n"; abort(); } return constAddr(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constAddr(ce->getOperand(0));
      case Instruction::Trunc: return constAddr(ce->getOperand(0)) & mask64(ce->getType()->getIntegerBitWidth());
      case Instruction::Add: return constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1));
      case Instruction::Sub: return constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1));
      default: break;
    }
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (isa<ConstantPointerNull>(c)) return 0;
  if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) return constAddr(d->getGlobalValue());
  if (auto* n = dyn_cast<NoCFIValue>(c)) return constAddr(n->getGlobalValue());
  errs() << "unsupported constant: " << *c << "\n"; return 0xDEAD;
}

FInfo* Engine::getF(const Function* F) {
  if (auto* O = M->getFunction(("symx_" + F->getName()).str())) if (!O->isDeclaration()) F = O; // a harness may replace a third-party function by a model
  auto& p = finfo[F]; if (!p) { p.reset(new FInfo()); p->F = F; p->name = F->getName().str();
    if (auto* sp = F->getSubprogram()) { p->file = sp->getFilename().str(); p->line = sp->getLine(); if (!p->file.empty() && p->file[0] != '/') p->file = sp->getDirectory().str() + "/" + p->file; p->repo = p->file.compare(0, repoPrefix.size(), repoPrefix) == 0; } }
  return p.get();
}

struct Dec {
  Engine& E; FInfo& f; const Function& F; map<const Value*, i32> slot; map<pair<u64, int>, i32> cidx;
  Dec(Engine& e, FInfo& fi) : E(e), f(fi), F(*fi.F) {}
  i32 addConst(Val v) { if (!v.e) { auto k = make_pair(v.c, 0); auto it = cidx.find(k); if (it != cidx.end()) return it->second; f.consts.push_back(v); i32 r = -(i32)f.consts.size(); cidx[k] = r; return r; } f.consts.push_back(v); return -(i32)f.consts.size(); }
  i32 newSlots(unsigned n) { i32 r = f.nslots; f.nslots += n; return r; }
  vector<i32> opv(const Value* v) {
    vector<i32> r;
    if (auto* c = dyn_cast<Constant>(v)) { vector<Val> vs; E.constLeaves(c, vs); for (auto& x : vs) r.push_back(addConst(x)); return r; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return r;
    auto it = slot.find(v); if (it == slot.end()) { errs() << "no slot for " << *v << "\n"; abort(); }
    unsigned n = E.nLeaves(v->getType()); for (unsigned i = 0; i < n; i++) r.push_back(it->second + i); return r;
  }
  i32 op1(const Value* v) { auto r = opv(v); if (r.empty()) return addConst(V(0)); return r[0]; }
  Ins mkI(Op op, const Instruction* I) { Ins i; i.op = op; i.sub = 0; i.w = i.w2 = 0; i.dst = -1; i.a = i.b = i.c = 0; i.imm = 0; i.p = nullptr; i.I = I; return i; }
  Edge edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = 0;
    for (auto& phi : to->phis()) { auto src = opv(phi.getIncomingValueForBlock(from)); i32 d = slot[&phi]; for (size_t k = 0; k < src.size(); k++) if (d + (i32)k != src[k]) e.moves.push_back({d + (i32)k, src[k]}); }
    e.target = (u32)(uintptr_t)bbId[to]; return e;
  }
  map<const BasicBlock*, u32> bbId;
  vector<Edge*> fix;
  static u16 bw(Type* t) { t = t->getScalarType(); if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return min(128u, t->getIntegerBitWidth()); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
  void run() {
    for (auto& a : F.args()) { slot[&a] = f.nslots; f.nslots += E.nLeaves(a.getType()); }
    u32 id = 0; for (auto& b : F) { bbId[&b] = id++; for (auto& I : b) { slot[&I] = f.nslots; f.nslots += E.nLeaves(I.getType()); } }
    vector<u32> start(id);
    for (auto& b : F) { start[bbId[&b]] = f.code.size(); f.bb[&b] = f.code.size(); for (auto& I : b) one(I); }
    auto fx = [&](Edge& e) { e.target = start[e.target]; };
    for (auto& i : f.code) { if (i.op == OP_BR) fx(*(Edge*)i.p); else if (i.op == OP_CONDBR) { auto* p = (pair<Edge, Edge>*)i.p; fx(p->first); fx(p->second); } else if (i.op == OP_SWITCH) { auto* s = (SwitchInfo*)i.p; for (auto& c : s->cases) fx(c.second); fx(s->def); } else if (i.op == OP_CALL) { auto* c = (CallInfo*)i.p; if (c->invoke) { fx(c->normal); fx(c->unwind); } } }
  }
  void unsup(const Instruction& I) { Ins i = mkI(OP_UNSUPPORTED, &I); f.code.push_back(i); }
  void one(const Instruction& I) {
    i32 d = slot[&I]; Type* T = I.getType();
    auto push = [&](Ins i) { f.code.push_back(i); };
    if (isa<PHINode>(I)) return;
    if (auto* B = dyn_cast<BinaryOperator>(&I)) {
      auto a = opv(B->getOperand(0)), b = opv(B->getOperand(1)); u16 w = bw(T); if (!w) return unsup(I);
      for (size_t k = 0; k < a.size(); k++) {
        Ins i = mkI(OP_BIN, &I); i.dst = d + k; i.a = a[k]; i.b = b[k]; i.w = w;
        switch (B->getOpcode()) {
          case Instruction::Add: i.sub = K_ADD; break; case Instruction::Sub: i.sub = K_SUB; break; case Instruction::Mul: i.sub = K_MUL; break;
          case Instruction::UDiv: i.sub = K_UDIV; break; case Instruction::SDiv: i.sub = K_SDIV; break; case Instruction::URem: i.sub = K_UREM; break; case Instruction::SRem: i.sub = K_SREM; break;
          case Instruction::And: i.sub = K_AND; break; case Instruction::Or: i.sub = K_OR; break; case Instruction::Xor: i.sub = K_XOR; break;
          case Instruction::Shl: i.sub = K_SHL; break; case Instruction::LShr: i.sub = K_LSHR; break; case Instruction::AShr: i.sub = K_ASHR; break;
          case Instruction::FAdd: i.op = OP_FBIN; i.sub = K_FADD; break; case Instruction::FSub: i.op = OP_FBIN; i.sub = K_FSUB; break; case Instruction::FMul: i.op = OP_FBIN; i.sub = K_FMUL; break; case Instruction::FDiv: i.op = OP_FBIN; i.sub = K_FDIV; break;
          default: return unsup(I);
        }
        push(i);
      }
      return;
    }
    if (auto* C = dyn_cast<ICmpInst>(&I)) { auto a = opv(C->getOperand(0)), b = opv(C->getOperand(1)); for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_ICMP, &I); i.dst = d + k; i.a = a[k]; i.b = b[k]; i.w = bw(C->getOperand(0)->getType()); i.sub = C->getPredicate(); push(i); } return; }
    if (auto* C = dyn_cast<FCmpInst>(&I)) { u16 w = bw(C->getOperand(0)->getType()); if (!w) return unsup(I); auto a = opv(C->getOperand(0)), b = opv(C->getOperand(1)); for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_FCMP, &I); i.dst = d + k; i.a = a[k]; i.b = b[k]; i.w = w; i.sub = C->getPredicate(); push(i); } return; }
    if (auto* U = dyn_cast<UnaryOperator>(&I)) { u16 w = bw(T); if (!w) return unsup(I); auto a = opv(U->getOperand(0)); for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_FUN, &I); i.dst = d + k; i.a = a[k]; i.w = i.w2 = w; i.sub = K_FNEG; push(i); } return; }
    if (auto* C = dyn_cast<CastInst>(&I)) {
      Type *S = C->getSrcTy(); auto a = opv(C->getOperand(0));
      if (C->getOpcode() == Instruction::BitCast) {
        vector<Leaf> ls, ld; E.leaves(S, 0, ls); E.leaves(T, 0, ld);
        if (ls.size() == ld.size()) { for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_COPY, &I); i.dst = d + k; i.a = a[k]; i.w = ls[k].w; push(i); } return; }
        Ins i = mkI(OP_VCAT, &I); i.dst = d; i.ops = a; for (auto& l : ls) i.ws.push_back(l.w); i.imm = ld.size(); i.w = ld[0].w; push(i); return;
      }
      u16 ws = bw(S), wd = bw(T); if (!ws || !wd) return unsup(I);
      for (size_t k = 0; k < a.size(); k++) {
        Ins i = mkI(OP_COPY, &I); i.dst = d + k; i.a = a[k]; i.w = wd; i.w2 = ws;
        switch (C->getOpcode()) {
          case Instruction::Trunc: i.op = OP_TRUNC; break; case Instruction::ZExt: i.op = OP_ZEXT; break; case Instruction::SExt: i.op = OP_SEXT; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: i.op = wd < ws ? OP_TRUNC : OP_ZEXT; break;
          case Instruction::AddrSpaceCast: break;
          case Instruction::FPToSI: i.op = OP_FUN; i.sub = K_FTOSI; break; case Instruction::FPToUI: i.op = OP_FUN; i.sub = K_FTOUI; break;
          case Instruction::SIToFP: i.op = OP_FUN; i.sub = K_SITOF; break; case Instruction::UIToFP: i.op = OP_FUN; i.sub = K_UITOF; break;
          case Instruction::FPExt: i.op = OP_FUN; i.sub = K_FEXT; break; case Instruction::FPTrunc: i.op = OP_FUN; i.sub = K_FTRUNC; break;
          default: return unsup(I);
        }
        push(i);
      }
      return;
    }
    if (auto* S = dyn_cast<SelectInst>(&I)) { auto c = opv(S->getCondition()), a = opv(S->getTrueValue()), b = opv(S->getFalseValue()); vector<Leaf> l; E.leaves(T, 0, l);
      for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_SELECT, &I); i.dst = d + k; i.a = c.size() == a.size() ? c[k] : c[0]; i.b = a[k]; i.c = b[k]; i.w = l[k].w; push(i); } return; }
    if (auto* L = dyn_cast<LoadInst>(&I)) { vector<Leaf> l; E.leaves(T, 0, l); i32 a = op1(L->getPointerOperand()); if (T->isX86_FP80Ty()) return unsup(I); for (size_t k = 0; k < l.size(); k++) { Ins i = mkI(OP_LOAD, &I); i.dst = d + k; i.a = a; i.w = l[k].w; i.imm = l[k].off; push(i); } return; }
    if (auto* S = dyn_cast<StoreInst>(&I)) { vector<Leaf> l; E.leaves(S->getValueOperand()->getType(), 0, l); if (S->getValueOperand()->getType()->isX86_FP80Ty()) return unsup(I); auto v = opv(S->getValueOperand()); i32 a = op1(S->getPointerOperand()); for (size_t k = 0; k < l.size(); k++) { Ins i = mkI(OP_STORE, &I); i.a = a; i.b = v[k]; i.w = l[k].w; i.imm = l[k].off; push(i); } return; }
    if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
      if (T->isVectorTy()) return unsup(I);
      auto* gi = new GepInfo(); 
      for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { Value* ix = it.getOperand();
        if (auto* st = it.getStructTypeOrNull()) { gi->off += E.DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        i64 sz = E.DL->getTypeAllocSize(it.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(ix)) { gi->off += ci->getSExtValue() * sz; continue; }
        gi->terms.push_back({op1(ix), bw(ix->getType()), sz}); }
      Ins i = mkI(OP_GEP, &I); i.dst = d; i.a = op1(G->getPointerOperand()); i.p = gi; i.imm = gi->off; i.sub = gi->terms.size(); push(i); return; }
    if (auto* A = dyn_cast<AllocaInst>(&I)) { Ins i = mkI(OP_ALLOCA, &I); i.dst = d; i.imm = E.DL->getTypeAllocSize(A->getAllocatedType()); i.a = op1(A->getArraySize()); i.w = bw(A->getArraySize()->getType()); i.w2 = A->getAlign().value(); push(i); return; }
    if (auto* B = dyn_cast<BranchInst>(&I)) {
      if (B->isUnconditional()) { Ins i = mkI(OP_BR, &I); i.p = new Edge(edge(I.getParent(), B->getSuccessor(0))); push(i); return; }
      Ins i = mkI(OP_CONDBR, &I); i.a = op1(B->getCondition()); i.p = new pair<Edge, Edge>(edge(I.getParent(), B->getSuccessor(0)), edge(I.getParent(), B->getSuccessor(1))); push(i); return; }
    if (auto* S = dyn_cast<SwitchInst>(&I)) { auto* si = new SwitchInfo(); for (auto& c : S->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())}); si->def = edge(I.getParent(), S->getDefaultDest()); Ins i = mkI(OP_SWITCH, &I); i.a = op1(S->getCondition()); i.w = bw(S->getCondition()->getType()); i.p = si; push(i); return; }
    if (auto* R = dyn_cast<ReturnInst>(&I)) { Ins i = mkI(OP_RET, &I); if (R->getReturnValue()) i.ops = opv(R->getReturnValue()); push(i); return; }
    if (isa<UnreachableInst>(I)) { push(mkI(OP_UNREACHABLE, &I)); return; }
    if (auto* R = dyn_cast<ResumeInst>(&I)) { Ins i = mkI(OP_RESUME, &I); i.a = op1(R->getValue()); push(i); return; }
    if (auto* L = dyn_cast<LandingPadInst>(&I)) { auto* li = new LpadInfo(); li->cleanup = L->isCleanup(); for (unsigned k = 0; k < L->getNumClauses(); k++) { LpadInfo::Cl c; c.filter = L->isFilter(k); Constant* x = L->getClause(k); if (c.filter) { if (auto* ca = dyn_cast<ConstantArray>(x)) for (auto& o : ca->operands()) c.tis.push_back(E.constAddr(cast<Constant>(o))); } else c.tis.push_back(E.constAddr(x)); li->cl.push_back(c); } Ins i = mkI(OP_LANDINGPAD, &I); i.dst = d; i.p = li; push(i); return; }
    if (auto* X = dyn_cast<ExtractValueInst>(&I)) { auto a = opv(X->getAggregateOperand()); unsigned off = leafOff(X->getAggregateOperand()->getType(), X->getIndices()); vector<Leaf> l; E.leaves(T, 0, l); for (size_t k = 0; k < l.size(); k++) { Ins i = mkI(OP_COPY, &I); i.dst = d + k; i.a = a[off + k]; i.w = l[k].w; push(i); } return; }
    if (auto* X = dyn_cast<InsertValueInst>(&I)) { auto a = opv(X->getAggregateOperand()), v = opv(X->getInsertedValueOperand()); unsigned off = leafOff(T, X->getIndices()); vector<Leaf> l; E.leaves(T, 0, l); for (size_t k = 0; k < l.size(); k++) { Ins i = mkI(OP_COPY, &I); i.dst = d + k; i.a = (k >= off && k < off + v.size()) ? v[k - off] : a[k]; i.w = l[k].w; push(i); } return; }
    if (auto* X = dyn_cast<ExtractElementInst>(&I)) { auto a = opv(X->getVectorOperand()); if (auto* ci = dyn_cast<ConstantInt>(X->getIndexOperand())) { Ins i = mkI(OP_COPY, &I); i.dst = d; i.a = a[min<u64>(ci->getZExtValue(), a.size() - 1)]; i.w = bw(T); push(i); return; } return unsup(I); }
    if (auto* X = dyn_cast<InsertElementInst>(&I)) { auto a = opv(X->getOperand(0)); i32 v = op1(X->getOperand(1)); if (auto* ci = dyn_cast<ConstantInt>(X->getOperand(2))) { for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_COPY, &I); i.dst = d + k; i.a = k == ci->getZExtValue() ? v : a[k]; i.w = bw(T); push(i); } return; } return unsup(I); }
    if (auto* X = dyn_cast<ShuffleVectorInst>(&I)) { auto a = opv(X->getOperand(0)), b = opv(X->getOperand(1)); auto m = X->getShuffleMask(); for (size_t k = 0; k < m.size(); k++) { Ins i = mkI(OP_COPY, &I); i.dst = d + k; int x = m[k]; i.a = x < 0 ? a[0] : x < (int)a.size() ? a[x] : b[x - a.size()]; i.w = bw(T); push(i); } return; }
    if (auto* X = dyn_cast<FreezeInst>(&I)) { auto a = opv(X->getOperand(0)); vector<Leaf> l; E.leaves(T, 0, l); for (size_t k = 0; k < a.size(); k++) { Ins i = mkI(OP_COPY, &I); i.dst = d + k; i.a = a[k]; i.w = l[k].w; push(i); } return; }
    if (isa<FenceInst>(I)) return;
    if (auto* X = dyn_cast<AtomicRMWInst>(&I)) { Ins i = mkI(OP_RMW, &I); i.dst = d; i.a = op1(X->getPointerOperand()); i.b = op1(X->getValOperand()); i.w = bw(T); i.sub = X->getOperation(); push(i); return; }
    if (auto* X = dyn_cast<AtomicCmpXchgInst>(&I)) { Ins i = mkI(OP_CMPXCHG, &I); i.dst = d; i.a = op1(X->getPointerOperand()); i.b = op1(X->getCompareOperand()); i.c = op1(X->getNewValOperand()); i.w = bw(X->getCompareOperand()->getType()); push(i); return; }
    if (auto* CB = dyn_cast<CallBase>(&I)) { call(*CB, d); return; }
    unsup(I);
  }
  unsigned leafOff(Type* t, ArrayRef<unsigned> idx) { unsigned off = 0; for (unsigned ix : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += E.nLeaves(s->getElementType(k)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); off += ix * E.nLeaves(a->getElementType()); t = a->getElementType(); } } return off; }
  void call(const CallBase& CB, i32 d) {
    const Function* cf = dyn_cast<Function>(CB.getCalledOperand()->stripPointerCastsAndAliases());
    Ins i = mkI(OP_CALL, &CB); i.dst = d;
    if (CB.isInlineAsm()) { if (auto* ia = dyn_cast<InlineAsm>(CB.getCalledOperand())) if (ia->getAsmString().empty()) { if (!CB.getType()->isVoidTy()) unsup(CB); return; } return unsup(CB); }
    if (cf && cf->isIntrinsic()) {
      switch (cf->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: return;
        default: break;
      }
    }
    auto* ci = new CallInfo(); ci->cb = &CB; ci->nFixed = 0; unsigned nf = CB.getFunctionType()->getNumParams();
    for (unsigned k = 0; k < CB.arg_size(); k++) {
      const Value* a = CB.getArgOperand(k); if (isa<MetadataAsValue>(a)) continue;
      auto s = opv(a); vector<Leaf> l; E.leaves(a->getType(), 0, l);
      for (size_t j = 0; j < s.size(); j++) { ci->args.push_back(s[j]); ci->argW.push_back(l[j].w); ci->byval.push_back(CB.isByValArgument(k) ? (int)E.DL->getTypeAllocSize(CB.getParamByValType(k)) : 0); }
      if (k < nf) ci->nFixed = ci->args.size();
    }
    vector<Leaf> rl; E.leaves(CB.getType(), 0, rl); ci->retN = rl.size(); for (auto& l : rl) ci->retW.push_back(l.w);
    if (cf) {
      ci->callee = cf; ci->fi = E.getF(cf);
      if (cf->isIntrinsic()) ci->intrinsic = cf->getIntrinsicID(); else ci->builtin = E.builtinId(cf);
    } else { ci->indirect = true; ci->fnSlot = op1(CB.getCalledOperand()); }
    if (auto* iv = dyn_cast<InvokeInst>(&CB)) { ci->invoke = true; ci->normal = edge(CB.getParent(), iv->getNormalDest()); ci->unwind = edge(CB.getParent(), iv->getUnwindDest()); }
    else if (!isa<CallInst>(CB)) return unsup(CB);
    i.p = ci; f.code.push_back(i);
  }
};
void Engine::decode(FInfo& f) { f.decoded = true; Dec d(*this, f); d.run(); }
