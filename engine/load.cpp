#include "ir.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/ADT/PostOrderIterator.h>
using namespace llvm;

static const DataLayout *DL;
static std::map<const GlobalValue *, int> gIdx;  // globals
static std::map<const Function *, int> fIdx;

static void flatten(const Constant *C, u32 off, GlobalInit &G) {
  if (C->isNullValue() || isa<UndefValue>(C)) return;
  Type *Ty = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    u32 n = DL->getTypeStoreSize(Ty);
    APInt v = CI->getValue();
    for (u32 i = 0; i < n; i++) G.data[off + i] = (u8)v.extractBitsAsZExtValue(std::min(8u, v.getBitWidth() - 8 * i), 8 * i);
    return;
  }
  if (auto *CS = dyn_cast<ConstantDataSequential>(C)) {
    u32 es = DL->getTypeAllocSize(CS->getElementType());
    for (u32 i = 0; i < CS->getNumElements(); i++) {
      u64 v = CS->getElementAsInteger(i);
      for (u32 j = 0; j < es; j++) G.data[off + i * es + j] = v >> (8 * j);
    }
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    u32 es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (u32 i = 0; i < CA->getNumOperands(); i++) flatten(CA->getOperand(i), off + i * es, G);
    return;
  }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    const StructLayout *SL = DL->getStructLayout(CS->getType());
    for (u32 i = 0; i < CS->getNumOperands(); i++) flatten(CS->getOperand(i), off + SL->getElementOffset(i), G);
    return;
  }
  if (Ty->isPointerTy()) {
    APInt o(64, 0);
    const Value *base = C->stripAndAccumulateConstantOffsets(*DL, o, true);
    if (auto *F = dyn_cast<Function>(base)) { G.ptrs.push_back({off, {1, {(u32)fIdx[F], o.getSExtValue()}}}); return; }
    if (auto *V = dyn_cast<GlobalVariable>(base)) { G.ptrs.push_back({off, {0, {(u32)gIdx[V], o.getSExtValue()}}}); return; }
  }
  throw Unsupported("global initialiser");
}
static u32 tyW(Type *T) {
  if (T->isPointerTy()) return 64;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  return 0;
}
struct FB {
  Func &F; const Function &LF;
  std::map<const Value *, int> reg;
  std::map<const Value *, int> cst;
  std::map<const BasicBlock *, int> bb;
  std::vector<std::pair<int, Ins>> *cur = nullptr;
  FB(Func &f, const Function &lf) : F(f), LF(lf) {}
  int constId(const Val &v) { F.consts.push_back(v); return ~(int)(F.consts.size() - 1); }
  int opnd(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) {
      auto it = cst.find(V);
      if (it != cst.end()) return it->second;
      Val r;
      if (auto *CI = dyn_cast<ConstantInt>(C)) {
        if (CI->getBitWidth() > 64) throw Unsupported("wide integer constant");
        r = Val::I(CI->getZExtValue(), CI->getBitWidth());
      }
      else if (isa<ConstantPointerNull>(C)) { r.k = K_PTR; r.w = 64; r.a = 0; r.v = 0; }
      else if (isa<UndefValue>(C)) { r.k = K_UNDEF; r.w = tyW(C->getType()); }
      else if (C->getType()->isPointerTy()) {
        APInt o(64, 0);
        const Value *base = C->stripAndAccumulateConstantOffsets(*DL, o, true);
        if (auto *Fn = dyn_cast<Function>(base)) { r.k = K_FN; r.w = 64; r.a = fIdx[Fn]; }
        else if (auto *G = dyn_cast<GlobalVariable>(base)) {
          r.k = K_PTR; r.w = 64; r.a = gIdx[G] + 1;  // object slots: global i -> slot i+1
          r.v = o.getSExtValue(); r.lo = 0; r.hi = DL->getTypeAllocSize(G->getValueType());
          if (auto *GE = dyn_cast<GEPOperator>(C)) (void)GE;
        } else if (isa<ConstantPointerNull>(base)) { r.k = K_PTR; r.w = 64; r.a = 0; r.v = o.getSExtValue(); }
        else if (auto *CE = dyn_cast<ConstantExpr>(base); CE && CE->getOpcode() == Instruction::IntToPtr && isa<ConstantInt>(CE->getOperand(0))) {
          r.k = K_PTR; r.w = 64; r.a = 0; r.v = cast<ConstantInt>(CE->getOperand(0))->getZExtValue() + o.getSExtValue();
        }
        else throw Unsupported("pointer constant");
      } else throw Unsupported("constant operand");
      return cst[V] = constId(r);
    }
    auto it = reg.find(V);
    if (it == reg.end()) throw Unsupported("unknown operand");
    return it->second;
  }
};
static u8 predOf(CmpInst::Predicate p) { return (u8)p; }

static void buildFunc(Func &F, const Function &LF) {
  FB B(F, LF);
  int nr = 0;
  for (auto &A : LF.args()) B.reg[&A] = nr++;
  F.nargs = nr;
  int nb = 0;
  for (auto &BB : LF) { B.bb[&BB] = nb++; for (auto &I : BB) if (!I.getType()->isVoidTy()) B.reg[&I] = nr++; }
  F.nregs = nr;
  F.blocks.resize(nb);
  if (auto *SP = LF.getSubprogram()) F.file = (SP->getDirectory() + "/" + SP->getFilename()).str();
  PostDominatorTree PDT(const_cast<Function &>(LF));
  std::vector<std::vector<u64>> use(nb), def(nb);
  size_t wd = (nr + 63) / 64;
  for (auto &BB : LF) {
    int bi = B.bb[&BB];
    Block &K = F.blocks[bi];
    K.name = BB.getName().str();
    use[bi].assign(wd, 0); def[bi].assign(wd, 0);
    for (auto *S : successors(&BB)) K.succ.push_back(B.bb[S]);
    auto *nd = PDT.getNode(const_cast<BasicBlock *>(&BB));
    if (nd && nd->getIDom() && nd->getIDom()->getBlock()) K.ipdom = B.bb[nd->getIDom()->getBlock()];
    for (auto &I : BB) {
      Ins R;
      if (auto &dl = I.getDebugLoc()) R.line = dl.getLine();
      if (!I.getType()->isVoidTy()) { R.dst = B.reg[&I]; R.w = tyW(I.getType()); }
      if (!isa<PHINode>(I))
        for (auto &U : I.operands()) {
          auto it = B.reg.find(U.get());
          if (it != B.reg.end() && !(def[bi][it->second / 64] >> (it->second % 64) & 1)) use[bi][it->second / 64] |= 1ull << (it->second % 64);
        }
      if (R.dst >= 0) def[bi][R.dst / 64] |= 1ull << (R.dst % 64);
      if (auto *P = dyn_cast<PHINode>(&I)) {
        K.phiDst.push_back(R.dst);
        for (u32 i = 0; i < P->getNumIncomingValues(); i++)
          K.phis[B.bb[P->getIncomingBlock(i)]].push_back({R.dst, B.opnd(P->getIncomingValue(i))});
        continue;
      }
      try {
        if (auto *O = dyn_cast<BinaryOperator>(&I)) {
          static const std::map<unsigned, int> mp = {{Instruction::Add, I_ADD}, {Instruction::Sub, I_SUB}, {Instruction::Mul, I_MUL}, {Instruction::UDiv, I_UDIV}, {Instruction::SDiv, I_SDIV}, {Instruction::URem, I_UREM}, {Instruction::SRem, I_SREM}, {Instruction::Shl, I_SHL}, {Instruction::LShr, I_LSHR}, {Instruction::AShr, I_ASHR}, {Instruction::And, I_AND}, {Instruction::Or, I_OR}, {Instruction::Xor, I_XOR}};
          auto it = mp.find(O->getOpcode());
          if (it == mp.end() || !R.w || R.w > 64) throw Unsupported("binary operator");
          R.op = it->second; R.a = B.opnd(O->getOperand(0)); R.b = B.opnd(O->getOperand(1));
        } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
          R.op = I_ICMP; R.pred = predOf(C->getPredicate()); R.a = B.opnd(C->getOperand(0)); R.b = B.opnd(C->getOperand(1));
          R.w2 = tyW(C->getOperand(0)->getType());
          if (!R.w2) throw Unsupported("comparison type");
        } else if (auto *S = dyn_cast<SelectInst>(&I)) {
          R.op = I_SELECT; R.a = B.opnd(S->getCondition()); R.b = B.opnd(S->getTrueValue()); R.c = B.opnd(S->getFalseValue());
        } else if (auto *L = dyn_cast<LoadInst>(&I)) {
          R.op = I_LOAD; R.a = B.opnd(L->getPointerOperand()); R.imm = DL->getTypeStoreSize(L->getType());
          R.w2 = L->getType()->isPointerTy();
          if (!R.w || R.w > 64) throw Unsupported("load type");
        } else if (auto *S = dyn_cast<StoreInst>(&I)) {
          R.op = I_STORE; R.a = B.opnd(S->getPointerOperand()); R.b = B.opnd(S->getValueOperand());
          R.imm = DL->getTypeStoreSize(S->getValueOperand()->getType()); R.w = tyW(S->getValueOperand()->getType());
          if (!R.w || R.w > 64) throw Unsupported("store type");
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          R.op = I_GEP; R.a = B.opnd(G->getPointerOperand());
          std::vector<GepIdx> ix; int64_t off = 0; int64_t nar = -1, narOff = 0;
          Type *curTy = nullptr;
          for (gep_type_iterator GT = gep_type_begin(G), GE = gep_type_end(G); GT != GE; ++GT) {
            const Value *op = GT.getOperand();
            if (StructType *ST = GT.getStructTypeOrNull()) {
              off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
            } else {
              if (auto *AT = dyn_cast_or_null<ArrayType>(curTy)) {
                // indexing into an array of known extent; narrow if no variable index precedes
                if (ix.empty()) { narOff = off; nar = (int64_t)DL->getTypeAllocSize(AT); }
                else nar = -1;
              }
              int64_t sc = DL->getTypeAllocSize(GT.getIndexedType());
              if (auto *CI = dyn_cast<ConstantInt>(op)) off += CI->getSExtValue() * sc;
              else { ix.push_back({B.opnd(op), sc}); R.w2 = std::max<u8>(R.w2, tyW(op->getType())); }
            }
            curTy = GT.getIndexedType();
          }
          R.imm = off;
          if (!ix.empty() || nar > 0) { R.x = F.geps.size(); F.geps.push_back(ix); F.gepNarrow.push_back({narOff, nar}); }
        } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
          R.op = I_ALLOCA;
          auto sz = A->getAllocationSize(*DL);
          if (!sz) { R.op = I_ALLOCA; R.imm = -1; R.a = B.opnd(A->getArraySize()); R.b = (int)DL->getTypeAllocSize(A->getAllocatedType()); }
          else R.imm = sz->getFixedValue();
        } else if (auto *C = dyn_cast<CastInst>(&I)) {
          R.a = B.opnd(C->getOperand(0)); R.w2 = tyW(C->getOperand(0)->getType());
          switch (C->getOpcode()) {
          case Instruction::ZExt: R.op = I_ZEXT; break;
          case Instruction::SExt: R.op = I_SEXT; break;
          case Instruction::Trunc: R.op = I_TRUNC; break;
          case Instruction::PtrToInt: R.op = I_PTRTOINT; break;
          case Instruction::IntToPtr: R.op = I_INTTOPTR; break;
          case Instruction::BitCast: R.op = I_COPY; break;
          default: throw Unsupported("cast");
          }
          if (!R.w || R.w > 64 || !R.w2 || R.w2 > 64) throw Unsupported("cast width");
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) { R.op = I_CONDBR; R.a = B.opnd(Br->getCondition()); R.b = B.bb[Br->getSuccessor(0)]; R.c = B.bb[Br->getSuccessor(1)]; }
          else { R.op = I_BR; R.b = B.bb[Br->getSuccessor(0)]; }
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          R.op = I_SWITCH; R.a = B.opnd(Sw->getCondition()); R.w2 = tyW(Sw->getCondition()->getType()); R.b = B.bb[Sw->getDefaultDest()];
          R.x = F.switches.size(); F.switches.push_back({});
          for (auto &c : Sw->cases()) F.switches.back().push_back({c.getCaseValue()->getZExtValue(), B.bb[c.getCaseSuccessor()]});
        } else if (auto *Rt = dyn_cast<ReturnInst>(&I)) {
          R.op = I_RET;
          if (Rt->getReturnValue()) { R.a = B.opnd(Rt->getReturnValue()); R.w = tyW(Rt->getReturnValue()->getType()); R.b = 1; }
        } else if (isa<UnreachableInst>(&I)) R.op = I_UNREACHABLE;
        else if (isa<FreezeInst>(&I)) { R.op = I_COPY; R.a = B.opnd(I.getOperand(0)); }
        else if (auto *C = dyn_cast<CallInst>(&I)) {
          if (isa<DbgInfoIntrinsic>(C)) continue;
          if (auto *MT = dyn_cast<MemTransferInst>(C)) {
            R.op = I_MEMCPY; R.a = B.opnd(MT->getRawDest()); R.b = B.opnd(MT->getRawSource()); R.c = B.opnd(MT->getLength());
            R.pred = isa<MemCpyInst>(MT);
          } else if (auto *MS = dyn_cast<MemSetInst>(C)) {
            R.op = I_MEMSET; R.a = B.opnd(MS->getRawDest()); R.b = B.opnd(MS->getValue()); R.c = B.opnd(MS->getLength());
          } else if (auto *II = dyn_cast<IntrinsicInst>(C)) {
            auto A2 = [&](int op) { R.op = op; R.a = B.opnd(C->getArgOperand(0)); if (C->arg_size() > 1) R.b = B.opnd(C->getArgOperand(1)); if (C->arg_size() > 2) R.c = B.opnd(C->getArgOperand(2)); };
            switch (II->getIntrinsicID()) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: continue;
            case Intrinsic::bswap: A2(I_BSWAP); break;
            case Intrinsic::fshl: A2(I_FSHL); break;
            case Intrinsic::fshr: A2(I_FSHR); break;
            case Intrinsic::umin: A2(I_UMIN); break;
            case Intrinsic::umax: A2(I_UMAX); break;
            case Intrinsic::smin: A2(I_SMIN); break;
            case Intrinsic::smax: A2(I_SMAX); break;
            case Intrinsic::abs: A2(I_ABS); break;
            case Intrinsic::ctpop: A2(I_CTPOP); break;
            case Intrinsic::expect: R.op = I_COPY; R.a = B.opnd(C->getArgOperand(0)); break;
            case Intrinsic::stacksave: R.op = I_COPY; { Val z; z.k = K_PTR; z.w = 64; R.a = B.constId(z); } break;
            case Intrinsic::stackrestore: continue;
            case Intrinsic::trap: R.op = I_UNREACHABLE; break;
            default: throw Unsupported(("intrinsic " + II->getCalledFunction()->getName()).str());
            }
          } else {
            R.op = I_CALL;
            const Value *cv = C->getCalledOperand()->stripPointerCasts();
            if (auto *CF = dyn_cast<Function>(cv)) R.imm = fIdx[CF];
            else if (isa<InlineAsm>(cv)) { R.op = I_NOP; if (R.dst >= 0 || C->arg_size() > 1) throw Unsupported("inline asm"); }
            else { R.imm = -1; R.a = B.opnd(cv); }
            R.x = F.callArgs.size(); F.callArgs.push_back({});
            if (R.op == I_CALL) for (auto &a : C->args()) F.callArgs.back().push_back(B.opnd(a.get()));
          }
        } else throw Unsupported(std::string("instruction ") + I.getOpcodeName());
      } catch (Unsupported &e) {
        R.op = I_UNSUP; R.x = -1;
      }
      K.ins.push_back(R);
    }
  }
  // liveness: registers live on entry to each block after its phis
  std::vector<std::vector<u64>> in(nb, std::vector<u64>(wd, 0));
  std::vector<std::vector<u64>> phiUse(nb, std::vector<u64>(wd, 0));  // uses on outgoing edges
  for (int b = 0; b < nb; b++)
    for (auto &pr : F.blocks[b].phis)
      for (auto &c : pr.second) if (c.src >= 0) phiUse[pr.first][c.src / 64] |= 1ull << (c.src % 64);
  bool ch = true;
  while (ch) {
    ch = false;
    for (int b = nb - 1; b >= 0; b--) {
      std::vector<u64> out(phiUse[b]);
      for (int s : F.blocks[b].succ) {
        std::vector<u64> si(in[s]);
        for (int d : F.blocks[s].phiDst) si[d / 64] &= ~(1ull << (d % 64));
        for (size_t i = 0; i < wd; i++) out[i] |= si[i];
      }
      // def[] includes phi destinations; live-in after phis keeps used phi values
      std::vector<u64> df(def[b]);
      std::vector<u64> ni(wd);
      std::vector<u64> pd(wd, 0);
      for (int d : F.blocks[b].phiDst) pd[d / 64] |= 1ull << (d % 64);
      for (size_t i = 0; i < wd; i++) ni[i] = use[b][i] | (out[i] & (~df[i] | pd[i]));
      // a phi destination used inside the block is not an upward-exposed use in `use` (it is in def first)
      for (auto &x : pd) (void)x;
      if (ni != in[b]) { in[b] = ni; ch = true; }
    }
  }
  for (int b = 0; b < nb; b++) {
    // conservatively keep all phi destinations live
    for (int d : F.blocks[b].phiDst) in[b][d / 64] |= 1ull << (d % 64);
    F.blocks[b].live = in[b];
  }
}
// Overflow checks and leading/trailing zero counts in terms of what the executor has.
static void lowerIntrinsics(Module &M) {
  std::vector<IntrinsicInst *> w;
  for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<IntrinsicInst>(&I)) w.push_back(C);
  for (auto *C : w) {
    IRBuilder<> Q(C); Value *r = nullptr, *o = nullptr;
    Value *a = C->arg_size() > 0 ? C->getArgOperand(0) : nullptr, *b = C->arg_size() > 1 ? C->getArgOperand(1) : nullptr;
    if (!a || !a->getType()->isIntegerTy()) continue;
    Value *z = ConstantInt::get(a->getType(), 0); unsigned n = a->getType()->getIntegerBitWidth();
    switch (C->getIntrinsicID()) {
    case Intrinsic::uadd_with_overflow: r = Q.CreateAdd(a, b); o = Q.CreateICmpULT(r, a); break;
    case Intrinsic::usub_with_overflow: r = Q.CreateSub(a, b); o = Q.CreateICmpULT(a, b); break;
    case Intrinsic::sadd_with_overflow: r = Q.CreateAdd(a, b); o = Q.CreateICmpSLT(Q.CreateAnd(Q.CreateXor(a, r), Q.CreateXor(b, r)), z); break;
    case Intrinsic::ssub_with_overflow: r = Q.CreateSub(a, b); o = Q.CreateICmpSLT(Q.CreateAnd(Q.CreateXor(a, b), Q.CreateXor(a, r)), z); break;
    case Intrinsic::umul_with_overflow:
      if (n > 32) { r = Q.CreateMul(a, b); Value *e = Q.CreateICmpEQ(a, z); o = Q.CreateAnd(Q.CreateNot(e), Q.CreateICmpNE(Q.CreateUDiv(r, Q.CreateSelect(e, ConstantInt::get(a->getType(), 1), a)), b)); break; }
      { Type *W = Q.getInt64Ty(); Value *p = Q.CreateMul(Q.CreateZExt(a, W), Q.CreateZExt(b, W)); r = Q.CreateTrunc(p, a->getType()); o = Q.CreateICmpNE(Q.CreateZExt(r, W), p); break; }
    case Intrinsic::smul_with_overflow:
      if (n > 32) continue;
      { Type *W = Q.getInt64Ty(); Value *p = Q.CreateMul(Q.CreateSExt(a, W), Q.CreateSExt(b, W)); r = Q.CreateTrunc(p, a->getType()); o = Q.CreateICmpNE(Q.CreateSExt(r, W), p); break; }
    case Intrinsic::ctlz: {
      Value *x = a; for (unsigned k = 1; k < n; k *= 2) x = Q.CreateOr(x, Q.CreateLShr(x, k));
      r = Q.CreateSub(ConstantInt::get(a->getType(), n), Q.CreateUnaryIntrinsic(Intrinsic::ctpop, x)); break; }
    case Intrinsic::cttz: r = Q.CreateUnaryIntrinsic(Intrinsic::ctpop, Q.CreateAnd(Q.CreateNot(a), Q.CreateSub(a, ConstantInt::get(a->getType(), 1)))); break;
    default: continue;
    }
    if (o) {
      Value *v = Q.CreateInsertValue(UndefValue::get(C->getType()), r, 0); v = Q.CreateInsertValue(v, o, 1); r = v;
    }
    C->replaceAllUsesWith(r); C->eraseFromParent();
  }
}
// Structures passed and returned by value.  A returned aggregate is handed back through memory, an aggregate
// value becomes the list of its scalars, and a byval argument is copied by the caller.
static bool agg(Type *T) { return T->isStructTy() || T->isArrayTy(); }
static void leaves(Type *T, std::vector<unsigned> &at, std::vector<std::pair<Type *, std::vector<unsigned>>> &out) {
  unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : 0;
  if (!agg(T)) { out.push_back({T, at}); return; }
  for (unsigned i = 0; i < n; i++) { at.push_back(i); leaves(T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(), at, out); at.pop_back(); }
}
static void lowerAggregates(Module &M) {
  LLVMContext &X = M.getContext();
  std::vector<Function *> fs; for (auto &F : M) fs.push_back(&F);
  for (auto *F : fs) {
    if (F->isDeclaration() || !agg(F->getReturnType())) continue;
    std::vector<Type *> ps{PointerType::get(X, 0)}; for (auto &A : F->args()) ps.push_back(A.getType());
    auto *N = Function::Create(FunctionType::get(Type::getVoidTy(X), ps, F->isVarArg()), F->getLinkage(), "", M);
    N->takeName(F); N->splice(N->begin(), F); N->setSubprogram(F->getSubprogram()); F->setSubprogram(nullptr);
    auto b = N->arg_begin(); ++b;
    for (auto &A : F->args()) { if (A.hasByValAttr()) N->addParamAttr(b->getArgNo(), Attribute::getWithByValType(X, A.getParamByValType())); A.replaceAllUsesWith(&*b); ++b; }
    std::vector<ReturnInst *> rs; for (auto &B : *N) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) rs.push_back(R);
    for (auto *R : rs) { IRBuilder<> I(R); I.CreateStore(R->getReturnValue(), N->getArg(0)); I.CreateRetVoid(); R->eraseFromParent(); }
    F->replaceAllUsesWith(N); F->eraseFromParent();
  }
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::vector<CallInst *> cs; std::vector<Instruction *> as; bool any = false;
    for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallInst>(&I)) if (!isa<IntrinsicInst>(C) && !C->isInlineAsm()) cs.push_back(C);
    for (auto *C : cs) {
      IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt()), I(C);
      for (unsigned i = 0; i < C->arg_size(); i++)
        if (C->isByValArgument(i)) {
          Type *T = C->getParamByValType(i); Value *t = E.CreateAlloca(T);
          I.CreateMemCpy(t, MaybeAlign(), C->getArgOperand(i), MaybeAlign(), M.getDataLayout().getTypeAllocSize(T)); C->setArgOperand(i, t);
        }
      Type *T = C->getType(); if (!agg(T)) continue;
      Value *t = E.CreateAlloca(T);
      std::vector<Value *> ar{t}; std::vector<Type *> ps{t->getType()};
      for (auto &a : C->args()) { ar.push_back(a.get()); ps.push_back(a->getType()); }
      auto *N = I.CreateCall(FunctionType::get(Type::getVoidTy(X), ps, false), C->getCalledOperand(), ar); N->setDebugLoc(C->getDebugLoc());
      auto *L = I.CreateLoad(T, t); C->replaceAllUsesWith(L); C->eraseFromParent();
    }
    std::map<Value *, std::vector<Value *>> sv; std::vector<PHINode *> phis;
    std::function<std::vector<Value *>(Value *)> parts = [&](Value *v) -> std::vector<Value *> {
      auto it = sv.find(v); if (it != sv.end()) return it->second;
      std::vector<Value *> r;
      if (auto *C = dyn_cast<Constant>(v)) {
        std::vector<std::pair<Type *, std::vector<unsigned>>> ls; std::vector<unsigned> at; leaves(v->getType(), at, ls);
        for (auto &l : ls) { Constant *c = C; for (unsigned i : l.second) { c = c->getAggregateElement(i); if (!c) throw Unsupported("aggregate constant"); } r.push_back(c); }
        return r;
      }
      throw Unsupported("aggregate value");
    };
    auto range = [&](Type *T, ArrayRef<unsigned> ix, size_t &lo, size_t &n) {
      std::vector<std::pair<Type *, std::vector<unsigned>>> ls; std::vector<unsigned> at; leaves(T, at, ls); lo = 0; n = 0;
      for (auto &l : ls) { bool in = std::equal(ix.begin(), ix.end(), l.second.begin()); if (in) n++; else if (!n) lo++; }
    };
    ReversePostOrderTraversal<Function *> rpo(&F);
    for (auto *B : rpo) for (auto &Ir : *B) {
      Instruction *I = &Ir; Type *T = I->getType();
      auto *S = dyn_cast<StoreInst>(I);
      if (!agg(T) && !(S && agg(S->getValueOperand()->getType())) && !isa<ExtractValueInst>(I)) continue;
      if (auto *W = dyn_cast<ExtractValueInst>(I); W && isa<IntrinsicInst>(W->getAggregateOperand())) continue;
      if (isa<IntrinsicInst>(I)) continue;
      any = true; as.push_back(I);
      Type *A = S ? S->getValueOperand()->getType() : T;
      std::vector<std::pair<Type *, std::vector<unsigned>>> ls; std::vector<unsigned> at; leaves(A, at, ls);
      IRBuilder<> Q(I); std::vector<Value *> r;
      auto addr = [&](Value *p, size_t i) { std::vector<Value *> ix{Q.getInt32(0)}; for (unsigned k : ls[i].second) ix.push_back(Q.getInt32(k)); return Q.CreateGEP(A, p, ix); };
      if (auto *L = dyn_cast<LoadInst>(I)) { for (size_t i = 0; i < ls.size(); i++) r.push_back(Q.CreateLoad(ls[i].first, addr(L->getPointerOperand(), i))); }
      else if (S) { auto v = parts(S->getValueOperand()); for (size_t i = 0; i < ls.size(); i++) Q.CreateStore(v[i], addr(S->getPointerOperand(), i)); }
      else if (auto *E = dyn_cast<InsertValueInst>(I)) {
        r = parts(E->getAggregateOperand()); size_t lo, n; range(A, E->getIndices(), lo, n);
        Value *x = E->getInsertedValueOperand(); std::vector<Value *> xs = agg(x->getType()) ? parts(x) : std::vector<Value *>{x};
        for (size_t i = 0; i < n; i++) r[lo + i] = xs[i];
      } else if (auto *E = dyn_cast<ExtractValueInst>(I)) {
        auto v = parts(E->getAggregateOperand()); size_t lo, n; range(E->getAggregateOperand()->getType(), E->getIndices(), lo, n);
        if (agg(T)) r.assign(v.begin() + lo, v.begin() + lo + n); else { E->replaceAllUsesWith(v[lo]); for (auto &m : sv) for (auto &y : m.second) if (y == E) y = v[lo]; }
      } else if (auto *P = dyn_cast<PHINode>(I)) { for (auto &l : ls) r.push_back(Q.CreatePHI(l.first, P->getNumIncomingValues())); phis.push_back(P); }
      else if (auto *C = dyn_cast<SelectInst>(I)) { auto x = parts(C->getTrueValue()), y = parts(C->getFalseValue()); for (size_t i = 0; i < ls.size(); i++) r.push_back(Q.CreateSelect(C->getCondition(), x[i], y[i])); }
      else throw Unsupported("aggregate instruction");
      sv[I] = r;
    }
    if (!any) continue;
    for (auto *P : phis) for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { auto v = parts(P->getIncomingValue(k)); for (size_t i = 0; i < v.size(); i++) cast<PHINode>(sv[P][i])->addIncoming(v[i], P->getIncomingBlock(k)); }
    for (auto *I : as) if (!I->getType()->isVoidTy()) I->replaceAllUsesWith(UndefValue::get(I->getType()));
    for (auto *I : as) I->eraseFromParent();
  }
}
void loadProgram(const std::string &path, Program &P) {
  static LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(path, Err, Ctx);
  if (!M) throw Unsupported("cannot parse " + path + ": " + Err.getMessage().str());
  static std::unique_ptr<Module> keep = std::move(M);
  Module &Mo = *keep;
  DL = &Mo.getDataLayout();
  lowerIntrinsics(Mo);
  try { lowerAggregates(Mo); } catch (Unsupported &) {}   // what is left is unsupported where it is executed
  for (auto &F : Mo) {
    fIdx[&F] = P.funcs.size();
    P.byName[F.getName().str()] = P.funcs.size();
    Func f; f.name = F.getName().str(); f.defined = !F.isDeclaration();
    f.isvoid = F.getReturnType()->isVoidTy(); f.retptr = F.getReturnType()->isPointerTy(); f.retw = tyW(F.getReturnType());
    P.funcs.push_back(f);
  }
  for (auto &G : Mo.globals()) {
    gIdx[&G] = P.globals.size();
    P.gByName[G.getName().str()] = P.globals.size();
    GlobalInit g; g.name = G.getName().str(); g.constant = G.isConstant();
    g.size = DL->getTypeAllocSize(G.getValueType());
    g.data.assign(g.size, 0);
    P.globals.push_back(g);
  }
  for (auto &G : Mo.globals()) if (G.hasInitializer()) flatten(G.getInitializer(), 0, P.globals[gIdx[&G]]);
  for (auto &F : Mo) if (!F.isDeclaration()) {
    Func &f = P.funcs[fIdx[&F]];
    buildFunc(f, F);
    f.fromRepo = f.file.find("/harness/") == std::string::npos;
  }
}
