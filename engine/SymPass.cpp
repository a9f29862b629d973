// LLVM pass: instruments every function of a module so that, next to each concrete SSA value, a symbolic
// expression ("shadow", a ptr; null = the value is concrete) is computed by the runtime in rt.cpp.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/StringSet.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
typedef SmallVector<Value*, 2> Leaves;

struct Instr {
   Module& M;
   LLVMContext& C;
   const DataLayout& DL;
   PointerType* P;
   IntegerType *I64, *I32, *I1, *I8;
   Type* D;
   Type* V;
   Constant* Null;
   GlobalVariable *Args, *Rets, *Fn, *RetFn, *Byval, *Hit;
   unsigned siteCounter = 0;
   std::set<std::string> warned;
   static constexpr unsigned MAXSLOT = 64;

   Instr(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
      P = PointerType::get(C, 0);
      I64 = Type::getInt64Ty(C); I32 = Type::getInt32Ty(C); I1 = Type::getInt1Ty(C); I8 = Type::getInt8Ty(C);
      D = Type::getDoubleTy(C); V = Type::getVoidTy(C);
      Null = ConstantPointerNull::get(P);
      auto ext = [&](StringRef n, Type* t) { auto* g = cast<GlobalVariable>(M.getOrInsertGlobal(n, t)); return g; };
      Args = ext("__sy_args", ArrayType::get(P, MAXSLOT));
      Rets = ext("__sy_rets", ArrayType::get(P, MAXSLOT));
      Byval = ext("__sy_byval", ArrayType::get(P, MAXSLOT));
      Fn = ext("__sy_fn", P);
      RetFn = ext("__sy_retfn", P);
   }
   FunctionCallee rt(StringRef n, Type* ret, ArrayRef<Type*> a) {
      auto f = M.getOrInsertFunction(n, FunctionType::get(ret, a, false));
      if (auto* F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
      return f;
   }
   void warn(const std::string& s) { if (warned.insert(s).second && getenv("SY_WARN")) errs() << "sympass: " << s << "\n"; }

   // ---- flattening ----
   struct Leaf { Type* T; uint64_t off; };
   void flatten(Type* T, uint64_t off, SmallVectorImpl<Leaf>& out) {
      if (auto* S = dyn_cast<StructType>(T)) {
         auto* L = DL.getStructLayout(S);
         for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), out);
      } else if (auto* A = dyn_cast<ArrayType>(T)) {
         for (uint64_t i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * DL.getTypeAllocSize(A->getElementType()), out);
      } else if (auto* X = dyn_cast<FixedVectorType>(T)) {
         uint64_t sz = DL.getTypeSizeInBits(X->getElementType()) / 8;
         for (unsigned i = 0; i < X->getNumElements(); i++) flatten(X->getElementType(), off + i * sz, out);
      } else if (!T->isVoidTy()) out.push_back({T, off});
   }
   unsigned nleaves(Type* T) { SmallVector<Leaf, 4> l; flatten(T, 0, l); return l.size(); }
   unsigned leafIndex(Type* T, ArrayRef<unsigned> idx, Type*& sub) {
      unsigned r = 0;
      for (unsigned i : idx) {
         if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) r += nleaves(S->getElementType(k)); T = S->getElementType(i); }
         else { auto* A = cast<ArrayType>(T); r += i * nleaves(A->getElementType()); T = A->getElementType(); }
      }
      sub = T;
      return r;
   }
   static bool isFP(Type* T) { return T->isDoubleTy() || T->isFloatTy(); }
   bool supported(Type* T) { return isFP(T) || T->isPointerTy() || (T->isIntegerTy() && T->getIntegerBitWidth() <= 64); }
   unsigned width(Type* T) { return T->isPointerTy() ? 64 : T->isIntegerTy() ? T->getIntegerBitWidth() : T->isDoubleTy() ? 64 : 32; }

   // ---- per function state ----
   std::map<Value*, Leaves> sh;
   std::vector<PHINode*> phis;
   Function* F = nullptr;

   Leaves get(Value* v) {
      auto it = sh.find(v);
      if (it != sh.end()) return it->second;
      return Leaves(nleaves(v->getType()), Null);
   }
   Value* get1(Value* v) {
      auto l = get(v);
      if (l.size() != 1) { return Null; }
      return l[0];
   }
   bool isNull(Value* v) { return v == Null; }
   bool allNull(const Leaves& l) { for (auto* x : l) if (x != Null) return false; return true; }
   void set(Value* v, Leaves l) { sh[v] = l; }
   void set1(Value* v, Value* s) { sh[v] = Leaves{s}; }

   // concrete value as i64
   Value* cv(IRBuilder<>& B, Value* v) {
      Type* T = v->getType();
      if (T->isPointerTy()) return B.CreatePtrToInt(v, I64);
      if (T->isIntegerTy()) return T->getIntegerBitWidth() > 64 ? B.CreateTrunc(v, I64) : B.CreateZExt(v, I64);
      if (T->isDoubleTy()) return B.CreateBitCast(v, I64);
      if (T->isFloatTy()) return B.CreateBitCast(B.CreateFPExt(v, D), I64);
      return ConstantInt::get(I64, 0);
   }
   // back from the i64 carrier
   Value* uncv(IRBuilder<>& B, Value* x, Type* T) {
      if (T->isPointerTy()) return B.CreateIntToPtr(x, T);
      if (T->isIntegerTy()) return B.CreateTrunc(x, T);
      return x;
   }
   Value* dv(IRBuilder<>& B, Value* v) { return v->getType()->isFloatTy() ? B.CreateFPExt(v, D) : v; }
   Value* c32(uint64_t x) { return ConstantInt::get(I32, x); }

   Value* slot(IRBuilder<>& B, GlobalVariable* g, unsigned i) { return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i); }

   Value* element(IRBuilder<>& B, Value* v, unsigned i) { // i-th vector element
      return B.CreateExtractElement(v, (uint64_t)i);
   }

   Value* binShadow(IRBuilder<>& B, unsigned op, Type* T, Value* a, Value* av, Value* b, Value* bv) {
      if (isNull(a) && isNull(b)) return Null;
      if (isFP(T)) return B.CreateCall(rt("_sy_fbin", P, {I32, P, D, P, D}), {c32(op), a, dv(B, av), b, dv(B, bv)});
      if (!supported(T)) { warn("binop on unsupported type"); return Null; }
      return B.CreateCall(rt("_sy_bin", P, {I32, I32, P, I64, P, I64}), {c32(op), c32(width(T)), a, cv(B, av), b, cv(B, bv)});
   }

   Value* loadShadow(IRBuilder<>& B, Value* addr, Type* T, uint64_t off) {
      if (!supported(T)) { warn("load of unsupported type"); if (!T->isX86_FP80Ty()) B.CreateCall(rt("_sy_unsup_load", V, {P, I64}), {addr, ConstantInt::get(I64, DL.getTypeStoreSize(T))}); return Null; }
      Value* a = off ? B.CreateConstInBoundsGEP1_64(I8, addr, off) : addr;
      return B.CreateCall(rt("_sy_load", P, {P, I32, I32, I32}), {a, c32(DL.getTypeStoreSize(T)), c32(isFP(T)), c32(width(T))});
   }
   void storeShadow(IRBuilder<>& B, Value* addr, Type* T, uint64_t off, Value* s) {
      Value* a = off ? B.CreateConstInBoundsGEP1_64(I8, addr, off) : addr;
      if (isNull(s)) { B.CreateCall(rt("_sy_clear", V, {P, I64}), {a, ConstantInt::get(I64, DL.getTypeStoreSize(T))}); return; }
      B.CreateCall(rt("_sy_store", V, {P, I32, P}), {a, c32(DL.getTypeStoreSize(T)), s});
   }
   // concretise operand i of I if its shadow may be symbolic
   void concOperand(IRBuilder<>& B, Instruction* I, unsigned i, bool strip = true) {
      Value* v = I->getOperand(i);
      if (!(v->getType()->isPointerTy() || v->getType()->isIntegerTy())) return;
      Value* s = get1(v);
      if (isNull(s)) return;
      if (v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth() > 64) return;
      Value* x = B.CreateCall(rt("_sy_conc", I64, {P, I64, I32}), {s, cv(B, v), c32(width(v->getType()))});
      I->setOperand(i, uncv(B, x, v->getType()));
   }

   void run(Function& Fx, unsigned id) {
      F = &Fx;
      sh.clear();
      phis.clear();
      for (auto& b : *F) if (b.getSinglePredecessor()) FoldSingleEntryPHINodes(&b);
      // room after every invoke, before any (still incomplete) shadow phi exists
      std::vector<InvokeInst*> invokes;
      for (auto& b : *F) if (auto* inv = dyn_cast<InvokeInst>(b.getTerminator())) invokes.push_back(inv);
      for (auto* inv : invokes) if (!inv->getNormalDest()->getSinglePredecessor()) SplitEdge(inv->getParent(), inv->getNormalDest());
      // visit in RPO so that operands are seen before uses (phis excepted)
      ReversePostOrderTraversal<Function*> rpo(F);
      std::vector<BasicBlock*> blocks;
      std::set<BasicBlock*> seen;
      for (BasicBlock* b : rpo) { blocks.push_back(b); seen.insert(b); }
      std::set<BasicBlock*> dead;
      for (auto& b : *F) if (!seen.count(&b)) dead.insert(&b);
      F->removeFnAttr(Attribute::Memory);
      for (auto& b : *F) for (auto& i : b) if (auto* cb = dyn_cast<CallBase>(&i)) if (!isa<IntrinsicInst>(cb)) cb->removeFnAttr(Attribute::Memory);
      std::vector<std::vector<Instruction*>> lists;
      for (auto* b : blocks) { lists.emplace_back(); for (auto& i : *b) lists.back().push_back(&i); }
      // entry
      {
         IRBuilder<> B(&*F->getEntryBlock().getFirstInsertionPt());
         // keep static allocas at the top
         Instruction* ip = &*F->getEntryBlock().getFirstInsertionPt();
         while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
         B.SetInsertPoint(ip);
         B.CreateStore(ConstantInt::get(I8, 1), B.CreateConstInBoundsGEP2_64(Hit->getValueType(), Hit, 0, id));
         Value* match = nullptr;
         unsigned s = 0;
         SmallVector<std::pair<Value*, Leaves>, 8> params;
         for (auto& A : F->args()) {
            unsigned n = nleaves(A.getType());
            Leaves l;
            bool any = false;
            for (unsigned k = 0; k < n; k++, s++) {
               if (s >= MAXSLOT) { l.push_back(Null); continue; }
               if (!match) match = B.CreateICmpEQ(B.CreateLoad(P, Fn), F);
               l.push_back(B.CreateSelect(match, B.CreateLoad(P, slot(B, Args, s)), Null));
               any = true;
            }
            (void)any;
            sh[&A] = l;
            if (A.hasByValAttr() && s - 1 < MAXSLOT) {
               sh[&A] = Leaves(n, Null);
               Value* src = B.CreateSelect(match, B.CreateLoad(P, slot(B, Byval, s - 1)), Null);
               B.CreateCall(rt("_sy_byvalcopy", V, {P, P, I64}), {&A, src, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))});
            }
         }
         if (match) B.CreateStore(Null, Fn);
      }
      for (auto& l : lists)
         for (auto* i : l) visit(i);
      // fill phis
      for (auto* p : phis) {
         auto it = phiShadow.find(p);
         for (unsigned k = 0; k < it->second.size(); k++) {
            auto* sp = cast<PHINode>(it->second[k]);
            for (unsigned j = 0; j < p->getNumIncomingValues(); j++) {
               Leaves l = get(p->getIncomingValue(j));
               if (dead.count(p->getIncomingBlock(j))) l = Leaves(it->second.size(), Null);
               sp->addIncoming(l[k], p->getIncomingBlock(j));
            }
         }
      }
      phiShadow.clear();
   }
   std::map<PHINode*, Leaves> phiShadow;

   void visit(Instruction* I) {
      Type* T = I->getType();
      if (auto* p = dyn_cast<PHINode>(I)) {
         IRBuilder<> B(p);
         Leaves l;
         for (unsigned k = 0; k < nleaves(T); k++) l.push_back(B.CreatePHI(P, p->getNumIncomingValues()));
         set(p, l);
         phiShadow[p] = l;
         phis.push_back(p);
         return;
      }
      if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
      Instruction* next = I->getNextNode();
      if (auto* a = dyn_cast<AllocaInst>(I)) {
         Instruction* ip = next;
         while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
         IRBuilder<> B(ip);
         Value* sz = ConstantInt::get(I64, DL.getTypeAllocSize(a->getAllocatedType()));
         if (a->isArrayAllocation()) sz = B.CreateMul(sz, B.CreateZExtOrTrunc(a->getArraySize(), I64));
         B.CreateCall(rt("_sy_clear", V, {P, I64}), {a, sz});
         return;
      }
      if (auto* b = dyn_cast<BranchInst>(I)) {
         if (!b->isConditional()) return;
         Value* s = get1(b->getCondition());
         if (isNull(s)) return;
         IRBuilder<> B(I);
         b->setCondition(B.CreateCall(rt("_sy_branch", I1, {P, I1, I32}), {s, b->getCondition(), c32(siteCounter++)}));
         return;
      }
      if (auto* sw = dyn_cast<SwitchInst>(I)) {
         Value* s = get1(sw->getCondition());
         if (isNull(s)) return;
         IRBuilder<> B(I);
         std::vector<Constant*> cs;
         for (auto& c : sw->cases()) cs.push_back(ConstantInt::get(I64, c.getCaseValue()->getZExtValue()));
         auto* arr = ConstantArray::get(ArrayType::get(I64, cs.size()), cs);
         auto* g = new GlobalVariable(M, arr->getType(), true, GlobalValue::InternalLinkage, arr, "sy_cases");
         Value* x = B.CreateCall(rt("_sy_switch", I64, {P, I64, I32, P, I32}), {s, cv(B, sw->getCondition()), c32(width(sw->getCondition()->getType())), g, c32(cs.size())});
         sw->setCondition(B.CreateTrunc(x, sw->getCondition()->getType()));
         return;
      }
      if (auto* r = dyn_cast<ReturnInst>(I)) {
         IRBuilder<> B(I);
         if (auto* prev = dyn_cast_or_null<CallInst>(I->getPrevNode())) if (prev->isMustTailCall()) return;
         if (r->getReturnValue()) {
            Leaves l = get(r->getReturnValue());
            for (unsigned k = 0; k < l.size() && k < MAXSLOT; k++) B.CreateStore(l[k], slot(B, Rets, k));
         }
         B.CreateStore(F, RetFn);
         return;
      }
      if (auto* ld = dyn_cast<LoadInst>(I)) {
         IRBuilder<> B(I);
         concOperand(B, I, 0);
         B.SetInsertPoint(next);
         SmallVector<Leaf, 4> lf;
         flatten(T, 0, lf);
         Leaves l;
         for (auto& x : lf) l.push_back(loadShadow(B, ld->getPointerOperand(), x.T, x.off));
         set(I, l);
         return;
      }
      if (auto* st = dyn_cast<StoreInst>(I)) {
         IRBuilder<> B(I);
         concOperand(B, I, 1);
         SmallVector<Leaf, 4> lf;
         flatten(st->getValueOperand()->getType(), 0, lf);
         Leaves l = get(st->getValueOperand());
         if (allNull(l)) {
            B.CreateCall(rt("_sy_clear", V, {P, I64}), {st->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(st->getValueOperand()->getType()))});
         } else
            for (unsigned k = 0; k < lf.size(); k++) storeShadow(B, st->getPointerOperand(), lf[k].T, lf[k].off, l[k]);
         return;
      }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
         IRBuilder<> B(next);
         B.CreateCall(rt("_sy_clear", V, {P, I64}), {I->getOperand(0), ConstantInt::get(I64, 8)});
         return;
      }
      if (auto* c = dyn_cast<CallBase>(I)) { visitCall(c); return; }
      if (isa<IndirectBrInst>(I)) return;
      // ---- pure value computations ----
      IRBuilder<> B(next);
      if (auto* bo = dyn_cast<BinaryOperator>(I)) {
         Leaves a = get(bo->getOperand(0)), b = get(bo->getOperand(1));
         if (allNull(a) && allNull(b)) return;
         Leaves r;
         if (auto* vt = dyn_cast<FixedVectorType>(T)) {
            for (unsigned k = 0; k < a.size(); k++)
               r.push_back(isNull(a[k]) && isNull(b[k]) ? (Value*)Null : binShadow(B, bo->getOpcode(), vt->getElementType(), a[k], element(B, bo->getOperand(0), k), b[k], element(B, bo->getOperand(1), k)));
         } else r.push_back(binShadow(B, bo->getOpcode(), T, a[0], bo->getOperand(0), b[0], bo->getOperand(1)));
         set(I, r);
         return;
      }
      if (auto* u = dyn_cast<UnaryOperator>(I)) {
         Leaves a = get(u->getOperand(0)), r;
         for (auto* x : a) r.push_back(isNull(x) ? (Value*)Null : B.CreateCall(rt("_sy_fneg", P, {P}), {x}));
         set(I, r);
         return;
      }
      if (auto* c = dyn_cast<CmpInst>(I)) {
         Leaves a = get(c->getOperand(0)), b = get(c->getOperand(1));
         if (allNull(a) && allNull(b)) return;
         Leaves r;
         for (unsigned k = 0; k < a.size(); k++) {
            Value *x = c->getOperand(0), *y = c->getOperand(1);
            if (x->getType()->isVectorTy()) { x = element(B, x, k); y = element(B, y, k); }
            if (isNull(a[k]) && isNull(b[k])) { r.push_back(Null); continue; }
            if (isa<FCmpInst>(c)) r.push_back(B.CreateCall(rt("_sy_fcmp", P, {I32, P, D, P, D}), {c32(c->getPredicate()), a[k], dv(B, x), b[k], dv(B, y)}));
            else if (supported(x->getType())) r.push_back(B.CreateCall(rt("_sy_icmp", P, {I32, I32, P, I64, P, I64}), {c32(c->getPredicate()), c32(width(x->getType())), a[k], cv(B, x), b[k], cv(B, y)}));
            else { warn("icmp unsupported"); r.push_back(Null); }
         }
         set(I, r);
         return;
      }
      if (auto* c = dyn_cast<CastInst>(I)) {
         Leaves a = get(c->getOperand(0));
         if (allNull(a)) return;
         Type *ST = c->getSrcTy(), *DT = c->getDestTy();
         if (isa<BitCastInst>(c) || isa<PtrToIntInst>(c) || isa<IntToPtrInst>(c)) {
            if (a.size() == nleaves(DT)) { set(I, a); return; }
            warn("bitcast changing leaf count");
            B.CreateCall(rt("_sy_unsup", V, {}), {});
            return;
         }
         Leaves r;
         for (unsigned k = 0; k < a.size(); k++) {
            if (isNull(a[k])) { r.push_back(Null); continue; }
            Value* x = c->getOperand(0);
            Type *s = ST->getScalarType(), *d = DT->getScalarType();
            if (ST->isVectorTy()) x = element(B, x, k);
            switch (c->getOpcode()) {
               case Instruction::FPExt: case Instruction::FPTrunc: r.push_back(a[k]); break;
               case Instruction::SIToFP: case Instruction::UIToFP:
                  r.push_back(B.CreateCall(rt("_sy_i2f", P, {P, I32, I32}), {a[k], c32(width(s)), c32(c->getOpcode() == Instruction::SIToFP)})); break;
               case Instruction::FPToSI: case Instruction::FPToUI:
                  r.push_back(B.CreateCall(rt("_sy_f2i", P, {P, I32, I32}), {a[k], c32(width(d)), c32(c->getOpcode() == Instruction::FPToSI)})); break;
               case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
                  if (!supported(s) || !supported(d)) { warn("int cast unsupported width"); B.CreateCall(rt("_sy_unsup", V, {}), {}); r.push_back(Null); break; }
                  r.push_back(B.CreateCall(rt("_sy_cast", P, {I32, I32, I32, P}), {c32(c->getOpcode() == Instruction::ZExt ? 0 : c->getOpcode() == Instruction::SExt ? 1 : 2), c32(width(s)), c32(width(d)), a[k]})); break;
               default: warn("cast"); r.push_back(Null);
            }
         }
         set(I, r);
         return;
      }
      if (auto* s = dyn_cast<SelectInst>(I)) {
         Leaves c = get(s->getCondition()), a = get(s->getTrueValue()), b = get(s->getFalseValue());
         if (allNull(c)) {
            if (allNull(a) && allNull(b)) return;
            Leaves r;
            for (unsigned k = 0; k < a.size(); k++) {
               if (s->getCondition()->getType()->isVectorTy()) r.push_back(B.CreateSelect(element(B, s->getCondition(), k), a[k], b[k]));
               else r.push_back(B.CreateSelect(s->getCondition(), a[k], b[k]));
            }
            set(I, r);
            return;
         }
         if (s->getCondition()->getType()->isVectorTy()) { warn("vector select"); return; }
         SmallVector<Leaf, 4> lf;
         flatten(T, 0, lf);
         if (T->isPointerTy() || lf.size() != 1 || !supported(T)) {
            // decide the condition instead
            IRBuilder<> B0(I);
            Value* d = B0.CreateCall(rt("_sy_branch", I1, {P, I1, I32}), {c[0], s->getCondition(), c32(siteCounter++)});
            s->setCondition(d);
            Leaves r;
            for (unsigned k = 0; k < a.size(); k++) r.push_back(isNull(a[k]) && isNull(b[k]) ? (Value*)Null : B.CreateSelect(d, a[k], b[k]));
            set(I, r);
            return;
         }
         set1(I, B.CreateCall(rt("_sy_select", P, {P, I1, P, I64, P, I64, I32, I32}), {c[0], s->getCondition(), a[0], cv(B, s->getTrueValue()), b[0], cv(B, s->getFalseValue()), c32(isFP(T)), c32(width(T))}));
         return;
      }
      if (auto* g = dyn_cast<GetElementPtrInst>(I)) {
         if (T->isVectorTy()) { warn("vector gep"); return; }
         bool any = false;
         for (auto& op : g->operands()) if (!isNull(get1(op))) any = true;
         if (!any) return;
         Value* acc = get1(g->getPointerOperand());
         Value* accv = B.CreatePtrToInt(g->getPointerOperand(), I64);
         auto add = [&](Value* s, Value* v) {
            Value* ns = isNull(acc) && isNull(s) ? (Value*)Null : B.CreateCall(rt("_sy_bin", P, {I32, I32, P, I64, P, I64}), {c32(Instruction::Add), c32(64), acc, accv, s, v});
            accv = B.CreateAdd(accv, v);
            acc = ns;
         };
         for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) {
               uint64_t o = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
               if (o) add(Null, ConstantInt::get(I64, o));
            } else {
               uint64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
               Value* s = get1(idx);
               Value* v = B.CreateSExtOrTrunc(idx, I64);
               if (!isNull(s) && idx->getType() != I64)
                  s = B.CreateCall(rt("_sy_cast", P, {I32, I32, I32, P}), {c32(idx->getType()->getIntegerBitWidth() < 64 ? 1 : 2), c32(width(idx->getType())), c32(64), s});
               if (sz != 1) {
                  if (!isNull(s)) s = B.CreateCall(rt("_sy_bin", P, {I32, I32, P, I64, P, I64}), {c32(Instruction::Mul), c32(64), s, v, Null, ConstantInt::get(I64, sz)});
                  v = B.CreateMul(v, ConstantInt::get(I64, sz));
               }
               if (isNull(s) && isa<ConstantInt>(idx) && cast<ConstantInt>(idx)->isZero()) continue;
               add(s, v);
            }
         }
         set1(I, acc);
         return;
      }
      if (auto* e = dyn_cast<ExtractValueInst>(I)) {
         Leaves a = get(e->getAggregateOperand());
         Type* sub;
         unsigned k = leafIndex(e->getAggregateOperand()->getType(), e->getIndices(), sub);
         Leaves r(a.begin() + k, a.begin() + k + nleaves(sub));
         set(I, r);
         return;
      }
      if (auto* e = dyn_cast<InsertValueInst>(I)) {
         Leaves a = get(e->getAggregateOperand()), b = get(e->getInsertedValueOperand());
         Type* sub;
         unsigned k = leafIndex(T, e->getIndices(), sub);
         for (unsigned j = 0; j < b.size(); j++) a[k + j] = b[j];
         set(I, a);
         return;
      }
      if (auto* e = dyn_cast<ExtractElementInst>(I)) {
         Leaves a = get(e->getVectorOperand());
         if (auto* ci = dyn_cast<ConstantInt>(e->getIndexOperand())) { if (ci->getZExtValue() < a.size()) set1(I, a[ci->getZExtValue()]); }
         else warn("extractelement dynamic");
         return;
      }
      if (auto* e = dyn_cast<InsertElementInst>(I)) {
         Leaves a = get(e->getOperand(0));
         if (auto* ci = dyn_cast<ConstantInt>(e->getOperand(2))) { if (ci->getZExtValue() < a.size()) a[ci->getZExtValue()] = get1(e->getOperand(1)); set(I, a); }
         else warn("insertelement dynamic");
         return;
      }
      if (auto* e = dyn_cast<ShuffleVectorInst>(I)) {
         Leaves a = get(e->getOperand(0)), b = get(e->getOperand(1)), r;
         for (int m : e->getShuffleMask()) r.push_back(m < 0 ? (Value*)Null : m < (int)a.size() ? a[m] : b[m - a.size()]);
         set(I, r);
         return;
      }
      if (isa<FreezeInst>(I)) { set(I, get(I->getOperand(0))); return; }
      warn(std::string("unhandled instruction ") + I->getOpcodeName());
   }

   // insertion point after a call/invoke
   Instruction* after(CallBase* c) {
      if (auto* inv = dyn_cast<InvokeInst>(c)) {
         BasicBlock* n = inv->getNormalDest();
         if (!n->getSinglePredecessor()) { SplitEdge(inv->getParent(), n); n = inv->getNormalDest(); }
         // SplitEdge keeps phis in the old successor; the new block is empty but for its branch
         return &*n->getFirstInsertionPt();
      }
      return c->getNextNode();
   }

   void visitCall(CallBase* c) {
      Type* T = c->getType();
      Function* f = c->getCalledFunction();
      IRBuilder<> B(c);
      if (c->isInlineAsm()) {
         return;
      }
      if (f && f->getName().starts_with("_sy_")) return;
      if (f && f->isIntrinsic()) { visitIntrinsic(cast<CallInst>(c), f); return; }
      StringRef name = f ? f->getName() : "";
      // math library
      static const std::map<std::string, int> math1 = {{"sqrt", 0}, {"sqrtf", 0}, {"fabs", 1}, {"fabsf", 1}, {"floor", 2}, {"floorf", 2}, {"ceil", 3}, {"ceilf", 3}, {"exp", 4}, {"expf", 4}, {"log", 5}, {"logf", 5}, {"log2", 6}, {"log2f", 6}, {"cabs", 7}, {"round", 8}, {"roundf", 8}};
      if (f && f->isDeclaration() && math1.count(name.str()) && c->arg_size() == 1 && isFP(T)) {
         Value* s = get1(c->getArgOperand(0));
         if (isNull(s)) return;
         IRBuilder<> A(after(c));
         set1(c, A.CreateCall(rt("_sy_math1", P, {I32, P}), {c32(math1.at(name.str())), s}));
         return;
      }
      static const std::map<std::string, int> math2 = {{"pow", 0}, {"powf", 0}, {"hypot", 1}, {"hypotf", 1}, {"fmax", 2}, {"fmin", 3}, {"atan2", 4}, {"fmod", 5}, {"cabs", 1}, {"cabsf", 1}};
      if (f && f->isDeclaration() && math2.count(name.str()) && c->arg_size() == 2 && isFP(T) && isFP(c->getArgOperand(1)->getType())) {
         Value *s = get1(c->getArgOperand(0)), *t = get1(c->getArgOperand(1));
         if (isNull(s) && isNull(t)) return;
         Value *x = dv(B, c->getArgOperand(0)), *y = dv(B, c->getArgOperand(1));
         IRBuilder<> A(after(c));
         set1(c, A.CreateCall(rt("_sy_math2", P, {I32, P, D, P, D}), {c32(math2.at(name.str())), s, x, t, y}));
         return;
      }
      if (f && f->isDeclaration()) {
         static const std::map<std::string, const char*> redirect = {{"memcmp", "sy_memcmp"}, {"bcmp", "sy_memcmp"}, {"strlen", "sy_strlen"}, {"strcmp", "sy_strcmp"}, {"memchr", "sy_memchr"}, {"__divdc3", "sy_divdc3"}, {"__muldc3", "sy_muldc3"}, {"__divsc3", "sy_divsc3"}, {"__mulsc3", "sy_mulsc3"}, {"cabsf", "sy_cabsf"}};
         auto it = redirect.find(name.str());
         if (it != redirect.end() && !F->getName().starts_with("sy_")) {
            c->setCalledFunction(M.getOrInsertFunction(it->second, f->getFunctionType()));
            f = c->getCalledFunction();
            name = f->getName();
         } else if (name == "memcpy" || name == "memmove") {
            concOperand(B, c, 0); concOperand(B, c, 1); concOperand(B, c, 2);
            B.CreateCall(rt("_sy_memcpy", V, {P, P, I64}), {c->getArgOperand(0), c->getArgOperand(1), c->getArgOperand(2)});
            return;
         } else if (name == "memset") {
            concOperand(B, c, 0); concOperand(B, c, 1); concOperand(B, c, 2);
            B.CreateCall(rt("_sy_clear", V, {P, I64}), {c->getArgOperand(0), c->getArgOperand(2)});
            return;
         }
      }
      // BLAS/LAPACK and MPI are replaced by instrumented stand-ins (kernels.cpp, mpi.cpp)
      static const std::set<std::string> kernels = {"gemm_", "gesvd_", "geqrf_", "gelqf_", "orgqr_", "orglq_", "ungqr_", "unglq_", "gesv_"};
      bool standin = name.starts_with("MPI_") || (name.size() > 1 && kernels.count(name.drop_front(1).str()));
      bool ext = f && f->isDeclaration() && !name.starts_with("sy_") && !standin;
      bool api = f && name.starts_with("sy_");
      if (ext) {
         // native: integer/pointer arguments become concrete, symbolic reals are recorded as a limitation
         for (unsigned i = 0; i < c->arg_size(); i++) {
            Value* a = c->getArgOperand(i);
            if (a->getType()->isMetadataTy()) continue;
            Leaves l = get(a);
            if (allNull(l)) continue;
            if (l.size() == 1 && (a->getType()->isPointerTy() || (a->getType()->isIntegerTy() && a->getType()->getIntegerBitWidth() <= 64))) concOperand(B, c, i);
            else for (auto* s : l) if (!isNull(s)) B.CreateCall(rt("_sy_nativereal", V, {P, P}), {s, B.CreateGlobalStringPtr(name)});
         }
      }
      // indirect call through a symbolic pointer
      if (!f) {
         Value* s = get1(c->getCalledOperand());
         if (!isNull(s)) {
            Value* x = B.CreateCall(rt("_sy_conc", I64, {P, I64, I32}), {s, cv(B, c->getCalledOperand()), c32(64)});
            c->setCalledOperand(B.CreateIntToPtr(x, P));
         }
      }
      Value* callee = c->getCalledOperand();
      unsigned s = 0;
      if (!ext) {
         for (unsigned i = 0; i < c->arg_size(); i++) {
            Value* a = c->getArgOperand(i);
            if (a->getType()->isMetadataTy()) continue;
            Leaves l = get(a);
            for (auto* x : l) { if (s < MAXSLOT) B.CreateStore(x, slot(B, Args, s)); s++; }
            if (c->isByValArgument(i) && s - 1 < MAXSLOT) B.CreateStore(a, slot(B, Byval, s - 1));
         }
         B.CreateStore(callee, Fn);
      }
      if (auto* ci = dyn_cast<CallInst>(c)) {
         if (ci->isMustTailCall()) return;
         ci->setTailCallKind(CallInst::TCK_None);
      }
      unsigned n = nleaves(T);
      if (n == 0 || ext) { if (n) set(c, Leaves(n, Null)); return; }
      B.CreateStore(Null, RetFn);
      IRBuilder<> A(after(c));
      Value* m = A.CreateICmpEQ(A.CreateLoad(P, RetFn), callee);
      Leaves r;
      for (unsigned k = 0; k < n; k++) r.push_back(k < MAXSLOT ? A.CreateSelect(m, A.CreateLoad(P, slot(A, Rets, k)), Null) : (Value*)Null);
      set(c, r);
      (void)api;
   }

   void visitIntrinsic(CallInst* c, Function* f) {
      Type* T = c->getType();
      IRBuilder<> B(c);
      IRBuilder<> A(c->getNextNode());
      switch (f->getIntrinsicID()) {
         case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            concOperand(B, c, 0); concOperand(B, c, 1); concOperand(B, c, 2);
            B.CreateCall(rt("_sy_memcpy", V, {P, P, I64}), {c->getArgOperand(0), c->getArgOperand(1), B.CreateZExtOrTrunc(c->getArgOperand(2), I64)});
            return;
         case Intrinsic::memset: case Intrinsic::memset_inline: {
            concOperand(B, c, 0); concOperand(B, c, 2);
            Value* s = get1(c->getArgOperand(1));
            Value* n = B.CreateZExtOrTrunc(c->getArgOperand(2), I64);
            if (isNull(s)) B.CreateCall(rt("_sy_clear", V, {P, I64}), {c->getArgOperand(0), n});
            else B.CreateCall(rt("_sy_memset", V, {P, I64, P}), {c->getArgOperand(0), n, s});
            return;
         }
         case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
         case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for:
         case Intrinsic::objectsize: case Intrinsic::is_constant: case Intrinsic::prefetch: case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::donothing:
         case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::threadlocal_address:
            return;
         case Intrinsic::expect: set(c, get(c->getArgOperand(0))); return;
         case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(c, get(c->getArgOperand(0))); return;
         default: break;
      }
      bool any = false;
      for (auto& a : c->args()) if (!allNull(get(a))) any = true;
      if (!any) return;
      if (T->isVectorTy() || (c->arg_size() && c->getArgOperand(0)->getType()->isVectorTy())) { warn("vector intrinsic " + f->getName().str()); B.CreateCall(rt("_sy_unsup", V, {}), {}); return; }
      auto s = [&](unsigned i) { return get1(c->getArgOperand(i)); };
      auto v = [&](unsigned i) { return c->getArgOperand(i); };
      auto m1 = [&](int k) { set1(c, A.CreateCall(rt("_sy_math1", P, {I32, P}), {c32(k), s(0)})); };
      auto m2 = [&](int k) { set1(c, A.CreateCall(rt("_sy_math2", P, {I32, P, D, P, D}), {c32(k), s(0), dv(A, v(0)), s(1), dv(A, v(1))})); };
      auto im = [&](int k) { set1(c, A.CreateCall(rt("_sy_iminmax", P, {I32, I32, P, I64, P, I64}), {c32(k), c32(width(T)), s(0), cv(A, v(0)), s(1), cv(A, v(1))})); };
      auto ov = [&](int k) {
         Type* E = v(0)->getType();
         Value* r = A.CreateCall(rt("_sy_bin", P, {I32, I32, P, I64, P, I64}), {c32(k < 2 ? Instruction::Add : k < 4 ? Instruction::Sub : Instruction::Mul), c32(width(E)), s(0), cv(A, v(0)), s(1), cv(A, v(1))});
         Value* o = A.CreateCall(rt("_sy_ovf", P, {I32, I32, P, I64, P, I64}), {c32(k), c32(width(E)), s(0), cv(A, v(0)), s(1), cv(A, v(1))});
         set(c, Leaves{r, o});
      };
      switch (f->getIntrinsicID()) {
         case Intrinsic::sqrt: m1(0); return;
         case Intrinsic::fabs: m1(1); return;
         case Intrinsic::floor: m1(2); return;
         case Intrinsic::ceil: m1(3); return;
         case Intrinsic::exp: m1(4); return;
         case Intrinsic::log: m1(5); return;
         case Intrinsic::log2: m1(6); return;
         case Intrinsic::round: m1(8); return;
         case Intrinsic::pow: m2(0); return;
         case Intrinsic::maxnum: case Intrinsic::maximum: m2(2); return;
         case Intrinsic::minnum: case Intrinsic::minimum: m2(3); return;
         case Intrinsic::copysign: m2(6); return;
         case Intrinsic::fma: case Intrinsic::fmuladd: {
            Value* p = A.CreateCall(rt("_sy_fbin", P, {I32, P, D, P, D}), {c32(Instruction::FMul), s(0), dv(A, v(0)), s(1), dv(A, v(1))});
            set1(c, A.CreateCall(rt("_sy_fbin", P, {I32, P, D, P, D}), {c32(Instruction::FAdd), p, dv(A, A.CreateFMul(v(0), v(1))), s(2), dv(A, v(2))}));
            return;
         }
         case Intrinsic::smax: im(0); return;
         case Intrinsic::smin: im(1); return;
         case Intrinsic::umax: im(2); return;
         case Intrinsic::umin: im(3); return;
         case Intrinsic::usub_sat: im(4); return;
         case Intrinsic::uadd_sat: im(5); return;
         case Intrinsic::abs: set1(c, A.CreateCall(rt("_sy_iabs", P, {I32, P}), {c32(width(T)), s(0)})); return;
         case Intrinsic::uadd_with_overflow: ov(0); return;
         case Intrinsic::sadd_with_overflow: ov(1); return;
         case Intrinsic::usub_with_overflow: ov(2); return;
         case Intrinsic::ssub_with_overflow: ov(3); return;
         case Intrinsic::umul_with_overflow: ov(4); return;
         case Intrinsic::smul_with_overflow: ov(5); return;
         case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::fshl: case Intrinsic::fshr:
            for (unsigned i = 0; i < c->arg_size(); i++) if (!isa<Constant>(v(i))) concOperand(B, c, i);
            return;
         default:
            warn("intrinsic " + f->getName().str());
            B.CreateCall(rt("_sy_unsup", V, {}), {});
      }
   }

   bool runModule() {
      std::vector<Function*> fs;
      for (auto& f : M) {
         if (f.isDeclaration() || f.getName().starts_with("_sy_") || f.hasAvailableExternallyLinkage()) continue;
         fs.push_back(&f);
      }
      std::vector<Constant*> names;
      std::string all;
      for (auto* f : fs) { all += f->getName().str(); all += "\n"; }
      auto* str = ConstantDataArray::getString(C, all);
      auto* gs = new GlobalVariable(M, str->getType(), true, GlobalValue::InternalLinkage, str, "sy_fnames");
      auto* ht = ArrayType::get(I8, fs.size() + 1);
      Hit = new GlobalVariable(M, ht, false, GlobalValue::InternalLinkage, Constant::getNullValue(ht), "sy_hit");
      for (auto& f : M) if (!f.isIntrinsic()) f.removeFnAttr(Attribute::Memory);
      for (unsigned i = 0; i < fs.size(); i++) run(*fs[i], i);
      // constructor registering the table
      auto* ctor = Function::Create(FunctionType::get(V, false), GlobalValue::InternalLinkage, "_sy_ctor", M);
      IRBuilder<> B(BasicBlock::Create(C, "", ctor));
      B.CreateCall(rt("_sy_register", V, {P, P, I32}), {gs, Hit, c32(fs.size())});
      B.CreateRetVoid();
      // priority 0: before ordinary static constructors
      auto* st = StructType::get(I32, P, P);
      Constant* e = ConstantStruct::get(st, {ConstantInt::get(I32, 101), ctor, Null});
      SmallVector<Constant*, 8> cur;
      if (auto* g = M.getGlobalVariable("llvm.global_ctors")) {
         if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : a->operands()) cur.push_back(cast<Constant>(o));
         g->eraseFromParent();
      }
      cur.push_back(e);
      auto* at = ArrayType::get(st, cur.size());
      new GlobalVariable(M, at, false, GlobalValue::AppendingLinkage, ConstantArray::get(at, cur), "llvm.global_ctors");
      return true;
   }
};

struct SymPass : PassInfoMixin<SymPass> {
   PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
      Instr x(M);
      x.runModule();
      return PreservedAnalyses::none();
   }
   static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
   return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
              PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
              PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
                 if (n == "sympass") { MPM.addPass(SymPass()); return true; }
                 return false;
              });
           }};
}
