// decoding of llvm functions into the executor's internal form
#pragma once
#include "engine.h"
using namespace llvm;

struct Unsup { std::string why; };

struct Decoder {
  Module& M; const DataLayout& DL; ExprCtx& X;
  std::unordered_map<const Function*, uint64_t> fnAddr; std::unordered_map<uint64_t, Function*> addrFn;
  std::unordered_map<const GlobalVariable*, uint64_t> gvAddr;
  std::unordered_map<Type*, TyInfo*> tys;
  std::unordered_map<Function*, FnInfo*> fns;
  std::unordered_map<std::string, int>* builtins = nullptr;
  Decoder(Module& m, ExprCtx& x) : M(m), DL(m.getDataLayout()), X(x) {}

  void flat(Type* T, uint64_t off, std::vector<Leaf>& out) {
    if (auto* S = dyn_cast<StructType>(T)) {
      auto* L = DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + L->getElementOffset(i), out);
    } else if (auto* A = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL.getTypeAllocSize(A->getElementType());
      if (A->getNumElements() > 4096) throw Unsup{"huge array value"};
      for (uint64_t i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, out);
    } else if (auto* V = dyn_cast<FixedVectorType>(T)) {
      uint64_t eb = DL.getTypeSizeInBits(V->getElementType());
      if (eb % 8 && eb != 1) throw Unsup{"odd vector"};
      for (unsigned i = 0; i < V->getNumElements(); i++) {
        unsigned w = eb; out.push_back({(uint16_t)w, (uint32_t)(off + i * (eb == 1 ? 0 : eb / 8)), (uint8_t)((w + 7) / 8)});
      }
    } else {
      unsigned w;
      if (T->isPointerTy()) w = 64;
      else if (T->isIntegerTy()) w = T->getIntegerBitWidth();
      else if (T->isFloatTy()) w = 32;
      else if (T->isDoubleTy()) w = 64;
      else if (T->isX86_FP80Ty()) w = 80;
      else throw Unsup{"type"};
      if (w > 128) throw Unsup{"wide int"};
      out.push_back({(uint16_t)w, (uint32_t)off, (uint8_t)((w + 7) / 8)});
    }
  }
  TyInfo* ty(Type* T) {
    auto it = tys.find(T);
    if (it != tys.end()) return it->second;
    auto* t = new TyInfo();
    tys[T] = t;
    t->ok = true;
    if (T->isVoidTy()) { t->size = 0; t->align = 1; return t; }
    t->size = DL.getTypeAllocSize(T); t->align = DL.getABITypeAlign(T).value();
    try { flat(T, 0, t->leaves); } catch (Unsup&) { t->ok = false; t->leaves.clear(); }
    return t;
  }
  TyInfo* tyc(Type* T) { auto* t = ty(T); if (!t->ok) throw Unsup{"type"}; return t; }

  Val vc(u128 v, unsigned w) { if (w <= 64) return Val{(uint64_t)(v & maskw(w)), nullptr}; return Val{0, X.cst(v, w)}; }
  static u128 ap(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }

  uint64_t constAddr(const Constant* C) {
    std::vector<Val> o; constVal(const_cast<Constant*>(C), o); return o.at(0).c;
  }
  void constVal(Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) { out.push_back(vc(ap(ci->getValue()), T->getIntegerBitWidth())); return; }
    if (auto* cf = dyn_cast<ConstantFP>(C)) { out.push_back(vc(ap(cf->getValueAPF().bitcastToAPInt()), DL.getTypeSizeInBits(T))); return; }
    if (isa<ConstantPointerNull>(C)) { out.push_back({0, nullptr}); return; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { for (auto& l : tyc(T)->leaves) out.push_back(vc(0, l.w)); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) { for (auto& o : ca->operands()) constVal(cast<Constant>(o), out); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
      for (unsigned i = 0; i < cd->getNumElements(); i++) constVal(cd->getElementAsConstant(i), out); return; }
    if (auto* F = dyn_cast<Function>(C)) { out.push_back({fnAddr.at(F), nullptr}); return; }
    if (auto* G = dyn_cast<GlobalVariable>(C)) { out.push_back({gvAddr.at(G), nullptr}); return; }
    if (auto* A = dyn_cast<GlobalAlias>(C)) { constVal(A->getAliasee(), out); return; }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      std::vector<Val> a;
      switch (E->getOpcode()) {
        case Instruction::GetElementPtr: {
          constVal(E->getOperand(0), a);
          APInt off(64, 0);
          if (!cast<GEPOperator>(E)->accumulateConstantOffset(DL, off)) throw Unsup{"const gep"};
          out.push_back({a[0].c + off.getZExtValue(), nullptr}); return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: {
          constVal(E->getOperand(0), a);
          unsigned w = DL.getTypeSizeInBits(T); out.push_back(vc(a[0].c, w)); return;
        }
        case Instruction::Sub: case Instruction::Add: {
          constVal(E->getOperand(0), a); constVal(E->getOperand(1), a);
          uint64_t r = E->getOpcode() == Instruction::Sub ? a[0].c - a[1].c : a[0].c + a[1].c;
          out.push_back(vc(r, DL.getTypeSizeInBits(T))); return;
        }
        case Instruction::ICmp: {
          constVal(E->getOperand(0), a); constVal(E->getOperand(1), a);
          auto p = (CmpInst::Predicate)E->getPredicate();
          bool r = p == CmpInst::ICMP_EQ ? a[0].c == a[1].c : p == CmpInst::ICMP_NE ? a[0].c != a[1].c : a[0].c < a[1].c;
          out.push_back({r, nullptr}); return;
        }
        default: throw Unsup{"constexpr"};
      }
    }
    throw Unsup{"constant"};
  }

  struct FnCtx { FnInfo* fi; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bb; };
  Opd opd(FnCtx& c, Value* v) {
    Opd o;
    if (auto* C = dyn_cast<Constant>(v)) {
      auto* t = tyc(C->getType());
      std::vector<Val> vals; constVal(C, vals);
      o.n = vals.size(); o.w = t->leaves.empty() ? 0 : t->leaves[0].w;
      if (o.n == 1) o.v = vals[0]; else o.agg = new std::vector<Val>(vals);
      return o;
    }
    auto it = c.slot.find(v);
    if (it == c.slot.end()) throw Unsup{"operand"};
    auto* t = tyc(v->getType());
    o.slot = it->second; o.n = t->leaves.size(); o.w = t->leaves.empty() ? 0 : t->leaves[0].w;
    return o;
  }

  FnInfo* get(Function* F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    auto* fi = new FnInfo(); fns[F] = fi; fi->F = F;
    fi->nounwind = F->doesNotThrow();
    FnCtx c; c.fi = fi; int ns = 0;
    for (auto& A : F->args()) { auto* t = ty(A.getType()); fi->argSlot.push_back(ns); fi->argN.push_back(t->leaves.size()); c.slot[&A] = ns; ns += t->leaves.size(); }
    int nb = 0;
    for (auto& B : *F) { c.bb[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) { auto* t = ty(I.getType()); c.slot[&I] = ns; ns += std::max<size_t>(1, t->leaves.size()); } }
    fi->nslots = ns; fi->bbs.resize(nb);
    for (auto& B : *F) {
      int b = c.bb[&B];
      fi->bbs[b].first = fi->code.size();
      for (auto& I : B) {
        if (auto* P = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
            int pb = c.bb[P->getIncomingBlock(i)];
            try { Opd o = opd(c, P->getIncomingValue(i)); fi->bbs[b].in[pb].moves.push_back({c.slot[P], o}); } catch (Unsup&) {}
          }
          continue;
        }
        Inst in; in.I = &I;
        if (!I.getType()->isVoidTy()) { in.dst = c.slot[&I]; auto* t = ty(I.getType()); in.n = t->leaves.size(); in.w = t->leaves.empty() ? 0 : t->leaves[0].w; }
        try { inst(c, I, in); } catch (Unsup& u) { in.op = I_UNSUP; in.ops.clear(); }
        fi->code.push_back(std::move(in));
      }
    }
    return fi;
  }
  static bool ignorable(StringRef n) {
    return n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") ||
           n.starts_with("llvm.invariant") || n.starts_with("llvm.var.annotation") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.donothing") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.va_end");
  }
  void inst(FnCtx& c, Instruction& I, Inst& in) {
    auto bbi = [&](BasicBlock* b) { return c.bb.at(b); };
    switch (I.getOpcode()) {
      case Instruction::Ret: in.op = I_RET; if (I.getNumOperands()) in.ops.push_back(opd(c, I.getOperand(0))); return;
      case Instruction::Br: { auto& B = cast<BranchInst>(I);
        if (B.isConditional()) { in.op = I_CBR; in.ops.push_back(opd(c, B.getCondition())); in.t0 = bbi(B.getSuccessor(0)); in.t1 = bbi(B.getSuccessor(1)); }
        else { in.op = I_BR; in.t0 = bbi(B.getSuccessor(0)); } return; }
      case Instruction::Switch: { auto& S = cast<SwitchInst>(I); in.op = I_SWITCH; in.ops.push_back(opd(c, S.getCondition())); in.t0 = bbi(S.getDefaultDest());
        for (auto& cs : S.cases()) in.cases.push_back({ap(cs.getCaseValue()->getValue()), bbi(cs.getCaseSuccessor())}); return; }
      case Instruction::Unreachable: in.op = I_UNREACH; return;
      case Instruction::FNeg: in.op = I_FNEG; in.ops.push_back(opd(c, I.getOperand(0))); return;
      case Instruction::Freeze: in.op = I_FREEZE; in.ops.push_back(opd(c, I.getOperand(0))); return;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        in.op = I_BIN; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))};
        static const std::map<unsigned, Op> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}};
        in.sub = m.at(I.getOpcode()); return; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (in.w == 80) throw Unsup{"x87"};
        in.op = I_FBIN; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))};
        in.sub = I.getOpcode() == Instruction::FAdd ? E_FADD : I.getOpcode() == Instruction::FSub ? E_FSUB : I.getOpcode() == Instruction::FMul ? E_FMUL : E_FDIV; return; }
      case Instruction::ICmp: in.op = I_ICMP; in.sub = cast<ICmpInst>(I).getPredicate(); in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))}; return;
      case Instruction::FCmp: in.op = I_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))}; if (in.ops[0].w == 80) throw Unsup{"x87"}; return;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
      case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::AddrSpaceCast:
        in.op = I_CAST; in.ops = {opd(c, I.getOperand(0))}; in.w2 = in.ops[0].w;
        switch (I.getOpcode()) {
          case Instruction::Trunc: in.sub = 0; break; case Instruction::ZExt: in.sub = 1; break; case Instruction::SExt: in.sub = 2; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: in.sub = in.w > in.w2 ? 1 : 0; break;
          case Instruction::BitCast: in.sub = (in.n == in.ops[0].n) ? 3 : 4; break;
          case Instruction::FPToUI: in.sub = 10; break; case Instruction::FPToSI: in.sub = 11; break; case Instruction::UIToFP: in.sub = 12; break;
          case Instruction::SIToFP: in.sub = 13; break; case Instruction::FPTrunc: in.sub = 14; break; case Instruction::FPExt: in.sub = 15; break; default: throw Unsup{"cast"};
        }
        if (in.sub >= 10 && (in.w == 80 || in.w2 == 80)) throw Unsup{"x87"};
        if (in.sub == 4) in.ty = tyc(I.getType());
        return;
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); in.op = I_ALLOCA; in.imm = DL.getTypeAllocSize(A.getAllocatedType()); in.nsw = 0; in.t0 = A.getAlign().value(); in.ops = {opd(c, A.getArraySize())}; return; }
      case Instruction::Load: { auto& L = cast<LoadInst>(I); in.op = I_LOAD; in.ty = tyc(I.getType()); in.ops = {opd(c, L.getPointerOperand())}; in.atomic = L.isAtomic(); in.ord = (uint8_t)L.getOrdering(); in.vol = L.isVolatile(); in.t0 = L.getAlign().value(); in.sub = I.getType()->isPointerTy();
        if (I.getType()->isIntegerTy() && L.hasMetadata(LLVMContext::MD_noundef)) if (auto* md = L.getMetadata(LLVMContext::MD_range)) if (md->getNumOperands() == 2) {
          auto& lo = mdconst::extract<ConstantInt>(md->getOperand(0))->getValue(); auto& hi = mdconst::extract<ConstantInt>(md->getOperand(1))->getValue();
          if (lo == 0 && hi.ugt(0)) in.imm = hi.getZExtValue(); }
        return; }
      case Instruction::Store: { auto& S = cast<StoreInst>(I); in.op = I_STORE; in.ty = tyc(S.getValueOperand()->getType()); in.ops = {opd(c, S.getValueOperand()), opd(c, S.getPointerOperand())}; in.atomic = S.isAtomic(); in.ord = (uint8_t)S.getOrdering(); in.t0 = S.getAlign().value(); return; }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(I); if (G.getType()->isVectorTy()) throw Unsup{"vector gep"};
        in.op = I_GEP; in.ops = {opd(c, G.getPointerOperand())}; in.imm = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value* idx = it.getOperand();
          if (auto* ST = it.getStructTypeOrNull()) { in.imm += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(idx)) in.imm += sz * (uint64_t)ci->getSExtValue();
          else in.gep.push_back({opd(c, idx), sz});
        }
        return; }
      case Instruction::Select: in.op = I_SELECT; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1)), opd(c, I.getOperand(2))}; in.ty = tyc(I.getType()); return;
      case Instruction::ExtractValue: { in.op = I_EXTRACTV; in.ops = {opd(c, I.getOperand(0))}; in.imm = aggIdx(I.getOperand(0)->getType(), cast<ExtractValueInst>(I).getIndices()); tyc(I.getType()); return; }
      case Instruction::InsertValue: { in.op = I_INSERTV; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))}; in.imm = aggIdx(I.getOperand(0)->getType(), cast<InsertValueInst>(I).getIndices()); tyc(I.getType()); return; }
      case Instruction::ExtractElement: in.op = I_EXTRACTE; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))}; return;
      case Instruction::InsertElement: in.op = I_INSERTE; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1)), opd(c, I.getOperand(2))}; tyc(I.getType()); return;
      case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(I); in.op = I_SHUFFLE; in.ops = {opd(c, I.getOperand(0)), opd(c, I.getOperand(1))}; for (int m : S.getShuffleMask()) in.mask.push_back(m); return; }
      case Instruction::LandingPad: in.op = I_LANDING; return;
      case Instruction::Resume: in.op = I_RESUME; in.ops = {opd(c, I.getOperand(0))}; return;
      case Instruction::Fence: in.op = I_FENCE; in.ord = (uint8_t)cast<FenceInst>(I).getOrdering(); return;
      case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); in.op = I_ARMW; in.sub = A.getOperation(); in.ops = {opd(c, A.getPointerOperand()), opd(c, A.getValOperand())}; in.atomic = true; in.ord = (uint8_t)A.getOrdering(); in.ty = tyc(I.getType()); return; }
      case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); in.op = I_CMPXCHG; in.ops = {opd(c, A.getPointerOperand()), opd(c, A.getCompareOperand()), opd(c, A.getNewValOperand())}; in.atomic = true; in.ord = (uint8_t)A.getMergedOrdering(); in.ty = tyc(A.getCompareOperand()->getType()); return; }
      case Instruction::Call: case Instruction::Invoke: {
        auto& C = cast<CallBase>(I);
        if (auto* inv = dyn_cast<InvokeInst>(&I)) { in.isInvoke = true; in.t0 = bbi(inv->getNormalDest()); in.t1 = bbi(inv->getUnwindDest()); }
        if (C.isInlineAsm()) {
          in.op = I_ASM; for (auto& a : C.args()) in.ops.push_back(opd(c, a)); if (!I.getType()->isVoidTy()) in.ty = tyc(I.getType()); return; }
        Value* callee = C.getCalledOperand()->stripPointerCasts();
        if (auto* A = dyn_cast<GlobalAlias>(callee)) callee = A->getAliasee()->stripPointerCasts();
        if (!I.getType()->isVoidTy()) in.ty = tyc(I.getType());
        if (auto* F = dyn_cast<Function>(callee)) {
          StringRef n = F->getName();
          if (ignorable(n)) { in.op = I_NOP; if (n.starts_with("llvm.invariant.start")) { in.op = I_FREEZE; Opd o; in.ops = {o}; } return; }
          for (auto& a : C.args()) { if (a->getType()->isMetadataTy()) { in.ops.push_back(Opd()); continue; } in.ops.push_back(opd(c, a)); in.w2 = in.ops[0].w; }
          in.callee = F;
          std::string key = n.str();
          auto it = builtins->find(key);
          if (it == builtins->end() && n.starts_with("llvm.")) { // strip type suffixes
            while (it == builtins->end()) { auto p = key.rfind('.'); if (p == std::string::npos || p <= 4) break; key = key.substr(0, p); it = builtins->find(key); }
            if (it == builtins->end()) throw Unsup{"intrinsic"};
          }
          if (it != builtins->end()) { in.op = I_BUILTIN; in.builtin = it->second; return; }
          in.op = I_CALL; return;
        }
        in.op = I_CALL; in.callee = nullptr;
        for (auto& a : C.args()) in.ops.push_back(opd(c, a));
        in.ops.push_back(opd(c, callee)); // last operand: function pointer
        return; }
      default: throw Unsup{"opcode"};
    }
  }
  uint64_t aggIdx(Type* T, ArrayRef<unsigned> idx) {
    uint64_t r = 0;
    for (unsigned i : idx) {
      if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) r += tyc(S->getElementType(k))->leaves.size(); T = S->getElementType(i); }
      else { auto* A = cast<ArrayType>(T); r += i * tyc(A->getElementType())->leaves.size(); T = A->getElementType(); }
    }
    return r;
  }
};
