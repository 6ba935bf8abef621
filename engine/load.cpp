// Loads LLVM bitcode and pre-decodes it into the executor's instruction form.
#include "core.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
std::vector<::Module*> g_modules; std::vector<Func*> g_funcs; std::map<std::string, Func*> g_func_by_name;
static LLVMContext *Ctx;
struct Loaded { std::unique_ptr<llvm::Module> M; ::Module *m; std::map<const GlobalValue*, u64> addr; bool hlc; };
static std::vector<Loaded*> loaded;
static std::map<std::string, u64> shared_globals;

[[noreturn]] static void fail(const std::string &s) { throw EngineError{s}; }
static std::string str(const llvm::Value *v) { std::string s; raw_string_ostream o(s); v->print(o); return s; }

bool load_module(const std::string &path, const std::string &name) {
  if (!Ctx) Ctx = new LLVMContext();
  SMDiagnostic err; auto M = parseIRFile(path, err, *Ctx);
  if (!M) { fprintf(stderr, "cannot load %s: %s\n", path.c_str(), err.getMessage().str().c_str()); return false; }
  Loaded *L = new Loaded(); L->M = std::move(M); L->m = new ::Module(); L->m->name = name; L->hlc = name == "hlc"; loaded.push_back(L); g_modules.push_back(L->m);
  u64 base = 0x680000000000ull + 0x40000000ull * (g_modules.size() - 1); L->m->gbase = base; u64 at = base + 0x1000;
  const DataLayout &DL = L->M->getDataLayout();
  for (auto &F : *L->M) {
    if (F.isIntrinsic()) continue;
    Func *f = new Func(); f->name = F.getName().str(); f->m = L->m; f->idx = g_funcs.size(); f->addr = FUNC_BASE + 16ull * f->idx; f->llvm = &F; f->defined = !F.isDeclaration(); f->visited = false; f->calls = 0; f->ext = -1;
    f->vararg = F.isVarArg(); f->nargs = F.arg_size(); f->sret = false;
    for (auto &A : F.args()) { Type *T = A.getType(); f->argw.push_back(T->isPointerTy() ? 64 : DL.getTypeSizeInBits(T)); f->argf.push_back(T->isFloatingPointTy()); if (A.hasStructRetAttr()) f->sret = true; }
    Type *RT = F.getReturnType(); f->retw = RT->isVoidTy() ? 0 : DL.getTypeSizeInBits(RT); f->retf = RT->isFloatingPointTy();
    g_funcs.push_back(f); L->m->funcs.push_back(f); L->addr[&F] = f->addr;
    if (f->defined && !L->hlc && !F.hasLocalLinkage()) g_func_by_name[f->name] = f;
    if (f->defined && L->hlc) g_func_by_name["hlc:" + f->name] = f;
  }
  for (auto &G : L->M->globals()) {
    if (G.isDeclaration()) continue;
    u64 sz = DL.getTypeAllocSize(G.getValueType()); u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
    at = (at + al - 1) / al * al; L->addr[&G] = at; L->m->globals[G.getName().str()] = at; L->m->gsize[G.getName().str()] = sz;
    if (!L->hlc && !G.hasLocalLinkage()) shared_globals[G.getName().str()] = at;
    at += sz + 32;
  }
  L->m->gend = (at + 0xffff) & ~0xfffull;
  return true;
}

struct Dec {
  Loaded *L; ::Module *m; const DataLayout &DL; Func *f = nullptr; std::map<const llvm::Value*, s32> reg; std::map<std::pair<u64,int>, s32> kidx; std::map<const BasicBlock*, u32> bb;
  std::map<const BasicBlock*, std::vector<std::pair<const PHINode*, u32>>> phis;
  Dec(Loaded *L) : L(L), m(L->m), DL(L->M->getDataLayout()) {}
  unsigned width(Type *T) { if (T->isPointerTy()) return 64; if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isVoidTy()) return 0; return DL.getTypeSizeInBits(T); }
  u64 gaddr(const GlobalValue *G) {
    auto it = L->addr.find(G); if (it != L->addr.end()) return it->second;
    std::string n = G->getName().str();
    auto it2 = shared_globals.find(n); if (it2 != shared_globals.end()) return L->addr[G] = it2->second;
    { auto fi = g_func_by_name.find(n); if (!L->hlc && fi != g_func_by_name.end()) return L->addr[G] = fi->second->addr; }
    if (auto *A = dyn_cast<GlobalAlias>(G)) return cval(A->getAliasee());
    if (n == "_fltused") return 0;
    fail("unresolved global " + n + " in " + m->name);
  }
  u64 cval(const Constant *C) {
    if (auto *CI = dyn_cast<ConstantInt>(C)) return CI->getValue().getLimitedValue() == ~0ull && CI->getBitWidth() > 64 ? CI->getValue().extractBitsAsZExtValue(64, 0) : CI->getValue().extractBitsAsZExtValue(std::min(64u, CI->getBitWidth()), 0);
    if (auto *CF = dyn_cast<ConstantFP>(C)) return CF->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
    if (auto *G = dyn_cast<GlobalValue>(C)) return gaddr(G);
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
      switch (E->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(E)->accumulateConstantOffset(DL, off)) fail("gep constexpr"); return cval(E->getOperand(0)) + off.getSExtValue(); }
        case Instruction::PtrToInt: case Instruction::Trunc: return cval(E->getOperand(0)) & mask64(width(E->getType()));
        case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: return cval(E->getOperand(0));
        case Instruction::Add: return (cval(E->getOperand(0)) + cval(E->getOperand(1))) & mask64(width(E->getType()));
        case Instruction::Sub: return (cval(E->getOperand(0)) - cval(E->getOperand(1))) & mask64(width(E->getType()));
        case Instruction::Mul: return (cval(E->getOperand(0)) * cval(E->getOperand(1))) & mask64(width(E->getType()));
        case Instruction::Xor: return cval(E->getOperand(0)) ^ cval(E->getOperand(1));
        case Instruction::Shl: { u64 s = cval(E->getOperand(1)); return s < width(E->getType()) ? (cval(E->getOperand(0)) << s) & mask64(width(E->getType())) : 0; }
        case Instruction::SExt: { unsigned w = width(E->getOperand(0)->getType()); return (u64)((s64)(cval(E->getOperand(0)) << (64 - w)) >> (64 - w)) & mask64(width(E->getType())); }
        case Instruction::ICmp: { u64 a = cval(E->getOperand(0)), b = cval(E->getOperand(1)); unsigned w = width(E->getOperand(0)->getType()); s64 sa = (s64)(a << (64 - w)) >> (64 - w), sb = (s64)(b << (64 - w)) >> (64 - w);
          switch (E->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb; case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb; default: break; } break; }
        default: break;
      }
    }
    fail("unsupported constant " + str(C));
  }
  s32 konst(u64 v, int w) { auto k = std::make_pair(v, w > 64 ? w : 64); auto it = kidx.find(k); if (it != kidx.end()) return it->second; if (w > 64) m->K.push_back(V{0, mk_const(v, w)}); else m->K.push_back(VC(v)); s32 r = ~(s32)(m->K.size() - 1); kidx[k] = r; return r; }
  s32 op(const llvm::Value *v) {
    if (auto *C = dyn_cast<Constant>(v)) return konst(cval(C), width(C->getType()));
    auto it = reg.find(v); if (it == reg.end()) fail("operand without register: " + str(v)); return it->second;
  }
  Edge *edge(const BasicBlock *from, const BasicBlock *to) {
    Edge *e = new Edge(); e->target = bb[to]; std::vector<PhiCopy> cs;
    for (auto &P : to->phis()) { s32 s = op(P.getIncomingValueForBlock(from)); cs.push_back({(u32)reg[&P], s}); }
    // order-independent: the executor copies through temporaries when needed
    e->nphi = cs.size(); e->phi = cs.empty() ? nullptr : (PhiCopy*)malloc(cs.size() * sizeof(PhiCopy)); for (size_t i = 0; i < cs.size(); i++) e->phi[i] = cs[i];
    return e;
  }
  void store_const(State &S, u64 a, const Constant *C);
  void decode(Func *fn);
};

void Dec::decode(Func *fn) {
  f = fn; llvm::Function &F = *(llvm::Function*)fn->llvm; reg.clear(); bb.clear();
  s32 n = 0; for (auto &A : F.args()) reg[&A] = n++;
  u32 pc = 0;
  for (auto &B : F) { bb[&B] = pc; for (auto &I : B) { if (!I.getType()->isVoidTy()) { reg[&I] = n; n += isa<AtomicCmpXchgInst>(I) ? 2 : 1; } if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) pc++; } }
  fn->nregs = n;
  for (auto &B : F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Instr X; memset(&X, 0, sizeof X); X.op = I_BAD; if (!I.getType()->isVoidTy()) X.dst = reg[&I];
    if (I.getDebugLoc()) X.line = I.getDebugLoc().getLine();
    unsigned w = width(I.getType()); X.w = w;
    auto bin = [&](u8 o) { X.op = o; X.a = op(I.getOperand(0)); X.b = op(I.getOperand(1)); };
    auto un = [&](u8 o) { X.op = o; X.a = op(I.getOperand(0)); X.w2 = width(I.getOperand(0)->getType()); };
    switch (I.getOpcode()) {
      case Instruction::Add: bin(I_ADD); break; case Instruction::Sub: bin(I_SUB); break; case Instruction::Mul: bin(I_MUL); break;
      case Instruction::UDiv: bin(I_UDIV); break; case Instruction::SDiv: bin(I_SDIV); break; case Instruction::URem: bin(I_UREM); break; case Instruction::SRem: bin(I_SREM); break;
      case Instruction::And: bin(I_AND); break; case Instruction::Or: bin(I_OR); break; case Instruction::Xor: bin(I_XOR); break;
      case Instruction::Shl: bin(I_SHL); break; case Instruction::LShr: bin(I_LSHR); break; case Instruction::AShr: bin(I_ASHR); break;
      case Instruction::FAdd: bin(I_FADD); break; case Instruction::FSub: bin(I_FSUB); break; case Instruction::FMul: bin(I_FMUL); break; case Instruction::FDiv: bin(I_FDIV); break;
      case Instruction::FNeg: un(I_FNEG); break; case Instruction::ZExt: un(I_ZEXT); break; case Instruction::SExt: un(I_SEXT); break; case Instruction::Trunc: un(I_TRUNC); break;
      case Instruction::PtrToInt: un(I_ZEXT); break; case Instruction::IntToPtr: un(I_ZEXT); break; case Instruction::BitCast: un(I_MOVE); break; case Instruction::Freeze: un(I_MOVE); break;
      case Instruction::SIToFP: un(I_SITOFP); break; case Instruction::UIToFP: un(I_UITOFP); break; case Instruction::FPToSI: un(I_FPTOSI); break; case Instruction::FPToUI: un(I_FPTOUI); break; case Instruction::FPTrunc: un(I_FPTRUNC); break; case Instruction::FPExt: un(I_FPEXT); break;
      case Instruction::ICmp: bin(I_ICMP); X.sub = cast<ICmpInst>(I).getPredicate(); X.w2 = width(I.getOperand(0)->getType()); break;
      case Instruction::FCmp: bin(I_FCMP); X.sub = cast<FCmpInst>(I).getPredicate(); X.w2 = width(I.getOperand(0)->getType()); break;
      case Instruction::Select: X.op = I_SELECT; X.a = op(I.getOperand(0)); X.b = op(I.getOperand(1)); X.c = op(I.getOperand(2)); X.w2 = I.getType()->isPointerTy(); break; // a choice between pointers forks like a branch
      case Instruction::Load: X.op = I_LOAD; X.a = op(I.getOperand(0)); X.sub = (w + 7) / 8; X.w2 = cast<LoadInst>(I).isVolatile() || cast<LoadInst>(I).isAtomic(); break;
      case Instruction::Store: { auto *T = I.getOperand(0)->getType(); X.op = I_STORE; X.a = op(I.getOperand(1)); X.b = op(I.getOperand(0)); X.w = width(T); X.sub = (X.w + 7) / 8; X.w2 = cast<StoreInst>(I).isVolatile() || cast<StoreInst>(I).isAtomic(); break; }
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); X.op = I_ALLOCA; X.imm = DL.getTypeAllocSize(A.getAllocatedType()); X.a = op(A.getArraySize()); X.sub = (u8)std::min<u64>(A.getAlign().value(), 128); break; }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I); X.a = op(G.getPointerOperand()); s64 off = 0; std::vector<GepIdx> *ix = new std::vector<GepIdx>();
        for (auto GTI = gep_type_begin(G), E = gep_type_end(G); GTI != E; ++GTI) {
          const llvm::Value *iv = GTI.getOperand();
          if (StructType *ST = GTI.getStructTypeOrNull()) { off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; }
          s64 sc = DL.getTypeAllocSize(GTI.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(iv)) off += sc * CI->getSExtValue();
          else ix->push_back({op(iv), (u8)width(iv->getType()), sc});
        }
        X.imm = off; if (ix->empty()) { X.op = I_GEPC; delete ix; } else if (ix->size() == 1) { X.op = I_GEP1; X.p = &(*ix)[0]; } else { X.op = I_GEPN; X.p = ix; }
        break;
      }
      case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isUnconditional()) { X.op = I_BR; X.e0 = edge(&B, Br.getSuccessor(0)); } else { X.op = I_CBR; X.a = op(Br.getCondition()); X.e0 = edge(&B, Br.getSuccessor(0)); X.e1 = edge(&B, Br.getSuccessor(1)); } break; }
      case Instruction::Switch: {
        auto &Sw = cast<SwitchInst>(I); X.op = I_SWITCH; X.a = op(Sw.getCondition()); X.w2 = width(Sw.getCondition()->getType()); SwitchInfo *si = new SwitchInfo(); Edge *d = edge(&B, Sw.getDefaultDest()); si->def = *d;
        for (auto &c : Sw.cases()) { u64 v = c.getCaseValue()->getZExtValue(); si->idx[v] = si->vals.size(); si->vals.push_back(v); si->edges.push_back(*edge(&B, c.getCaseSuccessor())); }
        X.p = si; break;
      }
      case Instruction::Ret: X.op = I_RET; if (I.getNumOperands()) { X.a = op(I.getOperand(0)); X.w = width(I.getOperand(0)->getType()); } else { X.w = 0; } break;
      case Instruction::Unreachable: X.op = I_UNREACH; break;
      case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); X.op = I_MOVE; if (!isa<AtomicCmpXchgInst>(E.getAggregateOperand())) fail("extractvalue"); X.a = reg[E.getAggregateOperand()] + E.getIndices()[0]; break; }
      case Instruction::AtomicCmpXchg: { auto &C = cast<AtomicCmpXchgInst>(I); X.op = I_CMPXCHG; X.a = op(C.getPointerOperand()); X.b = op(C.getCompareOperand()); X.c = op(C.getNewValOperand()); X.w = width(C.getCompareOperand()->getType()); X.sub = X.w / 8; break; }
      case Instruction::AtomicRMW: { auto &C = cast<AtomicRMWInst>(I); X.op = I_ARMW; X.a = op(C.getPointerOperand()); X.b = op(C.getValOperand()); X.w = width(C.getValOperand()->getType()); X.sub = X.w / 8; X.w2 = C.getOperation(); break; }
      case Instruction::Fence: X.op = I_NOP; break;
      case Instruction::Call: {
        auto &C = cast<CallInst>(I); CallInfo *ci = new CallInfo(); ci->f = nullptr; ci->ext = -1; ci->vararg = C.getFunctionType()->isVarArg();
        llvm::Function *T = C.getCalledFunction();
        if (C.isInlineAsm()) fail("inline asm in " + fn->name);
        if (T && T->isIntrinsic()) {
          X.op = I_INTRIN; StringRef nm = T->getName(); int k = -1;
          auto sw = [&](const char *s) { return nm.starts_with(s); };
          if (sw("llvm.memcpy") || sw("llvm.memmove")) k = 1; else if (sw("llvm.memset")) k = 2; else if (sw("llvm.ctlz")) k = 3; else if (sw("llvm.cttz")) k = 4; else if (sw("llvm.ctpop")) k = 5;
          else if (sw("llvm.va_start")) k = 6; else if (sw("llvm.va_end") || sw("llvm.lifetime") || sw("llvm.assume") || sw("llvm.experimental.noalias") || sw("llvm.donothing")) k = 0; else if (sw("llvm.va_copy")) k = 7; else if (sw("llvm.x86.sse2.pause")) k = 9; else if (sw("llvm.debugtrap") || sw("llvm.trap")) k = 8;
          else if (sw("llvm.x86.rdtsc") || sw("llvm.readcyclecounter")) k = 9; else if (sw("llvm.bswap")) k = 10; else if (sw("llvm.fabs")) k = 11; else if (sw("llvm.stacksave")) k = 12; else if (sw("llvm.stackrestore")) k = 13; else if (sw("llvm.sqrt")) k = 14; else if (sw("llvm.returnaddress") || sw("llvm.frameaddress")) k = 15;
          else if (sw("llvm.umax")) k = 18; else if (sw("llvm.umin")) k = 19; else if (sw("llvm.smax")) k = 20; else if (sw("llvm.smin")) k = 21; else if (sw("llvm.abs")) k = 22; else if (sw("llvm.usub.sat")) k = 23; else if (sw("llvm.fshl")) k = 16; else if (sw("llvm.fshr")) k = 17;
          else if (sw("llvm.x86.") || true) { k = 99; }
          X.sub = k; if (k == 0) { X.op = I_NOP; break; }
          for (auto &A : C.args()) { if (A->getType()->isMetadataTy()) continue; ci->args.push_back(op(A)); ci->aw.push_back(width(A->getType())); }
          X.p = ci; if (k == 99) { X.imm = (u64)strdup(nm.str().c_str()); }
          break;
        }
        for (auto &A : C.args()) { ci->args.push_back(op(A)); ci->aw.push_back(width(A->getType())); }
        if (T) {
          Func *cf = func_at(L->addr[T]); ci->f = cf;
          if (cf->defined) X.op = I_CALL; else { X.op = I_CALLX; }
        } else { X.op = I_CALLI; ci->callee = op(C.getCalledOperand()); }
        X.p = ci; if (I.getType()->isVoidTy()) X.dst = ~0u; break;
      }
      default: fail("unsupported instruction in " + fn->name + ": " + str(&I));
    }
    fn->code.push_back(X);
  }
}
void Dec::store_const(State &S, u64 a, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); mem_w(S, a, r.data(), r.size()); return; }
  if (auto *A = dyn_cast<ConstantArray>(C)) { u64 sz = DL.getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) store_const(S, a + i * sz, A->getOperand(i)); return; }
  if (auto *St = dyn_cast<ConstantStruct>(C)) { auto *SL = DL.getStructLayout(St->getType()); for (unsigned i = 0; i < St->getNumOperands(); i++) store_const(S, a + SL->getElementOffset(i), St->getOperand(i)); return; }
  unsigned w = width(C->getType()); u64 v = cval(C); 
  if (w > 64) { auto *CI = cast<ConstantInt>(C); u64 q[2] = {CI->getValue().extractBitsAsZExtValue(64, 0), CI->getValue().extractBitsAsZExtValue(64, 64)}; mem_w(S, a, q, 16); return; }
  mem_w(S, a, &v, (w + 7) / 8);
}
void init_globals(State &S) {
  for (auto *L : loaded) mem_map(S, L->m->gbase, L->m->gend - L->m->gbase, 1);
  for (auto *L : loaded) {
    Dec D(L);
    for (auto &G : L->M->globals()) if (!G.isDeclaration() && G.hasInitializer()) D.store_const(S, L->addr[&G], G.getInitializer());
    for (auto *f : L->m->funcs) if (f->defined) D.decode(f);
    // resolve externals by name: other modules (not the compiler) first, then the modelled operating system
    for (auto *f : L->m->funcs) if (!f->defined) {
      auto it = g_func_by_name.find(f->name);
      if (!L->hlc && it != g_func_by_name.end()) { f->ext = -2; f->llvm = it->second; }
      else f->ext = ext_index(f->name);
    }
  }
}
