#include "program.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
using namespace llvm;

Program P;
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fnMap;
static std::unordered_map<const GlobalVariable *, GObj *> gMap;
typedef SlotInfo SI;

static bool badType = false;
static void flatten(Type *T, std::vector<SI> &out, u32 off = 0) {
  if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return;
  if (auto *IT = dyn_cast<IntegerType>(T)) { if (IT->getBitWidth() > 128) badType = true; out.push_back({(u16)IT->getBitWidth(), off}); return; }
  if (T->isPointerTy()) { out.push_back({64, off}); return; }
  if (T->isDoubleTy()) { out.push_back({64, off}); return; }
  if (T->isFloatTy()) { out.push_back({32, off}); return; }
  if (auto *ST = dyn_cast<StructType>(T)) {
    auto *L = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) flatten(ST->getElementType(i), out, off + L->getElementOffset(i));
    return;
  }
  if (auto *AT = dyn_cast<ArrayType>(T)) {
    u64 s = DL->getTypeAllocSize(AT->getElementType());
    for (u64 i = 0; i < AT->getNumElements(); i++) flatten(AT->getElementType(), out, off + i * s);
    return;
  }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) {
    u64 s = DL->getTypeSizeInBits(VT->getElementType());
    for (u64 i = 0; i < VT->getNumElements(); i++) flatten(VT->getElementType(), out, off + i * s / 8);
    return;
  }
  badType = true; out.push_back({64, off});
}
static unsigned nslots(Type *T) { std::vector<SI> v; flatten(T, v); return v.size(); }
static unsigned scalarW(Type *T) {
  Type *S = T->getScalarType();
  if (S->isPointerTy() || S->isDoubleTy()) return 64;
  if (S->isFloatTy()) return 32;
  if (auto *IT = dyn_cast<IntegerType>(S)) return IT->getBitWidth();
  return 0;
}
static unsigned lanesOf(Type *T) { if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements(); return 1; }

static Fn *getFn(const Function *F) {
  auto it = fnMap.find(F);
  return it == fnMap.end() ? nullptr : it->second;
}
static bool constFail;
static void evalConst(const Constant *C, std::vector<u128> &out);
static u128 evalScalar(const Constant *C) { std::vector<u128> v; evalConst(C, v); if (v.empty()) { constFail = true; return 0; } return v[0]; }
static void evalConst(const Constant *C, std::vector<u128> &out) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    const APInt &A = CI->getValue();
    u128 v = A.getRawData()[0]; if (A.getBitWidth() > 64) v |= (u128)A.getRawData()[1] << 64;
    out.push_back(v); return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { out.push_back(CF->getValueAPF().bitcastToAPInt().getZExtValue()); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(0); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) { std::vector<SI> s; flatten(C->getType(), s); for (auto &x : s) { (void)x; out.push_back(0); } return; }
  if (auto *GV = dyn_cast<GlobalVariable>(C)) {
    auto it = gMap.find(GV);
    if (it == gMap.end() || (GV->isDeclaration() && GV->hasExternalWeakLinkage())) { out.push_back(0); return; }
    out.push_back((u64)it->second->id << 24); return;
  }
  if (auto *F = dyn_cast<Function>(C)) {
    if (F->isDeclaration() && F->hasExternalWeakLinkage()) { out.push_back(0); return; }
    Fn *f = getFn(F); out.push_back(f ? FUNC_BASE + (u64)f->idx * 16 : 0); return; }
  if (auto *GA = dyn_cast<GlobalAlias>(C)) { evalConst(GA->getAliasee(), out); return; }
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) evalConst(cast<Constant>(CA->getOperand(i)), out); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) evalConst(CD->getElementAsConstant(i), out); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    unsigned w = scalarW(CE->getType());
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto *G = cast<GEPOperator>(CE);
        APInt off(64, 0);
        if (!G->accumulateConstantOffset(*DL, off)) { constFail = true; out.push_back(0); return; }
        out.push_back((u64)(evalScalar(cast<Constant>(G->getPointerOperand())) + off.getSExtValue())); return;
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
        out.push_back(evalScalar(CE->getOperand(0)) & maskw(w)); return;
      case Instruction::SExt: out.push_back((u128)sext128(evalScalar(CE->getOperand(0)), scalarW(CE->getOperand(0)->getType())) & maskw(w)); return;
      case Instruction::Add: out.push_back(foldBin(OAdd, evalScalar(CE->getOperand(0)), evalScalar(CE->getOperand(1)), w)); return;
      case Instruction::Sub: out.push_back(foldBin(OSub, evalScalar(CE->getOperand(0)), evalScalar(CE->getOperand(1)), w)); return;
      case Instruction::And: out.push_back(foldBin(OAnd, evalScalar(CE->getOperand(0)), evalScalar(CE->getOperand(1)), w)); return;
      case Instruction::Or: out.push_back(foldBin(OOr, evalScalar(CE->getOperand(0)), evalScalar(CE->getOperand(1)), w)); return;
      case Instruction::Mul: out.push_back(foldBin(OMul, evalScalar(CE->getOperand(0)), evalScalar(CE->getOperand(1)), w)); return;
      case Instruction::Select: evalConst(evalScalar(CE->getOperand(0)) ? CE->getOperand(1) : CE->getOperand(2), out); return;
      case Instruction::ICmp: {
        u128 x = evalScalar(CE->getOperand(0)), y = evalScalar(CE->getOperand(1));
        switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: out.push_back(x == y); return; case CmpInst::ICMP_NE: out.push_back(x != y); return; case CmpInst::ICMP_ULT: out.push_back(x < y); return; case CmpInst::ICMP_UGT: out.push_back(x > y); return; default: break; }
      }
    }
  }
  if (isa<BlockAddress>(C)) { out.push_back(0); constFail = true; return; }
  constFail = true;
  std::vector<SI> s; flatten(C->getType(), s); for (auto &x : s) { (void)x; out.push_back(0); }
}
bool loadRelative(GObj *g, u64 off, u64 &r) {
  auto *GV = (GlobalVariable *)g->llvm;
  if (!GV || !GV->isConstant() || !GV->hasInitializer() || off % 4) return false;
  auto *CA = dyn_cast<ConstantAggregate>(GV->getInitializer());
  if (!CA || off / 4 >= CA->getNumOperands()) return false;
  auto *T = dyn_cast<ConstantExpr>(CA->getOperand(off / 4));
  auto *S = T && T->getOpcode() == Instruction::Trunc ? dyn_cast<ConstantExpr>(T->getOperand(0)) : nullptr;
  if (!S || S->getOpcode() != Instruction::Sub || evalScalar(S->getOperand(1)) != (u128)((u64)g->id << 24)) return false;
  r = (u64)evalScalar(S->getOperand(0));
  return true;
}
void initGlobal(GObj *g) {
  if (g->ready) return;
  g->ready = true;
  g->init.assign(g->size, 0);
  auto *GV = (GlobalVariable *)g->llvm;
  if (!GV->hasInitializer()) return;
  const Constant *C = GV->getInitializer();
  // fill recursively to avoid flattening huge byte arrays
  struct R { static void go(const Constant *C, u8 *p) {
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    Type *T = C->getType();
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { StringRef s = CD->getRawDataValues(); memcpy(p, s.data(), s.size()); return; }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
      for (unsigned i = 0; i < CA->getNumOperands(); i++) {
        u64 off;
        if (auto *ST = dyn_cast<StructType>(T)) off = DL->getStructLayout(ST)->getElementOffset(i);
        else if (auto *AT = dyn_cast<ArrayType>(T)) off = i * DL->getTypeAllocSize(AT->getElementType());
        else off = i * DL->getTypeAllocSize(cast<VectorType>(T)->getElementType());
        go(cast<Constant>(CA->getOperand(i)), p + off);
      }
      return;
    }
    u128 v = evalScalar(C); unsigned w = scalarW(T);
    memcpy(p, &v, (w + 7) / 8);
  } };
  R::go(C, g->init.data());
}
static u32 locFor(const Instruction &I) {
  static std::map<std::tuple<const void *, u32>, u32> seen;
  const DebugLoc &D = I.getDebugLoc();
  if (!D) return 0;
  const DILocation *L = D.get();
  auto key = std::make_tuple((const void *)L->getScope(), (u32)L->getLine());
  auto it = seen.find(key);
  if (it != seen.end()) return it->second;
  auto *SP = L->getScope()->getSubprogram();
  Loc l;
  l.func = SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : "";
  l.file = (L->getDirectory().empty() || (!L->getFilename().empty() && L->getFilename()[0] == '/')) ? L->getFilename().str() : (L->getDirectory() + "/" + L->getFilename()).str();
  l.line = L->getLine();
  P.locs.push_back(l);
  return seen[key] = P.locs.size() - 1;
}
bool loadModule(const char *path) {
  SMDiagnostic E;
  M = parseIRFile(path, E, Ctx);
  if (!M) { E.print("symex", errs()); return false; }
  DL = &M->getDataLayout();
  // the C library has this one, which std asks for weakly
  if (GlobalVariable *G = M->getGlobalVariable("__cxa_thread_atexit_impl")) {
    auto *PT = PointerType::get(Ctx, 0);
    G->setName("__weak_atexit");
    G->replaceAllUsesWith(Function::Create(FunctionType::get(Type::getInt32Ty(Ctx), {PT, PT, PT}, false), GlobalValue::ExternalLinkage, "__cxa_thread_atexit_impl", *M));
  }
  P.locs.push_back({"", "", 0});
  for (Function &F : *M) {
    Fn *f = new Fn; f->name = F.getName().str(); f->llvm = &F; f->idx = P.fns.size(); f->declared = F.isDeclaration(); f->noreturn = F.doesNotReturn();
    P.fns.push_back(f); P.byName[f->name] = f; fnMap[&F] = f;
  }
  for (GlobalVariable &G : M->globals()) {
    GObj *g = new GObj; g->name = G.getName().str(); g->size = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0; g->constant = G.isConstant() && !G.isThreadLocal();
    g->tls = G.isThreadLocal(); g->ready = false; g->llvm = &G; g->mutIdx = -1;
    if (!g->constant) { g->mutIdx = P.mut.size(); P.mut.push_back(g); }
    P.globals.push_back(g); g->id = P.globals.size();
    if (g->id >= 65536) { errs() << "too many globals\n"; return false; }
    gMap[&G] = g;
  }
  return true;
}

namespace {
struct Decoder {
  Fn *f; Function *F;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const Value *, int> constIdx;
  std::unordered_map<const BasicBlock *, u32> bbStart;
  std::vector<std::pair<u32, std::pair<const BasicBlock *, const BasicBlock *>>> edgeFix;
  u32 nregs = 0;
  int allocSlots(const Value *V) { int s = nregs; nregs += std::max(1u, nslots(V->getType())); slot[V] = s; return s; }
  int pushConst(const std::vector<u128> &v, const std::vector<SI> &lay) {
    int i = f->consts.size();
    for (size_t k = 0; k < v.size(); k++) {
      unsigned w = lay[k].w;
      if (w > 64) f->consts.push_back({0, mkConst(v[k], w)}); else f->consts.push_back({(u64)(v[k] & maskw(w)), nullptr});
    }
    return ~i;
  }
  int op(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) {
      auto it = constIdx.find(V);
      if (it != constIdx.end()) return it->second;
      std::vector<u128> v; std::vector<SI> lay; flatten(V->getType(), lay); constFail = false; evalConst(C, v);
      if (constFail || v.size() != lay.size()) { bad = "constant expression"; v.resize(lay.size()); }
      return constIdx[V] = pushConst(v, lay);
    }
    auto it = slot.find(V);
    if (it == slot.end()) return allocSlots(V);
    return it->second;
  }
  int imm(u64 x) { f->consts.push_back({x, nullptr}); return ~(int)(f->consts.size() - 1); }
  const char *bad = nullptr;
  u32 curLoc = 0;
  Inst &emit(IOp o) { Inst i; memset((void *)&i, 0, sizeof i); i.op = o; i.lanes = 1; i.dst = -1; i.loc = curLoc; f->code.push_back(i); return f->code.back(); }
  u32 edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = 0;
    for (const PHINode &phi : to->phis()) {
      const Value *in = phi.getIncomingValueForBlock(from);
      unsigned n = nslots(phi.getType()); int d = op(&phi), s = op(in);
      for (unsigned k = 0; k < n; k++) e.copies.push_back({d + (int)k, s < 0 ? ~(~s + (int)k) : s + (int)k});
    }
    f->edges.push_back(e);
    edgeFix.push_back({(u32)f->edges.size() - 1, {from, to}});
    return f->edges.size() - 1;
  }
  void unsup(const char *why) { Inst &i = emit(I_UNSUP); static std::vector<std::string *> keep; auto *s = new std::string(std::string(why)); i.imm = (int64_t)s; }
  void decodeCall(const CallBase &I);
  void decode(const Instruction &I);
};
static Op binOp(unsigned o) {
  switch (o) {
    case Instruction::Add: return OAdd; case Instruction::Sub: return OSub; case Instruction::Mul: return OMul;
    case Instruction::UDiv: return OUDiv; case Instruction::SDiv: return OSDiv; case Instruction::URem: return OURem; case Instruction::SRem: return OSRem;
    case Instruction::And: return OAnd; case Instruction::Or: return OOr; case Instruction::Xor: return OXor;
    case Instruction::Shl: return OShl; case Instruction::LShr: return OLShr; case Instruction::AShr: return OAShr;
  }
  abort();
}
static int shift(int o, int k) { return o < 0 ? ~(~o + k) : o + k; }

void Decoder::decodeCall(const CallBase &I) {
  if (I.isInlineAsm()) { 
    auto *A = cast<InlineAsm>(I.getCalledOperand());
    if (A->getAsmString().empty()) { Inst &x = emit(I_INTRIN); x.sub = N_NOP; return; }
    unsup("inline asm"); return; }
  const Function *CF = dyn_cast<Function>(I.getCalledOperand()->stripPointerCasts());
  unsigned w = scalarW(I.getType()); unsigned L = lanesOf(I.getType());
  int d = I.getType()->isVoidTy() ? -1 : op(&I);
  if (CF && CF->isIntrinsic()) {
    StringRef n = CF->getName();
    auto N = [&](Intrin k) -> Inst & { std::vector<int> o; for (unsigned i = 0; i < I.arg_size() && i < 3; i++) o.push_back(I.getArgOperand(i)->getType()->isMetadataTy() ? 0 : op(I.getArgOperand(i))); Inst &x = emit(I_INTRIN); x.sub = k; x.w = w; x.lanes = L; x.dst = d; if (o.size() > 0) x.a = o[0]; if (o.size() > 1) x.b = o[1]; if (o.size() > 2) x.c = o[2]; if (I.arg_size()) { x.w2 = scalarW(I.getArgOperand(0)->getType()); } return x; };
    auto has = [&](const char *p) { return n.starts_with(p); };
    if (has("llvm.lifetime") || has("llvm.experimental.noalias") || has("llvm.dbg") || has("llvm.donothing") || has("llvm.prefetch") || has("llvm.var.annotation") || has("llvm.invariant") || has("llvm.stacksave") || has("llvm.stackrestore")) { return; }
    if (has("llvm.assume")) { return; }
    if (has("llvm.memcpy")) { N(N_MEMCPY); return; }
    if (has("llvm.memmove")) { N(N_MEMMOVE); return; }
    if (has("llvm.memset")) { N(N_MEMSET); return; }
    struct { const char *p; Intrin k; } tbl[] = {
      {"llvm.uadd.with.overflow", N_UADDO}, {"llvm.usub.with.overflow", N_USUBO}, {"llvm.umul.with.overflow", N_UMULO},
      {"llvm.sadd.with.overflow", N_SADDO}, {"llvm.ssub.with.overflow", N_SSUBO}, {"llvm.smul.with.overflow", N_SMULO},
      {"llvm.uadd.sat", N_UADDSAT}, {"llvm.usub.sat", N_USUBSAT}, {"llvm.sadd.sat", N_SADDSAT}, {"llvm.ssub.sat", N_SSUBSAT},
      {"llvm.umax", N_UMAX}, {"llvm.umin", N_UMIN}, {"llvm.smax", N_SMAX}, {"llvm.smin", N_SMIN}, {"llvm.abs", N_ABS},
      {"llvm.ctlz", N_CTLZ}, {"llvm.cttz", N_CTTZ}, {"llvm.ctpop", N_CTPOP}, {"llvm.bswap", N_BSWAP}, {"llvm.bitreverse", N_BITREVERSE},
      {"llvm.fshl", N_FSHL}, {"llvm.fshr", N_FSHR}, {"llvm.trap", N_TRAP}, {"llvm.vector.reduce.add", N_REDADD}, {"llvm.vector.reduce.or", N_REDOR},
      {"llvm.vector.reduce.and", N_REDAND}, {"llvm.vector.reduce.xor", N_REDXOR}, {"llvm.vector.reduce.umax", N_REDUMAX}, {"llvm.vector.reduce.umin", N_REDUMIN}, {"llvm.vector.reduce.mul", N_REDMUL},
      {"llvm.x86.sse2.pmovmskb", N_MOVMSK}, {"llvm.x86.sse2.pause", N_PAUSE}, {"llvm.expect", N_EXPECT}, {"llvm.ptrmask", N_PTRMASK}, {"llvm.load.relative", N_LOADREL},
      {"llvm.threadlocal.address", N_THREADLOCAL}, {"llvm.fptosi.sat", N_FPTOI_SAT}, {"llvm.fptoui.sat", N_FPTOI_SAT}, {"llvm.fabs", N_FABS}, {"llvm.objectsize", N_OBJSIZE}, {"llvm.ubsantrap", N_TRAP}, {"llvm.debugtrap", N_TRAP}};
    for (auto &t : tbl) if (has(t.p)) {
      Inst &x = N(t.k);
      if (t.k >= N_UADDO && t.k <= N_SMULO) { x.w = scalarW(I.getArgOperand(0)->getType()); x.lanes = lanesOf(I.getArgOperand(0)->getType()); if (x.lanes > 1) { f->code.pop_back(); unsup("vector overflow op"); } }
      if (t.k >= N_REDADD && t.k <= N_MOVMSK) { x.lanes = lanesOf(I.getArgOperand(0)->getType()); }
      if (t.k == N_FPTOI_SAT) x.imm = has("llvm.fptosi.sat");
      return;
    }
    unsup(("intrinsic " + n.str()).c_str()); return;
  }
  CallInfo *ci = new CallInfo;
  if (CF) ci->fn = getFn(CF); else ci->calleeOp = op(I.getCalledOperand());
  for (unsigned i = 0; i < I.arg_size(); i++) {
    const Value *A = I.getArgOperand(i);
    ci->args.push_back({op(A), (u16)nslots(A->getType())});
  }
  flatten(I.getType(), ci->ret); ci->retSlots = ci->ret.size();
  Inst &x = emit(I_CALL); x.call = ci; x.dst = d; x.w = w;
  // a system call (futex) and waiting are scheduling points too
  x.atomic = CF && (CF->getName() == "syscall" || CF->getName() == "__sym_wait");
}
void Decoder::decode(const Instruction &I) {
  curLoc = locFor(I);
  Type *T = I.getType();
  unsigned w = scalarW(T), L = lanesOf(T);
  switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      int a = op(I.getOperand(0)), b = op(I.getOperand(1)), d = op(&I);
      Inst &x = emit(I_BIN); x.sub = binOp(I.getOpcode()); x.w = w; x.lanes = L; x.a = a; x.b = b; x.dst = d; return; }
    case Instruction::ICmp: {
      auto &C = cast<ICmpInst>(I);
      int a = op(I.getOperand(0)), b = op(I.getOperand(1)), d = op(&I);
      Inst &x = emit(I_ICMP); x.sub = C.getPredicate(); x.w = scalarW(I.getOperand(0)->getType()); x.lanes = L; x.a = a; x.b = b; x.dst = d; return; }
    case Instruction::Select: {
      int c = op(I.getOperand(0)), a = op(I.getOperand(1)), b = op(I.getOperand(2)), d = op(&I);
      std::vector<SI> *lay = new std::vector<SI>; flatten(T, *lay);
      Inst &x = emit(I_SELECT); x.a = a; x.b = b; x.c = c; x.dst = d; x.lay = lay; x.lanes = lay->size(); x.w = w; x.imm = I.getOperand(0)->getType()->isVectorTy(); return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned sw = scalarW(I.getOperand(0)->getType());
      int a = op(I.getOperand(0)), d = op(&I);
      IOp o = I.getOpcode() == Instruction::SExt ? I_SEXT : sw < w ? I_ZEXT : sw > w ? I_TRUNC : I_MOVE;
      Inst &x = emit(o); x.w = w; x.w2 = sw; x.lanes = L; x.a = a; x.dst = d; return; }
    case Instruction::Freeze: case Instruction::AddrSpaceCast: { int a = op(I.getOperand(0)), d = op(&I); Inst &x = emit(I_MOVE); x.a = a; x.dst = d; x.lanes = nslots(T); return; }
    case Instruction::BitCast: {
      Type *S = I.getOperand(0)->getType(); int a = op(I.getOperand(0)), d = op(&I);
      if (lanesOf(S) == L && scalarW(S) == w) { Inst &x = emit(I_MOVE); x.a = a; x.dst = d; x.lanes = nslots(T); return; }
      Inst &x = emit(I_BITCAST); x.a = a; x.dst = d; x.lanes = L; x.w = w; x.w2 = scalarW(S); x.imm = lanesOf(S); return; }
    case Instruction::Load: {
      int a = op(I.getOperand(0)), d = op(&I); auto *lay = new std::vector<SI>; flatten(T, *lay);
      Inst &x = emit(I_LOAD); x.a = a; x.dst = d; x.w = w; x.lay = lay; x.lanes = lay->size(); x.atomic = cast<LoadInst>(I).isAtomic(); return; }
    case Instruction::Store: {
      int a = op(I.getOperand(0)), b = op(I.getOperand(1)); auto *lay = new std::vector<SI>; flatten(I.getOperand(0)->getType(), *lay);
      Inst &x = emit(I_STORE); x.a = a; x.b = b; x.w = scalarW(I.getOperand(0)->getType()); x.lay = lay; x.lanes = lay->size(); x.atomic = cast<StoreInst>(I).isAtomic(); return; }
    case Instruction::GetElementPtr: {
      if (T->isVectorTy()) { unsup("vector gep"); return; }
      auto &G = cast<GetElementPtrInst>(I);
      auto *terms = new std::vector<GepTerm>; int64_t off = 0;
      int base = op(G.getPointerOperand()), d = op(&I);
      for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Value *idx = it.getOperand();
        if (StructType *ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *CI = dyn_cast<ConstantInt>(idx)) { off += CI->getSExtValue() * sc; continue; }
        terms->push_back({op(idx), (u16)scalarW(idx->getType()), sc});
      }
      Inst &x = emit(I_GEP); x.a = base; x.dst = d; x.imm = off; x.gep = terms; return; }
    case Instruction::Alloca: {
      auto &A = cast<AllocaInst>(I); int d = op(&I);
      u64 sz = DL->getTypeAllocSize(A.getAllocatedType());
      if (auto *CI = dyn_cast<ConstantInt>(A.getArraySize())) sz *= CI->getZExtValue(); else { unsup("dynamic alloca"); return; }
      Inst &x = emit(I_ALLOCA); x.dst = d; x.imm = sz; return; }
    case Instruction::Br: {
      auto &B = cast<BranchInst>(I);
      if (B.isUnconditional()) { u32 e = edge(I.getParent(), B.getSuccessor(0)); Inst &x = emit(I_BR); x.imm = e; return; }
      int c = op(B.getCondition()); u32 e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1));
      Inst &x = emit(I_CBR); x.a = c; x.b = e1; x.c = e2; return; }
    case Instruction::Switch: {
      auto &S = cast<SwitchInst>(I); int c = op(S.getCondition()); auto *si = new SwitchInfo;
      std::map<const BasicBlock *, u32> em;
      auto ed = [&](const BasicBlock *t) { auto it = em.find(t); if (it != em.end()) return it->second; u32 e = edge(I.getParent(), t); em[t] = e; si->targets.push_back(e); return e; };
      si->def = ed(S.getDefaultDest());
      unsigned sw = scalarW(S.getCondition()->getType());
      if (sw > 64) { unsup("wide switch"); return; }
      for (auto &cs : S.cases()) { u64 v = cs.getCaseValue()->getZExtValue(); u32 e = ed(cs.getCaseSuccessor()); si->cases.push_back({v, e}); si->map[v] = e; }
      Inst &x = emit(I_SWITCH); x.a = c; x.w = sw; x.sw = si; return; }
    case Instruction::Call: decodeCall(cast<CallBase>(I)); return;
    case Instruction::Invoke: { decodeCall(cast<CallBase>(I)); u32 e = edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()); Inst &x = emit(I_BR); x.imm = e; return; }
    case Instruction::Ret: {
      Inst *x; if (I.getNumOperands()) { int a = op(I.getOperand(0)); x = &emit(I_RET); x->a = a; x->lanes = nslots(I.getOperand(0)->getType()); } else { x = &emit(I_RET); x->lanes = 0; } return; }
    case Instruction::Unreachable: emit(I_UNREACH); return;
    case Instruction::LandingPad: case Instruction::Resume: case Instruction::CleanupPad: case Instruction::CleanupRet: unsup("landing pad"); return;
    case Instruction::ExtractValue: {
      auto &E = cast<ExtractValueInst>(I); Type *C = E.getAggregateOperand()->getType(); unsigned k = 0;
      for (unsigned ix : E.indices()) { for (unsigned j = 0; j < ix; j++) k += nslots(C->isStructTy() ? C->getStructElementType(j) : C->getArrayElementType()); C = C->isStructTy() ? C->getStructElementType(ix) : C->getArrayElementType(); }
      int a = op(E.getAggregateOperand()), d = op(&I); Inst &x = emit(I_MOVE); x.a = shift(a, k); x.dst = d; x.lanes = nslots(T); return; }
    case Instruction::InsertValue: {
      auto &E = cast<InsertValueInst>(I); Type *C = E.getAggregateOperand()->getType(); unsigned k = 0;
      for (unsigned ix : E.indices()) { for (unsigned j = 0; j < ix; j++) k += nslots(C->isStructTy() ? C->getStructElementType(j) : C->getArrayElementType()); C = C->isStructTy() ? C->getStructElementType(ix) : C->getArrayElementType(); }
      int a = op(E.getAggregateOperand()), b = op(E.getInsertedValueOperand()), d = op(&I);
      { Inst &x = emit(I_MOVE); x.a = a; x.dst = d; x.lanes = nslots(T); }
      { Inst &x = emit(I_MOVE); x.a = b; x.dst = d + k; x.lanes = nslots(C); } return; }
    case Instruction::ExtractElement: { int a = op(I.getOperand(0)), b = op(I.getOperand(1)), d = op(&I); Inst &x = emit(I_EXTELT); x.a = a; x.b = b; x.dst = d; x.w = w; x.imm = lanesOf(I.getOperand(0)->getType()); x.w2 = scalarW(I.getOperand(1)->getType()); return; }
    case Instruction::InsertElement: { int a = op(I.getOperand(0)), b = op(I.getOperand(1)), c = op(I.getOperand(2)), d = op(&I); Inst &x = emit(I_INSELT); x.a = a; x.b = b; x.c = c; x.dst = d; x.w = w; x.lanes = L; x.w2 = scalarW(I.getOperand(2)->getType()); return; }
    case Instruction::ShuffleVector: {
      auto &S = cast<ShuffleVectorInst>(I); int a = op(I.getOperand(0)), b = op(I.getOperand(1)), d = op(&I); auto *m = new std::vector<int>;
      for (int k : S.getShuffleMask()) m->push_back(k);
      Inst &x = emit(I_SHUFFLE); x.a = a; x.b = b; x.dst = d; x.w = w; x.lanes = L; x.mask = m; x.imm = lanesOf(I.getOperand(0)->getType()); return; }
    case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); int a = op(I.getOperand(0)), b = op(I.getOperand(1)), d = op(&I); Inst &x = emit(I_RMW); x.a = a; x.b = b; x.dst = d; x.w = w; x.sub = A.getOperation(); x.atomic = true; return; }
    case Instruction::AtomicCmpXchg: { int a = op(I.getOperand(0)), b = op(I.getOperand(1)), c = op(I.getOperand(2)), d = op(&I); Inst &x = emit(I_CMPXCHG); x.a = a; x.b = b; x.c = c; x.dst = d; x.w = scalarW(I.getOperand(1)->getType()); x.atomic = true; return; }
    case Instruction::Fence: emit(I_FENCE); return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: case Instruction::FNeg: {
      int a = op(I.getOperand(0)), b = I.getNumOperands() > 1 ? op(I.getOperand(1)) : a, d = op(&I);
      Inst &x = emit(I_FBIN); x.a = a; x.b = b; x.dst = d; x.w = w; x.lanes = L; x.imm = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : I.getOpcode() == Instruction::FDiv ? 3 : I.getOpcode() == Instruction::FRem ? 4 : 5; return; }
    case Instruction::FCmp: { int a = op(I.getOperand(0)), b = op(I.getOperand(1)), d = op(&I); Inst &x = emit(I_FCMP); x.a = a; x.b = b; x.dst = d; x.sub = cast<FCmpInst>(I).getPredicate(); x.w = scalarW(I.getOperand(0)->getType()); x.lanes = L; return; }
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
      int a = op(I.getOperand(0)), d = op(&I); Inst &x = emit(I_FCAST); x.a = a; x.dst = d; x.w = w; x.w2 = scalarW(I.getOperand(0)->getType()); x.lanes = L;
      x.sub = I.getOpcode() == Instruction::UIToFP ? 0 : I.getOpcode() == Instruction::SIToFP ? 1 : I.getOpcode() == Instruction::FPToUI ? 2 : I.getOpcode() == Instruction::FPToSI ? 3 : I.getOpcode() == Instruction::FPExt ? 4 : 5; return; }
    default: unsup((std::string("instruction ") + I.getOpcodeName()).c_str()); return;
  }
}
}  // namespace
void decodeFn(Fn *f) {
  if (f->decoded) return;
  f->decoded = true;
  Decoder D; D.f = f; D.F = (Function *)f->llvm;
  for (Argument &A : D.F->args()) { f->paramBase.push_back(D.nregs); f->paramSlots.push_back(nslots(A.getType())); D.allocSlots(&A); }
  for (BasicBlock &B : *D.F) {
    D.bbStart[&B] = f->code.size();
    for (Instruction &I : B) {
      if (isa<PHINode>(I)) { D.op(&I); continue; }
      badType = false; D.bad = nullptr;
      size_t before = f->code.size();
      D.decode(I);
      if (badType || D.bad) {
        // keep control structure sound: replace the decoded sequence by an unsupported marker
        f->code.resize(before); D.unsup(D.bad ? D.bad : "type");
      }
    }
  }
  for (auto &e : D.edgeFix) f->edges[e.first].target = D.bbStart[e.second.second];
  f->nregs = D.nregs;
}
