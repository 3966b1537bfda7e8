// Makes a replayable program of a harness module: scheduling points become calls to the
// runtime (rt.c), which follows a recorded schedule.  usage: instrument IN.bc OUT.bc
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("instrument", errs()); return 2; }
  auto *VT = FunctionType::get(Type::getVoidTy(C), false);
  FunctionCallee point = M->getOrInsertFunction("__rt_point", VT), pause = M->getOrInsertFunction("__rt_pause", VT);
  std::vector<Instruction *> atomics, pauses;
  for (Function &F : *M) for (BasicBlock &B : F) for (Instruction &I : B) {
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) atomics.push_back(&I);
    else if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) atomics.push_back(L); }
    else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) atomics.push_back(S); }
    else if (auto *CI = dyn_cast<CallInst>(&I)) { if (Function *G = CI->getCalledFunction()) if (G->getName() == "llvm.x86.sse2.pause") pauses.push_back(CI); }
  }
  for (Instruction *I : atomics) IRBuilder<>(I).CreateCall(point);
  for (Instruction *I : pauses) IRBuilder<>(I).CreateCall(pause);
  if (Function *F = M->getFunction("syscall")) F->setName("__rt_syscall");
  if (Function *F = M->getFunction("sched_yield")) F->setName("__rt_yield");
  std::error_code ec; raw_fd_ostream o(argv[2], ec);
  WriteBitcodeToFile(*M, o);
  return 0;
}
