// Decoded form of an LLVM module.
#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>

struct Val { u64 v; Expr *e; };

enum IOp : u8 {
  I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_BITCAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_UNREACH, I_EXTELT, I_INSELT, I_SHUFFLE, I_RMW, I_CMPXCHG, I_FENCE,
  I_FBIN, I_FCMP, I_FCAST, I_INTRIN, I_UNSUP
};
enum Intrin : u16 {
  N_NOP, N_MEMCPY, N_MEMMOVE, N_MEMSET, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UADDSAT, N_USUBSAT,
  N_SADDSAT, N_SSUBSAT, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_BITREVERSE, N_FSHL, N_FSHR,
  N_TRAP, N_ASSUME, N_REDADD, N_REDOR, N_REDAND, N_REDXOR, N_REDUMAX, N_REDUMIN, N_REDMUL, N_MOVMSK, N_PAUSE, N_EXPECT, N_PTRMASK, N_LOADREL,
  N_THREADLOCAL, N_FPTOI_SAT, N_FABS, N_OBJSIZE, N_CMP_U, N_CMP_S
};
struct Copy { int dst, src; };
struct Edge { u32 target; std::vector<Copy> copies; };
struct SlotInfo { u16 w; u32 off; };
struct GepTerm { int op; u16 w; int64_t scale; };
struct Fn;
struct CallArg { int op; u16 n; };
struct CallInfo { Fn *fn = nullptr; int calleeOp = 0; std::vector<CallArg> args; u16 retSlots = 0; std::vector<SlotInfo> ret; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; std::unordered_map<u64, u32> map; u32 def; std::vector<u32> targets; };  // edge indices
struct Inst {
  IOp op; u8 sub; u16 w; u16 w2; u16 lanes; bool hit; bool atomic;
  int dst, a, b, c; int64_t imm; u32 loc;
  std::vector<SlotInfo> *lay; std::vector<GepTerm> *gep; CallInfo *call; SwitchInfo *sw; std::vector<int> *mask;
};
struct Fn {
  std::string name; void *llvm; u32 idx; bool declared = false; bool decoded = false; int handler = -1;
  std::vector<Inst> code; std::vector<Edge> edges; std::vector<Val> consts;
  u32 nregs = 0; std::vector<u16> paramSlots; std::vector<u16> paramBase; bool noreturn = false;
};
struct GObj { std::string name; u64 size; bool constant; bool tls; std::vector<u8> init; bool ready; void *llvm; int mutIdx; u32 id; };
struct Loc { std::string func, file; u32 line; };
struct Program {
  std::vector<Fn *> fns; std::unordered_map<std::string, Fn *> byName;
  std::vector<GObj *> globals;   // id = index + 1
  std::vector<GObj *> mut;       // mutable (and TLS) globals
  std::vector<Loc> locs;
};
extern Program P;
const u64 FUNC_BASE = 0x700000000000ull;
bool loadModule(const char *path);
void decodeFn(Fn *f);
void initGlobal(GObj *g);
bool loadRelative(GObj *g, u64 off, u64 &r);  // the target of an entry of a relative lookup table
