#pragma once
#include "program.h"
#include "solver.h"
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>

struct Obj {
  u32 rc; bool writable; u64 size; u8 *data; Expr **sym;
  static Obj *make(u64 n) { Obj *o = new Obj; o->rc = 1; o->writable = true; o->size = n; o->data = (u8 *)calloc(n ? n : 1, 1); o->sym = nullptr; return o; }
  Obj *clone() const { Obj *o = new Obj; o->rc = 1; o->writable = writable; o->size = size; o->data = (u8 *)malloc(size ? size : 1); memcpy(o->data, data, size); o->sym = nullptr; if (sym) { o->sym = (Expr **)malloc(size * sizeof(Expr *)); memcpy(o->sym, sym, size * sizeof(Expr *)); } return o; }
  void ref() { rc++; }
  void unref() { if (--rc == 0) { free(data); free(sym); delete this; } }
};
struct ObjVec {
  std::vector<Obj *> v;
  ObjVec() {}
  ObjVec(const ObjVec &o) : v(o.v) { for (Obj *x : v) if (x) x->ref(); }
  ObjVec &operator=(const ObjVec &) = delete;
  ~ObjVec() { for (Obj *x : v) if (x) x->unref(); }
};
struct Frame { Fn *f; u32 pc; u32 base; u32 stackMark; int retDst; };
enum TStatus : u8 { T_RUN, T_DONE, T_FUTEX, T_JOIN, T_WAIT };
struct Thread {
  std::vector<Frame> frames; std::vector<Val> regs; ObjVec stack; TStatus st = T_RUN; u64 blockAddr = 0; u32 joinTid = 0;
  ObjVec tls;  // lazily filled, indexed like P.mut
};
struct State {
  std::vector<Thread> threads; u32 cur = 0;
  ObjVec heap; std::vector<u32> heapFree; ObjVec glob;
  PathCond pc; u32 nvars = 0;
  std::vector<Val> obs;
  u64 steps = 0; u32 forks = 0;
  bool expectPanic = false; std::string knownTag;
  bool schedDone = false; u32 preempts = 0; std::string sched; std::vector<u32> schedVars;
  u8 starve[9][9] = {};  // how often a thread has yielded while another could run but did not
  u64 clock = 1;
  u32 reach = 0;
};
enum EndKind { E_OK, E_PANIC, E_PANIC_EXPECTED, E_ASSUME, E_MEM, E_UNSUP, E_BUDGET, E_DEADLOCK, E_STACK, E_EXIT };
struct Config {
  u64 maxSteps = 50000000; u32 maxDepth = 4000; u32 maxPreempt = 2; u64 maxAlloc = 1ull << 28; u32 maxSamples = 40; u32 maxViol = 8; u64 maxPaths = ~0ull; double maxSecs = 800, graceSecs = 20;
  std::vector<std::pair<std::string, u64>> params;
};
extern Config cfg;
