#include "state.h"
#include <cmath>
#include <chrono>
#include <deque>
#include <set>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>

Config cfg;
static std::deque<State *> work;
static u64 nPaths[16];
static u64 totalSteps = 0, totalForks = 0, nAsserts = 0, nAssertSolver = 0;
static FILE *outF;
static bool bfsMode = false;
static std::map<std::string, u64> reachCount;
static std::map<std::string, u32> violCount;
static u64 nSamples = 0, rng = 1;
static std::map<std::string, u64> unsupWhy;
static std::map<std::string, u64> knownCount;
static double t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct PathEnd { EndKind k; std::string msg; };

static inline Expr *EX(Val v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static inline Val VL(Expr *e) { if (isConst(e) && e->w <= 64) return {(u64)e->val, nullptr}; return {0, e}; }

// ---------- memory ----------
static const u64 HEAP0 = 65536, STK0 = 1ull << 20;
static std::vector<Obj *> constObjs;
static Obj *constObj(u32 id) {
  if (constObjs.size() < P.globals.size() + 1) constObjs.resize(P.globals.size() + 1);
  if (!constObjs[id]) { GObj *g = P.globals[id - 1]; initGlobal(g); Obj *o = Obj::make(g->size); memcpy(o->data, g->init.data(), g->size); o->writable = false; constObjs[id] = o; }
  return constObjs[id];
}
// Find the object slot for an address; returns null when there is none.
static Obj **slotFor(State &s, u64 addr) {
  u64 id = addr >> 24;
  if (id == 0) return nullptr;
  if (id < HEAP0) {
    if (id > P.globals.size()) return nullptr;
    GObj *g = P.globals[id - 1];
    if (g->constant) { constObj(id); return &constObjs[id]; }
    ObjVec &ov = g->tls ? s.threads[s.cur].tls : s.glob;
    if (ov.v.size() < P.mut.size()) ov.v.resize(P.mut.size());
    Obj *&o = ov.v[g->mutIdx];
    if (!o) { initGlobal(g); o = Obj::make(g->size); memcpy(o->data, g->init.data(), g->size); }
    return &o;
  }
  if (id < STK0) { u64 i = id - HEAP0; if (i >= s.heap.v.size() || !s.heap.v[i]) return nullptr; return &s.heap.v[i]; }
  u64 t = (id >> 20) - 1, i = id & (STK0 - 1);
  if (t >= s.threads.size() || i >= s.threads[t].stack.v.size()) return nullptr;
  return &s.threads[t].stack.v[i];
}
static double *stopAt = nullptr;
static bool stopNow() { return stopAt && *stopAt && now() - t0 > *stopAt; }
[[noreturn]] static void fail(EndKind k, const std::string &m) { throw PathEnd{k, m}; }
static std::string hexs(u64 x) { char b[32]; snprintf(b, sizeof b, "0x%lx", x); return b; }
static Obj *rd(State &s, u64 addr, u64 n, u64 &off) {
  Obj **p = slotFor(s, addr);
  off = addr & 0xffffff;
  if (!p || off + n > (*p)->size) fail(E_MEM, "invalid read of " + std::to_string(n) + " bytes at " + hexs(addr) + (p ? " in object of size " + std::to_string((*p)->size) : ""));
  return *p;
}
static Obj *wr(State &s, u64 addr, u64 n, u64 &off) {
  Obj **p = slotFor(s, addr);
  off = addr & 0xffffff;
  if (!p || off + n > (*p)->size) fail(E_MEM, "invalid write of " + std::to_string(n) + " bytes at " + hexs(addr) + (p ? " in object of size " + std::to_string((*p)->size) : ""));
  if (!(*p)->writable) fail(E_MEM, "write to read-only object at " + hexs(addr));
  if ((*p)->rc > 1) { Obj *c = (*p)->clone(); (*p)->unref(); *p = c; }
  return *p;
}
static inline Expr *byteAt(Obj *o, u64 i) { return o->sym && o->sym[i] ? o->sym[i] : mkConst(o->data[i], 8); }
static Val loadFrom(Obj *o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool anySym = false;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { anySym = true; break; }
  if (!anySym) {
    if (n <= 8) { u64 v = 0; memcpy(&v, o->data + off, n); return {v & mask64(w), nullptr}; }
    u128 v = 0; memcpy(&v, o->data + off, n); return {0, mkConst(v, w)};
  }
  Expr *e = byteAt(o, off);
  for (unsigned i = 1; i < n; i++) e = mkConcat(byteAt(o, off + i), e);
  if (w < n * 8) e = mkExtract(e, 0, w);
  return VL(e);
}
static Val loadMem(State &s, u64 addr, unsigned w) { u64 off; Obj *o = rd(s, addr, (w + 7) / 8, off); return loadFrom(o, off, w); }
static void storeMem(State &s, u64 addr, Val v, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off; Obj *o = wr(s, addr, n, off);
  if (!v.e) { u64 x = v.v; if (n <= 8) memcpy(o->data + off, &x, n); else { u128 y = x; memcpy(o->data + off, &y, n); } if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  Expr *e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
  if (isConst(e)) { u128 y = e->val; memcpy(o->data + off, &y, n); if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
  if (!o->sym) o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
  for (unsigned i = 0; i < n; i++) { Expr *b = mkExtract(e, i * 8, 8); if (isConst(b)) { o->data[off + i] = (u8)b->val; o->sym[off + i] = nullptr; } else { o->data[off + i] = 0; o->sym[off + i] = b; } }
}
static void copyMem(State &s, u64 d, u64 sr, u64 n) {
  if (!n) return;
  u64 so, dof; rd(s, sr, n, so); Obj *o = wr(s, d, n, dof); Obj *q = rd(s, sr, n, so);
  memmove(o->data + dof, q->data + so, n);
  if (q->sym || o->sym) {
    if (!q->sym) { memset(o->sym + dof, 0, n * sizeof(Expr *)); }
    else { if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *)); memmove(o->sym + dof, q->sym + so, n * sizeof(Expr *)); }
  }
}
static u64 heapAlloc(State &s, u64 n) {
  u64 slots = (n >> 24) + 1; u32 i;
  if (slots == 1 && !s.heapFree.empty()) { i = s.heapFree.back(); s.heapFree.pop_back(); s.heap.v[i] = Obj::make(n); }
  else if (slots == 1) { i = s.heap.v.size(); s.heap.v.push_back(Obj::make(n)); }
  else { fail(E_UNSUP, "allocation larger than 16 MiB"); }
  if (HEAP0 + i >= STK0) fail(E_UNSUP, "heap exhausted");
  return (HEAP0 + i) << 24;
}
static void heapFree(State &s, u64 a) {
  if (!a) return;
  u64 id = a >> 24;
  if (id < HEAP0 || id >= STK0 || (a & 0xffffff) || id - HEAP0 >= s.heap.v.size() || !s.heap.v[id - HEAP0]) fail(E_MEM, "invalid free of " + hexs(a));
  s.heap.v[id - HEAP0]->unref(); s.heap.v[id - HEAP0] = nullptr; s.heapFree.push_back(id - HEAP0);
}
// ---------- solver glue ----------
static State *cloneState(State &s) { totalForks++; State *n = new State(s); n->forks++; return n; }
static const bool qprof = getenv("SYMEX_QPROF");
static std::map<std::string, std::pair<u64, double>> qprofile;
static void qprofDump() {
  std::vector<std::pair<double, std::string>> v;
  for (auto &p : qprofile) v.push_back({p.second.second, p.first + " x" + std::to_string(p.second.first)});
  std::sort(v.rbegin(), v.rend());
  for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "%.2fs %s\n", v[i].first, v[i].second.c_str());
}
static Res feas(State &s, Expr *c, ModelP *m) {
  u64 q0 = g_sol.z3_queries; double t0 = g_sol.z3_time;
  Res r = feasible(s.pc, c, m);
  if (qprof && g_sol.z3_queries != q0) {
    std::string k;
    Thread &T = s.threads[s.cur];
    for (size_t i = T.frames.size(), n = 0; i-- > 0 && n < 4; n++) { auto &F = T.frames[i]; Loc &l = P.locs[F.f->code[F.pc ? F.pc - 1 : 0].loc]; k += F.f->name.substr(0, 60) + " " + l.file.substr(l.file.size() > 30 ? l.file.size() - 30 : 0) + ":" + std::to_string(l.line) + " < "; }
    auto &e = qprofile[k]; e.first += g_sol.z3_queries - q0; e.second += g_sol.z3_time - t0;
  }
  if (r == UNKNOWN) fail(E_UNSUP, "solver returned unknown (timeout)");
  return r;
}
static void assume(State &s, Expr *c, ModelP m) { addConstraint(s.pc, c); s.pc.model = m; }
// Give a concrete value to e, forking the state for every other feasible value.
static u128 concretizeE(State &s, Expr *e) {
  if (isConst(e)) return e->val;
  u128 v = evalExpr(e, *s.pc.model);
  Expr *eq = mkBin(OEq, e, mkConst(v, e->w)), *ne = mkNot(eq);
  ModelP m;
  if (feas(s, ne, &m) == SAT) { State *o = cloneState(s); assume(*o, ne, m); work.push_back(o); }
  assume(s, eq, s.pc.model);
  return v;
}
static u64 conc(State &s, Val v, unsigned w) { (void)w; return v.e ? (u64)concretizeE(s, v.e) : v.v; }
// Decide a branch; forks when both sides are feasible.  Caller must not have side effects before.
static bool decide(State &s, Expr *c) {
  if (isConst(c)) return c->val;
  bool v = evalExpr(c, *s.pc.model);
  Expr *take = v ? c : mkNot(c), *other = v ? mkNot(c) : c;
  ModelP m;
  if (feas(s, other, &m) == SAT) { State *o = cloneState(s); assume(*o, other, m); work.push_back(o); assume(s, take, s.pc.model); }
  return v;
}
// ---------- handlers ----------
enum H { H_NONE = -1, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_MEMALIGN, H_MEMCMP, H_BCMP, H_STRLEN, H_MEMCHR, H_MEMRCHR, H_ZERO, H_PANIC, H_ABORT, H_SYSCALL, H_ERRNO,
  H_SYMBYTES, H_SYMASSUME, H_SYMASSERT, H_OBSERVE, H_REACH, H_EXPECTPANIC, H_KNOWN, H_PARAM, H_SPAWN, H_JOIN, H_WAIT, H_YIELD, H_CONC, H_CLOCK, H_TWOCONST, H_MEMCPYF, H_EXIT, H_RETARG0, H_STACKOVF, H_LIMIT, H_NOFAIL, H_ALLOCFAIL, H_FORCE, H_ISSYM, H_PRINT, H_WRITE };
static int classify(Fn *f) {
  static const std::unordered_map<std::string, int> exact = {
    {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"posix_memalign", H_MEMALIGN}, {"aligned_alloc", H_MEMALIGN},
    {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP}, {"strlen", H_STRLEN}, {"memchr", H_MEMCHR}, {"memrchr", H_MEMRCHR}, {"memcpy", H_MEMCPYF}, {"memmove", H_MEMCPYF},
    {"abort", H_ABORT}, {"syscall", H_SYSCALL}, {"__errno_location", H_ERRNO}, {"getenv", H_ZERO}, {"dlsym", H_ZERO}, {"write", H_WRITE}, {"writev", H_WRITE},
    {"pthread_key_create", H_ZERO}, {"pthread_key_delete", H_ZERO}, {"pthread_getspecific", H_ZERO}, {"pthread_setspecific", H_ZERO}, {"__cxa_thread_atexit_impl", H_ZERO}, {"pthread_self", H_ZERO}, {"sched_yield", H_YIELD},
    {"clock_gettime", H_CLOCK}, {"exit", H_EXIT}, {"_exit", H_EXIT}, {"sysconf", H_ZERO}, {"getpid", H_ZERO},
    {"__sym_bytes", H_SYMBYTES}, {"__sym_assume", H_SYMASSUME}, {"__sym_assert", H_SYMASSERT}, {"__sym_observe", H_OBSERVE}, {"__sym_reach", H_REACH}, {"__sym_expect_panic", H_EXPECTPANIC}, {"__sym_known", H_KNOWN},
    {"__sym_param", H_PARAM}, {"__sym_spawn", H_SPAWN}, {"__sym_join", H_JOIN}, {"__sym_wait", H_WAIT}, {"__sym_concrete", H_CONC}, {"__sym_force", H_FORCE}, {"__sym_is_symbolic", H_ISSYM}, {"__sym_print", H_PRINT}};
  auto it = exact.find(f->name);
  if (it != exact.end()) return it->second;
  const std::string &n = f->name;
  auto has = [&](const char *p) { return n.find(p) != std::string::npos; };
  if (has("rust_begin_unwind") || has("core9panicking") || has("handle_alloc_error") || has("capacity_overflow") || has("slice_error_fail") || has("__rg_oom") || has("rust_oom") || has("core6option13expect_failed") || has("core6result13unwrap_failed") || has("begin_panic")
      || has("panicking20rust_panic_with_hook") || has("slice_start_index_len_fail") || has("slice_end_index_len_fail") || has("slice_index_order_fail") || has("__rust_alloc_error_handler") || has("core4cell22panic_already")) return H_PANIC;
  if (has("hashmap_random_keys")) return H_TWOCONST;
  if (has("detect_and_initialize")) return H_ZERO;
  // quoting text in messages: empty (see DESIGN.md, stubs)
  if (has("str$u20$as$u20$core..fmt..Debug$GT$3fmt") || has("char$u20$as$u20$core..fmt..Debug$GT$3fmt")) return H_ZERO;
  // printing to the standard streams: nothing
  if (has("2io5stdio7_eprint") || has("2io5stdio6_print") || has("2io5stdio8print_to")) return H_ZERO;
  if (has("3std7process5abort") || has("3std7process4exit")) return H_ABORT;
  return H_NONE;
}
static std::string readStr(State &s, u64 p, u64 n) {
  std::string r;
  try { for (u64 i = 0; i < n && i < 300; i++) { Val v = loadMem(s, p + i, 8); r += v.e ? '?' : (char)v.v; } } catch (PathEnd &) { }
  return r;
}
static std::string panicMsg(State &s, Fn *f, const std::vector<Val> &args) {
  // best effort: find the &Location and a leading message
  std::string loc, msg;
  for (size_t i = args.size(); i-- > 0;) {
    if (args[i].e) continue;
    try {
      u64 p = args[i].v; u64 fp = loadMem(s, p, 64).v, fl = loadMem(s, p + 8, 64).v, ln = loadMem(s, p + 16, 32).v;
      if (fl > 0 && fl < 300 && ln > 0 && ln < 1000000) { std::string file = readStr(s, fp, fl); if (file.find(".rs") != std::string::npos) { loc = file + ":" + std::to_string(ln); break; } }
    } catch (PathEnd &) { }
  }
  if (args.size() >= 2 && !args[0].e && !args[1].e && args[1].v < 300) msg = readStr(s, args[0].v, args[1].v);
  if (msg.empty() && args.size() >= 1 && !args[0].e) {
    try { for (int k = 0; k < 6; k++) { u64 pp = loadMem(s, args[0].v + 8 * k, 64).v; u64 q; if (slotFor(s, pp)) { u64 sp = loadMem(s, pp, 64).v, sl = loadMem(s, pp + 8, 64).v; (void)q; if (sl > 0 && sl < 200 && slotFor(s, sp)) { msg = readStr(s, sp, sl); break; } } } } catch (PathEnd &) { }
  }
  std::string n = f->name;
  for (auto &c : msg) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '?';
  return "panic [" + loc + "] " + msg + " (" + n.substr(0, 60) + ")";
}
// ---------- reporting ----------
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r; }
static std::string inputsHex(State &s, const Model &m) { std::string r; char b[4]; for (u32 i = 0; i < s.nvars; i++) if (!std::binary_search(s.schedVars.begin(), s.schedVars.end(), i)) { snprintf(b, 4, "%02x", i < m.v.size() ? m.v[i] : 0); r += b; } return r; }
static std::string obsHex(State &s, const Model &m) { std::string r; char b[4]; for (Val v : s.obs) { snprintf(b, 4, "%02x", v.e ? (unsigned)evalExpr(v.e, m) : (unsigned)v.v); r += b; } return r; }
static void report(State &s, const char *kind, const std::string &msg, const Model &m) {
  std::string key = std::string(kind) + "|" + msg + "|" + s.knownTag;
  if (!s.knownTag.empty()) knownCount[s.knownTag]++;
  // after a first failure the rest of the exploration is cut short
  if (stopAt && s.knownTag.empty() && !*stopAt && strcmp(kind, "unsupported")) { *stopAt = now() - t0 + cfg.graceSecs; }
  if (violCount[key]++ >= cfg.maxViol) return;
  fprintf(outF, "{\"t\":\"viol\",\"kind\":\"%s\",\"msg\":\"%s\",\"known\":\"%s\",\"inputs\":\"%s\",\"sched\":\"%s\"}\n", kind, jesc(msg).c_str(), jesc(s.knownTag).c_str(), inputsHex(s, m).c_str(), s.sched.c_str());
  fflush(outF);
}
static const char *endName[] = {"ok", "panic", "panic-expected", "assume", "memory", "unsupported", "budget", "deadlock", "stack", "exit"};
static void finish(State *s, PathEnd &e) {
  if (e.k == E_PANIC && s->expectPanic) e.k = E_PANIC_EXPECTED;
  nPaths[e.k]++; totalSteps += s->steps;
  switch (e.k) {
    case E_PANIC: case E_MEM: case E_BUDGET: case E_DEADLOCK: case E_STACK: report(*s, endName[e.k], e.msg, *s->pc.model); break;
    case E_UNSUP: case E_EXIT: unsupWhy[e.msg]++; if (unsupWhy[e.msg] <= 2) report(*s, "unsupported", e.msg, *s->pc.model); break;
    default: break;
  }
  if (e.k == E_OK || e.k == E_PANIC_EXPECTED || e.k == E_PANIC) {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    nSamples++;
    if (nSamples <= cfg.maxSamples / 2 || (rng >> 33) % nSamples < cfg.maxSamples / 2)
      { fprintf(outF, "{\"t\":\"sample\",\"end\":\"%s\",\"inputs\":\"%s\",\"obs\":\"%s\",\"sched\":\"%s\"}\n", endName[e.k], inputsHex(*s, *s->pc.model).c_str(), obsHex(*s, *s->pc.model).c_str(), s->sched.c_str()); fflush(outF); }
  }
  if ((e.k == E_OK || e.k == E_PANIC_EXPECTED) && s->reach) for (int i = 0; i < 32; i++) if (s->reach >> i & 1) reachCount["r" + std::to_string(i)]++;
  delete s;
}
// ---------- arithmetic ----------
static inline Val binop(State &s, Op op, Val a, Val b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.v, y = b.v, m = mask64(w);
    switch (op) {
      case OAdd: return {(x + y) & m, nullptr}; case OSub: return {(x - y) & m, nullptr}; case OMul: return {(x * y) & m, nullptr};
      case OAnd: return {x & y, nullptr}; case OOr: return {x | y, nullptr}; case OXor: return {x ^ y, nullptr};
      case OShl: return {y >= w ? 0 : (x << y) & m, nullptr}; case OLShr: return {y >= w ? 0 : x >> y, nullptr};
      case OUDiv: if (!y) fail(E_MEM, "division by zero"); return {x / y, nullptr}; case OURem: if (!y) fail(E_MEM, "division by zero"); return {x % y, nullptr};
      default: return {(u64)foldBin(op, x, y, w), nullptr};
    }
  }
  (void)s;
  return VL(mkBin(op, EX(a, w), EX(b, w)));
}
enum { P_EQ = 32, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
static inline Val icmp(unsigned p, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    u64 x = a.v, y = b.v;
    switch (p) {
      case P_EQ: return {x == y, nullptr}; case P_NE: return {x != y, nullptr}; case P_UGT: return {x > y, nullptr}; case P_UGE: return {x >= y, nullptr};
      case P_ULT: return {x < y, nullptr}; case P_ULE: return {x <= y, nullptr};
    }
    int64_t i = sext64(x, w), j = sext64(y, w);
    switch (p) { case P_SGT: return {i > j, nullptr}; case P_SGE: return {i >= j, nullptr}; case P_SLT: return {i < j, nullptr}; case P_SLE: return {i <= j, nullptr}; }
  }
  Expr *x = EX(a, w), *y = EX(b, w);
  switch (p) {
    case P_EQ: return VL(mkBin(OEq, x, y)); case P_NE: return VL(mkNot(mkBin(OEq, x, y)));
    case P_UGT: return VL(mkBin(OUlt, y, x)); case P_UGE: return VL(mkNot(mkBin(OUlt, x, y))); case P_ULT: return VL(mkBin(OUlt, x, y)); case P_ULE: return VL(mkNot(mkBin(OUlt, y, x)));
    case P_SGT: return VL(mkBin(OSlt, y, x)); case P_SGE: return VL(mkNot(mkBin(OSlt, x, y))); case P_SLT: return VL(mkBin(OSlt, x, y)); case P_SLE: return VL(mkNot(mkBin(OSlt, y, x)));
  }
  abort();
}
static Val ite(Val c, Val a, Val b, unsigned w) {
  if (!c.e) return c.v ? a : b;
  return VL(mkIte(c.e, EX(a, w), EX(b, w)));
}
static Val intrin(State &s, Inst &I, Val *R, const Fn *f);
static Val symLoad(State &s, Expr *ae, unsigned w, bool &ok);

// ---------- scheduling ----------
static bool runnable(State &s, u32 t) {
  Thread &T = s.threads[t];
  switch (T.st) {
    case T_RUN: return true; case T_DONE: case T_FUTEX: return false;
    case T_JOIN: return s.threads[T.joinTid].st == T_DONE;
    case T_WAIT: { u64 off; Obj *o = rd(s, T.blockAddr, 1, off); Val v = loadFrom(o, off, 8); return v.e || v.v; }
  }
  return false;
}
static void wakeIfReady(State &s, u32 t) { Thread &T = s.threads[t]; if (T.st == T_JOIN || T.st == T_WAIT) T.st = T_RUN; }
// The thread that goes on is a symbolic variable of its own, split into its feasible values.
static void ran(State &s, u32 k) { for (auto &r : s.starve) r[k] = 0; }
static void yields(State &s) { for (u32 u = 0; u < s.threads.size() && u < 9; u++) if (u != s.cur && runnable(s, u) && s.starve[s.cur][u] < 3) s.starve[s.cur][u]++; }
// Fairness: a thread that has yielded twice waits until those that could run meanwhile have done so.
static std::vector<u32> fair(State &s, const std::vector<u32> &c, bool preemptive) {
  std::vector<u32> r;
  for (size_t i = 0; i < c.size(); i++) {
    bool drop = false;
    if (!(preemptive && i == 0)) for (u32 u = 0; u < s.threads.size() && u < 9; u++) if (u != c[i] && s.starve[c[i]][u] >= 2 && runnable(s, u)) drop = true;
    if (!drop) r.push_back(c[i]);
  }
  return r.empty() ? c : r;
}
static void chooseThread(State &s, const std::vector<u32> &all, bool preemptive) {
  std::vector<u32> c = fair(s, all, preemptive);
  if (c.size() > 1) {
    u32 v = s.nvars++;
    auto m = std::make_shared<Model>(*s.pc.model); m->v.resize(s.nvars); s.pc.model = m;
    s.schedVars.push_back(v);
    Expr *x = mkVar(v);
    auto is = [&](State &t, u32 k) { ModelP m; Expr *e = mkBin(OEq, x, mkConst(k, 8)); if (feas(t, e, &m) == UNSAT) fail(E_UNSUP, "schedule choice"); assume(t, e, m); };
    for (size_t i = 1; i < c.size(); i++) { State *o = cloneState(s); is(*o, c[i]); o->cur = c[i]; ran(*o, c[i]); wakeIfReady(*o, c[i]); if (preemptive) o->preempts++; o->schedDone = true; work.push_back(o); }
    is(s, c[0]);
  }
  if (s.cur != c[0] || !preemptive) { s.cur = c[0]; ran(s, c[0]); wakeIfReady(s, c[0]); s.schedDone = true; }
}
// The current thread cannot continue: pick another one.
static void switchAway(State &s) {
  std::vector<u32> c;
  for (u32 t = 0; t < s.threads.size(); t++) if (t != s.cur || s.threads[t].st != T_DONE) if (runnable(s, t)) c.push_back(t);
  if (c.empty()) fail(E_DEADLOCK, "deadlock: no thread can run");
  chooseThread(s, c, false);
}
static void schedPoint(State &s) {
  if (s.threads.size() < 2) return;
  if (!s.schedDone && s.preempts < cfg.maxPreempt) {
    std::vector<u32> c{s.cur};
    for (u32 t = 0; t < s.threads.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
    chooseThread(s, c, true);
  }
  s.schedDone = false;
  s.sched += (char)('0' + s.cur);
}
// ---------- frames ----------
static void pushFrame(State &s, Thread &T, Fn *f, int retDst) {
  if (T.frames.size() >= cfg.maxDepth) fail(E_STACK, "call depth limit exceeded in " + f->name);
  decodeFn(f);
  Frame fr; fr.f = f; fr.pc = 0; fr.base = T.regs.size(); fr.stackMark = T.stack.v.size(); fr.retDst = retDst;
  T.regs.resize(fr.base + f->nregs);
  T.frames.push_back(fr);
}
#define GET(o) ((o) < 0 ? C[~(o)] : R[o])

static bool callHandler(State &s, Fn *fn, CallInfo *ci, Val *R, const Val *C, int dst);

static void run(State *sp) {
  State &s = *sp;
  u64 budgetCheck = 0;
  try {
  reload:
    Thread *T = &s.threads[s.cur];
    Frame *F = &T->frames.back();
    Fn *f = F->f;
    Val *R = T->regs.data() + F->base;
    const Val *C = f->consts.data();
    Inst *code = f->code.data();
    for (;;) {
      Inst &I = code[F->pc];
      if (++s.steps >= cfg.maxSteps) fail(E_BUDGET, "instruction budget exceeded in " + f->name);
      if ((++budgetCheck & 0xfffff) == 0 && (now() - t0 > cfg.maxSecs || stopNow())) fail(E_UNSUP, "time limit of the run exceeded");
      I.hit = true;
      if (I.atomic && s.threads.size() > 1) { u32 c = s.cur; schedPoint(s); if (s.cur != c) goto reload; }
      switch (I.op) {
        case I_BIN:
          if (I.lanes == 1) R[I.dst] = binop(s, (Op)I.sub, GET(I.a), GET(I.b), I.w);
          else { Val t[64]; for (int k = 0; k < I.lanes; k++) t[k] = binop(s, (Op)I.sub, I.a < 0 ? C[~I.a + k] : R[I.a + k], I.b < 0 ? C[~I.b + k] : R[I.b + k], I.w); memcpy((void *)&R[I.dst], t, sizeof(Val) * I.lanes); }
          F->pc++; break;
        case I_ICMP:
          if (I.lanes == 1) R[I.dst] = icmp(I.sub, GET(I.a), GET(I.b), I.w);
          else { Val t[64]; for (int k = 0; k < I.lanes; k++) t[k] = icmp(I.sub, I.a < 0 ? C[~I.a + k] : R[I.a + k], I.b < 0 ? C[~I.b + k] : R[I.b + k], I.w); memcpy((void *)&R[I.dst], t, sizeof(Val) * I.lanes); }
          F->pc++; break;
        case I_SELECT: {
          for (int k = 0; k < I.lanes; k++) {
            Val c = I.imm ? (I.c < 0 ? C[~I.c + k] : R[I.c + k]) : GET(I.c);
            R[I.dst + k] = ite(c, I.a < 0 ? C[~I.a + k] : R[I.a + k], I.b < 0 ? C[~I.b + k] : R[I.b + k], (*I.lay)[k].w);
          }
          F->pc++; break; }
        case I_ZEXT: for (int k = 0; k < I.lanes; k++) { Val a = I.a < 0 ? C[~I.a + k] : R[I.a + k]; if (!a.e && I.w <= 64) R[I.dst + k] = a; else R[I.dst + k] = VL(mkZExt(EX(a, I.w2), I.w)); } F->pc++; break;
        case I_SEXT: for (int k = 0; k < I.lanes; k++) { Val a = I.a < 0 ? C[~I.a + k] : R[I.a + k]; if (!a.e && I.w <= 64) R[I.dst + k] = {(u64)sext64(a.v, I.w2) & mask64(I.w), nullptr}; else R[I.dst + k] = VL(mkSExt(EX(a, I.w2), I.w)); } F->pc++; break;
        case I_TRUNC: for (int k = 0; k < I.lanes; k++) { Val a = I.a < 0 ? C[~I.a + k] : R[I.a + k]; if (!a.e) R[I.dst + k] = {a.v & mask64(I.w), nullptr}; else R[I.dst + k] = VL(mkExtract(a.e, 0, I.w)); } F->pc++; break;
        case I_MOVE: { if (I.a < 0) for (int k = 0; k < I.lanes; k++) R[I.dst + k] = C[~I.a + k]; else for (int k = 0; k < I.lanes; k++) R[I.dst + k] = R[I.a + k]; F->pc++; break; }
        case I_BITCAST: {
          int n1 = I.imm, w1 = I.w2, n2 = I.lanes, w2 = I.w;
          std::vector<Expr *> out;
          // normalise to a list of (expr) source lanes, low first
          std::vector<Expr *> src; for (int k = 0; k < n1; k++) src.push_back(EX(I.a < 0 ? C[~I.a + k] : R[I.a + k], w1));
          if (w1 >= w2) { int r = w1 / w2; for (int k = 0; k < n2; k++) out.push_back(mkExtract(src[k / r], (k % r) * w2, w2)); }
          else { int r = w2 / w1; for (int k = 0; k < n2; k++) { Expr *e = src[k * r]; for (int j = 1; j < r; j++) e = mkConcat(src[k * r + j], e); out.push_back(e); } }
          for (int k = 0; k < n2; k++) R[I.dst + k] = VL(out[k]);
          F->pc++; break; }
        case I_LOAD: {
          Val a = GET(I.a);
          if (a.e) {
            if (I.lanes == 1) { bool ok = false; Val v = symLoad(s, a.e, I.w, ok); if (ok) { R[I.dst] = v; F->pc++; break; } }
            a.v = conc(s, a, 64);
          }
          if (I.lanes == 1) R[I.dst] = loadMem(s, a.v, I.w);
          else for (int k = 0; k < I.lanes; k++) R[I.dst + k] = loadMem(s, a.v + (*I.lay)[k].off, (*I.lay)[k].w);
          F->pc++; break; }
        case I_STORE: {
          u64 p = conc(s, GET(I.b), 64);
          if (I.lanes == 1) storeMem(s, p, GET(I.a), I.w);
          else for (int k = 0; k < I.lanes; k++) storeMem(s, p + (*I.lay)[k].off, I.a < 0 ? C[~I.a + k] : R[I.a + k], (*I.lay)[k].w);
          F->pc++; break; }
        case I_GEP: {
          Val b = GET(I.a);
          bool sym = b.e;
          for (auto &t : *I.gep) if (GET(t.op).e) sym = true;
          if (!sym) { u64 x = b.v + I.imm; for (auto &t : *I.gep) x += (u64)sext64(GET(t.op).v, t.w) * (u64)t.scale; R[I.dst] = {x, nullptr}; }
          else {
            Expr *e = mkBin(OAdd, EX(b, 64), mkConst((u128)(u64)I.imm, 64));
            for (auto &t : *I.gep) { Expr *x = mkSExt(EX(GET(t.op), t.w), 64); e = mkBin(OAdd, e, mkBin(OMul, x, mkConst((u128)(u64)t.scale, 64))); }
            R[I.dst] = VL(e);
          }
          F->pc++; break; }
        case I_ALLOCA: {
          u64 i = T->stack.v.size(); if (i >= STK0 - 1 || I.imm >= (1 << 24)) fail(E_STACK, "stack exhausted");
          T->stack.v.push_back(Obj::make(I.imm)); R[I.dst] = {((((u64)s.cur + 1) << 20) + i) << 24, nullptr}; F->pc++; break; }
        case I_BR: case I_CBR: case I_SWITCH: {
          u32 e;
          if (I.op == I_BR) e = I.imm;
          else if (I.op == I_CBR) { Val c = GET(I.a); bool v = c.e ? decide(s, c.e) : c.v; e = v ? I.b : I.c; }
          else {
            Val c = GET(I.a);
            if (!c.e) { auto it = I.sw->map.find(c.v); e = it == I.sw->map.end() ? I.sw->def : it->second; }
            else {
              // partition by target; the one the model takes stays in this state
              u64 mv = (u64)evalExpr(c.e, *s.pc.model); auto it = I.sw->map.find(mv); e = it == I.sw->map.end() ? I.sw->def : it->second;
              auto condFor = [&](u32 t) -> Expr * {
                Expr *r = mkConst(0, 1);
                if (t == I.sw->def) { for (auto &cs : I.sw->cases) if (cs.second != t) r = mkBin(OOr, r, mkBin(OEq, c.e, mkConst(cs.first, I.w))); return mkNot(r); }
                for (auto &cs : I.sw->cases) if (cs.second == t) r = mkBin(OOr, r, mkBin(OEq, c.e, mkConst(cs.first, I.w)));
                return r; };
              bool forked = false; std::vector<std::pair<Expr *, ModelP>> others;
              for (u32 t : I.sw->targets) if (t != e) { Expr *ce = condFor(t); ModelP m; if (feas(s, ce, &m) == SAT) { others.push_back({ce, m}); forked = true; } }
              for (auto &o : others) { State *n = cloneState(s); assume(*n, o.first, o.second); work.push_back(n); }
              if (forked) assume(s, condFor(e), s.pc.model);
            }
          }
          Edge &E = f->edges[e];
          size_t n = E.copies.size();
          if (n == 1) { R[E.copies[0].dst] = GET(E.copies[0].src); }
          else if (n) { Val tmp[256]; Val *tp = tmp; std::vector<Val> big; if (n > 256) { big.resize(n); tp = big.data(); } for (size_t k = 0; k < n; k++) tp[k] = GET(E.copies[k].src); for (size_t k = 0; k < n; k++) R[E.copies[k].dst] = tp[k]; }
          F->pc = E.target; break; }
        case I_CALL: {
          CallInfo *ci = I.call; Fn *callee = ci->fn;
          if (!callee) {
            u64 a = conc(s, GET(ci->calleeOp), 64);
            if (a < FUNC_BASE || (a & 15) || (a - FUNC_BASE) / 16 >= P.fns.size()) fail(E_MEM, "call through invalid pointer " + hexs(a));
            callee = P.fns[(a - FUNC_BASE) / 16];
          }
          if (callee->handler == -1) callee->handler = classify(callee) + 100;
          int h = callee->handler - 100;
          if (h != H_NONE) {
            u32 c = s.cur;
            if (callHandler(s, callee, ci, R, C, I.dst)) {
              // handler advanced the pc of the calling frame itself if needed
              s.threads[c].frames.back().pc++;
              if (s.cur != c || s.threads[s.cur].frames.empty()) goto reload;
              T = &s.threads[s.cur]; F = &T->frames.back(); R = T->regs.data() + F->base;
              break;
            }
            goto reload;  // handler changed threads without finishing the call
          }
          if (callee->declared) fail(E_UNSUP, "call to external function " + callee->name);
          F->pc++;
          u32 base = F->base;
          pushFrame(s, *T, callee, I.dst);
          Val *N = T->regs.data() + T->frames.back().base; R = T->regs.data() + base;
          size_t k = 0;
          for (auto &A : ci->args) for (int j = 0; j < A.n; j++) N[k++] = A.op < 0 ? C[~A.op + j] : R[A.op + j];
          goto reload; }
        case I_RET: {
          Val tmp[64]; for (int k = 0; k < I.lanes; k++) tmp[k] = I.a < 0 ? C[~I.a + k] : R[I.a + k];
          int rd_ = F->retDst;
          while (T->stack.v.size() > F->stackMark) { T->stack.v.back()->unref(); T->stack.v.pop_back(); }
          u32 base = F->base; T->frames.pop_back(); T->regs.resize(base);
          if (T->frames.empty()) {
            T->st = T_DONE;
            if (s.cur == 0) { fail(E_OK, ""); }
            switchAway(s); goto reload;
          }
          F = &T->frames.back(); R = T->regs.data() + F->base;
          if (rd_ >= 0) for (int k = 0; k < I.lanes; k++) R[rd_ + k] = tmp[k];
          goto reload; }
        case I_UNREACH: fail(E_MEM, "reached an unreachable instruction in " + f->name);
        case I_EXTELT: { u64 i = conc(s, GET(I.b), I.w2); if (i >= (u64)I.imm) fail(E_MEM, "extractelement index"); R[I.dst] = I.a < 0 ? C[~I.a + i] : R[I.a + i]; F->pc++; break; }
        case I_INSELT: { u64 i = conc(s, GET(I.c), I.w2); Val x = GET(I.b); for (int k = 0; k < I.lanes; k++) R[I.dst + k] = I.a < 0 ? C[~I.a + k] : R[I.a + k]; if (i < I.lanes) R[I.dst + i] = x; F->pc++; break; }
        case I_SHUFFLE: { Val t[64]; for (int k = 0; k < I.lanes; k++) { int m = (*I.mask)[k]; t[k] = m < 0 ? Val{0, nullptr} : m < I.imm ? (I.a < 0 ? C[~I.a + m] : R[I.a + m]) : (I.b < 0 ? C[~I.b + (m - I.imm)] : R[I.b + (m - I.imm)]); } memcpy((void *)&R[I.dst], t, sizeof(Val) * I.lanes); F->pc++; break; }
        case I_RMW: {
          u64 p = conc(s, GET(I.a), 64); Val b = GET(I.b), o = loadMem(s, p, I.w), n;
          switch (I.sub) { case 0: n = b; break; case 1: n = binop(s, OAdd, o, b, I.w); break; case 2: n = binop(s, OSub, o, b, I.w); break; case 3: n = binop(s, OAnd, o, b, I.w); break; case 4: n = binop(s, OXor, binop(s, OAnd, o, b, I.w), {mask64(I.w), nullptr}, I.w); break; case 5: n = binop(s, OOr, o, b, I.w); break; case 6: n = binop(s, OXor, o, b, I.w); break;
            case 7: n = ite(icmp(P_SGT, o, b, I.w), o, b, I.w); break; case 8: n = ite(icmp(P_SLT, o, b, I.w), o, b, I.w); break; case 9: n = ite(icmp(P_UGT, o, b, I.w), o, b, I.w); break; case 10: n = ite(icmp(P_ULT, o, b, I.w), o, b, I.w); break;
            default: fail(E_UNSUP, "atomicrmw op"); }
          storeMem(s, p, n, I.w); R[I.dst] = o; F->pc++; break; }
        case I_CMPXCHG: {
          u64 p = conc(s, GET(I.a), 64); Val o = loadMem(s, p, I.w); Val eq = icmp(P_EQ, o, GET(I.b), I.w);
          bool v = eq.e ? decide(s, eq.e) : eq.v;
          if (v) storeMem(s, p, GET(I.c), I.w);
          R[I.dst] = o; R[I.dst + 1] = {v, nullptr}; F->pc++; break; }
        case I_FENCE: F->pc++; break;
        case I_FBIN: {
          for (int k = 0; k < I.lanes; k++) {
            Val a = I.a < 0 ? C[~I.a + k] : R[I.a + k], b = I.b < 0 ? C[~I.b + k] : R[I.b + k];
            u64 x = conc(s, a, I.w), y = conc(s, b, I.w);
            auto opd = [&](auto p, auto q) -> decltype(p) { switch (I.imm) { case 0: return p + q; case 1: return p - q; case 2: return p * q; case 3: return p / q; case 4: return std::fmod(p, q); default: return -p; } };
            if (I.w == 64) { double p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); double r = opd(p, q); u64 z; memcpy(&z, &r, 8); R[I.dst + k] = {z, nullptr}; }
            else { float p, q; u32 xi = x, yi = y; memcpy(&p, &xi, 4); memcpy(&q, &yi, 4); float r = opd(p, q); u32 z; memcpy(&z, &r, 4); R[I.dst + k] = {z, nullptr}; }
          }
          F->pc++; break; }
        case I_FCMP: {
          u64 x = conc(s, GET(I.a), I.w), y = conc(s, GET(I.b), I.w); double p, q;
          if (I.w == 64) { memcpy(&p, &x, 8); memcpy(&q, &y, 8); } else { float a, b; u32 xi = x, yi = y; memcpy(&a, &xi, 4); memcpy(&b, &yi, 4); p = a; q = b; }
          bool un = std::isnan(p) || std::isnan(q), r = false; unsigned c = I.sub;
          if (un) r = c & 8; else r = ((c & 1) && p == q) || ((c & 2) && p > q) || ((c & 4) && p < q);
          R[I.dst] = {r, nullptr}; F->pc++; break; }
        case I_FCAST: {
          for (int k = 0; k < I.lanes; k++) {
            u64 x = conc(s, I.a < 0 ? C[~I.a + k] : R[I.a + k], I.w2); double d; u64 z = 0;
            if (I.sub == 0) d = (double)x; else if (I.sub == 1) d = (double)sext64(x, I.w2); else if (I.w2 == 64) memcpy(&d, &x, 8); else { float a; u32 xi = x; memcpy(&a, &xi, 4); d = a; }
            if (I.sub == 2) z = (u64)d & mask64(I.w); else if (I.sub == 3) z = (u64)(int64_t)d & mask64(I.w); else if (I.w == 64) memcpy(&z, &d, 8); else { float a = I.sub == 0 ? (float)x : I.sub == 1 ? (float)sext64(x, I.w2) : (float)d; u32 t; memcpy(&t, &a, 4); z = t; }
            R[I.dst + k] = {z, nullptr};
          }
          F->pc++; break; }
        case I_INTRIN: {
          if (I.sub == N_PAUSE) {
            F->pc++;
            if (s.threads.size() > 1) {  // a spinning thread yields (not counted as a preemption)
              std::vector<u32> c; for (u32 t = 0; t < s.threads.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
              if (!c.empty()) { yields(s); chooseThread(s, c, false); goto reload; }
            }
            break;
          }
          intrin(s, I, R, f); F->pc++; break; }
        case I_UNSUP: fail(E_UNSUP, *(std::string *)I.imm + " in " + f->name);
      }
    }
  } catch (PathEnd &e) {
    if (getenv("SYMEX_TRACE") && e.k != E_OK && e.k != E_ASSUME) { fprintf(stderr, "%s: %s\n", endName[e.k], e.msg.c_str()); Thread &T = s.threads[s.cur]; for (size_t i = T.frames.size(); i-- > 0;) { auto &F = T.frames[i]; Loc &l = P.locs[F.f->code[F.pc ? F.pc - (i + 1 < T.frames.size()) : 0].loc]; fprintf(stderr, "  %s  %s:%u\n", F.f->name.c_str(), l.file.c_str(), l.line); } }
    finish(sp, e);
  }
}
static Val symLoad(State &s, Expr *ae, unsigned w, bool &ok) {
  ok = false;
  if (ae->supp->v.size() != 1) return {0, nullptr};
  u32 v = ae->supp->v[0];
  const Table *d = v < s.pc.dom.size() ? s.pc.dom[v] : nullptr;
  u128 addr[256]; tabulate(ae, addr);
  Obj *obj = nullptr; unsigned n = (w + 7) / 8;
  Val vals[256]; bool in[256];
  for (int i = 0; i < 256; i++) {
    in[i] = !d || ((d->b[i >> 6] >> (i & 63)) & 1);
    if (!in[i]) continue;
    Obj **p = slotFor(s, (u64)addr[i]); u64 off = (u64)addr[i] & 0xffffff;
    if (!p || off + n > (*p)->size) return {0, nullptr};
    if (obj && obj != *p) return {0, nullptr};
    obj = *p;
    vals[i] = loadFrom(obj, off, w);
  }
  if (!obj) return {0, nullptr};
  // build a decision tree over maximal runs of equal values
  std::vector<std::pair<int, Val>> runs;
  for (int i = 0; i < 256; i++) if (in[i]) if (runs.empty() || runs.back().second.v != vals[i].v || runs.back().second.e != vals[i].e) runs.push_back({i, vals[i]});
  Expr *var = mkVar(v);
  struct B { static Expr *go(std::vector<std::pair<int, Val>> &r, int lo, int hi, Expr *var, unsigned w) {
    if (hi - lo == 1) return EX(r[lo].second, w);
    int mid = (lo + hi) / 2;
    return mkIte(mkBin(OUlt, var, mkConst(r[mid].first, 8)), go(r, lo, mid, var, w), go(r, mid, hi, var, w)); } };
  ok = true;
  return VL(B::go(runs, 0, runs.size(), var, w));
}
static Val intrin(State &s, Inst &I, Val *R, const Fn *f) {
  const Val *C = f->consts.data();
  unsigned w = I.w;
  auto lane = [&](int o, int k) -> Val { return o < 0 ? C[~o + k] : R[o + k]; };
  switch (I.sub) {
    case N_NOP: break;
    case N_MEMCPY: case N_MEMMOVE: { u64 n = conc(s, GET(I.c), 64); u64 d = conc(s, GET(I.a), 64), sr = conc(s, GET(I.b), 64); copyMem(s, d, sr, n); break; }
    case N_MEMSET: { u64 n = conc(s, GET(I.c), 64), d = conc(s, GET(I.a), 64); Val b = GET(I.b); if (!n) break; u64 off; Obj *o = wr(s, d, n, off); if (!b.e) { memset(o->data + off, (int)b.v, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *)); } else for (u64 i = 0; i < n; i++) storeMem(s, d + i, b, 8); break; }
    case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
      Val a = GET(I.a), b = GET(I.b);
      if (!a.e && !b.e && w <= 64) {
        u64 m = mask64(w); u64 r; bool o;
        if (I.sub <= N_UMULO) { u128 x = a.v, y = b.v, z = I.sub == N_UADDO ? x + y : I.sub == N_USUBO ? x - y : x * y; r = (u64)z & m; o = z != (u128)r; }
        else { i128 x = sext64(a.v, w), y = sext64(b.v, w), z = I.sub == N_SADDO ? x + y : I.sub == N_SSUBO ? x - y : x * y; r = (u64)z & m; o = z != (i128)sext64(r, w); }
        R[I.dst] = {r, nullptr}; R[I.dst + 1] = {o, nullptr}; break;
      }
      Expr *x = EX(a, w), *y = EX(b, w), *r, *o;
      if (I.sub == N_UADDO) { r = mkBin(OAdd, x, y); o = (w < 128 && x->hi + y->hi <= maskw(w)) ? mkConst(0, 1) : mkBin(OUlt, r, x); }
      else if (I.sub == N_USUBO) { r = mkBin(OSub, x, y); o = mkBin(OUlt, x, y); }
      else if (I.sub == N_UMULO) { r = mkBin(OMul, x, y); if (w <= 64) { if (x->hi * y->hi <= maskw(w)) o = mkConst(0, 1); else { Expr *z = mkBin(OMul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)); o = mkNot(mkBin(OEq, mkExtract(z, w, w), mkConst(0, w))); } } else fail(E_UNSUP, "wide umul overflow"); }
      else {
        unsigned W = I.sub == N_SMULO ? 2 * w : w + 1; if (W > 128) fail(E_UNSUP, "wide signed overflow op");
        Op op = I.sub == N_SADDO ? OAdd : I.sub == N_SSUBO ? OSub : OMul;
        Expr *z = mkBin(op, mkSExt(x, W), mkSExt(y, W)); r = mkBin(op, x, y); o = mkNot(mkBin(OEq, z, mkSExt(r, W)));
      }
      R[I.dst] = VL(r); R[I.dst + 1] = VL(o); break; }
    case N_UADDSAT: case N_USUBSAT: case N_SADDSAT: case N_SSUBSAT: case N_UMAX: case N_UMIN: case N_SMAX: case N_SMIN: {
      Val out[64];
      for (int k = 0; k < I.lanes; k++) {
        Val a = lane(I.a, k), b = lane(I.b, k);
        switch (I.sub) {
          case N_UADDSAT: { Val r = binop(s, OAdd, a, b, w); out[k] = ite(icmp(P_ULT, r, a, w), {mask64(w), nullptr}, r, w); break; }
          case N_USUBSAT: { Val r = binop(s, OSub, a, b, w); out[k] = ite(icmp(P_ULT, a, b, w), {0, nullptr}, r, w); break; }
          case N_UMAX: out[k] = ite(icmp(P_UGT, a, b, w), a, b, w); break; case N_UMIN: out[k] = ite(icmp(P_ULT, a, b, w), a, b, w); break;
          case N_SMAX: out[k] = ite(icmp(P_SGT, a, b, w), a, b, w); break; case N_SMIN: out[k] = ite(icmp(P_SLT, a, b, w), a, b, w); break;
          default: {
            Expr *x = mkSExt(EX(a, w), w + 1), *y = mkSExt(EX(b, w), w + 1), *z = mkBin(I.sub == N_SADDSAT ? OAdd : OSub, x, y);
            Expr *mx = mkConst(maskw(w - 1), w + 1), *mn = mkSExt(mkConst((u128)1 << (w - 1), w), w + 1);
            out[k] = VL(mkExtract(mkIte(mkBin(OSlt, mx, z), mx, mkIte(mkBin(OSlt, z, mn), mn, z)), 0, w)); }
        }
      }
      memcpy((void *)&R[I.dst], out, sizeof(Val) * I.lanes); break; }
    case N_ABS: for (int k = 0; k < I.lanes; k++) { Val a = lane(I.a, k); R[I.dst + k] = ite(icmp(P_SLT, a, {0, nullptr}, w), binop(s, OSub, {0, nullptr}, a, w), a, w); } break;
    case N_CTLZ: case N_CTTZ: case N_CTPOP: case N_BSWAP: case N_BITREVERSE: {
      for (int k = 0; k < I.lanes; k++) {
        Val a = lane(I.a, k);
        Expr *x = EX(a, w), *r;
        if (isConst(x)) {
          u128 v = x->val, o = 0;
          if (I.sub == N_CTLZ) { o = w; for (int i = w - 1; i >= 0; i--) if ((v >> i) & 1) { o = w - 1 - i; break; } }
          else if (I.sub == N_CTTZ) { o = w; for (unsigned i = 0; i < w; i++) if ((v >> i) & 1) { o = i; break; } }
          else if (I.sub == N_CTPOP) { for (unsigned i = 0; i < w; i++) o += (v >> i) & 1; }
          else if (I.sub == N_BSWAP) { for (unsigned i = 0; i < w / 8; i++) o |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i); }
          else for (unsigned i = 0; i < w; i++) o |= ((v >> i) & 1) << (w - 1 - i);
          r = mkConst(o, w);
        } else if (I.sub == N_CTLZ) { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); }
        else if (I.sub == N_CTTZ) { r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); }
        else if (I.sub == N_CTPOP) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(x, i, 1), w)); }
        else if (I.sub == N_BSWAP) { r = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8)); }
        else { r = mkExtract(x, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1)); }
        R[I.dst + k] = VL(r);
      }
      break; }
    case N_FSHL: case N_FSHR: for (int k = 0; k < I.lanes; k++) {
      Val a = lane(I.a, k), b = lane(I.b, k), c = lane(I.c, k);
      u64 sh = conc(s, c, w) % w; Expr *x = EX(a, w), *y = EX(b, w);
      if (2 * w <= 128) { Expr *z = mkConcat(x, y); R[I.dst + k] = VL(I.sub == N_FSHL ? mkExtract(z, w - sh, w) : mkExtract(z, sh, w)); }
      else if (sh == 0) R[I.dst + k] = I.sub == N_FSHL ? a : b; else { u64 l = I.sub == N_FSHL ? sh : w - sh; R[I.dst + k] = VL(mkBin(OOr, mkBin(OShl, x, mkConst(l, w)), mkBin(OLShr, y, mkConst(w - l, w)))); } }
      break;
    case N_TRAP: fail(E_PANIC, "trap (abort) in " + f->name);
    case N_REDADD: case N_REDOR: case N_REDAND: case N_REDXOR: case N_REDMUL: { Op op = I.sub == N_REDADD ? OAdd : I.sub == N_REDOR ? OOr : I.sub == N_REDAND ? OAnd : I.sub == N_REDMUL ? OMul : OXor; Val r = lane(I.a, 0); for (int k = 1; k < I.lanes; k++) r = binop(s, op, r, lane(I.a, k), w); R[I.dst] = r; break; }
    case N_REDUMAX: case N_REDUMIN: { Val r = lane(I.a, 0); for (int k = 1; k < I.lanes; k++) { Val x = lane(I.a, k); r = ite(icmp(I.sub == N_REDUMAX ? P_UGT : P_ULT, x, r, w), x, r, w); } R[I.dst] = r; break; }
    case N_MOVMSK: { Expr *e = nullptr; u64 cv = 0; bool sym = false; for (int k = 0; k < I.lanes; k++) { Val x = lane(I.a, k); if (x.e) sym = true; else cv |= ((x.v >> 7) & 1) << k; }
      if (!sym) { R[I.dst] = {cv, nullptr}; break; }
      for (int k = 0; k < I.lanes; k++) { Expr *b = mkExtract(EX(lane(I.a, k), 8), 7, 1); e = e ? mkConcat(b, e) : b; }
      R[I.dst] = VL(mkZExt(e, 32)); break; }
    case N_EXPECT: for (int k = 0; k < I.lanes; k++) R[I.dst + k] = lane(I.a, k); break;
    case N_PTRMASK: R[I.dst] = binop(s, OAnd, GET(I.a), GET(I.b), 64); break;
    case N_LOADREL: { u64 b = conc(s, GET(I.a), 64), o = conc(s, GET(I.b), 64), r; u64 id = b >> 24;
      if (!id || id > P.globals.size() || !loadRelative(P.globals[id - 1], (b & 0xffffff) + o, r)) fail(E_UNSUP, "llvm.load.relative in " + f->name);
      R[I.dst] = {r, nullptr}; break; }
    case N_THREADLOCAL: R[I.dst] = GET(I.a); break;
    case N_FPTOI_SAT: {
      u64 x = conc(s, GET(I.a), I.w2); double d; if (I.w2 == 64) memcpy(&d, &x, 8); else { float a; u32 xi = x; memcpy(&a, &xi, 4); d = a; }
      if (std::isnan(d)) { R[I.dst] = {0, nullptr}; break; }
      if (I.imm) { double mx = std::ldexp(1.0, w - 1); int64_t r = d >= mx ? (int64_t)mask64(w - 1) : d <= -mx ? (int64_t)(1ull << (w - 1)) : (int64_t)d; R[I.dst] = {(u64)r & mask64(w), nullptr}; }
      else { double mx = std::ldexp(1.0, w); u64 r = d >= mx ? mask64(w) : d <= 0 ? 0 : (u64)d; R[I.dst] = {r & mask64(w), nullptr}; }
      break; }
    case N_FABS: R[I.dst] = binop(s, OAnd, GET(I.a), {w == 64 ? ~(1ull << 63) : 0x7fffffffull, nullptr}, w); break;
    case N_OBJSIZE: R[I.dst] = {mask64(w), nullptr}; break;
    default: fail(E_UNSUP, "intrinsic");
  }
  return {0, nullptr};
}
// Returns true when the call is finished (the caller then advances the pc).
static bool callHandler(State &s, Fn *fn, CallInfo *ci, Val *R, const Val *C, int dst) {
  std::vector<Val> a;
  for (auto &A : ci->args) for (int j = 0; j < A.n; j++) a.push_back(A.op < 0 ? C[~A.op + j] : R[A.op + j]);
  auto ret = [&](u64 v) { if (dst >= 0) R[dst] = {v, nullptr}; };
  auto allocOk = [&](u64 n) { return n <= cfg.maxAlloc; };
  switch (fn->handler - 100) {
    case H_MALLOC: { u64 n = conc(s, a[0], 64); ret(allocOk(n) ? heapAlloc(s, n) : 0); return true; }
    case H_CALLOC: { u64 x = conc(s, a[0], 64), y = conc(s, a[1], 64); u128 n = (u128)x * y; ret(n <= cfg.maxAlloc ? heapAlloc(s, (u64)n) : 0); return true; }
    case H_REALLOC: { u64 p = conc(s, a[0], 64), n = conc(s, a[1], 64); if (!allocOk(n)) { ret(0); return true; } u64 q = heapAlloc(s, n); if (p) { u64 off; Obj *o = rd(s, p, 0, off); u64 k = std::min(n, o->size); if (k) copyMem(s, q, p, k); heapFree(s, p); } ret(q); return true; }
    case H_FREE: { u64 p = conc(s, a[0], 64); heapFree(s, p); return true; }
    case H_MEMALIGN: {
      if (fn->name == "aligned_alloc") { u64 n = conc(s, a[1], 64); ret(allocOk(n) ? heapAlloc(s, n) : 0); return true; }
      u64 n = conc(s, a[2], 64); if (!allocOk(n)) { ret(12); return true; } u64 pp = conc(s, a[0], 64); u64 q = heapAlloc(s, n); storeMem(s, pp, {q, nullptr}, 64); ret(0); return true; }
    case H_MEMCMP: case H_BCMP: {
      u64 n = conc(s, a[2], 64), p = conc(s, a[0], 64), q = conc(s, a[1], 64); bool b = fn->handler - 100 == H_BCMP;
      Expr *r = mkConst(0, 32);
      for (u64 i = n; i-- > 0;) {
        Val x = loadMem(s, p + i, 8), y = loadMem(s, q + i, 8);
        if (!x.e && !y.e) { if (x.v != y.v) r = mkConst(b ? 1 : x.v < y.v ? (u64)-1 : 1, 32); continue; }
        Expr *ex = EX(x, 8), *ey = EX(y, 8);
        r = mkIte(mkBin(OEq, ex, ey), r, b ? mkConst(1, 32) : mkIte(mkBin(OUlt, ex, ey), mkConst((u64)-1, 32), mkConst(1, 32)));
      }
      if (dst >= 0) R[dst] = VL(r);
      return true; }
    case H_STRLEN: { u64 p = conc(s, a[0], 64), n = 0; for (;;) { Val v = loadMem(s, p + n, 8); u64 b = conc(s, v, 8); if (!b) break; n++; } ret(n); return true; }
    case H_MEMCHR: case H_MEMRCHR: {
      u64 p = conc(s, a[0], 64), n = conc(s, a[2], 64); Val c = a[1]; c = c.e ? VL(mkExtract(c.e, 0, 8)) : Val{c.v & 0xff, nullptr};
      bool rev = fn->handler - 100 == H_MEMRCHR;
      for (u64 k = 0; k < n; k++) { u64 i = rev ? n - 1 - k : k; Val e = icmp(P_EQ, loadMem(s, p + i, 8), c, 8); bool v = e.e ? decide(s, e.e) : e.v; if (v) { ret(p + i); return true; } }
      ret(0); return true; }
    case H_MEMCPYF: { u64 n = conc(s, a[2], 64), d = conc(s, a[0], 64), q = conc(s, a[1], 64); copyMem(s, d, q, n); ret(d); return true; }
    case H_ZERO: for (int k = 0; k < ci->retSlots; k++) R[dst + k] = {0, nullptr}; return true;
    case H_WRITE: {
      if (fn->name == "write") { R[dst] = a[2]; return true; }
      u64 p = conc(s, a[1], 64), n = conc(s, a[2], 32), sum = 0; for (u64 i = 0; i < n; i++) sum += conc(s, loadMem(s, p + 16 * i + 8, 64), 64);
      ret(sum); return true; }
    case H_TWOCONST: for (int k = 0; k < ci->retSlots; k++) R[dst + k] = {0x243f6a8885a308d3ull + k, nullptr}; 
      if (!ci->retSlots && a.size()) { u64 p = conc(s, a[0], 64); storeMem(s, p, {0x243f6a8885a308d3ull, nullptr}, 64); storeMem(s, p + 8, {0x13198a2e03707344ull, nullptr}, 64); }
      return true;
    case H_PANIC: fail(E_PANIC, panicMsg(s, fn, a));
    case H_ABORT: fail(E_PANIC, "abort");
    case H_EXIT: fail(E_EXIT, "exit called");
    case H_ERRNO: { static GObj *g = nullptr; if (!g) { g = new GObj{"errno", 8, false, false, {}, true, nullptr, 0, 0}; g->init.assign(8, 0); g->mutIdx = P.mut.size(); P.mut.push_back(g); P.globals.push_back(g); g->id = P.globals.size(); } ret((u64)g->id << 24); return true; }
    case H_CLOCK: { u64 p = conc(s, a[1], 64); storeMem(s, p, {s.clock++, nullptr}, 64); storeMem(s, p + 8, {0, nullptr}, 64); ret(0); return true; }
    case H_SYSCALL: {
      u64 nr = conc(s, a[0], 64);
      if (nr == 318) {  // the keys of std's maps: constants, varied by the parameter "hash" (the same ones in rt.c and imp.rs)
        u64 h = 0; for (auto &x : cfg.params) if (x.first == "hash") h = x.second;
        u64 p = conc(s, a[1], 64), n = conc(s, a[2], 64); for (u64 i = 0; i < n; i++) storeMem(s, p + i, {(i * 37 + 11 + h * (i * 29 + 101)) & 0xff, nullptr}, 8); ret(n); return true; }
      if (nr == 202) {
        u64 p = conc(s, a[1], 64), op = conc(s, a[2], 64) & 0x7f, val = conc(s, a[3], 32) & 0xffffffff;
        if (op == 0 || op == 9) {
          Val v = loadMem(s, p, 32);
          if (v.e) fail(E_UNSUP, "symbolic futex word");
          if (v.v != val) { ret((u64)-1); return true; }
          // block; the call completes (pc advanced) when woken
          s.threads[s.cur].st = T_FUTEX; s.threads[s.cur].blockAddr = p; if (dst >= 0) R[dst] = {0, nullptr};
          s.threads[s.cur].frames.back().pc++;
          switchAway(s); return false;
        }
        if (op == 1 || op == 10) { u64 n = 0; for (auto &T : s.threads) if (T.st == T_FUTEX && T.blockAddr == p && n < val) { T.st = T_RUN; n++; } ret(n); return true; }
      }
      if (nr == 186) { ret(1); return true; }
      fail(E_UNSUP, "syscall " + std::to_string(nr)); }
    case H_SYMBYTES: {
      u64 p = conc(s, a[0], 64), n = conc(s, a[1], 64);
      auto m = std::make_shared<Model>(*s.pc.model); m->v.resize(s.nvars + n);
      s.pc.model = m;
      for (u64 i = 0; i < n; i++) storeMem(s, p + i, {0, mkVar(s.nvars++)}, 8);
      return true; }
    case H_SYMASSUME: {
      Val c = a[0]; if (c.e && c.e->w > 1) c = VL(mkExtract(c.e, 0, 1));
      if (!c.e) { if (!(c.v & 1)) fail(E_ASSUME, ""); return true; }
      ModelP m; if (feas(s, c.e, &m) == UNSAT) fail(E_ASSUME, "");
      assume(s, c.e, m); return true; }
    case H_SYMASSERT: {
      Val c = a[0]; if (c.e && c.e->w > 1) c = VL(mkExtract(c.e, 0, 1));
      std::string msg = a.size() >= 3 && !a[1].e && !a[2].e ? readStr(s, a[1].v, a[2].v) : "";
      nAsserts++;
      if (!c.e) { if (!(c.v & 1)) { report(s, "assert", msg, *s.pc.model); fail(E_ASSUME, ""); } return true; }
      nAssertSolver++;
      ModelP m; if (feas(s, mkNot(c.e), &m) == SAT) { report(s, "assert", msg, *m); }
      if (feas(s, c.e, &m) == UNSAT) fail(E_ASSUME, "");
      assume(s, c.e, m); return true; }
    case H_OBSERVE: { u64 p = conc(s, a[0], 64), n = conc(s, a[1], 64); for (u64 i = 0; i < n; i++) s.obs.push_back(loadMem(s, p + i, 8)); return true; }
    case H_REACH: { u64 k = conc(s, a[0], 32); s.reach |= 1u << (k & 31); return true; }
    case H_EXPECTPANIC: { u64 v = conc(s, a[0], 1); s.expectPanic = v & 1; return true; }
    case H_KNOWN: { u64 p = conc(s, a[0], 64), n = conc(s, a[1], 64); s.knownTag = readStr(s, p, n); return true; }
    case H_PARAM: { u64 p = conc(s, a[0], 64), n = conc(s, a[1], 64); std::string k = readStr(s, p, n); u64 r = a.size() > 2 ? a[2].v : 0; for (auto &x : cfg.params) if (x.first == k) r = x.second; ret(r); return true; }
    case H_CONC: { u64 v = conc(s, a[0], 64); ret(v); return true; }
    case H_FORCE: { bool v = a[0].e ? decide(s, mkExtract(a[0].e, 0, 1)) : a[0].v & 1; ret(v); return true; }
    case H_ISSYM: ret(a[0].e != nullptr); return true;
    case H_PRINT: fprintf(stderr, "print: %s\n", readStr(s, conc(s, a[0], 64), conc(s, a[1], 64)).c_str()); return true;
    case H_SPAWN: {
      u64 p = conc(s, a[0], 64); Val arg = a[1];
      if (p < FUNC_BASE) fail(E_UNSUP, "spawn of a non-function");
      Fn *callee = P.fns[(p - FUNC_BASE) / 16];
      u32 tid = s.threads.size(); if (tid > 8) fail(E_UNSUP, "too many threads");
      ret(tid);
      s.threads.reserve(9);
      s.threads.emplace_back();
      pushFrame(s, s.threads[tid], callee, -1);
      s.threads[tid].regs[0] = arg;
      return true; }
    case H_JOIN: {
      u64 t = conc(s, a[0], 32); if (t >= s.threads.size()) fail(E_UNSUP, "join");
      if (s.threads[t].st == T_DONE) return true;
      s.threads[s.cur].st = T_JOIN; s.threads[s.cur].joinTid = t; switchAway(s); return false; }
    case H_WAIT: {
      u64 p = conc(s, a[0], 64); Val v = loadMem(s, p, 8);
      if (v.e || v.v) return true;
      s.threads[s.cur].st = T_WAIT; s.threads[s.cur].blockAddr = p; switchAway(s); return false; }
    case H_YIELD: {
      ret(0);
      if (s.threads.size() < 2) return true;
      // a yielding thread lets another one go on, if any can
      std::vector<u32> c; for (u32 t = 0; t < s.threads.size(); t++) if (t != s.cur && runnable(s, t)) c.push_back(t);
      if (c.empty()) return true;
      s.threads[s.cur].frames.back().pc++; yields(s); chooseThread(s, c, false); return false; }
  }
  fail(E_UNSUP, "handler for " + fn->name);
}
// ---------- driver ----------
static void printStats(const char *tag) {
  fprintf(outF, "{\"t\":\"stats\",\"tag\":\"%s\"", tag);
  for (int i = 0; i <= E_EXIT; i++) fprintf(outF, ",\"paths_%s\":%lu", endName[i], nPaths[i]);
  fprintf(outF, ",\"steps\":%lu,\"forks\":%lu,\"asserts\":%lu,\"asserts_symbolic\":%lu,\"z3_queries\":%lu,\"z3_sat\":%lu,\"z3_unsat\":%lu,\"z3_unknown\":%lu,\"table_queries\":%lu,\"cache_hits\":%lu,\"model_hits\":%lu,\"table_confirmed\":%lu,\"z3_time_ms\":%lu,\"z3_max_ms\":%lu,\"exprs\":%lu,\"left\":%lu}\n",
    totalSteps, totalForks, nAsserts, nAssertSolver, g_sol.z3_queries, g_sol.z3_sat, g_sol.z3_unsat, g_sol.z3_unknown, g_sol.table_queries, g_sol.cache_hits, g_sol.model_hits, g_sol.table_confirmed, (u64)(g_sol.z3_time * 1000), (u64)(g_sol.z3_max * 1000), g_nexprs, (u64)work.size());
  for (auto &p : reachCount) fprintf(outF, "{\"t\":\"reach\",\"id\":\"%s\",\"n\":%lu}\n", p.first.c_str(), p.second);
  for (auto &p : knownCount) fprintf(outF, "{\"t\":\"known\",\"id\":\"%s\",\"n\":%lu}\n", jesc(p.first).c_str(), p.second);
  std::map<std::string, std::set<u32>> lines; std::set<std::string> funcs;
  for (Fn *f : P.fns) { bool any = false; for (Inst &I : f->code) if (I.hit) { any = true; if (I.loc) { Loc &l = P.locs[I.loc]; if (l.file.find("/crates/") != std::string::npos && l.file.find("/registry/") == std::string::npos) { lines[l.file].insert(l.line); funcs.insert(l.func); } } } (void)any; }
  for (auto &p : lines) { fprintf(outF, "{\"t\":\"cov\",\"file\":\"%s\",\"lines\":[", jesc(p.first).c_str()); bool first = true; for (u32 l : p.second) { fprintf(outF, first ? "%u" : ",%u", l); first = false; } fprintf(outF, "]}\n"); }
  for (auto &n : funcs) fprintf(outF, "{\"t\":\"fn\",\"name\":\"%s\"}\n", jesc(n).c_str());
  fflush(outF);
}
int main(int argc, char **argv) {
  // deep recursion over expressions: make sure of a large stack
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 29) && !getenv("SYMEX_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<u64>(1ull << 30, rl.rlim_max); if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("SYMEX_STACK", "1", 1); execv("/proc/self/exe", argv); } }
  std::string mod, entry, out = "-"; int jobs = 1; u32 split = 256;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--module") mod = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "-j") jobs = atoi(nx().c_str());
    else if (a == "--max-steps") cfg.maxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-depth") cfg.maxDepth = atoi(nx().c_str()); else if (a == "--preempt") cfg.maxPreempt = atoi(nx().c_str());
    else if (a == "--max-alloc") cfg.maxAlloc = strtoull(nx().c_str(), 0, 10); else if (a == "--samples") cfg.maxSamples = atoi(nx().c_str()); else if (a == "--max-secs") cfg.maxSecs = atof(nx().c_str()); else if (a == "--grace") cfg.graceSecs = atof(nx().c_str()); else if (a == "--split") split = atoi(nx().c_str());
    else if (a == "--z3-timeout") g_z3_timeout_ms = atoi(nx().c_str()); else if (a == "--seed") rng = strtoull(nx().c_str(), 0, 10) * 2 + 1;
    else if (a == "--param") { std::string p = nx(); auto q = p.find('='); cfg.params.push_back({p.substr(0, q), strtoull(p.c_str() + q + 1, 0, 10)}); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  t0 = now();
  solverInit();
  if (!loadModule(mod.c_str())) return 2;
  outF = out == "-" ? stdout : fopen(out.c_str(), "w");
  auto it = P.byName.find(entry);
  if (it == P.byName.end() || it->second->declared) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  { struct rlimit m; m.rlim_cur = m.rlim_max = 10ull << 30; setrlimit(RLIMIT_AS, &m); }
  stopAt = (double *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  State *s = new State; s->threads.reserve(9); s->threads.emplace_back(); s->pc.model = std::make_shared<Model>();
  pushFrame(*s, s->threads[0], it->second, -1);
  work.push_back(s);
  auto over = [&]() { return now() - t0 > cfg.maxSecs || stopNow(); };
  if (jobs <= 1) {
    while (!work.empty() && !over()) { State *x = work.back(); work.pop_back(); run(x); }
    printStats("main");
  } else {
    while (!work.empty() && work.size() < split && !over()) { State *x = work.front(); work.pop_front(); run(x); }
    std::vector<State *> init(work.begin(), work.end()); work.clear();
    // shared counter
    u64 *ctr = (u64 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    printStats("main");
    if (!init.empty()) {
      // forget the parent's counters in the children
      std::vector<pid_t> kids;
      for (int w = 0; w < jobs; w++) {
        pid_t p = fork();
        if (p == 0) {
          { struct rlimit m; m.rlim_cur = m.rlim_max = 7ull << 29; setrlimit(RLIMIT_AS, &m); }
          if (outF != stdout) outF = fopen((out + "." + std::to_string(w)).c_str(), "w");
          memset(nPaths, 0, sizeof nPaths); totalSteps = totalForks = nAsserts = nAssertSolver = 0; g_sol = SolverStats(); reachCount.clear(); knownCount.clear(); nSamples = 0; rng += w * 2; cfg.maxSamples = std::max<u32>(2, cfg.maxSamples / jobs);
          for (;;) {
            u64 i = __atomic_fetch_add(ctr, 1, __ATOMIC_SEQ_CST);
            if (i >= init.size()) break;
            work.push_back(init[i]);
            while (!work.empty() && !over()) { State *x = work.back(); work.pop_back(); run(x); }
            if (over()) { work.push_back(nullptr); break; }
          }
          printStats("worker"); fclose(outF); _exit(0);
        }
        kids.push_back(p);
      }
      int bad = 0;
      for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
      if (bad) { fprintf(outF, "{\"t\":\"crash\",\"n\":%d}\n", bad); fprintf(stderr, "%d workers failed\n", bad); }
    }
    fprintf(outF, "{\"t\":\"done\"}\n");
  }
  fclose(outF);
  if (qprof) qprofDump();
  return 0;
}
