#include "solver.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <unistd.h>
#include <cstring>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <set>

SolverStats g_sol;
unsigned g_z3_timeout_ms = 60000;
static Z3_context ctx;
static Z3_solver slv;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_z3_timeout_ms);
  Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
}
static Z3_ast b2bv(Z3_ast b) {
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
}
static Z3_ast constAst(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
  return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64)), Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64)));
}
static Z3_ast tobool(Expr *e);
static Z3_ast conv(Expr *e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = 0;
  switch (e->op) {
    case OConst: r = constAst(e->val, e->w); break;
    case OVar: { char n[16]; snprintf(n, sizeof n, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, 8)); break; }
    case OAdd: r = Z3_mk_bvadd(ctx, conv(e->a), conv(e->b)); break;
    case OSub: r = Z3_mk_bvsub(ctx, conv(e->a), conv(e->b)); break;
    case OMul: r = Z3_mk_bvmul(ctx, conv(e->a), conv(e->b)); break;
    case OUDiv: r = Z3_mk_bvudiv(ctx, conv(e->a), conv(e->b)); break;
    case OSDiv: r = Z3_mk_bvsdiv(ctx, conv(e->a), conv(e->b)); break;
    case OURem: r = Z3_mk_bvurem(ctx, conv(e->a), conv(e->b)); break;
    case OSRem: r = Z3_mk_bvsrem(ctx, conv(e->a), conv(e->b)); break;
    case OAnd: r = Z3_mk_bvand(ctx, conv(e->a), conv(e->b)); break;
    case OOr: r = Z3_mk_bvor(ctx, conv(e->a), conv(e->b)); break;
    case OXor: if (e->w == 1 && isConst(e->b) && e->b->val) r = Z3_mk_bvnot(ctx, conv(e->a)); else r = Z3_mk_bvxor(ctx, conv(e->a), conv(e->b)); break;
    case OShl: r = Z3_mk_bvshl(ctx, conv(e->a), conv(e->b)); break;
    case OLShr: r = Z3_mk_bvlshr(ctx, conv(e->a), conv(e->b)); break;
    case OAShr: r = Z3_mk_bvashr(ctx, conv(e->a), conv(e->b)); break;
    case OEq: case OUlt: case OSlt: r = b2bv(tobool(e)); break;
    case OConcat: r = Z3_mk_concat(ctx, conv(e->a), conv(e->b)); break;
    case OExtract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, conv(e->a)); break;
    case OZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, conv(e->a)); break;
    case OSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, conv(e->a)); break;
    case OIte: r = Z3_mk_ite(ctx, tobool(e->a), conv(e->b), conv(e->c)); break;
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}
static Z3_ast tobool(Expr *e) {
  switch (e->op) {
    case OEq: return Z3_mk_eq(ctx, conv(e->a), conv(e->b));
    case OUlt: return Z3_mk_bvult(ctx, conv(e->a), conv(e->b));
    case OSlt: return Z3_mk_bvslt(ctx, conv(e->a), conv(e->b));
    case OAnd: { Z3_ast x[2] = {tobool(e->a), tobool(e->b)}; return Z3_mk_and(ctx, 2, x); }
    case OOr: { Z3_ast x[2] = {tobool(e->a), tobool(e->b)}; return Z3_mk_or(ctx, 2, x); }
    case OXor: if (isConst(e->b) && e->b->val) return Z3_mk_not(ctx, tobool(e->a)); break;
    case OConst: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    default: break;
  }
  return Z3_mk_eq(ctx, conv(e), constAst(1, 1));
}
// membership of a variable in a domain table, as a Z3 formula over intervals
static std::unordered_map<u64, std::vector<std::pair<int,int>>> dummy;
static Z3_ast domAst(u32 var, const Table *t) {
  Z3_ast v = conv(mkVar(var));
  std::vector<Z3_ast> alts;
  Z3_sort s8 = Z3_mk_bv_sort(ctx, 8);
  for (int i = 0; i < 256;) {
    if (!((t->b[i >> 6] >> (i & 63)) & 1)) { i++; continue; }
    int j = i; while (j + 1 < 256 && ((t->b[(j + 1) >> 6] >> ((j + 1) & 63)) & 1)) j++;
    if (i == j) alts.push_back(Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, i, s8)));
    else { Z3_ast c[2] = {Z3_mk_bvuge(ctx, v, Z3_mk_unsigned_int64(ctx, i, s8)), Z3_mk_bvule(ctx, v, Z3_mk_unsigned_int64(ctx, j, s8))}; alts.push_back(Z3_mk_and(ctx, 2, c)); }
    i = j + 1;
  }
  return Z3_mk_or(ctx, alts.size(), alts.data());
}
static Table fullT{{~0ull, ~0ull, ~0ull, ~0ull}};
static std::map<std::vector<u64>, const Table *> domIntern;
static const Table *internDom(const Table &t) {
  std::vector<u64> k(t.b, t.b + 4);
  auto it = domIntern.find(k);
  if (it != domIntern.end()) return it->second;
  return domIntern[k] = new Table(t);
}
static int tcount(const Table &t) { int n = 0; for (u64 x : t.b) n += __builtin_popcountll(x); return n; }
static int tfirst(const Table &t) { for (int i = 0; i < 4; i++) if (t.b[i]) return i * 64 + __builtin_ctzll(t.b[i]); return -1; }

struct CacheEnt { Res r; std::vector<std::pair<u32, u8>> m; };
static std::unordered_map<std::string, CacheEnt> qcache;

static Res z3check(const PathCond &pc, const std::vector<Expr *> &cs, const std::vector<u32> &vars, Expr *cond, std::vector<std::pair<u32, u8>> &m) {
  std::string key;
  auto put = [&](u64 x) { key.append((char *)&x, 8); };
  std::vector<u64> ids; for (Expr *e : cs) ids.push_back(e->id);
  std::sort(ids.begin(), ids.end());
  for (u64 i : ids) put(i);
  put(cond->id);
  for (u32 v : vars) { const Table *t = v < pc.dom.size() ? pc.dom[v] : nullptr; put((u64)t); }
  auto it = qcache.find(key);
  if (it != qcache.end()) { g_sol.cache_hits++; m = it->second.m; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_push(ctx, slv);
  for (Expr *e : cs) Z3_solver_assert(ctx, slv, tobool(e));
  for (u32 v : vars) { const Table *t = v < pc.dom.size() ? pc.dom[v] : nullptr; if (t) Z3_solver_assert(ctx, slv, domAst(v, t)); }
  Z3_solver_assert(ctx, slv, tobool(cond));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (res == SAT) {
    Z3_model md = Z3_solver_get_model(ctx, slv);
    Z3_model_inc_ref(ctx, md);
    for (u32 v : vars) {
      Z3_ast out; 
      if (!Z3_model_eval(ctx, md, conv(mkVar(v)), true, &out)) { res = UNKNOWN; break; }
      uint64_t x = 0; Z3_get_numeral_uint64(ctx, out, &x);
      m.push_back({v, (u8)x});
    }
    Z3_model_dec_ref(ctx, md);
  }
  Z3_solver_pop(ctx, slv, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sol.z3_queries++; g_sol.z3_time += dt; if (dt > g_sol.z3_max) g_sol.z3_max = dt;
  if (res == SAT) g_sol.z3_sat++; else if (res == UNSAT) g_sol.z3_unsat++; else g_sol.z3_unknown++;
  if (res != UNKNOWN) qcache[key] = {res, m};
  return res;
}
// Every distinct verdict of the per-byte domain tables is confirmed by Z3: `now` holds exactly the
// members of `d` (in the variable v) that satisfy cond.  A disagreement ends the run.
static std::unordered_map<u64, bool> confirmed;
static void confirm(u32 v, const Table *d, Expr *cond, const Table *now) {
  u64 key = cond->id * 0x9e3779b97f4a7c15ull ^ ((u64)d * 0xc2b2ae3d27d4eb4full);
  if (!confirmed.emplace(key, true).second) return;
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_push(ctx, slv);
  Z3_ast lhs[2] = {tobool(cond), domAst(v, d)};
  Z3_solver_assert(ctx, slv, Z3_mk_xor(ctx, Z3_mk_and(ctx, 2, lhs), tcount(*now) ? domAst(v, now) : Z3_mk_false(ctx)));
  Z3_lbool r = Z3_solver_check(ctx, slv);
  Z3_solver_pop(ctx, slv, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sol.z3_queries++; g_sol.z3_time += dt; if (dt > g_sol.z3_max) g_sol.z3_max = dt;
  if (r == Z3_L_TRUE) { fprintf(stderr, "domain table disagrees with z3\n"); _exit(3); }
  if (r == Z3_L_UNDEF) g_sol.z3_unknown++; else g_sol.z3_unsat++, g_sol.table_confirmed++;
}
Res feasible(const PathCond &pc, Expr *cond, ModelP *out) {
  if (isConst(cond)) { if (cond->val && out) *out = pc.model; return cond->val ? SAT : UNSAT; }
  if (evalExpr(cond, *pc.model)) { g_sol.model_hits++; if (out) *out = pc.model; return SAT; }
  // independence slice
  const std::vector<u32> &cv = cond->supp->v;
  std::vector<u32> vars(cv);
  std::vector<Expr *> sl;
  std::vector<char> in(pc.cs.size(), 0);
  std::vector<char> vin;
  auto has = [&](u32 v) { return v < vin.size() && vin[v]; };
  auto addv = [&](u32 v) { if (v >= vin.size()) vin.resize(v + 1); vin[v] = 1; };
  for (u32 v : cv) addv(v);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.cs.size(); i++) {
      if (in[i]) continue;
      bool hit = false;
      for (u32 v : pc.cs[i]->supp->v) if (has(v)) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1; sl.push_back(pc.cs[i]); ch = true;
      for (u32 v : pc.cs[i]->supp->v) if (!has(v)) { addv(v); vars.push_back(v); }
    }
  }
  std::sort(vars.begin(), vars.end());
  if (cv.size() == 1) {
    u32 v = cv[0];
    Table t = *truthTable(cond);
    const Table *d = v < pc.dom.size() && pc.dom[v] ? pc.dom[v] : &fullT;
    for (int i = 0; i < 4; i++) t.b[i] &= d->b[i];
    if (!tcount(t)) { g_sol.table_queries++; confirm(v, d, cond, &t); return UNSAT; }
    if (sl.empty()) {
      g_sol.table_queries++;
      if (out) { auto m = std::make_shared<Model>(*pc.model); if (m->v.size() <= v) m->v.resize(v + 1); m->v[v] = tfirst(t); *out = m; }
      return SAT;
    }
  }
  std::vector<std::pair<u32, u8>> mv;
  Res r = z3check(pc, sl, vars, cond, mv);
  if (r == SAT && out) {
    auto m = std::make_shared<Model>(*pc.model);
    for (auto &p : mv) { if (m->v.size() <= p.first) m->v.resize(p.first + 1); m->v[p.first] = p.second; }
    *out = m;
  }
  return r;
}
void addConstraint(PathCond &pc, Expr *cond) {
  if (isConst(cond)) return;
  if (cond->op == OAnd && cond->w == 1) { addConstraint(pc, cond->a); addConstraint(pc, cond->b); return; }
  if (cond->supp->v.size() == 1) {
    u32 v = cond->supp->v[0];
    Table t = *truthTable(cond);
    if (pc.dom.size() <= v) pc.dom.resize(v + 1);
    const Table *d = pc.dom[v] ? pc.dom[v] : &fullT;
    for (int i = 0; i < 4; i++) t.b[i] &= d->b[i];
    confirm(v, d, cond, &t);
    pc.dom[v] = internDom(t);
    return;
  }
  for (Expr *e : pc.cs) if (e == cond) return;
  pc.cs.push_back(cond);
}
