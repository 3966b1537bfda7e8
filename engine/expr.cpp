#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <unordered_map>
#include <map>
#include <algorithm>

u64 g_nexprs = 0;
static std::vector<Expr *> tab(1 << 16);
static u64 tabCount = 0;

static Supp *emptySupp() { static Supp s{{}, 0}; return &s; }
static std::map<std::vector<u32>, Supp *> suppIntern;
static std::unordered_map<u64, Supp *> suppUnionCache;
static u32 nextSupp = 1;
static Supp *internSupp(const std::vector<u32> &v) {
  if (v.empty()) return emptySupp();
  auto it = suppIntern.find(v);
  if (it != suppIntern.end()) return it->second;
  Supp *s = new Supp{v, nextSupp++};
  suppIntern[v] = s;
  return s;
}
static Supp *unionSupp(Supp *a, Supp *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  u64 key = ((u64)a->id << 32) | b->id;
  auto it = suppUnionCache.find(key);
  if (it != suppUnionCache.end()) return it->second;
  std::vector<u32> v;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
  Supp *s = internSupp(v);
  suppUnionCache[key] = s;
  return s;
}

static inline u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static u64 hashNode(Op op, unsigned w, u32 aux, Expr *a, Expr *b, Expr *c, u128 val) {
  u64 h = op * 131 + w;
  h = hmix(h, aux); h = hmix(h, (u64)a); h = hmix(h, (u64)b); h = hmix(h, (u64)c);
  h = hmix(h, (u64)val); h = hmix(h, (u64)(val >> 64));
  return h ^ (h >> 29);
}
static Expr *arena = nullptr; static size_t arenaLeft = 0;
static Expr *allocExpr() {
  if (!arenaLeft) { arenaLeft = 4096; arena = (Expr *)aligned_alloc(64, ((sizeof(Expr) * arenaLeft + 63) / 64) * 64); }
  arenaLeft--; return arena++;
}
static void computeRange(Expr *e) {
  u128 m = maskw(e->w); e->lo = 0; e->hi = m;
  switch (e->op) {
    case OConst: e->lo = e->hi = e->val; break;
    case OZExt: e->lo = e->a->lo; e->hi = e->a->hi; break;
    case OSExt: if (e->a->hi < ((u128)1 << (e->a->w - 1))) { e->lo = e->a->lo; e->hi = e->a->hi; } break;
    case OAdd: { u128 l = e->a->lo + e->b->lo, h = e->a->hi + e->b->hi;
      if (e->w < 128 && h <= m) { e->lo = l; e->hi = h; }
      else if (e->w < 128 && l > m) { e->lo = l & m; e->hi = h & m; } break; }
    case OSub: if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; } break;
    case OMul: if (e->a->hi < ((u128)1 << 62) && e->b->hi < ((u128)1 << 62)) { u128 h = e->a->hi * e->b->hi; if (h <= m) { e->lo = e->a->lo * e->b->lo; e->hi = h; } } break;
    case OAnd: e->hi = std::min(e->a->hi, e->b->hi); break;
    case OOr: { u128 x = e->a->hi | e->b->hi; unsigned n = 0; while (n < 128 && (x >> n)) n++; e->hi = maskw(n) & m; e->lo = std::max(e->a->lo, e->b->lo); break; }
    case OXor: { u128 x = e->a->hi | e->b->hi; unsigned n = 0; while (n < 128 && (x >> n)) n++; e->hi = maskw(n) & m; break; }
    case OUDiv: if (e->b->lo > 0) { e->lo = e->a->lo / e->b->hi; e->hi = e->a->hi / e->b->lo; } break;
    case OURem: if (e->b->lo > 0) { e->hi = std::min(e->a->hi, e->b->hi - 1); } break;
    case OIte: e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); break;
    case OConcat: e->lo = (e->a->lo << e->b->w) | (e->a->lo == e->a->hi ? e->b->lo : 0); e->hi = (e->a->hi << e->b->w) | (e->a->lo == e->a->hi ? e->b->hi : maskw(e->b->w)); break;
    case OExtract: if (e->aux == 0 && e->a->hi <= m) { e->lo = e->a->lo; e->hi = e->a->hi; }
      else if (e->aux + e->w == e->a->w) { e->lo = e->a->lo >> e->aux; e->hi = e->a->hi >> e->aux; } break;
    default: break;
  }
}
static Expr *mk(Op op, unsigned w, u32 aux, Expr *a, Expr *b, Expr *c, u128 val) {
  u64 h = hashNode(op, w, aux, a, b, c, val);
  u64 i = h & (tab.size() - 1);
  for (Expr *e = tab[i]; e; e = e->next)
    if (e->op == op && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->val == val) return e;
  if (tabCount > tab.size()) {
    std::vector<Expr *> nt(tab.size() * 4);
    for (Expr *e : tab) while (e) { Expr *n = e->next; u64 j = hashNode(e->op, e->w, e->aux, e->a, e->b, e->c, e->val) & (nt.size() - 1); e->next = nt[j]; nt[j] = e; e = n; }
    tab.swap(nt); i = h & (tab.size() - 1);
  }
  Expr *e = allocExpr(); memset((void *)e, 0, sizeof *e);
  e->op = op; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val; e->id = ++g_nexprs;
  Supp *s = emptySupp();
  if (op == OVar) s = internSupp({aux});
  else { if (a) s = unionSupp(s, a->supp); if (b) s = unionSupp(s, b->supp); if (c) s = unionSupp(s, c->supp); }
  e->supp = s;
  e->ctree = op == OConst || (op == OIte && b->ctree && c->ctree);
  computeRange(e);
  e->next = tab[i]; tab[i] = e; tabCount++;
  return e;
}
Expr *mkConst(u128 v, unsigned w) { return mk(OConst, w, 0, 0, 0, 0, v & maskw(w)); }
Expr *mkVar(u32 idx) { return mk(OVar, 8, idx, 0, 0, 0, 0); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
    case OUDiv: return b ? a / b : m; case OURem: return b ? a % b : a;
    case OSDiv: { if (!b) return (sext128(a, w) < 0) ? 1 : m; i128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return (-(u128)x) & m; return (u128)(x / y) & m; }
    case OSRem: { if (!b) return a; i128 x = sext128(a, w), y = sext128(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
    case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << (unsigned)b) & m; case OLShr: return b >= w ? 0 : a >> (unsigned)b;
    case OAShr: { i128 x = sext128(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & m; }
    case OEq: return a == b; case OUlt: return a < b; case OSlt: return sext128(a, w) < sext128(b, w);
    default: abort();
  }
}
Expr *mkNot(Expr *a) {
  return mkBin(OXor, a, mkConst(~(u128)0, a->w));
}
static bool isNotOf(Expr *n, Expr *x) { return n->op == OXor && n->a == x && isConst(n->b) && n->b->val == maskw(n->w); }

static unsigned ctreeSize(Expr *e) { return e->op == OIte ? ctreeSize(e->b) + ctreeSize(e->c) : 1; }
static Expr *mapTree(Op op, Expr *t, Expr *k, bool left) {  // op(leaf,k) over a tree of constants
  if (t->op == OConst) return left ? mkBin(op, t, k) : mkBin(op, k, t);
  return mkIte(t->a, mapTree(op, t->b, k, left), mapTree(op, t->c, k, left));
}
static Expr *mkEq(Expr *a, Expr *b) {
  if (a == b) return mkConst(1, 1);
  if (isConst(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isConst(b)) {
    u128 k = b->val;
    if (isConst(a)) return mkConst(a->val == k, 1);
    if (k < a->lo || k > a->hi) return mkConst(0, 1);
    if (w == 1) return k ? a : mkNot(a);
    if (a->op == OZExt) { if (k > maskw(a->a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(k, a->a->w)); }
    if (a->op == OSExt) { u128 lowk = k & maskw(a->a->w); if (((u128)sext128(lowk, a->a->w) & maskw(w)) != k) return mkConst(0, 1); return mkEq(a->a, mkConst(lowk, a->a->w)); }
    if (a->op == OConcat) return mkBin(OAnd, mkEq(a->a, mkConst(k >> a->b->w, a->a->w)), mkEq(a->b, mkConst(k, a->b->w)));
    if (a->op == OAdd && isConst(a->b)) return mkEq(a->a, mkConst(k - a->b->val, w));
    if (a->op == OSub && isConst(a->a)) return mkEq(a->b, mkConst(a->a->val - k, w));
    if (a->op == OXor && isConst(a->b)) return mkEq(a->a, mkConst(k ^ a->b->val, w));
    if (a->op == OIte) {
      if (a->ctree && ctreeSize(a) <= 256) return mapTree(OEq, a, b, true);
      if (isConst(a->b)) { if (a->b->val == k) return mkBin(OOr, a->a, mkEq(a->c, b)); return mkBin(OAnd, mkNot(a->a), mkEq(a->c, b)); }
      if (isConst(a->c)) { if (a->c->val == k) return mkBin(OOr, mkNot(a->a), mkEq(a->b, b)); return mkBin(OAnd, a->a, mkEq(a->b, b)); }
    }
  } else {
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(OEq, 1, 0, a, b, 0, 0);
}
static Expr *mkUlt(Expr *a, Expr *b) {
  if (a == b) return mkConst(0, 1);
  if (a->hi < b->lo) return mkConst(1, 1);
  if (a->lo >= b->hi) return mkConst(0, 1);
  if (a->op == OZExt && b->op == OZExt) {
    unsigned w = std::max(a->a->w, b->a->w);
    if (w < a->w) return mkUlt(mkZExt(a->a, w), mkZExt(b->a, w));
  }
  if (a->op == OZExt && isConst(b) && b->val <= maskw(a->a->w)) return mkUlt(a->a, mkConst(b->val, a->a->w));
  if (b->op == OZExt && isConst(a) && a->val <= maskw(b->a->w)) return mkUlt(mkConst(a->val, b->a->w), b->a);
  if (a->w == 1) return mkBin(OAnd, mkNot(a), b);
  if (isConst(b) && b->val == 1) return mkEq(a, mkConst(0, a->w));
  if (isConst(a) && a->val == 0) return mkNot(mkEq(b, mkConst(0, b->w)));
  if (isConst(b) && b->val == a->lo + 1) return mkEq(a, mkConst(a->lo, a->w));
  if (isConst(b) && b->val == a->hi) return mkNot(mkEq(a, b));
  if (isConst(a) && a->val == b->lo) return mkNot(mkEq(b, a));
  if (isConst(b) && a->ctree && ctreeSize(a) <= 64) return mapTree(OUlt, a, b, true);
  if (isConst(a) && b->ctree && ctreeSize(b) <= 64) return mapTree(OUlt, b, a, false);
  return mk(OUlt, 1, 0, a, b, 0, 0);
}
static Expr *mkSlt(Expr *a, Expr *b) {
  if (a == b) return mkConst(0, 1);
  unsigned w = a->w; u128 sb = (u128)1 << (w - 1);
  bool an = a->hi < sb, bn = b->hi < sb, ag = a->lo >= sb, bg = b->lo >= sb;
  if ((an && bn) || (ag && bg)) return mkUlt(a, b);
  if (an && bg) return mkConst(0, 1);
  if (ag && bn) return mkConst(1, 1);
  if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  if (isConst(b) && b->val == 0) return mkExtract(a, w - 1, 1);
  if (isConst(a) && a->val == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
  if (a->op == OSExt && isConst(b)) { u128 lk = b->val & maskw(a->a->w); if (((u128)sext128(lk, a->a->w) & maskw(w)) == b->val) return mkSlt(a->a, mkConst(lk, a->a->w)); }
  return mk(OSlt, 1, 0, a, b, 0, 0);
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u vs %u\n", op, a->w, b->w); abort(); }
  if (op == OEq) return mkEq(a, b);
  if (isConst(a) && isConst(b)) return mkConst(foldBin(op, a->val, b->val, w), (op == OUlt || op == OSlt) ? 1 : w);
  if (op == OUlt) return mkUlt(a, b);
  if (op == OSlt) return mkSlt(a, b);
  u128 m = maskw(w);
  bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor;
  if (comm && (isConst(a) || (!isConst(b) && a->id > b->id))) std::swap(a, b);
  if (isConst(b) && a->op == OIte && a->ctree && ctreeSize(a) <= 16) return mapTree(op, a, b, true);
  if (isConst(a) && b->op == OIte && b->ctree && ctreeSize(b) <= 16) return mapTree(op, b, a, false);
  switch (op) {
    case OAdd:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (a->op == OAdd && isConst(a->b)) return mkBin(OAdd, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == OSub && isConst(a->a)) return mkBin(OSub, mkConst(a->a->val + b->val, w), a->b);
      }
      if (a->op == OSub && a->b == b) return a->a;
      if (b->op == OSub && b->b == a) return b->a;
      if (w == 1) return mkBin(OXor, a, b);
      if (a->op == OAdd && isConst(a->b) && !isConst(b)) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
      if (b->op == OAdd && isConst(b->b)) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
      break;
    case OSub:
      if (isConst(b)) return mkBin(OAdd, a, mkConst(-b->val, w));
      if (a == b) return mkConst(0, w);
      if (a->op == OAdd && a->a == b) return a->b;
      if (a->op == OAdd && a->b == b) return a->a;
      if (b->op == OAdd && b->a == a) return mkBin(OSub, mkConst(0, w), b->b);
      if (b->op == OAdd && b->b == a) return mkBin(OSub, mkConst(0, w), b->a);
      if (b->op == OAdd && isConst(b->b)) return mkBin(OAdd, mkBin(OSub, a, b->a), mkConst(-b->b->val, w));
      if (a->op == OAdd && isConst(a->b)) return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OMul:
      if (isConst(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if (!(b->val & (b->val - 1))) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mkBin(OShl, a, mkConst(k, w)); }
      }
      break;
    case OUDiv:
      if (isConst(b) && b->val && !(b->val & (b->val - 1))) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mkBin(OLShr, a, mkConst(k, w)); }
      if (a->hi < b->lo) return mkConst(0, w);
      break;
    case OURem:
      if (isConst(b) && b->val && !(b->val & (b->val - 1))) return mkBin(OAnd, a, mkConst(b->val - 1, w));
      if (a->hi < b->lo) return a;
      break;
    case OAnd:
      if (a == b) return a;
      if (isConst(b)) {
        if (b->val == 0) return b;
        if (b->val == m) return a;
        if (a->op == OAnd && isConst(a->b)) return mkBin(OAnd, a->a, mkConst(a->b->val & b->val, w));
        if (!(b->val & (b->val + 1))) {  // low mask
          if (a->hi <= b->val) return a;
          unsigned k = 0; while ((b->val >> k) & 1) k++;
          return mkZExt(mkExtract(a, 0, k), w);
        }
        if (a->op == OZExt) return mkZExt(mkBin(OAnd, a->a, mkConst(b->val, a->a->w)), w);
      }
      if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkConst(0, 1);
      if (w == 1 && b->op == OAnd && (b->a == a || b->b == a)) return b;
      if (w == 1 && a->op == OAnd && (a->a == b || a->b == b)) return a;
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkZExt(mkBin(OAnd, a->a, b->a), w);
      break;
    case OOr:
      if (a == b) return a;
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val == m) return b;
        if (a->op == OOr && isConst(a->b)) return mkBin(OOr, a->a, mkConst(a->b->val | b->val, w));
      }
      if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkConst(1, 1);
      if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkZExt(mkBin(OOr, a->a, b->a), w);
      for (int s = 0; s < 2; s++) {
        Expr *x = s ? b : a, *y = s ? a : b;
        if (x->op == OConcat && isConst(x->b) && x->b->val == 0 && y->hi <= maskw(x->b->w)) return mkConcat(x->a, mkExtract(y, 0, x->b->w));
        if (x->op == OZExt && x->a->op == OConcat && isConst(x->a->b) && x->a->b->val == 0 && y->hi <= maskw(x->a->b->w)) return mkZExt(mkConcat(x->a->a, mkExtract(y, 0, x->a->b->w)), w);
      }
      break;
    case OXor:
      if (a == b) return mkConst(0, w);
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (a->op == OXor && isConst(a->b)) return mkBin(OXor, a->a, mkConst(a->b->val ^ b->val, w));
        if (a->op == OZExt && b->val <= maskw(a->a->w)) return mkZExt(mkBin(OXor, a->a, mkConst(b->val, a->a->w)), w);
      }
      break;
    case OShl:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
      }
      break;
    case OLShr:
      if (isConst(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->val;
        return mkZExt(mkExtract(a, k, w - k), w);
      }
      break;
    case OAShr:
      if (isConst(b)) {
        if (b->val == 0) return a;
        unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSExt(mkExtract(a, k, w - k), w);
      }
      break;
    default: break;
  }
  return mk(op, w, 0, a, b, 0, 0);
}
static Expr *extract1(Expr *e, unsigned lo, unsigned w);
struct ExKey { Expr *e; u32 k; bool operator==(const ExKey &o) const { return e == o.e && k == o.k; } };
struct ExHash { size_t operator()(const ExKey &x) const { return ((size_t)x.e >> 4) * 0x9e3779b97f4a7c15ull ^ x.k * 0xc2b2ae3d27d4eb4full; } };
static std::unordered_map<ExKey, Expr *, ExHash> exMemo;
Expr *mkExtract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (lo + w > e->w) { fprintf(stderr, "bad extract\n"); abort(); }
  if (isConst(e)) return mkConst(e->val >> lo, w);
  if (e->op == OVar) return extract1(e, lo, w);
  // shared sub-expressions: visit each once
  ExKey k{e, lo << 16 | w};
  auto it = exMemo.find(k);
  if (it != exMemo.end()) return it->second;
  Expr *r = extract1(e, lo, w);
  exMemo[k] = r;
  return r;
}
static Expr *extract1(Expr *e, unsigned lo, unsigned w) {
  switch (e->op) {
    case OExtract: return mkExtract(e->a, e->aux + lo, w);
    case OConcat: {
      unsigned lw = e->b->w;
      if (lo + w <= lw) return mkExtract(e->b, lo, w);
      if (lo >= lw) return mkExtract(e->a, lo - lw, w);
      return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case OZExt: {
      unsigned sw = e->a->w;
      if (lo >= sw) return mkConst(0, w);
      if (lo + w <= sw) return mkExtract(e->a, lo, w);
      return mkZExt(mkExtract(e->a, lo, sw - lo), w);
    }
    case OSExt: {
      unsigned sw = e->a->w;
      if (lo + w <= sw) return mkExtract(e->a, lo, w);
      if (lo < sw) return mkSExt(mkExtract(e->a, lo, sw - lo), w);
      return mkSExt(mkExtract(e->a, sw - 1, 1), w);
    }
    case OIte: if ((isConst(e->b) || isConst(e->c)) ) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w)); break;
    case OAnd: case OOr: case OXor: return mkBin(e->op, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case OAdd: case OSub: case OMul: if (lo == 0) return mkBin(e->op, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w)); break;
    default: break;
  }
  if (lo > 0 && lo < 128 && (e->hi >> lo) == 0) return mkConst(0, w);
  return mk(OExtract, w, lo, e, 0, 0, 0);
}
Expr *mkConcat(Expr *h, Expr *l) {
  unsigned w = h->w + l->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isConst(h) && isConst(l)) return mkConst((h->val << l->w) | l->val, w);
  if (isConst(h) && h->val == 0) return mkZExt(l, w);
  if (h->op == OZExt) return mkZExt(mkConcat(h->a, l), w);
  if (h->op == OExtract && l->op == OExtract && h->a == l->a && h->aux == l->aux + l->w) return mkExtract(h->a, l->aux, w);
  if (h->op == OExtract && h->aux == l->w && h->a == l) { /* unreachable shape */ }
  if (h->op == OExtract && l->op == OConcat && l->a->op == OExtract && l->a->a == h->a && h->aux == l->a->aux + l->a->w)
    return mkConcat(mkExtract(h->a, l->a->aux, h->w + l->a->w), l->b);
  if (isConst(h) && l->op == OConcat && isConst(l->a)) return mkConcat(mkConst((h->val << l->a->w) | l->a->val, h->w + l->a->w), l->b);
  if (h->op == OIte && l->op == OIte && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
  if (h->op == OIte && h->ctree && isConst(l) && ctreeSize(h) <= 16) return mkIte(h->a, mkConcat(h->b, l), mkConcat(h->c, l));
  if (l->op == OIte && l->ctree && isConst(h) && ctreeSize(l) <= 16) return mkIte(l->a, mkConcat(h, l->b), mkConcat(h, l->c));
  return mk(OConcat, w, 0, h, l, 0, 0);
}
Expr *mkZExt(Expr *e, unsigned w) {
  if (e->w == w) return e;
  if (isConst(e)) return mkConst(e->val, w);
  if (e->op == OZExt) return mkZExt(e->a, w);
  if (e->op == OIte && e->ctree && ctreeSize(e) <= 16) return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
  return mk(OZExt, w, 0, e, 0, 0, 0);
}
Expr *mkSExt(Expr *e, unsigned w) {
  if (e->w == w) return e;
  if (isConst(e)) return mkConst((u128)sext128(e->val, e->w), w);
  if (e->op == OSExt) return mkSExt(e->a, w);
  if (e->hi < ((u128)1 << (e->w - 1))) return mkZExt(e, w);
  if (e->w == 1) return mkIte(e, mkConst(~(u128)0, w), mkConst(0, w));
  return mk(OSExt, w, 0, e, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == OXor && isConst(c->b) && c->b->val == 1) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isConst(a)) return a->val ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
    if (isConst(b)) return b->val ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
  }
  if (a->op == OIte && a->a == c) return mkIte(c, a->b, b);
  if (b->op == OIte && b->a == c) return mkIte(c, a, b->c);
  return mk(OIte, a->w, 0, c, a, b, 0);
}
static u64 evGen = 0;
static u128 ev(Expr *e, const Model &m) {
  if (e->op == OConst) return e->val;
  if (e->evgen == evGen) return e->evval;
  u128 r;
  switch (e->op) {
    case OVar: r = e->aux < m.v.size() ? m.v[e->aux] : 0; break;
    case OConcat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case OExtract: r = (ev(e->a, m) >> e->aux) & maskw(e->w); break;
    case OZExt: r = ev(e->a, m); break;
    case OSExt: r = (u128)sext128(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case OIte: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    default: { u128 x = ev(e->a, m), y = ev(e->b, m); r = foldBin(e->op, x, y, e->a->w); }
  }
  e->evgen = evGen; e->evval = r;
  return r;
}
u128 evalExpr(Expr *e, const Model &m) { evGen++; return ev(e, m); }
void tabulate(Expr *e, u128 out[256]) {
  u32 v = e->supp->v[0];
  static Model m; if (m.v.size() <= v) m.v.resize(v + 1);
  for (int i = 0; i < 256; i++) { m.v[v] = i; evGen++; out[i] = ev(e, m); }
}
Table *truthTable(Expr *e) {
  if (e->tab) return e->tab;
  u128 out[256]; tabulate(e, out);
  Table *t = new Table{{0, 0, 0, 0}};
  for (int i = 0; i < 256; i++) if (out[i]) t->b[i >> 6] |= 1ull << (i & 63);
  return e->tab = t;
}
std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "concat", "extract", "zext", "sext", "ite"};
  if (e->op == OConst) return std::to_string((u64)e->val) + ":" + std::to_string(e->w);
  if (e->op == OVar) return "v" + std::to_string(e->aux);
  if (!d) return "..";
  std::string s = std::string("(") + n[e->op] + std::to_string(e->w);
  if (e->op == OExtract) s += "@" + std::to_string(e->aux);
  for (Expr *x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
