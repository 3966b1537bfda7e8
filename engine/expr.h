// Hash-consed bit-vector expressions with light simplification and interval ranges.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Op : u8 {
  OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor,
  OShl, OLShr, OAShr, OEq, OUlt, OSlt, OConcat, OExtract, OZExt, OSExt, OIte
};

struct Supp { std::vector<u32> v; u32 id; };

struct Table { u64 b[4]; };  // truth table over one byte variable

struct Expr {
  Op op; bool ctree; uint16_t w; u32 id; u32 aux;  // aux: var index / extract low bit
  Expr *a, *b, *c;
  u128 val;       // OConst
  u128 lo, hi;    // unsigned range
  Supp *supp;
  void *z;        // Z3_ast
  u64 evgen; u128 evval;
  Table *tab;     // for w==1, single-variable support
  Expr *next;
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i128 sext128(u128 v, unsigned w) { unsigned s = 128 - w; return ((i128)(v << s)) >> s; }
inline int64_t sext64(u64 v, unsigned w) { unsigned s = 64 - w; return ((int64_t)(v << s)) >> s; }

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(u32 idx);  // always 8 bits wide
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);       // any width: bitwise not
Expr *mkExtract(Expr *e, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *e, unsigned w);
Expr *mkSExt(Expr *e, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
inline bool isConst(Expr *e) { return e->op == OConst; }
u128 foldBin(Op op, u128 a, u128 b, unsigned w);

// Evaluation under a model (one byte per variable).
struct Model { std::vector<u8> v; };
u128 evalExpr(Expr *e, const Model &m);        // starts a fresh generation
Table *truthTable(Expr *e);                    // e: width 1, exactly one variable
void tabulate(Expr *e, u128 out[256]);         // e: exactly one variable
extern u64 g_nexprs;
std::string exprStr(Expr *e, int depth = 6);
