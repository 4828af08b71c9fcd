// Hash-consed bit-vector expressions with construction-time simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <map>
#include <set>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor,
  OShl, OLShr, OAShr, OConcat, OExtract, OZExt, OSExt, OIte, OEq, OUlt, OSlt,
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
static inline i128 sxt(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

typedef std::vector<uint32_t> SymSet;

struct Expr {
  Op op; uint16_t w; uint32_t lo; uint32_t id;
  Expr *k[3];
  u128 c;
  u128 mn, mx;          // unsigned range
  u128 kz;              // bits known to be zero
  const SymSet *syms;
  Z3_ast z; 
  uint64_t gen; u128 ev;
};

struct EKey { Op op; uint16_t w; uint32_t lo; Expr *a, *b, *c; u128 v; };

Expr *mkConst(u128 v, unsigned w);
Expr *mkSym(uint32_t idx, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);           // bitwise not
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
u128 evalExpr(Expr *e, const std::vector<uint8_t> &model, uint64_t gen);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
uint64_t exprCount();
std::string exprStr(Expr *e, int depth = 6);
