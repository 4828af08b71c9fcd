#include "expr.h"
#include <deque>
#include <unordered_set>

namespace {
struct Hasher {
  size_t operator()(const Expr *e) const {
    uint64_t h = e->op * 0x9E3779B97F4A7C15ull;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(e->w); mix(e->lo);
    for (int i = 0; i < 3; i++) mix(e->k[i] ? e->k[i]->id + 1 : 0);
    mix((uint64_t)e->c); mix((uint64_t)(e->c >> 64));
    return h;
  }
};
struct EqF {
  bool operator()(const Expr *a, const Expr *b) const {
    return a->op == b->op && a->w == b->w && a->lo == b->lo && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2] && a->c == b->c;
  }
};
std::unordered_set<Expr *, Hasher, EqF> table;
std::deque<Expr> arena;
std::map<SymSet, SymSet *> symsets;
const SymSet *internSet(const SymSet &s) {
  auto it = symsets.find(s);
  if (it != symsets.end()) return it->second;
  auto *p = new SymSet(s);
  symsets[s] = p;
  return p;
}
const SymSet *emptySet() { static const SymSet *e = internSet({}); return e; }
std::map<std::pair<const SymSet *, const SymSet *>, const SymSet *> unionCache;
const SymSet *unionSet(const SymSet *a, const SymSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair(a, b);
  auto it = unionCache.find(key);
  if (it != unionCache.end()) return it->second;
  SymSet r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  auto *p = internSet(r);
  unionCache[key] = p;
  return p;
}
unsigned bitlen(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
bool isConst(Expr *e) { return e->op == OConst; }
bool isOnes(Expr *e) { return e->op == OConst && e->c == maskw(e->w); }

void computeRange(Expr *e) {
  u128 M = maskw(e->w);
  e->mn = 0; e->mx = M;
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
  case OConst: e->mn = e->mx = e->c; break;
  case OAdd: {
    u128 hi = a->mx + b->mx;
    if (hi >= a->mx && hi <= M) { e->mn = a->mn + b->mn; e->mx = hi; }
    else if (e->w < 128 && a->mn + b->mn > M) { e->mn = (a->mn + b->mn) & M; e->mx = hi & M; } // always wraps
    break; }
  case OSub: if (a->mn >= b->mx) { e->mn = a->mn - b->mx; e->mx = a->mx - b->mn; } break;
  case OMul: {
    if (bitlen(a->mx) + bitlen(b->mx) <= e->w) { e->mn = a->mn * b->mn; e->mx = a->mx * b->mx; }
    break; }
  case OUDiv: if (b->mn > 0) { e->mx = a->mx / b->mn; e->mn = a->mn / b->mx; } break;
  case OURem: if (b->mn > 0) { e->mx = std::min(a->mx, b->mx - 1); if (a->mx < b->mn) e->mn = a->mn; } break;
  case OAnd: e->mx = std::min(a->mx, b->mx); break;
  case OOr: { e->mn = std::max(a->mn, b->mn); e->mx = maskw(std::max(bitlen(a->mx), bitlen(b->mx))) & M; break; }
  case OXor: if (e->w > 1) e->mx = maskw(std::max(bitlen(a->mx), bitlen(b->mx))) & M; break;
  case OLShr: e->mx = a->mx; break;
  case OConcat: e->mn = (a->mn << b->w) | b->mn; e->mx = (a->mx << b->w) | b->mx; 
    if (a->mn != a->mx) { e->mn = (a->mn << b->w); e->mx = (a->mx << b->w) | maskw(b->w); }
    break;
  case OExtract: if (e->lo == 0 && a->mx <= M) { e->mn = a->mn; e->mx = a->mx; }
    else if (e->lo) { u128 h = a->mx >> e->lo; if (h <= M) { e->mx = h; e->mn = a->mn >> e->lo; } }
    break;
  case OZExt: e->mn = a->mn; e->mx = a->mx; break;
  case OSExt: if (a->mx < ((u128)1 << (a->w - 1))) { e->mn = a->mn; e->mx = a->mx; } break;
  case OIte: e->mn = std::min(e->k[1]->mn, e->k[2]->mn); e->mx = std::max(e->k[1]->mx, e->k[2]->mx); break;
  default: break;
  }
}

void computeZero(Expr *e) {
  u128 M = maskw(e->w);
  Expr *a = e->k[0], *b = e->k[1];
  u128 z = 0;
  switch (e->op) {
  case OConst: z = ~e->c; break;
  case OAnd: z = a->kz | b->kz; break;
  case OOr: case OXor: if (e->w > 1) z = a->kz & b->kz; break;
  case OConcat: z = (a->kz << b->w) | b->kz; break;
  case OExtract: z = a->kz >> e->lo; break;
  case OZExt: z = a->kz | ~maskw(a->w); break;
  case OIte: z = e->k[1]->kz & e->k[2]->kz; break;
  case OAdd: case OSub: { u128 t = a->kz & b->kz; unsigned n = 0; while (n < e->w && (t >> n & 1)) n++; z = maskw(n); break; }
  default: break;
  }
  e->kz = (z | ~maskw(bitlen(e->mx))) & M;
}

Expr *intern(Op op, unsigned w, uint32_t lo, Expr *a, Expr *b, Expr *c, u128 v) {
  Expr t; t.op = op; t.w = w; t.lo = lo; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = v;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = arena.size();
  t.z = nullptr; t.gen = 0; t.ev = 0;
  const SymSet *s = emptySet();
  for (int i = 0; i < 3; i++) if (t.k[i]) s = unionSet(s, t.k[i]->syms);
  if (op == OSym) s = internSet({lo});
  t.syms = s;
  computeRange(&t);
  computeZero(&t);
  if (op != OConst && t.mn == t.mx && op != OSym) return mkConst(t.mn, w);
  arena.push_back(t);
  Expr *p = &arena.back();
  table.insert(p);
  return p;
}

struct Piece { Expr *e; };  // LSB first
void flatten(Expr *e, std::vector<Expr *> &out) {
  if (e->op == OConcat) { flatten(e->k[1], out); flatten(e->k[0], out); return; }
  if (e->op == OZExt) { flatten(e->k[0], out); out.push_back(mkConst(0, e->w - e->k[0]->w)); return; }
  out.push_back(e);
}

// try to do a bitwise op piecewise. returns null if no benefit
Expr *piecewise(Op op, Expr *a, Expr *b) {
  auto st = [](Expr *e) { return e->op == OConcat || e->op == OZExt || e->op == OConst; };
  if (!(st(a) && st(b)) ) return nullptr;
  if (isConst(a) && isConst(b)) return nullptr;
  std::vector<Expr *> pa, pb;
  flatten(a, pa); flatten(b, pb);
  if (pa.size() + pb.size() > 400) return nullptr;
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  struct Seg { Expr *x; unsigned xl; Expr *y; unsigned yl; unsigned n; };
  std::vector<Seg> segs;
  bool good = false;
  while (i < pa.size()) {
    unsigned n = std::min(pa[i]->w - oi, pb[j]->w - oj);
    bool ca = isConst(pa[i]), cb = isConst(pb[j]);
    if (ca || cb) good = true;
    if (op == OAdd) {
      // only OK if one side zero in the segment
      u128 va = ca ? (pa[i]->c >> oi) & maskw(n) : 1, vb = cb ? (pb[j]->c >> oj) & maskw(n) : 1;
      if (!((ca && va == 0) || (cb && vb == 0))) return nullptr;
    } else if (!ca && !cb && segs.size() > 0 && op != OAdd) {
      // symbolic both: allowed, handled as op on pieces
    }
    segs.push_back({pa[i], oi, pb[j], oj, n});
    oi += n; oj += n;
    if (oi == pa[i]->w) { i++; oi = 0; }
    if (oj == pb[j]->w) { j++; oj = 0; }
  }
  if (!good) return nullptr;
  if (segs.size() == 1) return nullptr;
  if (op != OAdd) {
    // for a const operand that is neither 0 nor ones everywhere, only split if there are >1 natural pieces (a or b is concat/zext) - true here
  }
  Expr *r = nullptr;
  for (auto &s : segs) {
    Expr *x = mkExtract(s.x, s.xl, s.n), *y = mkExtract(s.y, s.yl, s.n);
    Expr *p = mkBin(op == OAdd ? OOr : op, x, y);
    r = r ? mkConcat(p, r) : p;
  }
  return r;
}
// a < b cannot be: every piece of a is that of b, or b's piece is zero
bool neverLess(Expr *a, Expr *b) {
  std::vector<Expr *> pa, pb;
  flatten(a, pa); flatten(b, pb);
  if (pa.size() + pb.size() == 2 || pa.size() + pb.size() > 400) return false;
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < pa.size()) {
    unsigned n = std::min(pa[i]->w - oi, pb[j]->w - oj);
    u128 kz = (pb[j]->kz >> oj) & maskw(n);
    if (kz != maskw(n) && mkExtract(pa[i], oi, n) != mkExtract(pb[j], oj, n)) return false;
    oi += n; oj += n;
    if (oi == pa[i]->w) { i++; oi = 0; }
    if (oj == pb[j]->w) { j++; oj = 0; }
  }
  return true;
}
bool iteConst2(Expr *e) { return e->op == OIte && isConst(e->k[1]) && isConst(e->k[2]); }
// ite tree all of whose leaves are constants, bounded depth
bool iteTree(Expr *e, int d = 12) {
  if (isConst(e)) return true;
  if (e->op != OIte || d == 0) return false;
  if (isConst(e->k[1])) return iteTree(e->k[2], d - 1);
  if (isConst(e->k[2])) return iteTree(e->k[1], d - 1);
  return false;
}
}

uint64_t exprCount() { return arena.size(); }

Expr *mkConst(u128 v, unsigned w) { return intern(OConst, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr *mkSym(uint32_t idx, unsigned w) { return intern(OSym, w, idx, nullptr, nullptr, nullptr, 0); }
Expr *mkNot(Expr *a) { return mkBin(OXor, a, mkConst(maskw(a->w), a->w)); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 M = maskw(w);
  switch (op) {
  case OAdd: return (a + b) & M;
  case OSub: return (a - b) & M;
  case OMul: return (a * b) & M;
  case OUDiv: return b == 0 ? M : a / b;
  case OURem: return b == 0 ? a : a % b;
  case OSDiv: { i128 x = sxt(a, w), y = sxt(b, w); if (y == 0) return x < 0 ? 1 : M; if (y == -1) return (0 - a) & M; return (u128)(x / y) & M; }
  case OSRem: { i128 x = sxt(a, w), y = sxt(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
  case OAnd: return a & b;
  case OOr: return a | b;
  case OXor: return a ^ b;
  case OShl: return b >= w ? 0 : (a << (unsigned)b) & M;
  case OLShr: return b >= w ? 0 : a >> (unsigned)b;
  case OAShr: { i128 x = sxt(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
  case OEq: return a == b;
  case OUlt: return a < b;
  case OSlt: return sxt(a, w) < sxt(b, w);
  default: abort();
  }
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
  bool cmp = op == OEq || op == OUlt || op == OSlt;
  unsigned rw = cmp ? 1 : w;
  if (isConst(a) && isConst(b)) return mkConst(foldBin(op, a->c, b->c, w), rw);
  bool comm = op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq;
  if (comm && isConst(a)) std::swap(a, b);
  if (comm && !isConst(b) && a->id > b->id) std::swap(a, b);
  u128 M = maskw(w);
  // push op with constant through ite trees of constants
  if (isConst(b) && a->op == OIte && iteTree(a) && !(op == OXor && w == 1))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isConst(a) && b->op == OIte && iteTree(b))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  switch (op) {
  case OAdd:
    if (isConst(b)) {
      if (b->c == 0) return a;
      if (a->op == OAdd && isConst(a->k[1])) return mkBin(OAdd, a->k[0], mkConst(a->k[1]->c + b->c, w));
      // no carry out of the low part
      if (a->op == OConcat && (b->c & maskw(a->k[1]->w)) == 0)
        return mkConcat(mkBin(OAdd, a->k[0], mkConst(b->c >> a->k[1]->w, a->k[0]->w)), a->k[1]);
      if (a->op == OZExt && a->k[0]->op == OConcat && (b->c & maskw(a->k[0]->k[1]->w)) == 0) {
        Expr *h = a->k[0]->k[0], *l = a->k[0]->k[1]; unsigned hw = w - l->w;
        return mkConcat(mkBin(OAdd, mkZExt(h, hw), mkConst(b->c >> l->w, hw)), l);
      }
    } else {
      if (a->op == OAdd && isConst(a->k[1])) return mkBin(OAdd, mkBin(OAdd, a->k[0], b), a->k[1]);
      if (b->op == OAdd && isConst(b->k[1])) return mkBin(OAdd, mkBin(OAdd, a, b->k[0]), b->k[1]);
      if (a->op == OSub && a->k[1] == b) return a->k[0];
      if (b->op == OSub && b->k[1] == a) return b->k[0];
    }
    if (w == 1) return mkBin(OXor, a, b);
    if (Expr *r = piecewise(OAdd, a, b)) return r;
    if ((a->kz | b->kz) == M && w > 1) return mkBin(OOr, a, b);
    break;
  case OSub:
    if (isConst(b)) return mkBin(OAdd, a, mkConst(0 - b->c, w));
    if (a == b) return mkConst(0, w);
    if (a->op == OAdd && a->k[0] == b) return a->k[1];
    if (a->op == OAdd && a->k[1] == b) return a->k[0];
    if (a->op == OAdd && isConst(a->k[1])) return mkBin(OAdd, mkBin(OSub, a->k[0], b), a->k[1]);
    if (b->op == OAdd && isConst(b->k[1])) return mkBin(OAdd, mkBin(OSub, a, b->k[0]), mkConst(0 - b->k[1]->c, w));
    if (w == 1) return mkBin(OXor, a, b);
    break;
  case OMul:
    if (isConst(b)) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if ((b->c & (b->c - 1)) == 0) return mkBin(OShl, a, mkConst(bitlen(b->c) - 1, w));
    }
    if (w == 1) return mkBin(OAnd, a, b);
    break;
  case OUDiv:
    if (isConst(b)) {
      if (b->c == 1) return a;
      if (b->c && a->mx / b->c == a->mn / b->c) return mkConst(a->mn / b->c, w);
      if (b->c && a->mx - a->mn <= 4096 && a->mx / b->c == a->mn / b->c + 1) // at most two quotients
        return mkIte(mkBin(OUlt, mkBin(OAdd, a, mkConst(0 - a->mn, w)), mkConst(b->c - a->mn % b->c, w)), mkConst(a->mn / b->c, w), mkConst(a->mx / b->c, w));
      if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(OLShr, a, mkConst(bitlen(b->c) - 1, w));
      // narrow
      unsigned nb = std::max(bitlen(a->mx), bitlen(b->c));
      if (b->c && nb < w && nb >= 1) return mkZExt(mkBin(OUDiv, mkExtract(a, 0, nb), mkConst(b->c, nb)), w);
    }
    break;
  case OURem:
    if (isConst(b)) {
      if (b->c == 1) return mkConst(0, w);
      if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(OAnd, a, mkConst(b->c - 1, w));
      if (b->c && a->mx < b->c) return a;
      if (b->c && a->mx - a->mn <= 4096 && a->mx / b->c <= a->mn / b->c + 1) {
        u128 c = b->c, r = a->mn % c; unsigned n = bitlen(c - 1);
        Expr *x = mkBin(OAdd, mkBin(OAdd, a, mkConst(0 - a->mn, w)), mkConst(r, w)), *y = mkZExt(mkExtract(mkBin(OAdd, x, mkConst(0 - c, w)), 0, n), w);
        if (r + (a->mx - a->mn) < c) return x;
        return mkIte(mkBin(OUlt, x, mkConst(c, w)), mkZExt(mkExtract(x, 0, n), w), y);
      }
      unsigned nb = std::max(bitlen(a->mx), bitlen(b->c));
      if (b->c && nb < w && nb >= 1) return mkZExt(mkBin(OURem, mkExtract(a, 0, nb), mkConst(b->c, nb)), w);
    }
    break;
  case OSDiv: case OSRem: {
    u128 half = (u128)1 << (w - 1);
    if (a->mx < half && b->mx < half && b->mn > 0) return mkBin(op == OSDiv ? OUDiv : OURem, a, b);
    break; }
  case OAnd:
    if (a == b) return a;
    if (isConst(b)) {
      if (b->c == 0) return b;
      if (b->c == M) return a;
      // contiguous mask
      unsigned lo = 0; u128 v = b->c; while (!(v & 1)) { v >>= 1; lo++; }
      unsigned n = bitlen(v);
      if (v == maskw(n)) {
        Expr *r = mkExtract(a, lo, n);
        if (lo) r = mkConcat(r, mkConst(0, lo));
        return mkZExt(r, w);
      }
    }
    if (w == 1) {
      // x & !x
      if (b->op == OXor && isConst(b->k[1]) && b->k[0] == a) return mkConst(0, 1);
      if (a->op == OXor && isConst(a->k[1]) && a->k[0] == b) return mkConst(0, 1);
    }
    if (Expr *r = piecewise(OAnd, a, b)) return r;
    break;
  case OOr:
    if (a == b) return a;
    if (isConst(b)) {
      if (b->c == 0) return a;
      if (b->c == M) return b;
    }
    if (w == 1) {
      if (b->op == OXor && isConst(b->k[1]) && b->k[0] == a) return mkConst(1, 1);
      if (a->op == OXor && isConst(a->k[1]) && a->k[0] == b) return mkConst(1, 1);
    }
    if (Expr *r = piecewise(OOr, a, b)) return r;
    break;
  case OXor:
    if (a == b) return mkConst(0, w);
    if (isConst(b)) {
      if (b->c == 0) return a;
      if (a->op == OXor && isConst(a->k[1])) return mkBin(OXor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
    }
    if (Expr *r = piecewise(OXor, a, b)) return r;
    break;
  case OShl:
    if (isConst(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->c;
      return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    break;
  case OLShr:
    if (isConst(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->c;
      return mkZExt(mkExtract(a, s, w - s), w);
    }
    break;
  case OAShr:
    if (isConst(b)) {
      if (b->c == 0) return a;
      unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    if (a->mx < ((u128)1 << (w - 1))) return mkBin(OLShr, a, b);
    break;
  case OEq:
    if (a == b) return mkConst(1, 1);
    if (a->mx < b->mn || b->mx < a->mn) return mkConst(0, 1);
    if (isConst(b)) {
      if (w == 1) return b->c ? a : mkNot(a);
      if (a->op == OZExt) {
        if (b->c >> a->k[0]->w) return mkConst(0, 1);
        return mkBin(OEq, a->k[0], mkConst(b->c, a->k[0]->w));
      }
      if (a->op == OSExt) {
        unsigned n = a->k[0]->w;
        if ((u128)(sxt(b->c, n)) != 0 || true) {
          u128 t = (u128)sxt(b->c & maskw(n), n) & M;
          if (t != b->c) return mkConst(0, 1);
          return mkBin(OEq, a->k[0], mkConst(b->c, n));
        }
      }
      if (a->op == OConcat) {
        unsigned lw = a->k[1]->w;
        return mkBin(OAnd, mkBin(OEq, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(OEq, a->k[1], mkConst(b->c, lw)));
      }
      if (a->op == OAdd && isConst(a->k[1])) return mkBin(OEq, a->k[0], mkConst(b->c - a->k[1]->c, w));
      if (a->op == OXor && isConst(a->k[1])) return mkBin(OEq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
      if (a->op == OSub && b->c == 0) return mkBin(OEq, a->k[0], a->k[1]);
      if (a->op == OIte) {
        if (isConst(a->k[1]) || isConst(a->k[2]))
          return mkIte(a->k[0], mkBin(OEq, a->k[1], b), mkBin(OEq, a->k[2], b));
      }
      if (a->op == OXor && b->c == 0) return mkBin(OEq, a->k[0], a->k[1]);
      if (a->op == OOr && b->c == 0) return mkBin(OAnd, mkBin(OEq, a->k[0], b), mkBin(OEq, a->k[1], b));
    } else {
      if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mkBin(OEq, a->k[0], b->k[0]);
      if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return mkBin(OEq, a->k[0], b->k[0]);
      if (a->op == OConcat && b->op == OConcat && a->k[0]->w == b->k[0]->w)
        return mkBin(OAnd, mkBin(OEq, a->k[0], b->k[0]), mkBin(OEq, a->k[1], b->k[1]));
      if (w == 1) return mkNot(mkBin(OXor, a, b));
      if (a->op == OIte && b->op == OIte && a->k[0] == b->k[0])
        return mkIte(a->k[0], mkBin(OEq, a->k[1], b->k[1]), mkBin(OEq, a->k[2], b->k[2]));
    }
    break;
  case OUlt:
    if (a == b) return mkConst(0, 1);
    if (a->mx < b->mn) return mkConst(1, 1);
    if (a->mn >= b->mx) return mkConst(0, 1);
    if (w == 1) return mkBin(OAnd, mkNot(a), b);
    if (b->op == OOr && (b->k[0] == a || b->k[1] == a)) return mkNot(mkBin(OEq, a, b));
    if (a->op == OOr && (a->k[0] == b || a->k[1] == b)) return mkConst(0, 1);
    if (neverLess(a, b)) return mkConst(0, 1);
    if (isConst(b)) {
      if (b->c == 1) return mkBin(OEq, a, mkConst(0, w));
      if (b->c == M) return mkNot(mkBin(OEq, a, b));
      if (a->op == OZExt) return mkBin(OUlt, a->k[0], mkConst(b->c, a->k[0]->w));  // in range, else decided above
      if (a->op == OConcat && isConst(a->k[1])) {
        // (h ++ l) < c  <=>  h < ch || (h==ch && l<cl)
        unsigned lw = a->k[1]->w; u128 ch = b->c >> lw, cl = b->c & maskw(lw);
        if (a->k[1]->c < cl) { // h <= ch
          return mkNot(mkBin(OUlt, mkConst(ch, a->k[0]->w), a->k[0]));
        } else return mkBin(OUlt, a->k[0], mkConst(ch, a->k[0]->w));
      }
    }
    if (isConst(a)) {
      if (a->c == 0) return mkNot(mkBin(OEq, b, a));
      if (b->op == OZExt) return mkBin(OUlt, mkConst(a->c, b->k[0]->w), b->k[0]);
      if (a->c == M - 1) return mkBin(OEq, b, mkConst(M, w));
    }
    if (a->op == OZExt && b->op == OZExt) {
      unsigned n = std::max(a->k[0]->w, b->k[0]->w);
      return mkBin(OUlt, mkZExt(a->k[0], n), mkZExt(b->k[0], n));
    }
    break;
  case OSlt: {
    if (a == b) return mkConst(0, 1);
    u128 half = (u128)1 << (w - 1);
    bool an = a->mn >= half, ap = a->mx < half, bn = b->mn >= half, bp = b->mx < half;
    if (an && bp) return mkConst(1, 1);
    if (ap && bn) return mkConst(0, 1);
    if ((ap && bp) || (an && bn)) return mkBin(OUlt, a, b);
    // x < 0  ->  sign bit
    if (isConst(b) && b->c == 0) return mkExtract(a, w - 1, 1);
    if (isConst(a) && a->c == M) return mkNot(mkExtract(b, w - 1, 1));
    if (a->op == OSExt && isConst(b)) {
      unsigned n = a->k[0]->w; i128 v = sxt(b->c, w);
      i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
      if (v > hi) return mkConst(1, 1);
      if (v <= lo) return mkConst(0, 1);
      return mkBin(OSlt, a->k[0], mkConst((u128)v, n));
    }
    if (b->op == OSExt && isConst(a)) {
      unsigned n = b->k[0]->w; i128 v = sxt(a->c, w);
      i128 lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
      if (v < lo) return mkConst(1, 1);
      if (v >= hi) return mkConst(0, 1);
      return mkBin(OSlt, mkConst((u128)v, n), b->k[0]);
    }
    if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return mkBin(OSlt, a->k[0], b->k[0]);
    break; }
  default: abort();
  }
  return intern(op, rw, 0, a, b, nullptr, 0);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isConst(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == OZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == OConcat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  auto base = [](Expr *e, unsigned &l) -> Expr * { if (e->op == OExtract) { l = e->lo; return e->k[0]; } l = 0; return e; };
  // adjacency
  {
    unsigned lh, ll; Expr *bh = base(hi, lh);
    Expr *lotop = lo->op == OConcat ? lo->k[0] : lo;
    Expr *bl = base(lotop, ll);
    if (hi->op == OExtract && bh == bl && lh == ll + lotop->w) {
      Expr *m = mkExtract(bh, ll, hi->w + lotop->w);
      return lo->op == OConcat ? mkConcat(m, lo->k[1]) : m;
    }
    // sign extension rejoin: hi = extract(sext(x), ..) and lo = x
    if (hi->op == OExtract && bh->op == OSExt) {
      Expr *s = bh; // low part of s equals s->k[0]
      if (lotop == s->k[0] && hi->lo == lotop->w) {
        Expr *m = mkExtract(s, 0, hi->w + lotop->w);
        return lo->op == OConcat ? mkConcat(m, lo->k[1]) : m;
      }
      if (lotop->op == OExtract && lotop->k[0] == s->k[0] && lotop->lo + lotop->w == s->k[0]->w && hi->lo == s->k[0]->w) {
        Expr *m = mkExtract(s, lotop->lo, hi->w + lotop->w);
        return lo->op == OConcat ? mkConcat(m, lo->k[1]) : m;
      }
    }
    if (isConst(hi) && isConst(lotop) && lo->op == OConcat) return mkConcat(mkConcat(hi, lotop), lo->k[1]);
  }
  return intern(OConcat, w, 0, hi, lo, nullptr, 0);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
  if (lo + w > a->w) { fprintf(stderr, "extract range\n"); abort(); }
  if (lo == 0 && w == a->w) return a;
  if (isConst(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
  case OExtract: return mkExtract(a->k[0], a->lo + lo, w);
  case OConcat: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  case OZExt: {
    unsigned n = a->k[0]->w;
    if (lo >= n) return mkConst(0, w);
    if (lo + w <= n) return mkExtract(a->k[0], lo, w);
    return mkZExt(mkExtract(a->k[0], lo, n - lo), w); }
  case OSExt: {
    unsigned n = a->k[0]->w;
    if (lo + w <= n) return mkExtract(a->k[0], lo, w);
    if (lo < n) return mkSExt(mkExtract(a->k[0], lo, n - lo), w);
    if (w == 1) return mkExtract(a->k[0], n - 1, 1);
    break; }
  case OIte: return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  case OAnd: case OOr: case OXor:
    if (isConst(a->k[1])) {
      u128 c = (a->k[1]->c >> lo) & maskw(w);
      if (a->op == OXor && c == 0) return mkExtract(a->k[0], lo, w);
      if (a->op == OAnd && (c == 0 || c == maskw(w))) return c == 0 ? mkConst(0, w) : mkExtract(a->k[0], lo, w);
      if (a->op == OOr && (c == 0 || c == maskw(w))) return c ? mkConst(c, w) : mkExtract(a->k[0], lo, w);
      if (w == 1) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkConst(c, w));
    }
    break;
  default: break;
  }
  if (lo > 0 && (a->mx >> lo) == 0) return mkConst(0, w);
  if (lo == 0 && w == 1 && (a->op == OAdd || a->op == OSub || a->op == OXor))
    return mkBin(OXor, mkExtract(a->k[0], 0, 1), mkExtract(a->k[1], 0, 1));
  return intern(OExtract, w, lo, a, nullptr, nullptr, 0);
}

Expr *mkZExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) { fprintf(stderr, "zext narrow\n"); abort(); }
  if (isConst(a)) return mkConst(a->c, w);
  if (a->op == OZExt) return mkZExt(a->k[0], w);
  if (a->op == OExtract && a->lo == 0 && a->k[0]->mx <= maskw(a->w)) // nothing was cut off
    return a->k[0]->w > w ? mkExtract(a->k[0], 0, w) : mkZExt(a->k[0], w);
  if (a->op == OIte && iteTree(a)) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return intern(OZExt, w, 0, a, nullptr, nullptr, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (w == a->w) return a;
  if (isConst(a)) return mkConst((u128)sxt(a->c, a->w), w);
  if (a->op == OSExt) return mkSExt(a->k[0], w);
  if (a->mx < ((u128)1 << (a->w - 1))) return mkZExt(a, w);
  if (a->op == OIte && iteTree(a)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(OSExt, w, 0, a, nullptr, nullptr, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isConst(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == OXor && isConst(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == OIte && a->k[0] == c) a = a->k[1];
  if (b->op == OIte && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->w == 1) {
    if (isConst(a)) return a->c ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
    if (isConst(b)) return b->c ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
  }
  return intern(OIte, a->w, 0, c, a, b, 0);
}

u128 evalExpr(Expr *e, const std::vector<uint8_t> &m, uint64_t gen) {
  if (e->op == OConst) return e->c;
  if (e->gen == gen) return e->ev;
  u128 r;
  switch (e->op) {
  case OSym: r = e->lo < m.size() ? m[e->lo] : 0; r &= maskw(e->w); break;
  case OConcat: r = (evalExpr(e->k[0], m, gen) << e->k[1]->w) | evalExpr(e->k[1], m, gen); break;
  case OExtract: r = (evalExpr(e->k[0], m, gen) >> e->lo) & maskw(e->w); break;
  case OZExt: r = evalExpr(e->k[0], m, gen); break;
  case OSExt: r = (u128)sxt(evalExpr(e->k[0], m, gen), e->k[0]->w) & maskw(e->w); break;
  case OIte: r = evalExpr(e->k[0], m, gen) ? evalExpr(e->k[1], m, gen) : evalExpr(e->k[2], m, gen); break;
  default: r = foldBin(e->op, evalExpr(e->k[0], m, gen), evalExpr(e->k[1], m, gen), e->k[0]->w);
  }
  e->gen = gen; e->ev = r;
  return r;
}

std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"const","sym","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","concat","extract","zext","sext","ite","==","<u","<s"};
  char buf[64];
  if (e->op == OConst) { snprintf(buf, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return buf; }
  if (e->op == OSym) { snprintf(buf, 64, "s%u", e->lo); return buf; }
  if (d == 0) return "..";
  std::string s = std::string("(") + n[e->op];
  if (e->op == OExtract) { snprintf(buf, 64, "[%u+%u]", e->lo, e->w); s += buf; }
  if (e->op == OZExt || e->op == OSExt) { snprintf(buf, 64, "%u", e->w); s += buf; }
  for (int i = 0; i < 3 && e->k[i]; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
