#include "solver.h"
#include <chrono>
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
}
static Z3_ast constBV(Z3_context ctx, u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
  return Z3_mk_concat(ctx, hi, lo);
}
// w==1 expressions translate to Bool; bv() converts to BV1
Z3_ast Solver::bv(Expr *e) {
  Z3_ast a = tr(e);
  if (e->w == 1) return Z3_mk_ite(ctx, a, constBV(ctx, 1, 1), constBV(ctx, 0, 1));
  return a;
}
Z3_ast Solver::tr(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r;
  Expr *a = e->k[0], *b = e->k[1];
  bool one = e->w == 1;
  switch (e->op) {
  case OConst: r = one ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : constBV(ctx, e->c, e->w); break;
  case OSym: { r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->lo), Z3_mk_bv_sort(ctx, e->w)); symAst[e->lo] = r; break; }
  case OEq: r = Z3_mk_eq(ctx, tr(a), tr(b)); break;
  case OUlt: r = Z3_mk_bvult(ctx, bv(a), bv(b)); break;
  case OSlt: r = Z3_mk_bvslt(ctx, bv(a), bv(b)); break;
  case OAnd: if (one) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, tr(a), tr(b)); break;
  case OOr: if (one) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, tr(a), tr(b)); break;
  case OXor: if (one) { r = b->op == OConst && b->c ? Z3_mk_not(ctx, tr(a)) : Z3_mk_xor(ctx, tr(a), tr(b)); } else r = Z3_mk_bvxor(ctx, tr(a), tr(b)); break;
  case OAdd: r = Z3_mk_bvadd(ctx, bv(a), bv(b)); break;
  case OSub: r = Z3_mk_bvsub(ctx, bv(a), bv(b)); break;
  case OMul: r = Z3_mk_bvmul(ctx, bv(a), bv(b)); break;
  case OUDiv: r = Z3_mk_bvudiv(ctx, bv(a), bv(b)); break;
  case OSDiv: r = Z3_mk_bvsdiv(ctx, bv(a), bv(b)); break;
  case OURem: r = Z3_mk_bvurem(ctx, bv(a), bv(b)); break;
  case OSRem: r = Z3_mk_bvsrem(ctx, bv(a), bv(b)); break;
  case OShl: r = Z3_mk_bvshl(ctx, bv(a), bv(b)); break;
  case OLShr: r = Z3_mk_bvlshr(ctx, bv(a), bv(b)); break;
  case OAShr: r = Z3_mk_bvashr(ctx, bv(a), bv(b)); break;
  case OConcat: r = Z3_mk_concat(ctx, bv(a), bv(b)); break;
  case OExtract: {
    Z3_ast x = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, bv(a));
    r = one ? Z3_mk_eq(ctx, x, constBV(ctx, 1, 1)) : x; break; }
  case OZExt: r = a->w == 1 ? Z3_mk_ite(ctx, tr(a), constBV(ctx, 1, e->w), constBV(ctx, 0, e->w)) : Z3_mk_zero_ext(ctx, e->w - a->w, tr(a)); break;
  case OSExt: r = a->w == 1 ? Z3_mk_ite(ctx, tr(a), constBV(ctx, maskw(e->w), e->w), constBV(ctx, 0, e->w)) : Z3_mk_sign_ext(ctx, e->w - a->w, tr(a)); break;
  case OIte: r = Z3_mk_ite(ctx, tr(a), tr(b), tr(e->k[2])); break;
  default: abort();
  }
  // arithmetic on width 1 never reaches here except shifts/div of width 1
  if (one && (e->op == OUDiv || e->op == OSDiv || e->op == OURem || e->op == OSRem || e->op == OShl || e->op == OLShr || e->op == OAShr || e->op == OMul || e->op == OAdd || e->op == OSub))
    r = Z3_mk_eq(ctx, r, constBV(ctx, 1, 1));
  return e->z = r;
}
Z3_solver Solver::mk() {
  static Z3_solver s = nullptr;
  if (!s) {
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p);
  }
  Z3_solver_reset(ctx, s);
  return s;
}
Z3_solver Solver::inc() {
  if (!incS) {
    incS = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, incS);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), incMs);
    Z3_solver_set_params(ctx, incS, p);
  }
  return incS;
}
SRes Solver::check(const std::vector<Expr *> &cs, Expr *cond, const ModelP &base, ModelP &out) {
  // independent slice
  std::vector<Expr *> slice;
  std::vector<char> used(cs.size(), 0);
  std::vector<char> in;
  auto addSyms = [&](const SymSet *s) { bool ch = false; for (auto v : *s) { if (v >= in.size()) in.resize(v + 64, 0); if (!in[v]) { in[v] = 1; ch = true; } } return ch; };
  addSyms(cond->syms);
  std::set<const SymSet *> seen; seen.insert(cond->syms);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (used[i]) continue;
      bool touch = false;
      if (seen.count(cs[i]->syms)) touch = true;
      else for (auto v : *cs[i]->syms) if (v < in.size() && in[v]) { touch = true; break; }
      if (touch) { used[i] = 1; slice.push_back(cs[i]); if (seen.insert(cs[i]->syms).second && addSyms(cs[i]->syms)) changed = true; }
    }
  }
  std::vector<uint32_t> key;
  for (auto e : slice) key.push_back(e->id);
  key.push_back(cond->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it == cache.end()) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = inc();
    // incremental: the constraints of a path are a stack shared with the previous query's path
    size_t p = 0; while (p < stack.size() && p < cs.size() && stack[p] == cs[p]) p++;
    if (p < stack.size()) { Z3_solver_pop(ctx, s, stack.size() - p); stack.resize(p); }
    for (; p < cs.size(); p++) { Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, tr(cs[p])); stack.push_back(cs[p]); }
    Z3_solver_push(ctx, s); Z3_solver_assert(ctx, s, tr(cond));
    if (dumped < dumpMax && !dumpDir.empty()) {
      std::string fn = dumpDir + "/q" + std::to_string(dumped) + ".smt2";
      if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f); }
    }
    Z3_lbool r = Z3_solver_check(ctx, s);
    Z3_solver used_s = s; bool fell = false;
    if (r == Z3_L_UNDEF) {  // fall back to the bit-blasting tactic on the independent slice
      used_s = mk(); for (auto e : slice) Z3_solver_assert(ctx, used_s, tr(e)); Z3_solver_assert(ctx, used_s, tr(cond)); r = Z3_solver_check(ctx, used_s); fell = true; st.fallbacks++;
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.queries++; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
    if (dumped < dumpMax && !dumpDir.empty()) {
      std::string fn = dumpDir + "/q" + std::to_string(dumped) + ".res";
      if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "%s\n", r == Z3_L_TRUE ? "sat" : r == Z3_L_FALSE ? "unsat" : "unknown"); fclose(f); }
      dumped++;
    }
    CacheEnt ce;
    if (r == Z3_L_FALSE) { ce.r = S_UNSAT; st.unsat++; }
    else if (r == Z3_L_TRUE) {
      ce.r = S_SAT; st.sat++;
      Z3_model m = Z3_solver_get_model(ctx, used_s);
      Z3_model_inc_ref(ctx, m);
      for (uint32_t v = 0; v < in.size(); v++) if (in[v]) {
        auto f = symAst.find(v);
        if (f == symAst.end()) continue;
        Z3_ast o; uint64_t val = 0;
        if (Z3_model_eval(ctx, m, f->second, 1, &o) && Z3_get_numeral_uint64(ctx, o, &val)) {}
        ce.m.push_back({v, (uint8_t)val});
      }
      Z3_model_dec_ref(ctx, m);
    } else { ce.r = S_UNKNOWN; st.unknown++; }
    Z3_solver_pop(ctx, s, 1);
    it = cache.emplace(key, ce).first;
  } else st.cacheHits++;
  if (it->second.r == S_SAT) {
    auto m = std::make_shared<std::vector<uint8_t>>(base ? *base : std::vector<uint8_t>());
    for (auto &p : it->second.m) { if (p.first >= m->size()) m->resize(p.first + 1, 0); (*m)[p.first] = p.second; }
    out = m;
  }
  return it->second.r;
}
