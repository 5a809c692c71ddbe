// Z3 front end: incremental solver with a synchronised assertion stack.
#pragma once
#include "expr.h"
#include <chrono>
#include <z3.h>

struct Solver {
  ExprPool &P;
  Z3_context ctx;
  Z3_solver inc = nullptr;
  std::vector<E> stack; // asserted constraints, one push level each
  std::vector<Z3_ast> memo;
  // statistics
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, fallbacks = 0;
  double seconds = 0;
  unsigned timeout_ms = 20000, fallback_ms = 150000;
  double longest = 0;

  static void errh(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "symir: z3 error: %s\n", Z3_get_error_msg(c, e));
    fflush(nullptr);
    _exit(3);
  }
  Solver(ExprPool &p) : P(p) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, nullptr);
    Z3_set_error_handler(ctx, errh);
    newInc();
  }
  void setParam(Z3_solver s, const char *name, unsigned v) {
    Z3_params ps = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, ps);
    Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, name), v);
    Z3_solver_set_params(ctx, s, ps);
    Z3_params_dec_ref(ctx, ps);
  }
  void newInc() {
    if (inc) Z3_solver_dec_ref(ctx, inc);
    inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, inc);
    setParam(inc, "timeout", timeout_ms);
    stack.clear();
  }
  Z3_ast b2bv(Z3_ast b) { // bool -> bv1
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
  }
  // width-1 expressions are translated to Bool, others to BV
  Z3_ast bv(E e) { Z3_ast a = tr(e); return e->width == 1 ? b2bv(a) : a; }
  Z3_ast b1(Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
  Z3_ast fp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, bv(e), e->width == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx)); }
  Z3_ast tr(E e) {
    if (memo.size() <= e->id) memo.resize(P.all.size() + 1024, nullptr);
    if (memo[e->id]) return memo[e->id];
    Z3_ast r = nullptr;
    u32 w = e->width;
    E a = e->k[0], b = e->k[1], d = e->k[2];
    if (w == 1) {
      switch (e->op) {
      case OConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case OVar: { char nm[32]; snprintf(nm, sizeof nm, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bool_sort(ctx)); break; }
      case OAnd: { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_and(ctx, 2, x); break; }
      case OOr: { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_or(ctx, 2, x); break; }
      case OXor: r = (b->op == OConst) ? Z3_mk_not(ctx, tr(a)) : Z3_mk_xor(ctx, tr(a), tr(b)); break;
      case OEq: r = a->width == 1 ? Z3_mk_eq(ctx, tr(a), tr(b)) : Z3_mk_eq(ctx, tr(a), tr(b)); break;
      case OUlt: r = Z3_mk_bvult(ctx, bv(a), bv(b)); break;
      case OUle: r = Z3_mk_bvule(ctx, bv(a), bv(b)); break;
      case OSlt: r = Z3_mk_bvslt(ctx, bv(a), bv(b)); break;
      case OSle: r = Z3_mk_bvsle(ctx, bv(a), bv(b)); break;
      case OIte: r = Z3_mk_ite(ctx, tr(a), tr(b), tr(d)); break;
      case OPar: { u64 m = (u64)e->c;
        for (; m; m &= m - 1) { u32 i = std::countr_zero(m); Z3_ast x = b1(Z3_mk_extract(ctx, i, i, bv(a))); r = r ? Z3_mk_xor(ctx, r, x) : x; }
        break; }
      case OExtract: r = b1(Z3_mk_extract(ctx, e->aux, e->aux, bv(a))); break;
      case OFCmp: {
        Z3_ast x = fp(a), y = fp(b);
        std::vector<Z3_ast> o;
        if (e->aux & 1) o.push_back(Z3_mk_fpa_eq(ctx, x, y));
        if (e->aux & 2) o.push_back(Z3_mk_fpa_gt(ctx, x, y));
        if (e->aux & 4) o.push_back(Z3_mk_fpa_lt(ctx, x, y));
        if (e->aux & 8) { o.push_back(Z3_mk_fpa_is_nan(ctx, x)); o.push_back(Z3_mk_fpa_is_nan(ctx, y)); }
        r = Z3_mk_or(ctx, o.size(), o.data());
        break; }
      default: { // generic bv1 ops
        r = b1(trbv(e)); break; }
      }
    } else
      r = trbv(e);
    if (memo.size() <= e->id) memo.resize(P.all.size() + 1024, nullptr);
    return memo[e->id] = r;
  }
  Z3_ast trbv(E e) {
    u32 w = e->width;
    E a = e->k[0], b = e->k[1], d = e->k[2];
    Z3_sort srt = Z3_mk_bv_sort(ctx, w);
    switch (e->op) {
    case OConst:
      if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)e->c, srt);
      return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->c >> 64), Z3_mk_bv_sort(ctx, w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->c, Z3_mk_bv_sort(ctx, 64)));
    case OVar: { char nm[32]; snprintf(nm, sizeof nm, "v%u", e->aux); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), srt); }
    case OAdd: return Z3_mk_bvadd(ctx, bv(a), bv(b));
    case OMul: return Z3_mk_bvmul(ctx, bv(a), bv(b));
    case OUDiv: return Z3_mk_bvudiv(ctx, bv(a), bv(b));
    case OSDiv: return Z3_mk_bvsdiv(ctx, bv(a), bv(b));
    case OURem: return Z3_mk_bvurem(ctx, bv(a), bv(b));
    case OSRem: return Z3_mk_bvsrem(ctx, bv(a), bv(b));
    case OAnd: return Z3_mk_bvand(ctx, bv(a), bv(b));
    case OOr: return Z3_mk_bvor(ctx, bv(a), bv(b));
    case OXor: return Z3_mk_bvxor(ctx, bv(a), bv(b));
    case OShl: return Z3_mk_bvshl(ctx, bv(a), bv(b));
    case OLShr: return Z3_mk_bvlshr(ctx, bv(a), bv(b));
    case OAShr: return Z3_mk_bvashr(ctx, bv(a), bv(b));
    case OIte: return Z3_mk_ite(ctx, tr(a), bv(b), bv(d));
    case OConcat: return Z3_mk_concat(ctx, bv(a), bv(b));
    case OExtract: return Z3_mk_extract(ctx, e->aux + w - 1, e->aux, bv(a));
    case OZExt: return Z3_mk_zero_ext(ctx, w - a->width, bv(a));
    case OSExt: return Z3_mk_sign_ext(ctx, w - a->width, bv(a));
    default: break;
    }
    // FP
    Z3_ast rm = Z3_mk_fpa_rne(ctx);
    Z3_sort fs = w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx);
    auto out = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
    switch (e->op) {
    case OFAdd: return out(Z3_mk_fpa_add(ctx, rm, fp(a), fp(b)));
    case OFSub: return out(Z3_mk_fpa_sub(ctx, rm, fp(a), fp(b)));
    case OFMul: return out(Z3_mk_fpa_mul(ctx, rm, fp(a), fp(b)));
    case OFDiv: return out(Z3_mk_fpa_div(ctx, rm, fp(a), fp(b)));
    case OFConvS: return out(Z3_mk_fpa_to_fp_signed(ctx, rm, bv(a), fs));
    case OFConvU: return out(Z3_mk_fpa_to_fp_unsigned(ctx, rm, bv(a), fs));
    case OFToS: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(a), w);
    case OFToU: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(a), w);
    case OFExt: case OFTrunc: return out(Z3_mk_fpa_to_fp_float(ctx, rm, fp(a), fs));
    case OFUn:
      if (e->aux == ExprPool::FUSqrt) return out(Z3_mk_fpa_sqrt(ctx, rm, fp(a)));
      {
        Z3_ast m = e->aux == ExprPool::FUFloor ? Z3_mk_fpa_rtn(ctx) : e->aux == ExprPool::FUCeil ? Z3_mk_fpa_rtp(ctx) : e->aux == ExprPool::FUTrunc ? Z3_mk_fpa_rtz(ctx) : e->aux == ExprPool::FURint ? rm : Z3_mk_fpa_rna(ctx);
        return out(Z3_mk_fpa_round_to_integral(ctx, m, fp(a)));
      }
    default: fprintf(stderr, "symir: cannot translate op %d\n", e->op); _exit(3);
    }
  }
  void sync(std::vector<E> const &pc) {
    size_t n = 0;
    while (n < stack.size() && n < pc.size() && stack[n] == pc[n]) ++n;
    if (n < stack.size()) { Z3_solver_pop(ctx, inc, stack.size() - n); stack.resize(n); }
    for (; n < pc.size(); ++n) {
      Z3_solver_push(ctx, inc);
      Z3_solver_assert(ctx, inc, tr(pc[n]));
      stack.push_back(pc[n]);
    }
  }
  void getModel(Z3_solver s, std::vector<u64> &out) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    out.assign(P.vars.size(), 0);
    for (size_t i = 0; i < P.vars.size(); ++i) {
      E v = P.varExpr[i];
      Z3_ast a = nullptr;
      if (!Z3_model_eval(ctx, m, tr(v), true, &a) || !a) continue;
      if (v->width == 1) out[i] = Z3_get_bool_value(ctx, a) == Z3_L_TRUE;
      else { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, a, &x)) out[i] = x; }
    }
    Z3_model_dec_ref(ctx, m);
  }
  // returns 1 sat, 0 unsat, -1 unknown
  int check(std::vector<E> const &pc, E extra, std::vector<u64> *model) {
    auto t0 = std::chrono::steady_clock::now();
    ++queries;
    bool needfp = extra->hasfp;
    for (E e : pc) if (e->hasfp) needfp = true;
    int res = -1;
    if (!needfp) {
      sync(pc);
      Z3_solver_push(ctx, inc);
      Z3_solver_assert(ctx, inc, tr(extra));
      Z3_lbool r = Z3_solver_check(ctx, inc);
      if (r == Z3_L_TRUE) { res = 1; if (model) getModel(inc, *model); }
      else if (r == Z3_L_FALSE) res = 0;
      Z3_solver_pop(ctx, inc, 1);
    }
    if (res < 0) res = fresh(pc, extra, model, needfp);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    seconds += dt; if (dt > longest) longest = dt;
    if (res == 1) ++sat; else if (res == 0) ++unsat; else ++unknown;
    // sanity: the model must satisfy the query
    if (res == 1 && model) {
      P.setModel(model);
      if (!P.eval(extra)) { fprintf(stderr, "symir: model does not satisfy query\n"); return -1; }
      for (E e : pc) if (!P.eval(e)) { fprintf(stderr, "symir: model does not satisfy path condition\n"); return -1; }
    }
    return res;
  }
  int fresh(std::vector<E> const &pc, E extra, std::vector<u64> *model, bool needfp) {
    ++fallbacks;
    Z3_solver s = nullptr;
    if (needfp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    else {
      Z3_tactic t = Z3_mk_tactic(ctx, "qfbv");
      Z3_tactic_inc_ref(ctx, t);
      s = Z3_mk_solver_from_tactic(ctx, t);
      Z3_tactic_dec_ref(ctx, t);
    }
    Z3_solver_inc_ref(ctx, s);
    setParam(s, "timeout", fallback_ms);
    for (E e : pc) Z3_solver_assert(ctx, s, tr(e));
    Z3_solver_assert(ctx, s, tr(extra));
    Z3_lbool r = Z3_solver_check(ctx, s);
    int res = -1;
    if (r == Z3_L_TRUE) { res = 1; if (model) getModel(s, *model); }
    else if (r == Z3_L_FALSE) res = 0;
    Z3_solver_dec_ref(ctx, s);
    return res;
  }
};
