// C01: products of generators denote the product of their matrices.
#include "oracle.h"
template <typename S> static void observe_expr(expression<S, int> const& e) {
  sym_observe(e.size());
  for (auto const& p : e.get_monomials()) { sym_observe(p.first.size()); sym_observe_f((double)p.second); }
}
template <typename S> static void judge(Gen const* w, int n, expression<S, int> const& e, const char* label) {
  Sites sites;
  bool b = false, o = false;
  for (int i = 0; i < n; ++i) (w[i].alg == BOS ? b : o) = true;
  sites.pick = b && o;
  for (int i = 0; i < n; ++i) sites.add(w[i]);
  int ns = 0;
  for (int i = 0; i < n; ++i) ns += w[i].alg == SPIN;
  Amp A, B;
  word_amp(sites, w, n, 1, A);
  expr_amp(sites, e, ns, B);
  check_same(A, B, label);
}
// params: n, lo kind, hi kind, first kind (-1: symbolic)
template <typename S> static void product_chain() {
  int n = sym_param(0);
  Gen w[8];
  sym_word(w, n, sym_param(1), sym_param(2), sym_param(3));
  expression<S, int> e = gen_expr<S>(w[0]);
  for (int i = 1; i < n; ++i) e *= gen_expr<S>(w[i]);
  judge<S>(w, n, e, "a product of generators denotes the product of their matrices");
  observe_expr(e);
  if (e.size() > 1) sym_cover("several terms");
  if (e.size() == 0) sym_cover("vanishing");
}
ENTRY c01_chain_double() { product_chain<double>(); }
ENTRY c01_chain_long() { product_chain<long>(); }
// one monomial constructed in arbitrary order
template <typename S> static void ctor_monomial() {
  int n = sym_param(0);
  Gen w[8];
  sym_word(w, n, sym_param(1), sym_param(2), sym_param(3));
  monomial<int> m;
  for (int i = 0; i < n; ++i) m.append(gen_mono(w[i]));
  expression<S, int> e(scalar_traits<S>::make_const(1), m);
  judge<S>(w, n, e, "an expression constructed from a monomial denotes that monomial");
  observe_expr(e);
}
ENTRY c01_ctor_double() { ctor_monomial<double>(); }
ENTRY c01_ctor_long() { ctor_monomial<long>(); }
