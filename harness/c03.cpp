// C03: Hermitian conjugation.
#include "ring.h"
#include <libcommute/expression/hc.hpp>
static Gen dagger(Gen g) {
  if (g.alg == SPIN) g.what = g.what == 2 ? 2 : 1 - g.what;
  else g.what = !g.what;
  return g;
}
static long cj(long x) { return x; }
static double cj(double x) { return x; }
static std::complex<long> cj(std::complex<long> z) { return {z.real(), -z.imag()}; }
// params: kind set, n generators in the word, extra term
template <typename S> static void conjugation() {
  using E = expression<S, int>;
  int set = sym_param(0), n = sym_param(1), extra = sym_param(2);
  Gen w[8];
  for (int i = 0; i < n; ++i) w[i] = sym_gen(i, set);
  S z = Coef<S>::get("z", -2, 2);
  E one(scalar_traits<S>::make_const(1));
  E A = z * one, R = cj(z) * one;
  for (int i = 0; i < n; ++i) A *= gen_expr<S>(w[i]);
  for (int i = n; i-- > 0;) R *= gen_expr<S>(dagger(w[i]));
  if (extra) {
    S y = Coef<S>::get("y", -2, 2);
    Gen g = sym_gen(n, set);
    A += y * gen_expr<S>(g);
    R += cj(y) * gen_expr<S>(dagger(g));
    if (extra > 1) { S u = Coef<S>::get("u", -2, 2); A += E(u); R += E(cj(u)); }
  }
  E C = conj(A);
  check_wellformed(C);
  check_equal(C, R, "conj reverses the factors, conjugates each of them and the coefficient");
  check_equal(E(conj(C)), A, "conj is an involution");
  check_equal(E(A + hc), E(A + C), "+ hc adds the conjugate");
  check_equal(E(A - hc), E(A - C), "- hc subtracts the conjugate");
  check_equal(E(conj(E(A + hc))), E(A + hc), "A + hc is Hermitian");
  sym_observe(A.size()); sym_observe(C.size());
  if (A.size() > 1) sym_cover("several terms");
}
ENTRY c03_conj_long() { conjugation<long>(); }
ENTRY c03_conj_double() { conjugation<double>(); }
ENTRY c03_conj_complex() { conjugation<std::complex<long>>(); }
template <typename S> static void antihom() {
  using E = expression<S, int>;
  int set = sym_param(0);
  E A = Coef<S>::get("a", -2, 2) * gen_expr<S>(sym_gen(0, set)) + E(Coef<S>::get("d", -1, 1));
  E B = Coef<S>::get("b", -2, 2) * gen_expr<S>(sym_gen(1, set));
  S z = Coef<S>::get("z", -2, 2);
  check_equal(E(conj(E(A * B))), E(E(conj(B)) * E(conj(A))), "conj(A*B) == conj(B)*conj(A)");
  check_equal(E(conj(E(z * A + B))), E(cj(z) * E(conj(A)) + E(conj(B))), "conj(z*A+B) == conj(z)*conj(A)+conj(B)");
  sym_observe(A.size()); sym_observe(B.size());
}
ENTRY c03_antihom_long() { antihom<long>(); }
ENTRY c03_antihom_double() { antihom<double>(); }
ENTRY c03_antihom_complex() { antihom<std::complex<long>>(); }
// floating-point coefficients of any magnitude: conjugation of an expression whose stored coefficients are tiny products
static const char* FC[6] = {"f0", "f1", "f2", "f3", "f4", "f5"};
ENTRY c03_tiny() {
  static const double tab[4] = {1, 0.5, 1e-10, 1e-200};
  using E = expression<double, int>;
  int n = sym_param(0), m = sym_param(1);
  E A;
  double amp[3]; Gen w[3][3];
  for (int t = 0; t < n; ++t) {
    E T(1.0); amp[t] = 1;
    for (int i = 0; i < m; ++i) { w[t][i] = sym_gen(t * m + i, 0); if (i) sym_assume(w[t][i].idx < w[t][i - 1].idx || w[t][i].what); }
    double c = tab[sym_pick_range(FC[2 * t], 0, 3)], d = tab[sym_pick_range(FC[2 * t + 1], 0, 3)];
    for (int i = 0; i < m; ++i) T *= gen_expr<double>(w[t][i]);
    A += c * (d * T);
  }
  E C = conj(A);
  // term by term: conj of every stored term, added up
  E R;
  for (auto const& mon : A.get_monomials()) {
    E T(mon.second);
    for (int i = (int)mon.first.size(); i-- > 0;) T *= gen_expr<double>(dagger(read_gen(mon.first[i])));
    R += T;
  }
  auto close1 = [](E const& x, E const& y) {
    bool ok = true;
    for (auto const& t : x.get_monomials()) {
      double c = 0; auto it = y.get_monomials().find(t.first); if (it != y.get_monomials().end()) c = it->second;
      double d = t.second - c; ok = ok && (d < 0 ? -d : d) < 1e-12;
    }
    return ok;
  };
  sym_check(close1(C, R) && close1(R, C), "conj treats every term on its own, tiny coefficients included");
  sym_cover("done");
}
