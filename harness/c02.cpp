// C02: canonical form and ring identities.
#include "ring.h"
// params: kind set, terms in A
template <typename S> static void ring() {
  using E = expression<S, int>;
  int set = sym_param(0), terms = sym_param(1);
  E A = Coef<S>::get("a", -2, 2) * gen_expr<S>(sym_gen(0, set));
  if (terms > 1) A += Coef<S>::get("a2", -2, 2) * gen_expr<S>(sym_gen(3, set));
  E B = Coef<S>::get("b", -2, 2) * gen_expr<S>(sym_gen(1, set));
  E C = Coef<S>::get("c", -2, 2) * gen_expr<S>(sym_gen(2, set));
  check_wellformed(A);
  E AB = A * B, BC = B * C;
  E x = AB * C, y = A * BC;
  check_wellformed(AB); check_wellformed(x);
  check_equal(x, y, "multiplication is associative");
  E BpC = B + C;
  check_wellformed(BpC);
  E l = A * BpC, r = AB + A * C;
  check_wellformed(l); check_wellformed(r);
  check_equal(l, r, "multiplication distributes over addition from the left");
  check_equal(E(BpC * A), E(B * A + C * A), "multiplication distributes over addition from the right");
  check_equal(BpC, E(C + B), "addition is commutative");
  check_equal(E(BpC - C), B, "subtraction undoes addition");
  sym_check((AB - AB).size() == 0 && E(AB - AB) == E(), "A - A is the empty expression");
  E D = x; D -= y;
  sym_check(D.size() == 0, "differences of equal expressions vanish");
  sym_observe(AB.size()); sym_observe(x.size()); sym_observe(l.size());
  if (x.size() > 1) sym_cover("several terms");
  if (BpC.size() == 1) sym_cover("collision");
}
ENTRY c02_ring_long() { ring<long>(); }
ENTRY c02_ring_double() { ring<double>(); }
// long words, built by one constructor call, a chain and a balanced product, agree and are irreducible
template <typename S> static void words() {
  using E = expression<S, int>;
  int n = sym_param(0), set = sym_param(1);
  Gen w[8];
  for (int i = 0; i < n; ++i) w[i] = sym_gen(i, set);
  E chain = gen_expr<S>(w[0]);
  monomial<int> m = gen_mono(w[0]);
  for (int i = 1; i < n; ++i) { chain *= gen_expr<S>(w[i]); m.append(gen_mono(w[i])); }
  E direct(scalar_traits<S>::make_const(1), m);
  E left = gen_expr<S>(w[0]), right = gen_expr<S>(w[n / 2]);
  for (int i = 1; i < n / 2; ++i) left *= gen_expr<S>(w[i]);
  for (int i = n / 2 + 1; i < n; ++i) right *= gen_expr<S>(w[i]);
  E bal = left * right;
  check_wellformed(chain);
  check_equal(chain, direct, "a product does not depend on how it is built (constructor)");
  check_equal(chain, bal, "a product does not depend on how it is built (parentheses)");
  sym_observe(chain.size());
  for (auto const& p : chain.get_monomials()) { sym_observe(p.first.size()); sym_observe_f((double)p.second); }
  if (chain.size() > 1) sym_cover("several terms");
}
ENTRY c02_words_long() { words<long>(); }
ENTRY c02_words_double() { words<double>(); }
// powers of one generator and of two generators on one site: nilpotency and power reduction up to degree n
template <typename S> static void powers() {
  using E = expression<S, int>;
  int n = sym_param(0), mult = sym_param(1);
  int idx = (int)sym_bits("i", 32);
  E e(scalar_traits<S>::make_const(1));
  for (int i = 0; i < n; ++i) {
    int what = (int)sym_pick_range(KN[i], 0, 2);
    Gen g{SPIN, mult, what, idx};
    e *= gen_expr<S>(g);
  }
  check_wellformed(e);
  sym_observe(e.size());
  if (e.size() == 0) sym_cover("vanishing");
  if (e.size() > 1) sym_cover("several terms");
}
ENTRY c02_powers_long() { powers<long>(); }
ENTRY c02_powers_double() { powers<double>(); }
// operands of different scalar types: results are well formed and equal to those of converted operands
// params: kind set, terms in A and B
template <typename S1, typename S2> static void mixed() {
  using E1 = expression<S1, int>; using E2 = expression<S2, int>;
  using R = decltype(S1{} + S2{}); using E = expression<R, int>;
  int set = sym_param(0), terms = sym_param(1);
  E1 A = Coef<S1>::get("a", -1, 2) * gen_expr<S1>(sym_gen(0, set));
  E2 B = Coef<S2>::get("b", -1, 2) * gen_expr<S2>(sym_gen(1, set));
  S1 sa = Coef<S1>::get("sa", -1, 1); S2 sb = Coef<S2>::get("sb", -1, 1);
  if (terms > 1) { A += sa; B += sb; }
  E CA(A), CB(B);
  check_wellformed(CA); check_wellformed(CB);
  E p = A + B, m = A - B, n = B - A, q = A * B;
  check_wellformed(p); check_wellformed(m); check_wellformed(n); check_wellformed(q);
  check_equal(p, E(CA + CB), "addition of expressions of different scalar types");
  check_equal(m, E(CA - CB), "subtraction of expressions of different scalar types");
  check_equal(n, E(CB - CA), "subtraction of expressions of different scalar types");
  check_equal(q, E(CA * CB), "multiplication of expressions of different scalar types");
  E s1 = A + sb, s2 = sb + A, s3 = A - sb, s4 = sb - A, s5 = A * sb, s6 = sb * A;
  check_wellformed(s1); check_wellformed(s2); check_wellformed(s3); check_wellformed(s4); check_wellformed(s5); check_wellformed(s6);
  R rb(sb);
  check_equal(s1, E(CA + rb), "scalars of another type"); check_equal(s2, s1, "scalars of another type");
  check_equal(s3, E(CA - rb), "scalars of another type"); check_equal(E(-s4), s3, "scalars of another type");
  check_equal(s5, E(CA * rb), "scalars of another type"); check_equal(s6, s5, "scalars of another type");
  sym_observe(p.size()); sym_observe(m.size()); sym_observe(s3.size());
  if (m.size() == 0) sym_cover("cancellation");
}
ENTRY c02_mixed_int_double() { mixed<int, double>(); }
ENTRY c02_mixed_double_int() { mixed<double, int>(); }
ENTRY c02_mixed_int_long() { mixed<int, long>(); }
