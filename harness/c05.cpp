// C05: linear arithmetic, all operator forms.
#include "ring.h"
#include <utility>
// reference: coefficients of the terms {1, g0, g1, g0*g1} kept in a table by the harness
typedef expression<long, int> EL;
typedef expression<int, int> EI;
typedef expression<std::complex<long>, int> EC;
struct Terms { // pairwise different monomials
  int n = 0;
  monomial<int> m[5];
};
static Terms make_terms(int n) {
  // unit, c+(i), c(j), a+(i), c+(i)c(j)   (i, j symbolic)
  Terms t;
  int i = (int)sym_bits("i", 32), j = (int)sym_bits("j", 32);
  t.m[1] = monomial<int>{static_indices::make_fermion(true, i)};
  t.m[2] = monomial<int>{static_indices::make_fermion(false, j)};
  t.m[3] = monomial<int>{static_indices::make_boson(true, i)};
  t.m[4] = monomial<int>{static_indices::make_fermion(true, i), static_indices::make_fermion(false, j)};
  t.n = n;
  return t;
}
template <typename S> static expression<S, int> build(Terms const& t, S const* c) {
  expression<S, int> e;
  // entered directly so that the operators under test are not involved
  for (int k = 0; k < t.n; ++k) if (!sym_branch(c[k] == S(0))) e.get_monomials().emplace(t.m[k], c[k]);
  return e;
}
template <typename S> static void expect(Terms const& t, expression<S, int> const& e, S const* c, const char* label) {
  size_t nz = 0;
  for (int k = 0; k < t.n; ++k) {
    auto it = e.get_monomials().find(t.m[k]);
    if (sym_branch(c[k] == S(0))) sym_check(it == e.get_monomials().end(), label);
    else { ++nz; sym_check(it != e.get_monomials().end() && it->second == c[k], label); }
  }
  sym_check(e.size() == nz, label);
}
template <typename S> struct Vec { S v[5]; };
template <typename S> static Vec<S> coefs(const char* p, int n, int lo, int hi) {
  Vec<S> r;
  for (int k = 0; k < n; ++k) { std::string s = std::string(p) + char('0' + k); r.v[k] = Coef<S>::get(s.c_str(), lo, hi); }
  return r;
}
#define SUM(R, OP) Vec<R> r; for (int k = 0; k < n; ++k) r.v[k] = R(a.v[k]) OP R(b.v[k]);
template <typename S> static void binary() {
  using E = expression<S, int>;
  int n = sym_param(0), which = sym_param(1);
  Terms t = make_terms(n);
  auto a = coefs<S>("a", n, -2, 2), b = coefs<S>("b", n, -2, 2);
  E A = build<S>(t, a.v), B = build<S>(t, b.v);
  if (which == 0) {
    SUM(S, +)
    expect<S>(t, A + B, r.v, "A + B");
    E C(A); C += B; expect<S>(t, C, r.v, "A += B");
    expect<S>(t, E(A) + E(B), r.v, "rvalue + rvalue");
    expect<S>(t, A, a.v, "operands of + are unchanged"); expect<S>(t, B, b.v, "operands of + are unchanged");
  } else {
    SUM(S, -)
    expect<S>(t, A - B, r.v, "A - B");
    E C(A); C -= B; expect<S>(t, C, r.v, "A -= B");
    expect<S>(t, E(A) - E(B), r.v, "rvalue - rvalue");
    expect<S>(t, A, a.v, "operands of - are unchanged"); expect<S>(t, B, b.v, "operands of - are unchanged");
  }
  sym_observe(A.size()); sym_observe(B.size());
}
ENTRY c05_binary_long() { binary<long>(); }
ENTRY c05_binary_complex() { binary<std::complex<long>>(); }
// expression combined with itself
template <typename S> static void self() {
  using E = expression<S, int>;
  int n = sym_param(0), which = sym_param(1);
  Terms t = make_terms(n);
  auto a = coefs<S>("a", n, -2, 2);
  E A = build<S>(t, a.v);
  Vec<S> z, d;
  for (int k = 0; k < n; ++k) { z.v[k] = S(0); d.v[k] = a.v[k] + a.v[k]; }
  if (which == 0) { A += A; expect<S>(t, A, d.v, "A += A"); }
  if (which == 1) { A -= A; expect<S>(t, A, z.v, "A -= A"); }
  if (which == 2) { expect<S>(t, A + A, d.v, "A + A"); expect<S>(t, A - A, z.v, "A - A"); }
  if (which == 3) { A = A; expect<S>(t, A, a.v, "self assignment"); }
  if (which == 4) { E B(A), P = A * A; B *= B; check_equal(B, P, "A *= A"); }
  sym_observe(A.size());
}
ENTRY c05_self_long() { self<long>(); }
// modular arithmetic: the sum of an expression with itself can vanish term by term
ENTRY c05_self_unsigned() {
  using E = expression<unsigned, int>;
  int n = sym_param(0), which = sym_param(1);
  Terms t = make_terms(n);
  Vec<unsigned> a, d, z;
  for (int k = 0; k < n; ++k) {
    std::string s = std::string("a") + char('0' + k);
    a.v[k] = (unsigned)sym_bits(s.c_str(), 32);
    d.v[k] = a.v[k] + a.v[k]; z.v[k] = 0;
  }
  E A = build<unsigned>(t, a.v);
  if (which == 0) { A += A; expect<unsigned>(t, A, d.v, "A += A"); }
  if (which == 1) { A -= A; expect<unsigned>(t, A, z.v, "A -= A"); }
  if (which == 2) { expect<unsigned>(t, A + A, d.v, "A + A"); expect<unsigned>(t, A - A, z.v, "A - A"); expect<unsigned>(t, A, a.v, "operand is unchanged"); }
  if (which == 3) {
    E B(A), C = A + B;
    B += A; expect<unsigned>(t, B, d.v, "A += copy of A"); expect<unsigned>(t, C, d.v, "A + copy of A");
    for (int k = 0; k < n; ++k) z.v[k] = 0u - a.v[k];
    expect<unsigned>(t, -A, z.v, "-A");
  }
  sym_observe(A.size());
}
// the iteration interface
ENTRY c05_iteration() {
  int n = sym_param(0);
  Terms t = make_terms(n);
  auto a = coefs<long>("a", n, -1, 1);
  EL const A = build<long>(t, a.v);
  typedef EL::const_iterator It;
  std::vector<std::pair<monomial<int> const, long> const*> ref;
  for (auto const& p : A.get_monomials()) ref.push_back(&p);
  int N = (int)ref.size();
  auto at = [&](It const& it, int k) { return &(*it).monomial == &ref[k]->first && &(*it).coeff == &ref[k]->second && it->coeff == ref[k]->second && &it->monomial == &ref[k]->first; };
  sym_check(A.begin() == A.cbegin() && A.end() == A.cend() && !(A.begin() != A.cbegin()), "begin and end of a constant iteration");
  sym_check((A.begin() == A.end()) == (N == 0), "an iteration is empty exactly for a zero expression");
  It f = A.begin(), p = A.begin();
  for (int k = 0; k < N; ++k) {
    sym_check(f != A.end() && at(f, k), "forward iteration yields the terms in order");
    It r = p++;
    sym_check(r == f && at(r, k), "postfix increment returns the previous position");
    It& g = ++f;
    sym_check(&g == &f && p == f && f != r, "prefix increment returns the incremented iterator");
  }
  sym_check(f == A.end() && p == A.end(), "forward iteration ends after the last term");
  It b = A.end(), q = A.cend();
  for (int k = N; k-- > 0;) {
    It old = b;
    It r = q--;
    sym_check(r == old, "postfix decrement returns the previous position");
    It& g = --b;
    sym_check(&g == &b && b == q && b != old && at(b, k), "backward iteration yields the terms in reverse order");
  }
  sym_check(b == A.begin(), "backward iteration ends at the first term");
  if (N > 0) {
    int x = (int)sym_pick_range("x", 0, N), y = (int)sym_pick_range("y", 0, N);
    It u = A.begin(), v = A.begin(), u0, v0;
    for (int k = 0; k < x; ++k) ++u;
    for (int k = 0; k < y; ++k) ++v;
    u0 = u; v0 = v;
    sym_check((u == v) == (x == y) && (u != v) == (x != y), "iterators are equal exactly at the same position");
    using std::swap;
    swap(u, v);
    sym_check(u == v0 && v == u0, "swapped iterators exchange their positions");
    It c(u), m(std::move(v));
    sym_check(c == v0 && m == u0, "copied and moved iterators keep their positions");
  }
  size_t cnt = 0;
  for (auto const& z : A) { sym_check((int)cnt < N && &z.monomial == &ref[cnt]->first && z.coeff == ref[cnt]->second, "range-based loops visit the terms in order"); ++cnt; }
  sym_check((int)cnt == N && A.size() == cnt, "range-based loops visit every term");
  EL B(A); B.clear();
  sym_check(B.size() == 0 && B.begin() == B.end() && B == EL() && (N == 0) == (A == B), "a cleared expression is zero");
}
// unary minus, scalars
template <typename S> static void scalars() {
  using E = expression<S, int>;
  int n = sym_param(0), which = sym_param(1);
  Terms t = make_terms(n);
  auto a = coefs<S>("a", n, -2, 2);
  S z = Coef<S>::get("z", -2, 2);
  E A = build<S>(t, a.v);
  Vec<S> r;
  for (int k = 0; k < n; ++k) r.v[k] = a.v[k];
  if (which == 0) {
    for (int k = 0; k < n; ++k) r.v[k] = S(0) - a.v[k];
    expect<S>(t, -A, r.v, "-A");
    expect<S>(t, -E(A), r.v, "-A (rvalue)");
  } else if (which == 1) {
    for (int k = 0; k < n; ++k) r.v[k] = z * a.v[k];
    expect<S>(t, z * A, r.v, "z * A");
    expect<S>(t, A * z, r.v, "A * z");
    E C(A); C *= z; expect<S>(t, C, r.v, "A *= z");
  } else if (which == 2) {
    r.v[0] = r.v[0] + z;
    expect<S>(t, z + A, r.v, "z + A");
    expect<S>(t, A + z, r.v, "A + z");
    E C(A); C += z; expect<S>(t, C, r.v, "A += z");
  } else {
    r.v[0] = r.v[0] - z;
    expect<S>(t, A - z, r.v, "A - z");
    E C(A); C -= z; expect<S>(t, C, r.v, "A -= z");
    Vec<S> q;
    for (int k = 0; k < n; ++k) q.v[k] = S(0) - a.v[k];
    q.v[0] = q.v[0] + z;
    expect<S>(t, z - A, q.v, "z - A");
  }
  expect<S>(t, A, a.v, "operand is unchanged");
  sym_observe(A.size());
}
ENTRY c05_scalars_long() { scalars<long>(); }
ENTRY c05_scalars_complex() { scalars<std::complex<long>>(); }
// mixed scalar types: int with long, long with complex
template <typename S1, typename S2, typename R> static void mixed() {
  int n = sym_param(0), which = sym_param(1);
  Terms t = make_terms(n);
  auto a = coefs<S1>("a", n, -2, 2);
  auto b = coefs<S2>("b", n, -2, 2);
  expression<S1, int> A = build<S1>(t, a.v);
  expression<S2, int> B = build<S2>(t, b.v);
  if (which == 0) {
    { SUM(R, +) expect<R>(t, A + B, r.v, "A + B (mixed)"); expect<R>(t, B + A, r.v, "B + A (mixed)"); }
    { SUM(R, -) expect<R>(t, A - B, r.v, "A - B (mixed)"); }
    { Vec<R> r; for (int k = 0; k < n; ++k) r.v[k] = R(b.v[k]) - R(a.v[k]); expect<R>(t, B - A, r.v, "B - A (mixed)"); }
  } else if (which == 1) {
    S2 z = b.v[0];
    Vec<R> r;
    for (int k = 0; k < n; ++k) r.v[k] = R(z) * R(a.v[k]);
    expect<R>(t, z * A, r.v, "z * A (mixed)");
    expect<R>(t, A * z, r.v, "A * z (mixed)");
    for (int k = 0; k < n; ++k) r.v[k] = R(a.v[k]);
    r.v[0] = R(a.v[0]) + R(z);
    expect<R>(t, A + z, r.v, "A + z (mixed)");
    expect<R>(t, z + A, r.v, "z + A (mixed)");
    r.v[0] = R(a.v[0]) - R(z);
    expect<R>(t, A - z, r.v, "A - z (mixed)");
    for (int k = 0; k < n; ++k) r.v[k] = R(0) - R(a.v[k]);
    r.v[0] = R(z) - R(a.v[0]);
    expect<R>(t, z - A, r.v, "z - A (mixed)");
  } else {
    expression<R, int> C(A);
    Vec<R> r;
    for (int k = 0; k < n; ++k) r.v[k] = R(a.v[k]);
    expect<R>(t, C, r.v, "conversion to another scalar type");
    C = B;
    for (int k = 0; k < n; ++k) r.v[k] = R(b.v[k]);
    expect<R>(t, C, r.v, "assignment from another scalar type");
    C += A;
    for (int k = 0; k < n; ++k) r.v[k] = R(b.v[k]) + R(a.v[k]);
    expect<R>(t, C, r.v, "+= of another scalar type");
    { expression<R, int> D(C); D = A; for (int k = 0; k < n; ++k) r.v[k] = R(a.v[k]); expect<R>(t, D, r.v, "assignment replaces the former terms"); D = expression<S1, int>(); sym_check(D.size() == 0, "assignment of zero"); }
    C -= A; C -= A;
    for (int k = 0; k < n; ++k) r.v[k] = R(b.v[k]) - R(a.v[k]);
    expect<R>(t, C, r.v, "-= of another scalar type");
  }
  sym_observe(A.size()); sym_observe(B.size());
}
ENTRY c05_mixed_int_long() { mixed<int, long, long>(); }
ENTRY c05_mixed_long_double() { mixed<long, double, double>(); }
// transform: functor is called with every monomial and coefficient
ENTRY c05_transform() {
  int n = sym_param(0);
  Terms t = make_terms(n);
  auto a = coefs<long>("a", n, -2, 2), f = coefs<long>("f", n, -2, 2);
  EL A = build<long>(t, a.v);
  auto fun = [&](monomial<int> const& m, long const& c) -> long {
    for (int k = 0; k < n; ++k) if (m == t.m[k]) { sym_check(c == a.v[k], "transform passes the coefficient"); return f.v[k] * c; }
    sym_check(false, "transform passes a stored monomial");
    return 0;
  };
  EL B = transform(A, fun);
  Vec<long> r;
  for (int k = 0; k < n; ++k) r.v[k] = a.v[k] * f.v[k];
  expect<long>(t, B, r.v, "transform");
  auto it = A.begin();
  size_t cnt = 0;
  for (auto const& p : A.get_monomials()) {
    sym_check(it != A.end() && (*it).monomial == p.first && (*it).coeff == p.second && it->coeff == p.second, "iteration yields the stored terms in order");
    ++it; ++cnt;
  }
  sym_check(it == A.end() && cnt == A.size(), "iteration ends after the last term");
  sym_observe(B.size());
}
