// C35: structure constants and linear functions hold exactly what they are given.
#include "oracle.h"
#include <sstream>
#include <limits>
typedef linear_function<int> LF;
static const double REALS[8] = {0.0, -0.0, 1.0, -1.0, 0.5, 5e-324, 1e300, -3.75};
struct Num { int kind, a, b, xi; }; // a of kind 0, a/b of kind 1, REALS[xi] of kind 2
static Num num(const char* k, const char* a, const char* b, const char* x) {
  Num n{(int)sym_pick_range(k, 0, 2), 0, 1, 0};
  if (n.kind == 2) n.xi = (int)sym_pick_range(x, 0, 7);
  else { n.a = (int)sym_bits(a, 32); if (n.kind == 1) n.b = (int)sym_bits(b, 32); }
  return n;
}
static var_number make(Num const& n) { return n.kind == 0 ? var_number(n.a) : n.kind == 1 ? var_number(n.a, n.b) : var_number(REALS[n.xi]); }
static bool holds(var_number const& v, Num const& n) {
  switch (n.kind) {
    case 0: return v.number_type == var_number::integer && sym_branch(int(v) == n.a);
    case 1: return v.number_type == var_number::rational && sym_branch(v.numerator() == n.a) && sym_branch(v.denominator() == n.b);
    default: { double d = double(v); return v.number_type == var_number::real && d == REALS[n.xi] && std::signbit(d) == std::signbit(REALS[n.xi]); }
  }
}
static bool same(Num const& m, Num const& n) {
  if (m.kind != n.kind) return false;
  if (m.kind == 2) return REALS[m.xi] == REALS[n.xi];
  return sym_branch(m.a == n.a) && (m.kind == 0 || sym_branch(m.b == n.b));
}
ENTRY c35_number() {
  Num m = num("mk", "ma", "mb", "mx"), n = num("nk", "na", "nb", "nx");
  var_number v = make(m), w = make(n);
  sym_check(holds(v, m) && holds(w, n), "a constant holds the value and the kind it was given");
  bool eq = same(m, n);
  sym_check((v == w) == eq && (w == v) == eq, "constants are equal if and only if kind and value agree");
  sym_check((v != w) == !eq && (w != v) == !eq, "!= is the negation of ==");
  bool zero = m.kind == 2 ? REALS[m.xi] == 0 : sym_branch(m.a == 0);
  sym_check(v.is_zero() == zero, "is_zero() is true exactly for a stored zero");
  var_number c(v), d; sym_check(holds(c, m) && d.number_type == var_number::integer && int(d) == 0, "copies and the default value");
  d = v; v = w; sym_check(holds(d, m) && holds(v, n) && holds(c, m), "assigned constants are independent");
  sym_cover(eq ? "equal" : "different"); sym_cover(zero ? "zero" : "nonzero");
}
// values and printed forms of small constants
ENTRY c35_value() {
  int a = (int)sym_pick_range("a", 0, 8) - 4, b = (int)sym_pick_range("b", 1, 4), k = (int)sym_pick_range("k", 0, 2);
  if (sym_pick_range("nb", 0, 1)) b = -b;
  var_number v = k == 0 ? var_number(a) : k == 1 ? var_number(a, b) : var_number(a * 0.25);
  double want = k == 0 ? a : k == 1 ? (double)a / (double)b : a * 0.25;
  sym_check(double(v) == want, "the value of a constant as a floating point number");
  std::stringstream got, exp;
  got << v;
  if (k == 0) exp << a; else if (k == 1) exp << a << '/' << b; else exp << a * 0.25;
  sym_check(got.str() == exp.str(), "the printed form of a constant");
  sym_check(scalar_traits<double>::make_const(v) == want && scalar_traits<float>::make_const(v) == (float)want, "real scalars take the value of a constant");
  sym_check(scalar_traits<std::complex<double>>::make_const(v) == std::complex<double>(want, 0), "complex scalars take the value of a constant");
  sym_cover("done");
}
// linear functions: n terms in every way to construct and to replace them
static const char* TB[4] = {"t0", "t1", "t2", "t3"};
static const char* TK[4] = {"k0", "k1", "k2", "k3"};
static const char* TA[4] = {"a0", "a1", "a2", "a3"};
static const char* TD[4] = {"d0", "d1", "d2", "d3"};
static const char* TX[4] = {"x0", "x1", "x2", "x3"};
struct Term { int basis; Num c; };
static Num nsmall(int k) { Num n{(int)sym_pick_range(TK[k], 0, 2), 0, 1, 0}; if (n.kind == 2) n.xi = (int)sym_pick_range(TX[k], 3, 4); else { n.a = (int)sym_bits(TA[k], 32); if (n.kind == 1) n.b = (int)sym_bits(TD[k], 32); } return n; }
template <typename F> static bool is(F const& f, Num const& c, std::vector<Term> const& t) {
  if (!holds(f.const_term, c) || f.terms.size() != t.size()) return false;
  for (size_t i = 0; i < t.size(); ++i) if (!sym_branch(f.terms[i].first == t[i].basis) || !holds(f.terms[i].second, t[i].c)) return false;
  return true;
}
ENTRY c35_linear() {
  int n = sym_param(0), how = (int)sym_pick_range("how", 0, 2);
  Num c{(int)sym_pick_range("ck", 0, 2), 0, 1, 0};
  if (c.kind == 2) c.xi = (int)sym_pick_range("cx", 0, 4); else { c.a = (int)sym_bits("ca", 32); if (c.kind == 1) c.b = (int)sym_bits("cb", 32); }
  std::vector<Term> t;
  for (int i = 0; i < n; ++i) t.push_back({(int)sym_bits(TB[i], 32), nsmall(i)});
  std::vector<std::pair<int, var_number>> list;
  for (auto const& x : t) list.emplace_back(x.basis, make(x.c));
  auto built = [&]() -> LF {
    if (how == 0) return LF(make(c), list);
    switch (n) {
      case 0: return LF(make(c));
      case 1: return LF(make(c), t[0].basis, make(t[0].c));
      case 2: return LF(make(c), t[0].basis, make(t[0].c), t[1].basis, make(t[1].c));
      default: return LF(make(c), t[0].basis, make(t[0].c), t[1].basis, make(t[1].c), t[2].basis, make(t[2].c));
    }
  };
  LF f;
  sym_check(f.vanishing() && f.terms.empty(), "a default function vanishes");
  if (how < 2) f = built();
  else {
    // whatever was there before is replaced
    int before = (int)sym_pick_range("before", 0, 3);
    f.set(7, 1, var_number(1, 2), 2, 3); for (int i = 0; i < before; ++i) f.terms.emplace_back(i, 1.5);
    if (sym_pick_range("aslist", 0, 1)) f.set(make(c), list);
    else switch (n) {
      case 0: f.set(make(c)); break;
      case 1: f.set(make(c), t[0].basis, make(t[0].c)); break;
      case 2: f.set(make(c), t[0].basis, make(t[0].c), t[1].basis, make(t[1].c)); break;
      default: f.set(make(c), t[0].basis, make(t[0].c), t[1].basis, make(t[1].c), t[2].basis, make(t[2].c));
    }
  }
  sym_check(is(f, c, t), "a linear function holds the constant and the terms it was given, in their order");
  bool czero = c.kind == 2 ? REALS[c.xi] == 0 : sym_branch(c.a == 0);
  if (n == 0) sym_check(f.vanishing() == czero, "a constant function vanishes exactly for a zero constant");
  else if (!czero) sym_check(!f.vanishing(), "a function with a constant does not vanish");
  else { bool allz = true; for (auto const& x : t) allz = allz && x.c.kind != 2 && sym_branch(x.c.a == 0); if (!allz) sym_check(!f.vanishing(), "a function with a non-zero term does not vanish"); }
  LF g(f), h; h = f; LF m(std::move(f));
  sym_check(is(g, c, t) && is(h, c, t) && is(m, c, t), "copies of a linear function hold the same");
  g.set(0); sym_check(is(h, c, t) && g.vanishing(), "changing a copy leaves the original");
  sym_cover(czero ? "no constant" : "constant");
}
// basis objects that cannot be copied
ENTRY c35_move_only() {
  typedef std::unique_ptr<int> P;
  typedef linear_function<P> ML;
  int a = (int)sym_bits("a", 32), b = (int)sym_bits("b", 32), c = (int)sym_bits("c", 32);
  static_assert(!std::is_copy_constructible<ML>::value && !std::is_copy_assignable<ML>::value, "move only");
  static_assert(std::is_copy_constructible<LF>::value, "copyable");
  ML f(var_number(c), P(new int(a)), 2, P(new int(b)), var_number(1, 2));
  auto good = [&](ML const& m) { return m.terms.size() == 2 && sym_branch(*m.terms[0].first == a) && m.terms[0].second == 2 && sym_branch(*m.terms[1].first == b) && m.terms[1].second == var_number(1, 2) && m.const_term == var_number(c); };
  sym_check(good(f), "terms are moved in");
  ML g(std::move(f)); sym_check(good(g), "a moved function holds the same");
  ML h; h = std::move(g); sym_check(good(h), "a move-assigned function holds the same");
  std::vector<std::pair<P, var_number>> list; list.emplace_back(P(new int(a)), 2); list.emplace_back(P(new int(b)), var_number(1, 2));
  ML l(var_number(c), std::move(list)); sym_check(good(l), "a list of terms is moved in");
  h.set(1, P(new int(b)), -1); sym_check(h.terms.size() == 1 && sym_branch(*h.terms[0].first == b) && h.terms[0].second == -1 && h.const_term == 1, "set() replaces all terms");
  h.set(2); sym_check(h.terms.empty() && h.const_term == 2 && !h.vanishing(), "set() with a constant removes all terms");
  sym_cover("done");
}
// a constant acts through its value, in whichever form it is given: deformed oscillators y x = q x y + k + r x + s y, x x = u x + v
struct Rel { int f; int q, k, r, s, u, v; bool sq; };
static Rel rel;
static var_number form(int x) { return rel.f == 0 ? var_number(x) : rel.f == 1 ? var_number(x * 3, 3) : rel.f == 2 ? var_number((double)x) : var_number(-x, -1); }
class gen_q final : public generator<int> {
  using lf = typename generator<int>::linear_function_t;
public:
  explicit gen_q(int i) : generator<int>(i) {}
  int algebra_id() const override { return min_user_defined_algebra_id + 1; }
  var_number swap_with(generator<int> const& g2, lf& f) const override {
    f.set(form(rel.k), g2.shared_from_this(), form(rel.r), shared_from_this(), form(rel.s));
    return form(rel.q);
  }
  bool simplify_prod(generator<int> const& g2, lf& f) const override {
    if (!rel.sq || !(*this == g2)) return false;
    f.set(form(rel.v), shared_from_this(), form(rel.u));
    return true;
  }
};
// coefficient of monomial given by the two powers
static int coeff_of(expression<double, int> const& e, int nx, int ny) {
  for (auto const& m : e) {
    int x = 0, y = 0; for (auto const& g : m.monomial) (std::get<0>(g.indices()) == 0 ? x : y)++;
    if (x == nx && y == ny) { double c = m.coeff; sym_check(c == (int)c && c != 0, "coefficients are sums of products of the constants"); return (int)c; }
  }
  return 0;
}
ENTRY c35_forms() {
  typedef expression<double, int> E;
  typedef monomial<int> M;
  rel = Rel{sym_param(0), (int)sym_pick_range("q", 0, 3) - 1, (int)sym_pick_range("k", 0, 2) - 1, (int)sym_pick_range("r", 0, 2) - 1, (int)sym_pick_range("s", 0, 2) - 1, 0, 0, false};
  auto x = std::make_shared<gen_q>(0), y = std::make_shared<gen_q>(1);
  auto one = [](std::shared_ptr<const generator<int>> const& g) { return E(1.0, M(std::vector<std::shared_ptr<const generator<int>>>{g})); };
  E yx(1.0, M(std::vector<std::shared_ptr<const generator<int>>>{y, x}));
  E want = one(x) * one(y) * (double)rel.q + one(x) * (double)rel.r + one(y) * (double)rel.s + (double)rel.k;
  sym_check(coeff_of(yx, 1, 1) == rel.q && coeff_of(yx, 1, 0) == rel.r && coeff_of(yx, 0, 1) == rel.s && coeff_of(yx, 0, 0) == rel.k, "a transposition yields c g2 g1 + f");
  sym_check(yx.size() == size_t((rel.q != 0) + (rel.r != 0) + (rel.s != 0) + (rel.k != 0)), "vanishing terms are not stored");
  sym_check(yx == want && one(y) * one(x) == want, "the product equals the relation written as an expression");
  sym_cover(rel.q == 0 ? "no swap" : "swap");
}
ENTRY c35_square() {
  typedef expression<double, int> E;
  typedef monomial<int> M;
  int n = sym_param(1);
  rel = Rel{sym_param(0), 1, 0, 0, 0, (int)sym_pick_range("u", 0, 4) - 2, (int)sym_pick_range("v", 0, 4) - 2, true};
  std::vector<std::shared_ptr<const generator<int>>> w;
  auto x = std::make_shared<gen_q>(0);
  // x^n = A x + B
  int A = 1, B = 0;
  for (int i = 0; i < n; ++i) w.push_back(x);
  for (int i = 1; i < n; ++i) { int a = A * rel.u + B, b = A * rel.v; A = a; B = b; }
  E e(1.0, M(w));
  sym_check(coeff_of(e, 1, 0) == A && coeff_of(e, 0, 0) == B && e.size() == size_t((A != 0) + (B != 0)), "a power reduces by the declared square");
  sym_cover(A || B ? "kept" : "vanishing");
}
// zero test of real and complex scalars: |x| < 100 eps
template <typename S> static void zero_of() {
  S const eps = std::numeric_limits<S>::epsilon();
  static const int Q[14] = {0, 1, 2, 3, 50, 99, 100, 101, 150, 200, 1000, 100000, -1, -2};
  int q = (int)sym_pick_range("q", 0, 13), p = (int)sym_pick_range("p", 0, 13);
  bool nq = sym_pick_range("nq", 0, 1);
  auto val = [&](int i) { return Q[i] == -1 ? std::numeric_limits<S>::infinity() : Q[i] == -2 ? std::numeric_limits<S>::quiet_NaN() : Q[i] * eps; };
  S a = nq ? -val(q) : val(q), b = val(p);
  auto z = [&](int i) { return Q[i] >= 0 && Q[i] < 100; };
  sym_check(scalar_traits<S>::is_zero(a) == z(q), "real numbers below 100 epsilon count as zero, all others do not");
  typedef std::complex<S> C;
  sym_check(scalar_traits<C>::is_zero(C(a, b)) == (z(q) && z(p)) && scalar_traits<C>::is_zero(C(b, a)) == (z(q) && z(p)), "complex numbers count as zero if both parts do");
  if (Q[q] >= 0 && Q[p] >= 0) sym_check(scalar_traits<C>::conj(C(a, b)) == C(a, -b) && scalar_traits<S>::conj(a) == a, "conjugation of scalars");
  sym_cover(z(q) ? "zero" : "nonzero");
}
ENTRY c35_zero() { switch (sym_param(0)) { case 0: zero_of<double>(); break; case 1: zero_of<float>(); break; default: {
  long n = (long)sym_bits("n", 64); int i = (int)sym_bits("i", 32);
  sym_check(scalar_traits<long>::is_zero(n) == sym_branch(n == 0) && scalar_traits<int>::is_zero(i) == sym_branch(i == 0), "integers are zero exactly if they are 0");
  sym_check(scalar_traits<long>::conj(n) == n && scalar_traits<long>::make_const(var_number(i)) == (long)i && scalar_traits<int>::make_const(var_number(i)) == i, "integer scalars take integer constants");
  sym_cover("zero"); sym_cover("nonzero");
} } }
