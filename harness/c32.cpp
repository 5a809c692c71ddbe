// C32: coefficient types other than the built-in ones. Z7 - the integers modulo 7 - is a conforming user-defined scalar
// type without default constructor and without compound assignments; boost::rational comes with the library's traits.
#define BOOST_NO_IOSTREAM // text output of rationals is not encoded
#include "ring.h"
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/loperator/loperator.hpp>
#include <libcommute/loperator/hilbert_space.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
struct Z7 {
  uint8_t v;
  Z7() = delete;
  Z7(int x) : v((uint8_t)((x % 7 + 7) % 7)) {}
  struct Raw {};
  Z7(Raw, unsigned x) : v((uint8_t)(x % 7u)) {}
  friend bool operator==(Z7 a, Z7 b) { return a.v == b.v; }
  Z7 operator-() const { return Z7(Raw(), 7u - v); }
  friend Z7 operator+(Z7 a, Z7 b) { return Z7(Raw(), (unsigned)a.v + b.v); }
  friend Z7 operator-(Z7 a, Z7 b) { return Z7(Raw(), 7u + a.v - b.v); }
  friend Z7 operator*(Z7 a, Z7 b) { return Z7(Raw(), (unsigned)a.v * b.v); }
};
static inline std::ostream& operator<<(std::ostream& os, Z7 z) { return os << (int)z.v; }
static int inv7(int d) { d = (d % 7 + 7) % 7; static const int t[7] = {0, 1, 4, 5, 2, 3, 6}; return t[d]; }
namespace libcommute {
template <> struct scalar_traits<Z7> {
  static bool is_zero(Z7 const& x) { return x.v == 0; }
  static Z7 make_const(double x) { return Z7((int)(x * 16)) * Z7(4); } // 16 = 2, 1/2 = 4 (mod 7)
  static Z7 make_const(var_number const& n) {
    if (n.number_type == var_number::integer) return Z7(int(n));
    return Z7(n.numerator()) * Z7(inv7(n.denominator()));
  }
  static Z7 conj(Z7 const& x) { return x; }
};
}
typedef boost::rational<int> Q;
// values used as reference, with arithmetic of their own
template <typename S> struct Ref;
template <> struct Ref<Z7> {
  unsigned v;
  static Ref get(const char* n) { return {(unsigned)sym_range(n, 0, 6)}; }
  static Ref of(long num) { return {(unsigned)((num % 7 + 7) % 7)}; }           // num / 8 (8 = 1 mod 7), see eighths
  static Ref eighths(long num) { return of(num); }
  Z7 make() const { return Z7(Z7::Raw(), v); }
  Ref operator+(Ref b) const { return {(v + b.v) % 7u}; }
  Ref operator-(Ref b) const { return {(7u + v - b.v) % 7u}; }
  Ref operator*(Ref b) const { return {(v * b.v) % 7u}; }
  bool zero() const { return v == 0; }
  bool is(Z7 z) const { return z.v == v; }
};
template <> struct Ref<Q> {
  long n, d; // reduced, d > 0
  static bool small;
  static Ref red(long n, long d) { long a = n < 0 ? -n : n, b = d; while (a) { long t = b % a; b = a; a = t; } return {n / b, d / b}; }
  static Ref get(const char* nm) {
    std::string s = std::string(nm) + "d";
    long d = (long)sym_pick_range(s.c_str(), 1, small ? 2 : 3), n = small ? (long)sym_pick_range(nm, 0, 2) - 1 : (long)sym_pick_range(nm, 0, 4) - 2;
    return red(n, d);
  }
  static Ref of(long num) { return {num, 1}; }
  static Ref eighths(long num) { return red(num, 8); }
  Q make() const { return Q((int)n, (int)d); }
  Ref operator+(Ref b) const { return red(n * b.d + b.n * d, d * b.d); }
  Ref operator-(Ref b) const { return red(n * b.d - b.n * d, d * b.d); }
  Ref operator*(Ref b) const { return red(n * b.n, d * b.d); }
  bool zero() const { return n == 0; }
  bool is(Q z) const { return z.numerator() == n && z.denominator() == d; }
};
bool Ref<Q>::small = false;
template <typename S> using RV = std::vector<Ref<S>>;
template <typename S> static RV<S> refs(const char* p, int n) {
  RV<S> r;
  for (int k = 0; k < n; ++k) { std::string s = std::string(p) + char('0' + k); r.push_back(Ref<S>::get(s.c_str())); }
  return r;
}
static std::vector<monomial<int>> terms() {
  int i = (int)sym_bits("i", 32);
  return {monomial<int>{}, monomial<int>{static_indices::make_fermion(true, i)},
          monomial<int>{static_indices::make_boson(true, i), static_indices::make_boson(false, i)}};
}
template <typename S> static expression<S, int> build(std::vector<monomial<int>> const& t, RV<S> const& c) {
  expression<S, int> e;
  for (size_t k = 0; k < c.size(); ++k) if (!sym_branch(c[k].zero())) e.get_monomials().emplace(t[k], c[k].make());
  return e;
}
template <typename S> static void expect(std::vector<monomial<int>> const& t, expression<S, int> const& e, RV<S> const& c, const char* label) {
  size_t nz = 0;
  for (size_t k = 0; k < c.size(); ++k) {
    auto it = e.get_monomials().find(t[k]);
    if (sym_branch(c[k].zero())) sym_check(it == e.get_monomials().end(), label);
    else { ++nz; sym_check(it != e.get_monomials().end() && c[k].is(it->second), label); }
  }
  sym_check(e.size() == nz, label);
}
template <typename S> static void linear() {
  using E = expression<S, int>;
  int n = sym_param(0), which = sym_param(1);
  auto t = terms();
  auto a = refs<S>("a", n);
  E A = build<S>(t, a);
  if (which < 2) {
    auto b = refs<S>("b", n);
    E B = build<S>(t, b);
    RV<S> r;
    for (int k = 0; k < n; ++k) r.push_back(which ? a[k] - b[k] : a[k] + b[k]);
    if (which == 0) { expect<S>(t, A + B, r, "A + B"); E C(A); C += B; expect<S>(t, C, r, "A += B"); }
    else { expect<S>(t, A - B, r, "A - B"); E C(A); C -= B; expect<S>(t, C, r, "A -= B"); }
  } else {
    auto z = Ref<S>::get("z");
    S Z = z.make();
    RV<S> m, p, s, q, u;
    for (int k = 0; k < n; ++k) {
      m.push_back(z * a[k]);
      p.push_back(k ? a[k] : a[k] + z);
      s.push_back(k ? a[k] : a[k] - z);
      u.push_back(Ref<S>::of(0) - a[k]);
      q.push_back(k ? u[k] : z - a[k]);
    }
    if (which == 2) {
      expect<S>(t, Z * A, m, "z * A"); expect<S>(t, A * Z, m, "A * z"); E C(A); C *= Z; expect<S>(t, C, m, "A *= z");
    } else if (which == 3) {
      expect<S>(t, A + Z, p, "A + z"); expect<S>(t, Z + A, p, "z + A"); E C(A); C += Z; expect<S>(t, C, p, "A += z");
    } else {
      expect<S>(t, A - Z, s, "A - z"); expect<S>(t, Z - A, q, "z - A"); E C(A); C -= Z; expect<S>(t, C, s, "A -= z");
      expect<S>(t, -A, u, "-A");
    }
  }
  expect<S>(t, A, a, "operands are unchanged");
  sym_cover("done");
}
ENTRY c32_linear_z7() { linear<Z7>(); }
ENTRY c32_linear_rational() { linear<Q>(); }
// Products of generators: the structure constants enter exactly, so the result is the image of the product with
// floating point coefficients (multiples of 1/8 for these words; decided by C01) times the product of the coefficients.
template <typename S> static void words() {
  using E = expression<S, int>;
  int n = sym_param(0), set = sym_param(1), form = sym_param(2);
  Ref<Q>::small = true;
  auto q = refs<S>("q", 2);
  Gen g[4];
  for (int i = 0; i < n; ++i) g[i] = sym_gen(i, set);
  expression<double, int> D = gen_expr<double>(g[0]);
  for (int i = 1; i < n; ++i) D *= gen_expr<double>(g[i]);
  Ref<S> f = q[0] * q[1];
  E P;
  if (form == 0) {
    P = q[0].make() * gen_expr<S>(g[0]);
    for (int i = 1; i < n; ++i) P = i == 1 ? P * (q[1].make() * gen_expr<S>(g[i])) : P * gen_expr<S>(g[i]);
  } else if (form == 1) {
    monomial<int> m;
    for (int i = 0; i < n; ++i) m.append(gen_mono(g[i]));
    P = E(q[0].make(), m);
    P *= q[1].make();
  } else { // hermitian conjugate of the reversed product
    E R = q[1].make() * conj(gen_expr<S>(g[n - 1]));
    for (int i = n - 1; i-- > 0;) R *= conj(gen_expr<S>(g[i]));
    P = conj(R) * q[0].make();
  }
  size_t nz = 0;
  for (auto const& d : D.get_monomials()) {
    double v = d.second * 8;
    long k = (long)v;
    sym_check((double)k == v, "structure constants are multiples of 1/8");
    Ref<S> want = f * Ref<S>::eighths(k);
    auto it = P.get_monomials().find(d.first);
    if (sym_branch(want.zero())) sym_check(it == P.get_monomials().end(), "a vanishing coefficient is not stored");
    else { ++nz; sym_check(it != P.get_monomials().end() && want.is(it->second), "coefficients of a product are exact"); }
  }
  sym_check(P.size() == nz, "a product has no further terms");
  if (nz > 1) sym_cover("several terms");
  sym_cover("done");
}
ENTRY c32_words_z7() { words<Z7>(); }
ENTRY c32_words_rational() { words<Q>(); }
// make_const of boost::rational
ENTRY c32_rational_const() {
  using T = scalar_traits<Q>;
  int n = (int)sym_bits("n", 16) - 32768;
  sym_check(T::make_const(double(n)) == Q(n), "integral constants are exact");
  sym_check(T::make_const(var_number(n)) == Q(n), "integral constants are exact");
  int d = (int)sym_pick_range("d", 1, 8), m = (int)sym_pick_range("m", 0, 32) - 16;
  Q r = T::make_const(var_number(m, d));
  sym_check((long)r.numerator() * d == (long)m * r.denominator(), "rational constants are exact");
  sym_check(T::is_zero(r) == (m == 0), "only zero is zero");
  sym_check(T::conj(r) == r, "rationals are real");
  int k = (int)sym_pick_range("k", 0, 32) - 16;
  bool threw = false;
  Q h(0);
  try { h = T::make_const(k / 4.0); } catch (std::runtime_error const&) { threw = true; }
  sym_check(threw == (k % 4 != 0), "a fraction given as a floating point number is rejected");
  if (!threw) sym_check(h == Q(k / 4), "integral constants are exact");
  threw = false;
  try { T::make_const(var_number(k / 4.0)); } catch (std::runtime_error const&) { threw = true; }
  sym_check(threw, "a real structure constant is rejected");
  sym_cover("done");
}
// numbers beyond the range of the integer type of the rationals
ENTRY c32_rational_range() {
  int e = (int)sym_pick_range("e", 0, 70), d = (int)sym_pick_range("d", 0, 2) - 1;
  bool neg = sym_pick_range("neg", 0, 1);
  double x = 1; for (int k = 0; k < e; ++k) x *= 2;
  x = (neg ? -x : x) + d;
  auto one = [&](auto* tag, double bound) {
    typedef std::remove_pointer_t<decltype(tag)> I;
    typedef boost::rational<I> R;
    bool threw = false; R r(0);
    try { r = scalar_traits<R>::make_const(x); } catch (std::runtime_error const&) { threw = true; }
    sym_check(threw == !(x < bound && x >= -bound), "numbers beyond the range of the rational type are rejected");
    if (!threw) { sym_check(r.denominator() == 1 && (double)r.numerator() == x, "integral constants are exact"); sym_cover("inside"); } else sym_cover("outside");
  };
  one(static_cast<int*>(nullptr), 2147483648.0);
  one(static_cast<long*>(nullptr), 9223372036854775808.0);
}
// linear operators with these coefficients
template <typename S, typename V> static void act_lop() {
  int spins = sym_param(0);
  Ref<Q>::small = true;
  using namespace static_indices;
  using E = expression<S, int>;
  E H;
  auto q = refs<S>("q", 2);
  hilbert_space<int> hs(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2));
  if (spins) hs.add(make_space_spin(0.5, 3));
  int i = (int)sym_pick_range("i", 0, 2), j = spins ? (i + 1) % 3 : (int)sym_pick_range("j", 0, 2);
  monomial<int> m1{make_fermion(true, i)}, m2{make_fermion(true, j)};
  if (i != j) m1 = monomial<int>{make_fermion(true, i), make_fermion(false, j)};
  int comp = spins ? (int)sym_pick_range("s", 0, sizeof(V) == 1 ? 2 : 1) : -1;
  if (comp >= 0) m2.append(monomial<int>{make_spin(0.5, (spin_component)comp, 3)});
  bool z1 = sym_branch(q[0].zero()), z2 = sym_branch(q[1].zero());
  if (!z1) H.get_monomials().emplace(m1, q[0].make());
  if (!z2 && !(m1 == m2)) H.get_monomials().emplace(m2, q[1].make());
  auto L = make_loperator(H, hs);
  int dim = spins ? 16 : 8;
  RV<S> in, want;
  std::vector<S> v;
  uint64_t at = sym_pick_range("at", 0, dim - 1);
  auto amp = Ref<S>::get("amp");
  for (int k = 0; k < dim; ++k) { in.push_back((uint64_t)k == at ? amp : Ref<S>::of(k % 3)); want.push_back(Ref<S>::of(0)); v.push_back(in[k].make()); }
  for (auto const& t : H.get_monomials())
    for (int k = 0; k < dim; ++k) {
      uint64_t st = k; int sg = 1; bool ok = true; Ref<S> c = (t.first == m1 ? q[0] : q[1]);
      Gen w[4]; int n = 0;
      for (auto const& x : t.first) { w[n] = read_gen(x); ++n; }
      while (n-- > 0 && ok) {
        if (w[n].alg == FERM) {
          int p = w[n].idx;
          ok = (int)((st >> p) & 1) == (w[n].what ? 0 : 1);
          if (__builtin_popcountll(st & ((1u << p) - 1)) & 1) sg = -sg;
          st ^= 1u << p;
        } else if (w[n].what == 2) { c = c * Ref<S>::eighths(((st >> 3) & 1) ? 4 : -4); }
        else { ok = (int)((st >> 3) & 1) == (w[n].what == 0 ? 0 : 1); st ^= 8; }
      }
      if (ok) { auto add = c * in[k]; want[st] = sg > 0 ? want[st] + add : want[st] - add; }
    }
  std::vector<S> o1 = L(v), o2(v), o3 = L * v;
  L(v, o2);
  for (int k = 0; k < dim; ++k) {
    sym_check(want[k].is(o1[k]), "action on a vector is exact");
    sym_check(want[k].is(o2[k]), "action into a given vector is exact");
    sym_check(want[k].is(o3[k]), "operator * vector is exact");
    sym_check(in[k].is(v[k]), "the operand is unchanged");
  }
  sym_cover("done");
}
ENTRY c32_action_z7() { act_lop<Z7, char>(); }
ENTRY c32_action_rational() { act_lop<Q, int>(); }
