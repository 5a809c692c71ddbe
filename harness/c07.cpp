// C07: user-defined algebras are normalised by exactly the rules they declare.
#include "oracle.h"
#include <tuple>
enum { CLIFF, MAT2, QWEYL, GL, CUBIC, MIXED, MAT2Z, NIL, NALG };
// MAT2: real 2x2 matrices per site, swap returns -1; MAT2Z: same algebra, swap returns 0 and the product
// MIXED: X < G < Z < W on each site, G a commuting element with G^3 = 7G - 6
struct UG { int alg, kind, i, j; };
static int gq, gnil; // q of the q-deformed oscillator, degree of nilpotency
static const int XX = 0, GG = 1, ZZ = 2, WW = 3;
// product of two matrices of a site: sign and kind (-1: unit)
static void matprod(int a, int b, int& s, int& k) {
  s = 1;
  if (a == b) { k = -1; s = a == WW ? -1 : 1; return; }
  k = XX + ZZ + WW - a - b;
  if (a == XX && b == ZZ) s = 1;
  if (a == XX && b == WW) s = 1;
  if (a == ZZ && b == WW) s = -1;
  if (a == ZZ && b == XX) s = -1;
  if (a == WW && b == XX) s = -1;
  if (a == WW && b == ZZ) s = 1;
}
class gen_u final : public generator<int> {
  using base = generator<int>;
  using lf = typename base::linear_function_t;

public:
  UG u;
  explicit gen_u(UG const& u) : base(u.i), u(u) {}
  int algebra_id() const override { return min_user_defined_algebra_id + u.alg; }
  static std::shared_ptr<const base> make(UG const& u) { return std::make_shared<gen_u>(u); }
  static UG const& get(base const& g) { return dynamic_cast<gen_u const&>(g).u; }
  std::shared_ptr<const base> with_kind(int k) const { UG v = u; v.kind = k; return make(v); }
  var_number swap_with(base const& g2, lf& f) const override {
    UG const& v = get(g2);
    f.set(0);
    switch (u.alg) {
      case CLIFF: return -1;
      case MAT2: case MIXED:
        if (u.i != v.i || u.kind == GG || v.kind == GG) return 1;
        return -1;
      case MAT2Z: {
        if (u.i != v.i) return 1;
        int s, k;
        matprod(u.kind, v.kind, s, k);
        f.set(0, with_kind(k), s);
        return 0;
      }
      case QWEYL: // a a+ = q a+ a + 1
        if (u.i != v.i) return 1;
        f.set(1);
        return gq;
      case GL: {
        bool jk = u.j == v.i, li = v.j == u.i;
        UG il{GL, 0, u.i, v.j}, kj{GL, 0, v.i, u.j};
        if (jk && li) f.set(0, make(il), 1, make(kj), -1);
        else if (jk) f.set(0, make(il), 1);
        else if (li) f.set(0, make(kj), -1);
        return 1;
      }
      default: return 1;
    }
  }
  bool simplify_prod(base const& g2, lf& f) const override {
    UG const& v = get(g2);
    switch (u.alg) {
      case CLIFF:
        if (u.i != v.i) return false;
        f.set((u.i & 1) ? -1 : 1);
        return true;
      case MAT2: case MIXED: case MAT2Z: {
        if (u.i != v.i || u.kind == GG || v.kind == GG) return false;
        int s, k;
        matprod(u.kind, v.kind, s, k);
        if (k < 0) f.set(s); else f.set(0, with_kind(k), s);
        return true;
      }
      default: return false;
    }
  }
  bool reduce_power(int power, lf& f) const override {
    if (u.alg == CUBIC && u.kind == 0 && power == 3) { // g^3 = 7 g - 6 + t
      UG t{CUBIC, 1, 0, 0};
      f.set(-6, make(u), 7, make(t), 1);
      return true;
    }
    if (u.alg == MIXED && u.kind == GG && power == 3) { f.set(-6, make(u), 7); return true; }
    if (u.alg == NIL && power >= gnil) { f.set(0); return true; }
    return false;
  }
  void conj(lf& f) const override {
    int s = 1; UG v = u;
    if (u.alg == CLIFF && (u.i & 1)) s = -1;
    if ((u.alg == MAT2 || u.alg == MAT2Z || u.alg == MIXED) && u.kind == WW) s = -1;
    if (u.alg == QWEYL) v.kind = 1 - u.kind;
    if (u.alg == GL) { v.i = u.j; v.j = u.i; }
    f.set(0, make(v), s);
  }

protected:
  static std::tuple<int, int> key(UG const& g) {
    if (g.alg == GL) return {g.i, g.j};
    if (g.alg == MAT2 || g.alg == MIXED || g.alg == MAT2Z) return {g.i, g.kind};
    if (g.alg == QWEYL || g.alg == CUBIC) return {g.kind, g.i};
    return {g.i, 0};
  }
  bool equal(base const& g) const override { return key(u) == key(get(g)); }
  bool less(base const& g) const override { return key(u) < key(get(g)); }
  bool greater(base const& g) const override { return key(u) > key(get(g)); }
};
// ---- representation ----
struct St { // one state: sites keyed by (algebra class, index)
  int n = 0;
  int alg[12], idx[12];
  int64_t q[12]; // bit / occupation / root number
  bool fixed = false;
  int cls(int a) const { return a == MAT2Z ? MAT2 : a; }
  int find(int a, int i) const {
    for (int k = 0; k < n; ++k) if (alg[k] == a && sym_branch(idx[k] == i)) return k;
    return -1;
  }
  int site(int a, int i) {
    int k = find(a, i);
    if (k >= 0) return k;
    if (fixed || n == 12) { sym_check(false, "every generator of the result lives on a site of the factors"); return 0; }
    static const char* nm[12] = {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9", "q10", "q11"};
    alg[n] = a; idx[n] = i;
    if (a == CLIFF || a == MAT2 || a == MAT2Z || a == 100) q[n] = (int64_t)sym_range(nm[n], 0, 1);
    else if (a == MIXED) q[n] = (int64_t)sym_pick_range(nm[n], 0, 5);
    else if (a == QWEYL) q[n] = (int64_t)sym_pick_range(nm[n], 0, 3);
    else if (a == GL) q[n] = (int64_t)sym_range(nm[n], 0, 0xffff);
    else q[n] = (int64_t)sym_pick_range(nm[n], 0, 2);
    return n++;
  }
  void touch(UG const& g) {
    site(g.alg, g.i);
    if (g.alg == GL) site(GL, g.j);
  }
};
static int64_t qnum(int64_t n) { int64_t r = 0, p = 1; for (int64_t i = 0; i < n; ++i) { r += p; p *= gq; } return r; }
static int troot; // value of the central element of CUBIC: 0 or 12
static int64_t root(int64_t k) {
  static const int r0[3] = {1, 2, -3}, r1[3] = {3, -1, -2};
  return troot ? r1[k] : r0[k];
}
static void act(St& s, UG const& g, int64_t& a) {
  if (g.alg == CUBIC) {
    a *= g.kind ? (troot ? 12 : 0) : root(s.q[s.site(CUBIC, g.i)]);
    return;
  }
  int k = s.site(g.alg, g.i);
  switch (g.alg) {
    case CLIFF: case 100: {
      int64_t par = 0;
      for (int m = 0; m < k; ++m) if (s.alg[m] == g.alg) par ^= s.q[m];
      if (g.alg == CLIFF) { // even index: c + c+, odd index: c - c+
        if (g.i & 1) par ^= 1 ^ s.q[k];
      } else if (s.q[k] != (g.kind ? 0 : 1)) a = 0;
      if (par & 1) a = -a;
      s.q[k] ^= 1;
      break;
    }
    case MAT2: case MAT2Z: case MIXED: {
      int64_t bit = g.alg == MIXED ? s.q[k] % 2 : s.q[k], rt = g.alg == MIXED ? s.q[k] / 2 : 0;
      if (g.kind == GG) { static const int r[3] = {1, 2, -3}; a *= r[rt]; break; }
      if (g.kind == ZZ || g.kind == WW) { if (bit) a = -a; }
      if (g.kind != ZZ) bit ^= 1;
      s.q[k] = 2 * rt + bit;
      if (g.alg != MIXED) s.q[k] = bit;
      break;
    }
    case QWEYL:
      if (g.kind == 0) s.q[k]++;
      else { if (s.q[k] == 0) a = 0; else { a *= qnum(s.q[k]); s.q[k]--; } }
      break;
    case GL: {
      int l = s.site(GL, g.j);
      a *= s.q[l];
      s.q[l]--; s.q[k]++;
      break;
    }
    case NIL: { // N_i raises a level below gnil: x^gnil = 0; level counted from q
      break;
    }
  }
}
struct Img { int64_t q[12]; int64_t a; };
struct Sum {
  std::vector<Img> t;
  void add(St const& s0, St const& s, int64_t a) {
    // shifts are concrete for every algebra except bits, which are compared as values
    for (auto& x : t) {
      bool eq = true;
      for (int i = 0; i < s.n && eq; ++i) eq = sym_branch(x.q[i] - s0.q[i] == s.q[i] - s0.q[i]);
      if (eq) { x.a += a; return; }
    }
    Img m; for (int i = 0; i < 12; ++i) m.q[i] = i < s.n ? s.q[i] : 0;
    m.a = a; t.push_back(m);
  }
  int64_t get(St const& s0, Img const& m) const {
    for (auto& x : t) { bool eq = true; for (int i = 0; i < s0.n && eq; ++i) eq = sym_branch(x.q[i] - s0.q[i] == m.q[i] - s0.q[i]); if (eq) return x.a; }
    return 0;
  }
};
static UG read_u(generator<int> const& g) {
  if (is_fermion(g)) return {100, (int)dynamic_cast<generator_fermion<int> const&>(g).dagger(), std::get<0>(g.indices()), 0};
  return gen_u::get(g);
}
static void apply_word(St const& s0, std::vector<UG> const& w, int64_t c, Sum& r) {
  St s(s0);
  int64_t a = c;
  for (size_t i = w.size(); i-- > 0;) act(s, w[i], a);
  r.add(s0, s, a);
}
template <typename E> static void apply_expr(St const& s0, E const& e, Sum& r) {
  for (auto const& p : e.get_monomials()) {
    std::vector<UG> w;
    for (auto const& g : p.first) w.push_back(read_u(g));
    int64_t c = (int64_t)p.second;
    sym_check((decltype(p.second))c == p.second, "coefficients are generated by the structure constants");
    apply_word(s0, w, c, r);
  }
}
static void same(St const& s0, Sum const& x, Sum const& y, const char* label) {
  for (auto& t : x.t) sym_check(t.a == y.get(s0, t), label);
  for (auto& t : y.t) sym_check(t.a == x.get(s0, t), label);
}
template <typename E> static void canonical(E const& e) {
  typename E::monomial_t const* prev = nullptr;
  for (auto const& p : e.get_monomials()) {
    auto const& m = p.first;
    sym_check(!(p.second == 0), "no zero coefficient is stored");
    int run = 1;
    for (size_t i = 1; i < m.size(); ++i) {
      sym_check(!(m[i] < m[i - 1]), "stored monomials are ordered");
      UG a = read_u(m[i - 1]), b = read_u(m[i]);
      run = m[i] == m[i - 1] ? run + 1 : 1;
      if (a.alg != b.alg) continue;
      bool s = sym_branch(a.i == b.i);
      if (a.alg == CLIFF) sym_check(!s, "no reducible product is stored");
      if ((a.alg == MAT2 || a.alg == MAT2Z || a.alg == MIXED) && a.kind != GG && b.kind != GG) sym_check(!s, "no reducible product is stored");
      if ((a.alg == CUBIC && a.kind == 0) || (a.alg == MIXED && a.kind == GG)) sym_check(run < 3, "no reducible power is stored");
      if (a.alg == NIL) sym_check(run < gnil, "no reducible power is stored");
    }
    if (prev) sym_check(*prev < m, "each monomial is stored once, in order");
    prev = &m;
  }
}
static UG sym_ug(int n, int alg) {
  static const char* J[8] = {"j0", "j1", "j2", "j3", "j4", "j5", "j6", "j7"};
  UG g{alg, 0, 0, 0};
  if (alg == NALG) { // one of three commuting families
    int f = (int)sym_pick_range(KN[n], 0, 4);
    g.alg = f < 2 ? 100 : f < 4 ? MAT2 : CLIFF;
    g.kind = f < 2 ? f : f == 2 ? XX : ZZ;
    g.i = (int)sym_bits(IX[n], 32);
    return g;
  }
  if (alg == MAT2 || alg == MAT2Z) { int k = (int)sym_pick_range(KN[n], 0, 2); g.kind = k == 0 ? XX : k == 1 ? ZZ : WW; }
  if (alg == MIXED) g.kind = (int)sym_pick_range(KN[n], 0, 3);
  if (alg == QWEYL) g.kind = (int)sym_pick_range(KN[n], 0, 1);
  if (alg == CUBIC && n == 0) g.kind = (int)sym_pick_range(KN[n], 0, 1);
  g.i = (int)sym_bits(IX[n], 32);
  if (alg == CUBIC && g.kind == 1) g.i = 0;
  if (alg == GL) g.j = (int)sym_bits(J[n], 32);
  return g;
}
template <typename S> static expression<S, int> uexpr(UG const& g) {
  using E = expression<S, int>;
  if (g.alg == 100) return E(S(1), typename E::monomial_t{static_indices::make_fermion((bool)g.kind, g.i)});
  return E(S(1), typename E::monomial_t{gen_u::make(g)});
}
// params: algebra, n, mode: 0 chain of products, 1 one monomial, 2 conjugate; number of independent indices (0: n)
template <typename S> static void words() {
  int alg = sym_param(0), n = sym_param(1), mode = sym_param(2);
  gq = alg == QWEYL ? (int)sym_pick_range("q", 0, 4) - 2 : 0;
  if (alg == QWEYL) sym_assume(gq != 0);
  gnil = alg == NIL ? (int)sym_pick_range("nil", 3, 5) : 3;
  troot = alg == CUBIC ? (int)sym_pick_range("t", 0, 1) : 0;
  std::vector<UG> w;
  for (int i = 0; i < n; ++i) w.push_back(sym_ug(i, alg));
  if (sym_param(3)) for (int i = sym_param(3); i < n; ++i) w[i].i = w[i % sym_param(3)].i; // number of different indices
  using E = expression<S, int>;
  E e;
  if (mode == 1) {
    std::vector<typename E::monomial_t::gen_ptr_type> v;
    for (auto const& g : w) { if (g.alg == 100) v.push_back(static_indices::make_fermion((bool)g.kind, g.i)); else v.push_back(gen_u::make(g)); }
    e = E(S(1), typename E::monomial_t(v));
  } else {
    e = uexpr<S>(w[0]);
    for (int i = 1; i < n; ++i) e *= uexpr<S>(w[i]);
  }
  canonical(e);
  int64_t sign = 1;
  if (mode == 2) {
    e = conj(e);
    std::vector<UG> v;
    for (size_t i = w.size(); i-- > 0;) {
      UG g = w[i];
      if (g.alg == CLIFF && (g.i & 1)) sign = -sign;
      if ((g.alg == MAT2 || g.alg == MAT2Z || g.alg == MIXED) && g.kind == WW) sign = -sign;
      if (g.alg == QWEYL || g.alg == 100) g.kind = 1 - g.kind;
      if (g.alg == GL) std::swap(g.i, g.j);
      v.push_back(g);
    }
    w = v;
    canonical(e);
  }
  if (alg == NIL) { // commuting nilpotent elements: the word itself, or nothing
    int worst = 0;
    for (int i = 0; i < n; ++i) { int c = 0; for (int j = 0; j < n; ++j) c += sym_branch(w[i].i == w[j].i); if (c > worst) worst = c; }
    sym_check((e.size() == 0) == (worst >= gnil), "nilpotent powers vanish and only those");
    if (worst < gnil) {
      sym_check(e.size() == 1 && e.get_monomials().begin()->second == 1 && (int)e.get_monomials().begin()->first.size() == n, "non-vanishing products of nilpotent elements are kept");
      sym_cover("kept");
    } else sym_cover("vanishing");
    return;
  }
  St s0;
  for (auto const& g : w) s0.touch(g);
  s0.fixed = true;
  Sum a, b;
  apply_word(s0, w, sign, a);
  apply_expr(s0, e, b);
  same(s0, a, b, "the value of a product under a representation of the algebra is preserved");
  sym_observe(e.size());
}
ENTRY c07_words_long() { words<long>(); }
ENTRY c07_words_double() { words<double>(); }
