// C29: the printed form determines the expression (checked by an independent parser).
#include "oracle.h"
#include <libcommute/expression/factories_dyn.hpp>
#include <sstream>
namespace dyn = libcommute::dynamic_indices;
struct Ix { bool str; long i; std::string s; };
struct PG { std::string name; std::vector<Ix> ix; int power; };
struct PT { double re, im; bool cplx; std::vector<PG> g; bool unit; };
static bool digit(char c) { return sym_branch(c >= '0' && c <= '9'); }
struct Parser {
  std::string s; size_t p = 0; bool bad = false;
  bool at(char c) { return p < s.size() && sym_branch(s[p] == c); }
  bool eat(char c) { if (at(c)) { ++p; return true; } return false; }
  void need(char c) { if (!eat(c)) bad = true; }
  long integer() {
    bool neg = eat('-'); long v = 0; int n = 0;
    while (p < s.size() && digit(s[p])) { v = v * 10 + (s[p] - '0'); ++p; ++n; }
    if (!n) bad = true;
    return neg ? -v : v;
  }
  double number() { // decimal fraction with a short mantissa
    static const double T[8] = {1, 10, 100, 1e3, 1e4, 1e5, 1e6, 1e7};
    bool neg = eat('-'); double v = 0; int n = 0, d = 0;
    while (p < s.size() && digit(s[p])) { v = v * 10 + (s[p] - '0'); ++p; ++n; }
    if (eat('.')) while (p < s.size() && digit(s[p])) { v = v * 10 + (s[p] - '0'); ++p; ++d; }
    if (!n || d > 7) { bad = true; d = 0; }
    v /= T[d];
    return neg ? -v : v;
  }
  static bool letter(char c) { return (c >= 'a' && c <= 'z'); }
  Ix index() {
    Ix r{false, 0, ""};
    if (p < s.size() && sym_branch(letter(s[p]))) { r.str = true; while (p < s.size() && sym_branch(letter(s[p]))) r.s.push_back(s[p++]); }
    else r.i = integer();
    return r;
  }
  PG gen() {
    PG r; r.power = 1;
    while (p < s.size() && !at('(')) { if (at(' ') || at(']') || r.name.size() > 12) { bad = true; return r; } r.name.push_back(s[p++]); }
    need('(');
    if (!eat(')')) { do r.ix.push_back(index()); while (!bad && eat(',')); need(')'); }
    return r;
  }
  PT term(int sc) {
    PT t; t.im = 0; t.cplx = false; t.unit = true;
    if (sc == 2) { need('('); t.re = number(); need(','); t.im = number(); need(')'); t.cplx = true; }
    else if (sc == 1) t.re = number();
    else t.re = (double)0, ival.push_back(integer());
    if (eat('*')) {
      t.unit = false;
      while (p < s.size() && !at(' ') && !bad) {
        if (eat('[')) { PG g = gen(); need(']'); need('^'); g.power = (int)sym_pick((uint64_t)integer()); t.g.push_back(g); }
        else t.g.push_back(gen());
      }
      if (t.g.empty()) bad = true;
    }
    return t;
  }
  std::vector<long> ival;
  std::vector<PT> all(int sc) {
    std::vector<PT> r;
    do r.push_back(term(sc)); while (!bad && p < s.size() && eat(' ') && (need('+'), need(' '), true));
    if (p != s.size()) bad = true;
    return r;
  }
};
static std::string gen_name(Gen const& g) {
  if (g.alg == FERM) return g.what ? "C+" : "C";
  if (g.alg == BOS) return g.what ? "A+" : "A";
  std::string s = "S";
  if (g.mult > 2) { // the spin as an integer or a fraction
    int t = g.mult - 1, q = t % 2 ? t : t / 2; std::string n;
    for (; q; q /= 10) n.insert(n.begin(), (char)('0' + q % 10));
    s += n + (t % 2 ? "/2" : "");
  }
  return s + (g.what == 0 ? "+" : g.what == 1 ? "-" : "z");
}
template <typename T> static bool ix_eq(Ix const& a, T const& b) { return !a.str && sym_branch(a.i == (long)b); }
static bool ix_eq(Ix const& a, std::string const& b) {
  if (!a.str || a.s.size() != b.size()) return false;
  for (size_t i = 0; i < b.size(); ++i) if (!sym_branch(a.s[i] == b[i])) return false;
  return true;
}
static bool ixs_eq(std::vector<Ix> const& v, std::tuple<int> const& t) { return v.size() == 1 && ix_eq(v[0], std::get<0>(t)); }
static bool ixs_eq(std::vector<Ix> const& v, std::tuple<int, std::string, int> const& t) { return v.size() == 3 && ix_eq(v[0], std::get<0>(t)) && ix_eq(v[1], std::get<1>(t)) && ix_eq(v[2], std::get<2>(t)); }
static bool ixs_eq(std::vector<Ix> const& v, std::tuple<dyn::dyn_indices> const& t) {
  auto const& d = static_cast<dyn::dyn_indices::indices_t const&>(std::get<0>(t));
  if (d.size() != v.size()) return false;
  for (size_t i = 0; i < d.size(); ++i) { bool ok = d[i].index() == 0 ? ix_eq(v[i], std::get<0>(d[i])) : ix_eq(v[i], std::get<1>(d[i])); if (!ok) return false; }
  return true;
}
template <typename... I> static Gen kind(generator<I...> const& g) {
  Gen r{0, 0, 0, 0};
  if (is_fermion(g)) { r.alg = FERM; r.what = dynamic_cast<generator_fermion<I...> const&>(g).dagger(); }
  else if (is_boson(g)) { r.alg = BOS; r.what = dynamic_cast<generator_boson<I...> const&>(g).dagger(); }
  else { auto const& s = dynamic_cast<generator_spin<I...> const&>(g); r.alg = SPIN; r.mult = s.multiplicity(); r.what = s.component(); }
  return r;
}
template <typename S> struct CK { static const int k = 0; };
template <> struct CK<double> { static const int k = 1; };
template <> struct CK<std::complex<double>> { static const int k = 2; };
static bool coef_eq(PT const&, Parser const& P, size_t t, long c) { return P.ival[t] == c; }
static bool coef_eq(PT const& p, Parser const&, size_t, double c) { return p.re == c && p.im == 0; }
static bool coef_eq(PT const& p, Parser const&, size_t, std::complex<double> c) { return p.re == c.real() && p.im == c.imag(); }
template <typename S, typename... I> static void check_print(expression<S, I...> const& e) {
  std::ostringstream ss; ss << e;
  Parser P; P.s = ss.str();
  auto ts = P.all(CK<S>::k);
  sym_check(!P.bad, "the printed form can be read back");
  if (P.bad) return;
  if (e.size() == 0) { sym_check(ts.size() == 1 && ts[0].unit && coef_eq(ts[0], P, 0, S(0)), "the zero expression"); return; }
  sym_check(ts.size() == e.size(), "every term is printed");
  if (ts.size() != e.size()) return;
  size_t t = 0; bool ok = true, co = true;
  for (auto const& p : e.get_monomials()) {
    co = co && coef_eq(ts[t], P, t, p.second);
    ok = ok && ts[t].unit == (p.first.size() == 0);
    size_t k = 0, run = 0;
    for (auto const& g : p.first) {
      if (k >= ts[t].g.size()) { ok = false; break; }
      PG const& q = ts[t].g[k];
      ok = ok && q.name == gen_name(kind(g)) && ixs_eq(q.ix, g.indices());
      if ((int)++run == q.power) { ++k; run = 0; }
    }
    ok = ok && k == ts[t].g.size() && run == 0;
    ++t;
  }
  sym_check(co, "coefficients are printed");
  sym_check(ok, "generators, indices and powers are printed in stored order");
  // monomials and generators print consistently
  for (auto const& p : e.get_monomials()) {
    std::ostringstream sm; sm << p.first;
    Parser Q; Q.s = "1" + std::string(p.first.size() ? "*" : "") + sm.str();
    auto tm = Q.all(0);
    sym_check(!Q.bad && tm.size() == 1 && tm[0].unit == (p.first.size() == 0), "monomials can be read back");
  }
}
static const char* CN[4] = {"c0", "c1", "c2", "c3"};
template <typename S> struct Cf { static S get(const char* n, int w) { return w ? (S)((long)sym_range(n, 0, 132) - 12) : (S)((long)sym_pick_range(n, 0, 4) * 7 - 14); } };
template <> struct Cf<double> { static double get(const char* n, int) { static const double t[6] = {1, -1, 0.5, -2.25, 12, 0.125}; return t[sym_pick_range(n, 0, 5)]; } };
template <> struct Cf<std::complex<double>> { static std::complex<double> get(const char* n, int) { static const std::complex<double> t[6] = {{1, 0}, {0, -1}, {-0.5, 2}, {3, -0.25}, {-1, -1}, {0, 10}}; return t[sym_pick_range(n, 0, 5)]; } };
template <typename S> static void one_index() {
  int nt = sym_param(0), len = sym_param(1), lo = sym_param(2), hi = sym_param(3), wide = sym_param(4);
  expression<S, int> e; int q = 0;
  for (int t = 0; t < nt; ++t) {
    expression<S, int> m(Cf<S>::get(CN[t], wide));
    for (int k = 0; k < len; ++k, ++q) {
      int idx = wide && q == 0 ? (int)sym_range(IX[q], 0, 132) - 12 : (int)sym_pick_range(IX[q], 0, 2) * 13 - 3;
      m *= gen_expr<S>(make_gen((int)sym_pick_range(KN[q], lo, hi), idx));
    }
    e += m;
  }
  check_print(e);
}
ENTRY c29_long() { one_index<long>(); }
ENTRY c29_double() { one_index<double>(); }
ENTRY c29_complex() { one_index<std::complex<double>>(); }
// powers
ENTRY c29_powers() {
  int n = (int)sym_pick_range("n", 0, sym_param(0));
  expression<long, int> e(1);
  for (int k = 0; k < n; ++k) e *= gen_expr<long>(make_gen((int)sym_pick_range(KN[k], sym_param(1), sym_param(2)), 4));
  expression<long, int> z;
  check_print(e); check_print(e - e); check_print(z); check_print(e + 3l); check_print(-e);
}
// several indices of mixed types
ENTRY c29_multi() {
  int i = (int)sym_range("i", 0, 220) - 110, j = (int)sym_pick_range("j", 0, 2) * 11 - 11;
  std::string s; for (int k = 0, n = (int)sym_pick_range("n", 1, 2); k < n; ++k) s.push_back((char)sym_range(k ? "ch1" : "ch0", 'a', 'z'));
  using namespace static_indices;
  expression<long, int, std::string, int> e = c_dag<long>(i, s, j) * a<long>(j, "ab", 3) * a<long>(j, "ab", 3) + 2l * S_p<3, long>(i, s, j) * S_p<3, long>(i, s, j) - S_z<long>(1, s, -5);
  check_print(e);
}
ENTRY c29_dyn() {
  int i = (int)sym_range("i", 0, 220) - 110, j = (int)sym_pick_range("j", 0, 2) * 11 - 11;
  std::string s; for (int k = 0, n = (int)sym_pick_range("n", 1, 2); k < n; ++k) s.push_back((char)sym_range(k ? "ch1" : "ch0", 'a', 'z'));
  expression<long, dyn::dyn_indices> e = dyn::c_dag<long>(i, s, j) * dyn::a<long>(s) * dyn::a<long>(s) + 2l * dyn::S_p<3, long>(j, s) * dyn::S_p<3, long>(j, s) - dyn::S_z<long>() + dyn::c<long>(i);
  check_print(e);
}
// different expressions print differently, equal ones identically
ENTRY c29_pairs() {
  int lo = sym_param(0), hi = sym_param(1);
  expression<long, int> e[2];
  for (int x = 0; x < 2; ++x) {
    int q = 3 * x;
    expression<long, int> m((long)sym_pick_range(CN[2 * x], 0, 2) - 1), t((long)sym_pick_range(CN[2 * x + 1], 0, 1));
    m *= gen_expr<long>(make_gen((int)sym_pick_range(KN[q], lo, hi), (int)sym_pick_range(IX[q], 0, 1) * 11));
    m *= gen_expr<long>(make_gen((int)sym_pick_range(KN[q + 1], lo, hi), (int)sym_pick_range(IX[q + 1], 0, 1)));
    e[x] = m + t;
  }
  std::ostringstream a, b; a << e[0]; b << e[1];
  sym_check((a.str() == b.str()) == (e[0] == e[1]), "equal printed forms mean equal expressions");
}
// spins of every size.  params: largest multiplicity
ENTRY c29_spins() {
  int m = (int)sym_pick_range("m", 2, sym_param(0)), m2 = (int)sym_pick_range("m2", 2, 4);
  expression<double, int> e(1.0), f(2.0);
  e *= gen_expr<double>(Gen{SPIN, m, (int)sym_pick_range(KN[0], 0, 2), 5});
  e *= gen_expr<double>(Gen{SPIN, m, (int)sym_pick_range(KN[1], 0, 2), 7});
  f *= gen_expr<double>(Gen{SPIN, m2, (int)sym_pick_range(KN[2], 0, 2), 5});
  check_print(e + f); check_print(conj(e));
}
