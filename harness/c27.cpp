// C27: dynamically indexed expressions behave as statically indexed ones.
#include "lop.h"
#include <libcommute/expression/factories_dyn.hpp>
#include <libcommute/expression/hc.hpp>
#include <libcommute/loperator/es_constructor.hpp>
namespace dyn = libcommute::dynamic_indices;
using dyn::dyn_indices;
typedef expression<long, int> ES_;
typedef expression<long, dyn_indices> ED;
// one index: an integer or a string of up to two characters
struct Ix { bool str; int i; std::string s; };
static bool same_ix(Ix const& a, Ix const& b) {
  if (a.str != b.str) return false;
  if (!a.str) return sym_branch(a.i == b.i);
  if (a.s.size() != b.s.size()) return false;
  for (size_t k = 0; k < a.s.size(); ++k) if (!sym_branch(a.s[k] == b.s[k])) return false;
  return true;
}
struct Site { std::vector<Ix> x; };
static bool same_site(Site const& a, Site const& b) {
  if (a.x.size() != b.x.size()) return false;
  for (size_t k = 0; k < a.x.size(); ++k) if (!same_ix(a.x[k], b.x[k])) return false;
  return true;
}
static dyn_indices make_ix(Site const& s) {
  dyn_indices::indices_t v;
  for (auto& x : s.x) { if (x.str) v.emplace_back(x.s); else v.emplace_back(x.i); }
  return dyn_indices(v);
}
// calls f with the indices as separate arguments
template <typename F> static auto with_site(Site const& s, F&& f) {
  auto const& x = s.x;
  if (x.size() == 1) { if (x[0].str) return f(x[0].s); return f(x[0].i); }
  if (x.size() == 2) {
    if (x[0].str) { if (x[1].str) return f(x[0].s, x[1].s.c_str()); return f(x[0].s.c_str(), x[1].i); }
    if (x[1].str) return f(x[0].i, std::string(x[1].s));
    return f(x[0].i, x[1].i);
  }
  if (x.size() == 3 && !x[0].str && !x[1].str && !x[2].str) return f(x[0].i, x[1].i, x[2].i);
  return f(make_ix(s));
}
static const char* NI[4][3] = {{"a0", "a1", "a2"}, {"b0", "b1", "b2"}, {"c0", "c1", "c2"}, {"d0", "d1", "d2"}};
static const char* NC[4][6] = {{"sa0", "sa1", "sa2", "sa3", "sa4", "sa5"}, {"sb0", "sb1", "sb2", "sb3", "sb4", "sb5"}, {"sc0", "sc1", "sc2", "sc3", "sc4", "sc5"}, {"sd0", "sd1", "sd2", "sd3", "sd4", "sd5"}};
static const char* NT[4] = {"ta", "tb", "tc", "td"};
// shape: base-4 digits from least significant: 0 end, 1 integer, 2 one-character string, 3 two-character string
static Site sym_site(int k, int shape, int bits) {
  Site s; int n = 0;
  for (; shape; shape /= 4, ++n) {
    int t = shape % 4;
    if (t == 1) s.x.push_back(Ix{false, (int)sym_bits(NI[k][n], bits), ""});
    else { std::string z; for (int c = 0; c < t - 1; ++c) z.push_back((char)sym_range(NC[k][2 * n + c], 1, 255)); s.x.push_back(Ix{true, 0, z}); }
  }
  return s;
}
static const int SHAPES[12] = {0, 1, 2, 3, 1 + 4, 1 + 8, 2 + 4, 2 + 8, 3 + 4, 2 + 12, 1 + 4 + 16, 2 + 4 + 32};
ENTRY c27_order() { // a total order on sequences, consistent with equality
  int lo = sym_param(0), hi = sym_param(1), n = sym_param(2);
  dyn_indices d[3]; Site s[3];
  for (int k = 0; k < n; ++k) { s[k] = sym_site(k, SHAPES[sym_pick_range(NT[k], lo, hi)], 32); d[k] = make_ix(s[k]); }
  bool eq = same_site(s[0], s[1]);
  sym_check((d[0] == d[1]) == eq, "sequences are equal exactly when lengths, types and values are");
  sym_check((d[0] != d[1]) == !eq, "inequality");
  bool l = d[0] < d[1], g = d[0] > d[1], l2 = d[1] < d[0];
  sym_check((int)l + (int)l2 + (int)eq == 1, "exactly one of less, equal, greater");
  sym_check(g == l2, "greater is the converse of less");
  if (n > 2 && l && d[1] < d[2]) sym_check(d[0] < d[2], "transitivity");
  sym_check(d[0].size() == s[0].x.size(), "length of the sequence");
  std::vector<std::variant<int, std::string>> const& raw = static_cast<dyn_indices::indices_t const&>(d[0]);
  for (size_t i = 0; i < raw.size(); ++i) {
    Ix r = raw[i].index() == 0 ? Ix{false, std::get<0>(raw[i]), ""} : Ix{true, 0, std::get<1>(raw[i])};
    sym_check(same_ix(r, s[0].x[i]), "the sequence stores its indices");
  }
  if (s[0].x.size() >= 1 && s[0].x.size() <= 2) {
    auto e = with_site(s[0], [](auto&&... a) { return dyn_indices(a...); });
    sym_check(e == d[0] && !(e < d[0]), "construction from arguments");
  }
  dyn_indices cp(d[0]), mv(std::move(cp)); cp = mv;
  sym_check(cp == d[0] && mv == d[0], "copies");
}
// generators over dynamic indices
static ED dyn_gen(Gen const& g, Site const& s) {
  return with_site(s, [&](auto&&... a) -> ED {
    if (g.alg == FERM) return g.what ? dyn::c_dag<long>(a...) : dyn::c<long>(a...);
    if (g.alg == BOS) return g.what ? dyn::a_dag<long>(a...) : dyn::a<long>(a...);
    if (g.mult == 2) return g.what == 0 ? dyn::S_p<long>(a...) : g.what == 1 ? dyn::S_m<long>(a...) : dyn::S_z<long>(a...);
    if (g.mult == 3) return g.what == 0 ? dyn::S_p<3, long>(a...) : g.what == 1 ? dyn::S_m<3, long>(a...) : dyn::S_z<3, long>(a...);
    return g.what == 0 ? dyn::S_p<4, long>(a...) : g.what == 1 ? dyn::S_m<4, long>(a...) : dyn::S_z<4, long>(a...);
  });
}
template <typename S> static expression<S, dyn_indices> dyn_mono(Gen const& g, Site const& s) {
  using E = expression<S, dyn_indices>;
  auto ix = make_ix(s);
  if (g.alg == FERM) return E(S(1), typename E::monomial_t{std::make_shared<generator_fermion<dyn_indices>>((bool)g.what, ix)});
  if (g.alg == BOS) return E(S(1), typename E::monomial_t{std::make_shared<generator_boson<dyn_indices>>((bool)g.what, ix)});
  return E(S(1), typename E::monomial_t{std::make_shared<generator_spin<dyn_indices>>((g.mult - 1) / 2.0, (spin_component)g.what, ix)});
}
template <typename S> static expression<S, dyn_indices> lift(expression<S, int> const& e, Site const* sites) { // image of a static expression
  expression<S, dyn_indices> r;
  for (auto const& p : e.get_monomials()) {
    expression<S, dyn_indices> t(p.second);
    for (auto const& g : p.first) { Gen x = read_gen(g); t *= dyn_mono<S>(x, sites[sym_pick((uint64_t)x.idx)]); }
    r += t;
  }
  return r;
}
static int distinct_sites(Site* sites, Site const* raw, int n, int* of) {
  int m = 0;
  for (int i = 0; i < n; ++i) {
    of[i] = -1;
    for (int j = 0; j < m; ++j) if (same_site(sites[j], raw[i])) { of[i] = j; break; }
    if (of[i] < 0) { sites[m] = raw[i]; of[i] = m++; }
  }
  return m;
}
ENTRY c27_factories() {
  int kind = (int)sym_pick_range("kind", 0, 12);
  Site s = sym_site(0, SHAPES[sym_pick_range("ts", 1, 10)], 32);
  Gen g = make_gen(kind, 0);
  ED e = dyn_gen(g, s), m = dyn_mono<long>(g, s);
  sym_check(e == m, "a dynamic factory makes the generator it names");
  sym_check(e.size() == 1, "one monomial");
  for (auto const& p : e.get_monomials()) {
    sym_check(p.second == 1 && p.first.size() == 1, "unit coefficient and one generator");
    auto const& r = p.first[0];
    sym_check(std::get<0>(r.indices()) == make_ix(s), "indices of the generator");
    sym_check(r.algebra_id() == (g.alg == FERM ? fermion : g.alg == BOS ? boson : spin), "algebra of the generator");
  }
}
// products of two words
template <typename S> static void words() {
  int n1 = sym_param(0), n2 = sym_param(1), lo = sym_param(2), hi = sym_param(3), sh0 = sym_param(4), sh1 = sym_param(5), bits = sym_param(6);
  int n = n1 + n2; Site raw[4], sites[4]; int of[4]; Gen w[4];
  for (int i = 0; i < n; ++i) raw[i] = sym_site(i, sh0 == sh1 ? SHAPES[sh0] : SHAPES[sym_pick_range(NT[i], sh0, sh1)], bits);
  distinct_sites(sites, raw, n, of);
  expression<S, int> a(S(1)), b(S(1)); expression<S, dyn_indices> x(S(1)), y(S(1));
  for (int i = 0; i < n; ++i) {
    w[i] = make_gen((int)sym_pick_range(KN[i], lo, hi), of[i]);
    auto se = gen_expr<S>(w[i]); auto de = dyn_mono<S>(w[i], sites[of[i]]);
    if (i < n1) { a *= se; x *= de; } else { b *= se; y *= de; }
  }
  sym_check(x == lift(a, sites) && y == lift(b, sites), "products of generators");
  sym_check(x * y == lift(a * b, sites), "products of expressions");
  S k = S(3);
  sym_check(x + k * y == lift(a + k * b, sites), "sums of expressions");
  sym_check(y - x == lift(b - a, sites), "differences of expressions");
  sym_check(conj(x * y) == lift(conj(a * b), sites), "conjugation");
  auto comm = x * y - y * x;
  sym_check(comm == lift(a * b - b * a, sites), "commutators");
  sym_check((x == y) == (a == b), "equality");
  sym_check(x + hc == lift(a + hc, sites), "adding the Hermitian conjugate");
  auto z = x; z *= y; z += x; auto zs = a; zs *= b; zs += a;
  sym_check(z == lift(zs, sites), "in-place operations");
}
ENTRY c27_words() { words<long>(); }
ENTRY c27_words_d() { words<double>(); }
// linear operators: with sites numbered in the order of the dynamic indices the states coincide
ENTRY c27_operators() {
  int n = sym_param(0), lo = sym_param(1), hi = sym_param(2), sh0 = sym_param(3), sh1 = sym_param(4), bits = sym_param(5);
  Site raw[4], sites[4]; int of[4];
  for (int i = 0; i < n; ++i) raw[i] = sym_site(i, sh0 == sh1 ? SHAPES[sh0] : SHAPES[sym_pick_range(NT[i], sh0, sh1)], bits);
  int m = distinct_sites(sites, raw, n, of);
  int pos[4]; // rank of every site
  for (int i = 0; i < m; ++i) { pos[i] = 0; for (int j = 0; j < m; ++j) if (j != i && sym_branch(make_ix(sites[j]) < make_ix(sites[i]))) ++pos[i]; }
  expression<double, int> a(1.0); expression<double, dyn_indices> x(1.0);
  for (int i = 0; i < n; ++i) { Gen g = make_gen((int)sym_pick_range(KN[i], lo, hi), pos[of[i]]); a *= gen_expr<double>(g); x *= dyn_mono<double>(g, sites[of[i]]); }
  a += a * 2.0 + 1.0; x += x * 2.0 + 1.0;
  auto hs = make_hilbert_space(a, boson_es_constructor(4)); auto hd = make_hilbert_space(x, boson_es_constructor(4));
  sym_check(hs.dim() == hd.dim() && hs.size() == hd.size() && hs.total_n_bits() == hd.total_n_bits(), "Hilbert spaces have the same shape");
  if (hs.total_n_bits() != hd.total_n_bits()) return;
  for (int i = 0; i < m; ++i) {
    auto f = dyn::make_space_fermion(make_ix(sites[i])); auto fs = static_indices::make_space_fermion(pos[i]);
    sym_check(hd.has(f) == hs.has(fs), "fermionic spaces");
    if (hd.has(f) && hs.has(fs)) sym_check(hd.bit_range(f) == hs.bit_range(fs), "bit ranges of fermionic spaces");
    auto b = dyn::make_space_boson(4, make_ix(sites[i])); auto bs = static_indices::make_space_boson(4, pos[i]);
    sym_check(hd.has(b) == hs.has(bs), "bosonic spaces");
    if (hd.has(b) && hs.has(bs)) sym_check(hd.bit_range(b) == hs.bit_range(bs), "bit ranges of bosonic spaces");
    auto s = dyn::make_space_spin(0.5, make_ix(sites[i])); auto ss = static_indices::make_space_spin(0.5, pos[i]);
    sym_check(hd.has(s) == hs.has(ss), "spin spaces");
    if (hd.has(s) && hs.has(ss)) sym_check(hd.bit_range(s) == hs.bit_range(ss), "bit ranges of spin spaces");
  }
  if (hs.dim() != (uint64_t(1) << hs.total_n_bits())) return;
  auto A = make_loperator(a, hs); auto X = make_loperator(x, hd);
  uint64_t st = sym_pick_range("st", 0, hs.dim() - 1);
  SymVec<double> v = ket<double>(st, 1.0), r1, r2;
  A(v, r1); X(v, r2);
  same_vec_f(r1, r2, "matrix elements");
}
// sequences whose printed forms coincide are still different.  params: largest length
static Ix alike(const char* n) {
  static const char* T[6] = {"1", "12", "-1", "1,2", "2", ""};
  int k = (int)sym_pick_range(n, 0, 9);
  if (k < 6) return Ix{true, 0, T[k]};
  static const int V[4] = {1, 12, -1, 2};
  return Ix{false, V[k - 6], ""};
}
ENTRY c27_alike() {
  dyn_indices d[2]; Site s[2];
  for (int k = 0; k < 2; ++k) {
    int n = (int)sym_pick_range(NT[k], 1, sym_param(0));
    for (int i = 0; i < n; ++i) s[k].x.push_back(alike(NI[k][i]));
    d[k] = make_ix(s[k]);
  }
  bool eq = same_site(s[0], s[1]);
  sym_check((d[0] == d[1]) == eq && (d[0] != d[1]) == !eq, "sequences that print alike are equal only if they are");
  sym_check((int)(d[0] < d[1]) + (int)(d[1] < d[0]) + (int)eq == 1 && (d[0] > d[1]) == (d[1] < d[0]), "sequences that print alike are ordered");
  ED e = dyn_mono<long>(Gen{FERM, 0, 0, 0}, s[0]) * dyn_mono<long>(Gen{FERM, 0, 1, 0}, s[1]) + dyn_mono<long>(Gen{FERM, 0, 1, 0}, s[1]) * dyn_mono<long>(Gen{FERM, 0, 0, 0}, s[0]);
  sym_check(e == ED(eq ? 1 : 0), "anticommutators of generators with indices that print alike");
  auto hs = make_hilbert_space(dyn_mono<long>(Gen{FERM, 0, 1, 0}, s[0]) + dyn_mono<long>(Gen{FERM, 0, 1, 0}, s[1]));
  sym_check(hs.size() == (eq ? 1u : 2u), "one space per distinct sequence");
  if (d[0].size() != d[1].size()) sym_cover("different lengths");
}
