// C04: strict total orders on generators, monomials, index sequences and elementary spaces.
#include "ring.h"
#include <libcommute/expression/dyn_indices.hpp>
#include <libcommute/expression/factories_dyn.hpp>
#include <libcommute/loperator/elementary_space_fermion.hpp>
#include <libcommute/loperator/elementary_space_boson.hpp>
#include <libcommute/loperator/elementary_space_spin.hpp>
using libcommute::dynamic_indices::dyn_indices;
template <typename... I> struct gen_user : public generator<I...> {
  using base = generator<I...>;
  int id;
  template <typename... A> gen_user(int id, A&&... a) : base(std::forward<A>(a)...), id(id) {}
  int algebra_id() const override { return min_user_defined_algebra_id + id; }
  var_number swap_with(base const&, typename base::linear_function_t& f) const override { f.set(0); return 1; }
};
// comparison outcome of a pair: -1, 0, 1; checks exclusivity and the derived operators
template <typename X> static int cmp(X const& a, X const& b) {
  bool lt = sym_branch(a < b), gt = sym_branch(a > b), eq = sym_branch(a == b), ne = sym_branch(a != b);
  sym_check((int)lt + (int)gt + (int)eq == 1, "exactly one of a<b, a==b, a>b holds");
  sym_check(ne == !eq, "!= is the negation of ==");
  bool rlt = sym_branch(b < a), rgt = sym_branch(b > a), req = sym_branch(b == a);
  sym_check(rlt == gt && rgt == lt && req == eq, "comparisons are antisymmetric");
  return lt ? -1 : gt ? 1 : 0;
}
template <typename X> static void laws(X const& a, X const& b, X const& c, int* ab_, int* bc_, int* ac_) {
  int ab = cmp(a, b), bc = cmp(b, c), ac = cmp(a, c);
  sym_check(!(a < a) && !(a > a) && a == a, "comparison with itself");
  if (ab <= 0 && bc <= 0) sym_check(ac <= 0 && (ac == 0) == (ab == 0 && bc == 0), "< is transitive");
  if (ab >= 0 && bc >= 0) sym_check(ac >= 0 && (ac == 0) == (ab == 0 && bc == 0), "> is transitive");
  if (ab == 0) sym_check(ac == bc, "== is a congruence");
  sym_observe(ab + 1); sym_observe(bc + 1); sym_observe(ac + 1);
  *ab_ = ab; *bc_ = bc; *ac_ = ac;
}
// ---- generators with integer indices (two of them: (32-bit, 32-bit)) ----
struct GK { int kind; int i, j; int id; };
static std::shared_ptr<const generator<int, int>> mk(GK const& k) {
  using namespace static_indices;
  using P = std::shared_ptr<const generator<int, int>>;
  if (k.kind < 2) return make_fermion(k.kind == 0, k.i, k.j);
  if (k.kind < 4) return make_boson(k.kind == 2, k.i, k.j);
  if (k.kind < 13) return make_spin(0.5 * (1 + (k.kind - 4) / 3), (spin_component)((k.kind - 4) % 3), k.i, k.j);
  return P(std::make_shared<gen_user<int, int>>(k.kind - 13, k.i, k.j));
}
static GK symk(int n) {
  static const char* J[3] = {"j0", "j1", "j2"};
  GK k;
  k.kind = (int)sym_pick_range(KN[n], 0, 14);
  k.i = (int)sym_bits(IX[n], 32);
  k.j = (int)sym_bits(J[n], 32);
  return k;
}
static bool samek(GK const& a, GK const& b) { return a.kind == b.kind && a.i == b.i && a.j == b.j; }
// param: kind of the first generator
ENTRY c04_generators() {
  GK k[3];
  for (int n = 0; n < 3; ++n) {
    k[n] = symk(n);
    if (n == 0) sym_assume(k[n].kind == sym_param(0));
  }
  auto a = mk(k[0]), b = mk(k[1]), c = mk(k[2]);
  int ab, bc, ac;
  laws<generator<int, int>>(*a, *b, *c, &ab, &bc, &ac);
  sym_check((ab == 0) == samek(k[0], k[1]), "generators are equal exactly when algebra, kind and indices agree");
  sym_check((ac == 0) == samek(k[0], k[2]), "generators are equal exactly when algebra, kind and indices agree");
  auto copy = mk(k[0]);
  sym_check(*a == *copy && !(*a < *copy) && !(*a > *copy), "an independently built equal generator compares equal");
  if (ab == 0) sym_cover("equal"); else sym_cover("different");
}
// ---- string indices ----
static std::string symstr(const char* n, int maxlen) {
  std::string nm(n);
  int l = (int)sym_pick_range((nm + "l").c_str(), 0, maxlen);
  std::string s;
  for (int i = 0; i < l; ++i) s.push_back((char)sym_bits((nm + char('a' + i)).c_str(), 8));
  return s;
}
static bool samestr(std::string const& a, std::string const& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!sym_branch(a[i] == b[i])) return false;
  return true;
}
ENTRY c04_generators_str() {
  using namespace static_indices;
  static const char* SN[3] = {"s0", "s1", "s2"};
  std::string s[3]; int kind[3]; int j[3];
  std::shared_ptr<const generator<std::string, int>> g[3];
  for (int n = 0; n < 3; ++n) {
    kind[n] = (int)sym_pick_range(KN[n], 0, 2);
    s[n] = symstr(SN[n], sym_param(0));
    j[n] = (int)sym_bits(IX[n], 32);
    if (kind[n] < 2) g[n] = make_fermion(kind[n] == 0, s[n], j[n]);
    else g[n] = make_spin(1.0, spin_component::minus, s[n], j[n]);
  }
  int ab, bc, ac;
  laws<generator<std::string, int>>(*g[0], *g[1], *g[2], &ab, &bc, &ac);
  bool eq = kind[0] == kind[1] && sym_branch(j[0] == j[1]) && samestr(s[0], s[1]);
  sym_check((ab == 0) == eq, "generators are equal exactly when algebra, kind and indices agree");
}
// ---- dynamic index sequences ----
struct DI { int n; int isstr[3]; int v[3]; std::string s[3]; };
static DI symdi(int who, int maxlen, int strlen_) {
  DI d;
  std::string p(1, char('a' + who));
  d.n = (int)sym_pick_range((p + "n").c_str(), 0, maxlen);
  for (int i = 0; i < d.n; ++i) {
    std::string q = p + char('0' + i);
    d.isstr[i] = (int)sym_pick_range((q + "t").c_str(), 0, 1);
    d.v[i] = 0;
    if (d.isstr[i]) d.s[i] = symstr(q.c_str(), strlen_);
    else d.v[i] = (int)sym_bits(q.c_str(), 32);
  }
  return d;
}
static dyn_indices mkdi(DI const& d) {
  dyn_indices::indices_t v;
  for (int i = 0; i < d.n; ++i) { if (d.isstr[i]) v.emplace_back(d.s[i]); else v.emplace_back(d.v[i]); }
  return dyn_indices(std::move(v));
}
static bool samedi(DI const& a, DI const& b) {
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; ++i) {
    if (a.isstr[i] != b.isstr[i]) return false;
    if (a.isstr[i] ? !samestr(a.s[i], b.s[i]) : !sym_branch(a.v[i] == b.v[i])) return false;
  }
  return true;
}
// params: longest sequence, longest string
ENTRY c04_dyn_indices() {
  DI d[3];
  for (int i = 0; i < 3; ++i) d[i] = symdi(i, sym_param(0), sym_param(1));
  dyn_indices x = mkdi(d[0]), y = mkdi(d[1]), z = mkdi(d[2]);
  int ab, bc, ac;
  laws(x, y, z, &ab, &bc, &ac);
  sym_check((ab == 0) == samedi(d[0], d[1]), "index sequences are equal exactly when length, types and values agree");
  if (d[0].n != d[1].n) sym_check(ab == (d[0].n < d[1].n ? -1 : 1), "shorter index sequences come first");
  sym_check((int)x.size() == d[0].n, "length of an index sequence");
  if (ab == 0 && d[0].n) sym_cover("equal");
}
ENTRY c04_generators_dyn() {
  using namespace dynamic_indices;
  DI d[3]; int kind[3];
  std::shared_ptr<const generator<dyn_indices>> g[3];
  for (int i = 0; i < 3; ++i) {
    kind[i] = (int)sym_pick_range(KN[i], 0, 2);
    d[i] = symdi(i, sym_param(0), sym_param(1));
    if (kind[i] == 0) g[i] = std::make_shared<generator_fermion<dyn_indices>>(true, mkdi(d[i]));
    else if (kind[i] == 1) g[i] = std::make_shared<generator_fermion<dyn_indices>>(false, mkdi(d[i]));
    else g[i] = std::make_shared<generator_spin<dyn_indices>>(0.5, spin_component::z, mkdi(d[i]));
  }
  int ab, bc, ac;
  laws<generator<dyn_indices>>(*g[0], *g[1], *g[2], &ab, &bc, &ac);
  sym_check((ab == 0) == (kind[0] == kind[1] && samedi(d[0], d[1])), "generators are equal exactly when algebra, kind and indices agree");
}
// ---- monomials ----
// params: lengths of the three monomials, kind set
ENTRY c04_monomials() {
  static const char* P[3] = {"a", "b", "c"};
  Gen w[3][3]; monomial<int> m[3]; int len[3];
  for (int k = 0; k < 3; ++k) {
    len[k] = sym_param(k);
    std::vector<monomial<int>::gen_ptr_type> v;
    for (int i = 0; i < len[k]; ++i) {
      std::string n = std::string(P[k]) + char('0' + i);
      int kind = pick_kind((n + "k").c_str(), sym_param(3));
      w[k][i] = make_gen(kind, (int)sym_bits(n.c_str(), 32));
      m[k].append(gen_mono(w[k][i]));
    }
  }
  int ab, bc, ac;
  laws(m[0], m[1], m[2], &ab, &bc, &ac);
  // length first, then lexicographic in the order of generators
  int want = len[0] < len[1] ? -1 : len[0] > len[1] ? 1 : 0;
  for (int i = 0; want == 0 && i < len[0]; ++i) want = sym_branch(m[0][i] < m[1][i]) ? -1 : sym_branch(m[1][i] < m[0][i]) ? 1 : 0;
  sym_check(ab == want, "monomials compare by length first and then lexicographically");
  bool eq = len[0] == len[1];
  for (int i = 0; eq && i < len[0]; ++i) eq = same_gen(w[0][i], w[1][i]);
  sym_check((ab == 0) == eq, "monomials are equal exactly when they consist of the same generators");
}
// ---- elementary spaces ----
struct ES { int kind; uint64_t dim; int i, j; };
static std::unique_ptr<elementary_space<int, int>> mkes(ES const& e) {
  using namespace static_indices;
  if (e.kind == 0) return make_space_fermion(e.i, e.j).clone();
  if (e.kind == 1) return make_space_boson(e.dim, e.i, e.j).clone();
  return make_space_spin(0.5 * (e.kind - 1), e.i, e.j).clone();
}
ENTRY c04_spaces() {
  static const char* J[3] = {"j0", "j1", "j2"};
  static const char* DN[3] = {"d0", "d1", "d2"};
  ES e[3];
  for (int n = 0; n < 3; ++n) {
    e[n].kind = (int)sym_pick_range(KN[n], 0, 4); // fermion, boson, spin 1/2, 1, 3/2
    e[n].dim = e[n].kind == 1 ? sym_pick_range(DN[n], 4, 5) : 0;
    e[n].i = (int)sym_bits(IX[n], 32); e[n].j = (int)sym_bits(J[n], 32);
  }
  auto a = mkes(e[0]), b = mkes(e[1]), c = mkes(e[2]);
  int ab, bc, ac;
  laws<elementary_space<int, int>>(*a, *b, *c, &ab, &bc, &ac);
  bool eq = e[0].kind == e[1].kind && sym_branch(e[0].i == e[1].i) && sym_branch(e[0].j == e[1].j);
  sym_check((ab == 0) == eq, "elementary spaces are equal exactly when algebra, spin and indices agree");
  sym_check(std::get<0>(a->indices()) == e[0].i && std::get<1>(a->indices()) == e[0].j, "cloned spaces keep their indices");
}
