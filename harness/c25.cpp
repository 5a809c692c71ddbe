// C25: elementary spaces have the documented dimension and sufficient width.
#include "spaces.h"
#include <libcommute/loperator/es_constructor.hpp>
using namespace static_indices;
static void check_space(elementary_space<int> const& es, int alg, uint64_t dim, int idx, const char* label) {
  sym_check(es.algebra_id() == alg, "algebra of an elementary space");
  sym_check(es.dim() == dim, "dimension of an elementary space");
  int nb = es.n_bits();
  sym_check(nb >= 0 && nb < 64 && (uint64_t(1) << nb) >= dim, label);
  sym_check(nb >= 0 && (nb == 0 || (nb <= 64 && (uint64_t(1) << (nb - 1)) < dim)), "the number of bits is minimal");
  sym_check(std::get<0>(es.indices()) == idx, "indices of an elementary space");
}
static void check_clones(elementary_space<int> const& es, int alg, uint64_t dim, int idx) {
  check_space(es, alg, dim, idx, "the number of bits can hold every state");
  auto c = es.clone();
  check_space(*c, alg, dim, idx, "clones: the number of bits can hold every state");
  sym_check(*c == es && !(*c != es) && !(*c < es) && !(*c > es), "a clone equals its original");
}
// every dimension up to a bound and around every power of two
ENTRY c25_boson() {
  int mode = sym_param(0);
  int idx = (int)sym_bits("i", 32);
  uint64_t dim;
  if (mode == 0) dim = sym_pick_range("dim", 1, 300);
  else { uint64_t k = sym_pick_range("k", 2, 62); dim = (uint64_t(1) << k) + sym_pick_range("off", 0, 4) - 2; }
  elementary_space_boson<int> es(dim, idx);
  check_clones(es, boson, dim, idx);
  auto f = make_space_boson(dim, idx);
  check_clones(f, boson, dim, idx);
  hilbert_space<int> hs;
  hs.add(make_space_fermion(0)); 
  if (es.n_bits() < 62) {
    hs.add(es); hs.add(make_space_spin(0.5, 7));
    sym_check(hs.total_n_bits() == es.n_bits() + 2 && hs.dim() == 4 * dim, "the space takes its share of a Hilbert space");
    sym_check(hs.bit_range(make_space_spin(0.5, 7)).first == es.n_bits() + 1, "the space does not overlap its neighbours");
  }
}
// dimensions as an SMT variable
ENTRY c25_boson_sym() {
  uint64_t dim = sym_range("dim", 1, uint64_t(1) << 62);
  elementary_space_boson<int> es(dim, 3);
  check_space(es, boson, dim, 3, "the number of bits can hold every state (symbolic dimension)");
}
ENTRY c25_spin() {
  static const uint64_t tab[12] = {511, 512, 513, 1023, 1024, 1025, 65535, 65536, 65537, 1048575, 1048576, 1048577};
  int idx = (int)sym_bits("i", 32);
  uint64_t m = sym_pick_range("mult", 2, 80);
  if (m >= 69) m = tab[m - 69];
  elementary_space_spin<int> es((m - 1) * 0.5, idx);
  check_clones(es, spin, m, idx);
  auto f = make_space_spin((m - 1) * 0.5, idx);
  check_clones(f, spin, m, idx);
}
ENTRY c25_fermion() {
  int idx = (int)sym_bits("i", 32);
  elementary_space_fermion<int> es(idx);
  check_clones(es, fermion, 2, idx);
  check_clones(make_space_fermion(idx), fermion, 2, idx);
}
// spaces constructed for generators
ENTRY c25_constructor() {
  int kind = (int)sym_pick_range("kind", 0, 12), idx = (int)sym_bits("i", 32);
  uint64_t db = sym_pick_range("dim", 1, 40);
  Gen g = make_gen(kind, idx);
  int alg = g.alg == FERM ? fermion : g.alg == BOS ? boson : spin;
  uint64_t dim = g.alg == FERM ? 2 : g.alg == BOS ? db : (uint64_t)g.mult;
  auto m = gen_mono(g);
  boson_es_constructor full((sv_index_type)db);
  auto es = full(m[0]);
  check_clones(*es, alg, dim, idx);
  bool thrown = false;
  try { auto e2 = default_es_constructor()(m[0]); check_clones(*e2, alg, dim, idx); } catch (es_construction_failure<int>& e) { thrown = true; sym_check(e.generator_ptr && *e.generator_ptr == m[0], "the failure names the generator"); }
  sym_check(thrown == (g.alg == BOS), "only boson spaces need a dimension");
  thrown = false;
  try { auto e3 = es_constructor<boson>((sv_index_type)db)(m[0]); if (g.alg == BOS) check_clones(*e3, alg, dim, idx); } catch (std::exception&) { thrown = true; }
  if (g.alg == BOS) sym_check(!thrown, "a boson constructor accepts boson generators");
  thrown = false;
  try { auto e4 = es_constructor<fermion, boson>((sv_index_type)db)(m[0]); check_clones(*e4, alg, dim, idx); } catch (es_construction_failure<int>&) { thrown = true; }
  sym_check(thrown == (g.alg == SPIN), "a constructor rejects generators of other algebras");
}
// spaces collected from an expression
ENTRY c25_from_expression() {
  uint64_t db = sym_pick_range("dim", 1, 9);
  int n = sym_param(0);
  expression<double, int> e = expression<double, int>(1.0);
  Gen w[4];
  for (int i = 0; i < n; ++i) { static const char* K2[4] = {"q0", "q1", "q2", "q3"}; w[i] = make_gen((int)sym_pick_range(K2[i], 0, 9), i); e += gen_expr<double>(w[i]) * (i + 1.0); }
  auto hs = make_hilbert_space(e, boson_es_constructor((sv_index_type)db));
  uint64_t dim = 1; int bits = 0;
  sym_check(hs.size() == (size_t)n, "one elementary space per degree of freedom");
  for (int i = 0; i < n; ++i) {
    uint64_t d = w[i].alg == FERM ? 2 : w[i].alg == BOS ? db : (uint64_t)w[i].mult;
    dim *= d; int nb = 0; while ((uint64_t(1) << nb) < d) ++nb; bits += nb;
    int kind = w[i].alg == FERM ? 0 : w[i].alg == BOS ? 1 : 2;
    Sp sp{kind, d, i, 0, 0}; SpaceSet S; S.s.push_back(sp);
    auto es = S.make(0);
    sym_check(hs.has(*es), "the space of every generator is present");
    if (hs.has(*es)) sym_check(hs.dim(*es) == d && hs.bit_range(*es).second - hs.bit_range(*es).first + 1 == nb, "dimension and width in the Hilbert space");
  }
  sym_check(hs.dim() == dim && hs.total_n_bits() == bits, "dimension and width of the Hilbert space");
}
