// C10: spin operators act as the spin-S matrices.
#include "lop.h"
using namespace static_indices;
typedef expression<double, int> E;
static generator_spin<int> gsp(int mult, spin_component c, int i) { return generator_spin<int>((mult - 1) * 0.5, c, i); }
static E sop(int mult, int what, int i) { // what: 0 S+, 1 S-, 2 Sz
  return E(1.0, typename E::monomial_t{static_indices::make_spin((mult - 1) * 0.5, what == 0 ? spin_component::plus : what == 1 ? spin_component::minus : spin_component::z, i)});
}
static const char* OP[8] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
static const char* NN[3] = {"n0", "n1", "n2"};
static int width(uint64_t d) { int w = 0; while ((uint64_t(1) << w) < d) ++w; return w; }
struct Layout { int sh[3]; uint64_t dim[3]; int nb; int tot; };
// sites: spins sorted by multiplicity then index, above fermions and one boson
static Layout make_hs(hilbert_space<int>& hs, int nf, int nb, uint64_t const* d, int const* id) {
  Layout L; L.nb = nb;
  int pos = nf + 2;
  for (int i = 0; i < nb; ++i) { L.dim[i] = d[i]; L.sh[i] = pos; pos += width(d[i]); }
  for (int i = nb; i-- > 0;) hs.add(make_space_spin((d[i] - 1) * 0.5, id[i]));
  hs.add(make_space_boson(3, 0));
  for (int i = 0; i < nf; ++i) hs.add(make_space_fermion(i));
  L.tot = pos;
  return L;
}
static uint64_t with_occ(Layout const& L, uint64_t st, uint64_t const* n) {
  for (int i = 0; i < L.nb; ++i) { uint64_t m = ((uint64_t(1) << width(L.dim[i])) - 1) << L.sh[i]; st = (st & ~m) | (n[i] << L.sh[i]); }
  return st;
}
static bool act1(uint64_t mult, int what, uint64_t& n, double& am) {
  double S = (mult - 1) * 0.5, m = double(n) - S;
  if (what == 2) { am *= m; return m != 0; }
  if (what == 0) { if (n + 1 >= mult) return false; am *= std::sqrt(S * (S + 1) - m * (m + 1)); ++n; return true; }
  if (n == 0) return false;
  am *= std::sqrt(S * (S + 1) - m * (m - 1)); --n; return true;
}
// params: number of operators, sites, multiplicities m0 m1 (equal or increasing), number of fermions below, equal indices
ENTRY c10_words() {
  int nw = sym_param(0), nb = sym_param(1), nf = sym_param(4);
  uint64_t d[3] = {(uint64_t)sym_param(2), (uint64_t)sym_param(3), 1};
  int id[3] = {3, sym_param(5) ? 3 : 7, 0}; // spins of different multiplicity may carry the same index
  hilbert_space<int> hs;
  Layout L = make_hs(hs, nf, nb, d, id);
  int p[8], k[8];
  E e;
  for (int i = 0; i < nw; ++i) {
    int o = (int)sym_pick_range(OP[i], 0, 3 * nb - 1);
    p[i] = o / 3; k[i] = o % 3;
    e = i == 0 ? sop(d[p[i]], k[i], id[p[i]]) : e * sop(d[p[i]], k[i], id[p[i]]);
  }
  uint64_t n[3], m[3];
  for (int i = 0; i < nb; ++i) m[i] = n[i] = sym_pick_range(NN[i], 0, d[i] - 1);
  uint64_t st = with_occ(L, sym_range("rest", 0, (uint64_t(1) << L.tot) - 1), n);
  auto op = make_loperator(e, hs);
  SymVec<double> out, want;
  op(ket<double>(st), out);
  double am = 1; bool nz = true;
  for (int i = nw; nz && i-- > 0;) nz = act1(d[p[i]], k[i], m[p[i]], am);
  if (nz) want.r.push_back({with_occ(L, st, m), am});
  same_vec_f(out, want, "spin operators act as the spin-S matrices");
  for (auto& r : out.r) sym_observe_f(r.amp);
  sym_cover(nz ? "survives" : "annihilated");
}
// powers of one operator for large spins.  params: multiplicity, largest power
ENTRY c10_powers() {
  uint64_t d[3] = {(uint64_t)sym_param(0), 1, 1};
  int id[3] = {0, 0, 0};
  hilbert_space<int> hs;
  Layout L = make_hs(hs, 2, 1, d, id);
  int k = (int)sym_pick_range("k", 0, 2), pw = (int)sym_pick_range("pw", 1, sym_param(1));
  typename E::monomial_t mon;
  E e = sop(d[0], k, 0);
  for (int i = 1; i < pw; ++i) e = e * sop(d[0], k, 0);
  uint64_t n[3], m[3];
  m[0] = n[0] = sym_pick_range("n", 0, d[0] - 1);
  uint64_t st = with_occ(L, sym_range("rest", 0, (uint64_t(1) << L.tot) - 1), n);
  SymVec<double> out, want;
  make_loperator(e, hs)(ket<double>(st), out);
  double am = 1; bool nz = true;
  for (int i = 0; nz && i < pw; ++i) nz = act1(d[0], k, m[0], am);
  if (nz) want.r.push_back({with_occ(L, st, m), am});
  same_vec_f(out, want, "powers of spin operators act as powers of the spin-S matrices");
  for (auto& r : out.r) sym_observe_f(r.amp);
  sym_cover(nz ? "survives" : "annihilated");
}
