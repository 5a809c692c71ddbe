// C09: bosonic operators act as truncated ladder matrices.
#include "lop.h"
using namespace static_indices;
typedef expression<double, int> E;
static E bop(int kind, int i) { return kind == 1 ? a_dag(i) : a(i); }
static const char* OP[8] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
struct Layout { int sh[3]; uint64_t dim[3]; int nb; int tot; };
static int width(uint64_t d) { int w = 0; while ((uint64_t(1) << w) < d) ++w; return w; }
static Layout make_hs(hilbert_space<int>& hs, int nf, int nb, uint64_t const* d) {
  Layout L; L.nb = nb;
  hs.add(make_space_spin(1.0, 5));
  int pos = nf;
  for (int i = 0; i < nb; ++i) { L.dim[i] = d[i]; L.sh[i] = pos; pos += width(d[i]); }
  for (int i = nb; i-- > 0;) hs.add(make_space_boson(d[i], i));
  for (int i = 0; i < nf; ++i) hs.add(make_space_fermion(i));
  L.tot = pos + 2;
  return L;
}
static uint64_t with_occ(Layout const& L, uint64_t st, uint64_t const* n) {
  for (int i = 0; i < L.nb; ++i) { uint64_t m = ((uint64_t(1) << width(L.dim[i])) - 1) << L.sh[i]; st = (st & ~m) | (n[i] << L.sh[i]); }
  return st;
}
static uint64_t sym_state(Layout const& L, uint64_t const* n) { return with_occ(L, sym_range("rest", 0, (uint64_t(1) << L.tot) - 1), n); } // free bits symbolic, occupations given
static const char* NN[3] = {"n0", "n1", "n2"};
// params: number of operators, modes, dimensions d0 d1 d2, number of fermions below, canonical only (1) or any order on states away from the truncation (0)
ENTRY c09_words() {
  int nw = sym_param(0), nb = sym_param(1), nf = sym_param(5), canon = sym_param(6);
  uint64_t d[3] = {(uint64_t)sym_param(2), (uint64_t)sym_param(3), (uint64_t)sym_param(4)};
  hilbert_space<int> hs;
  Layout L = make_hs(hs, nf, nb, d);
  int p[8], k[8], up[3] = {0, 0, 0}, last = -1;
  E e;
  for (int i = 0; i < nw; ++i) {
    int o = (int)sym_pick_range(OP[i], 0, 2 * nb - 1); // canonical order: a+(0) a+(1) .. a(1) a(0)
    if (canon) { sym_assume(o >= last); last = o; }
    k[i] = o < nb; p[i] = o < nb ? o : 2 * nb - 1 - o;
    if (k[i]) ++up[p[i]];
    e = i == 0 ? bop(k[i], p[i]) : e * bop(k[i], p[i]);
  }
  uint64_t n[3];
  for (int i = 0; i < nb; ++i) { n[i] = sym_pick_range(NN[i], 0, d[i] - 1); if (!canon) sym_assume(n[i] + up[i] < d[i]); }
  uint64_t st = sym_state(L, n);
  auto op = make_loperator(e, hs);
  SymVec<double> out, want;
  op(ket<double>(st), out);
  double am = 1; bool nz = true;
  uint64_t m[3] = {n[0], n[1], n[2]};
  for (int i = nw; nz && i-- > 0;) {
    if (k[i]) { if (m[p[i]] + 1 >= d[p[i]]) nz = false; else am *= std::sqrt(double(++m[p[i]])); }
    else { if (m[p[i]] == 0) nz = false; else am *= std::sqrt(double(m[p[i]]--)); }
  }
  if (nz) want.r.push_back({with_occ(L, st, m), am});
  same_vec_f(out, want, "bosonic operators act as truncated ladder matrices");
  for (auto& r : out.r) sym_observe_f(r.amp);
  sym_cover(nz ? "survives" : "annihilated");
}
// large truncations: occupations around the end of the tabulated square roots and the ends of the space
// params: dimension, largest power, fermions below
ENTRY c09_large() {
  uint64_t D = (uint64_t)sym_param(0);
  int pmax = sym_param(1), nf = sym_param(2);
  hilbert_space<int> hs;
  uint64_t d[3] = {3, D, 1};
  Layout L = make_hs(hs, nf, 2, d);
  uint64_t cand[14] = {0, 1, 2, 3, D - 1, D - 2, D - 3, 125, 126, 127, 128, 129, 130, D / 2};
  uint64_t n[3] = {1, 0, 0};
  n[1] = cand[sym_pick_range("n", 0, 13)];
  if (n[1] >= D) n[1] = D - 1;
  int pc = (int)sym_pick_range("pc", 0, pmax), pa = (int)sym_pick_range("pa", 0, pmax);
  E e(1.0);
  for (int i = 0; i < pc; ++i) e = e * a_dag(1);
  for (int i = 0; i < pa; ++i) e = e * a(1);
  auto op = make_loperator(e, hs);
  uint64_t st = sym_state(L, n);
  SymVec<double> out, want;
  op(ket<double>(st), out);
  uint64_t m[3] = {n[0], n[1], n[2]};
  double am = 1; bool nz = true;
  for (int i = 0; nz && i < pa; ++i) { if (m[1] == 0) nz = false; else am *= std::sqrt(double(m[1]--)); }
  for (int i = 0; nz && i < pc; ++i) { if (m[1] + 1 >= D) nz = false; else am *= std::sqrt(double(++m[1])); }
  if (nz) want.r.push_back({with_occ(L, st, m), am});
  same_vec_f(out, want, "bosonic operators act as truncated ladder matrices (large spaces)");
  for (auto& r : out.r) sym_observe_f(r.amp);
  sym_cover(nz ? "survives" : "annihilated");
}
// target states for every occupation of a space of 2^bits + extra states (amplitudes not compared)
// params: log2 of the dimension, extra, fermions below, number of creation, number of annihilation operators
ENTRY c09_targets() {
  int bits = sym_param(0), nf = sym_param(2);
  uint64_t D = (uint64_t(1) << bits) + sym_param(1);
  hilbert_space<int> hs;
  uint64_t d[3] = {3, D, 1};
  Layout L = make_hs(hs, nf, 2, d);
  uint64_t n = sym_range("n", 128, D - 1);
  int pc = (int)sym_pick_range("pc", 0, sym_param(3)), pa = (int)sym_pick_range("pa", 0, sym_param(4));
  E e(1.0);
  for (int i = 0; i < pc; ++i) e = e * a_dag(1);
  for (int i = 0; i < pa; ++i) e = e * a(1);
  auto op = make_loperator(e, hs);
  uint64_t occ[3] = {1, n, 0};
  uint64_t st = sym_state(L, occ);
  sym_assume(n >= 128 + (uint64_t)pa);
  SymVec<double> out;
  op(ket<double>(st), out);
  bool nz = sym_branch(n - pa + pc < D);
  sym_check(out.r.size() == (nz ? 1u : 0u), "the result vanishes exactly when the truncation is exceeded");
  if (nz && out.r.size() == 1) {
    uint64_t mk = ((uint64_t(1) << width(D)) - 1) << L.sh[1];
    sym_check(out.r[0].idx == ((st & ~mk) | ((n - pa + pc) << L.sh[1])), "the occupation is shifted and all other bits are left alone");
  }
  sym_cover(nz ? "survives" : "annihilated");
}
