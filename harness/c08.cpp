// C08: fermionic operators act as canonical Jordan-Wigner matrices.
#include "lop.h"
#include "c08_sets.h"
typedef expression<long, int> E;
static E fop(int kind, int i) {
  using namespace static_indices;
  return kind == 1 ? c_dag<long>(i) : kind == 0 ? c<long>(i) : n<long>(i);
}
// params: n (operators), M (modes), set of positions (0: all), largest kind (1: c, c+; 2: also n)
ENTRY c08_words() {
  using namespace static_indices;
  int nw = sym_param(0), M = sym_param(1), set = sym_param(2), kmax = sym_param(3);
  hilbert_space<int> hs;
  for (int i = 0; i < M; ++i) hs.add(make_space_fermion(i));
  int p[8], k[8];
  E e;
  for (int i = 0; i < nw; ++i) {
    k[i] = (int)sym_pick_range(KN[i], 0, kmax);
    p[i] = pick_pos(IX[i], set, M);
    e = i == 0 ? fop(k[i], p[i]) : e * fop(k[i], p[i]);
  }
  auto op = make_loperator(e, hs);
  uint64_t st = sym_range("state", 0, (uint64_t(1) << M) - 1);
  SymVec<long> out;
  op(ket<long>(st), out);
  uint64_t s = st; long a = 1; bool nz = true;
  for (int i = nw; nz && i-- > 0;) {
    if (k[i] == 2) nz = jw(s, a, p[i], false) && jw(s, a, p[i], true);
    else nz = jw(s, a, p[i], k[i] == 1);
  }
  SymVec<long> want;
  if (nz) want.r.push_back({s, a});
  same_vec(out, want, "fermionic operators act as Jordan-Wigner matrices");
  sym_observe(out.r.size());
  sym_cover(nz ? "survives" : "annihilated");
}
// linear combinations of monomials up to degree 2 each, in a space shared with bosons and spins
// params: modes, dim of the boson, twice the spin
ENTRY c08_mixed_space() {
  using namespace static_indices;
  int M = sym_param(0);
  hilbert_space<int> hs;
  hs.add(make_space_spin(sym_param(2) * 0.5, 0));
  hs.add(make_space_boson(sym_param(1), 0));
  for (int i = M; i-- > 0;) hs.add(make_space_fermion(i));
  int tot = hs.total_n_bits();
  int p[3], k[3];
  E e;
  for (int i = 0; i < 3; ++i) { k[i] = (int)sym_pick_range(KN[i], 0, 2); p[i] = pick_pos(IX[i], 0, M); }
  long c0 = (long)sym_range("c0", 0, 6) - 3;
  e = fop(k[0], p[0]) * fop(k[1], p[1]) + c0 * fop(k[2], p[2]);
  auto op = make_loperator(e, hs);
  uint64_t st = sym_range("state", 0, (uint64_t(1) << tot) - 1);
  SymVec<long> out = op * ket<long>(st), want;
  { uint64_t s = st; long a = 1; bool nz = true;
    for (int i = 2; nz && i-- > 0;) { if (k[i] == 2) nz = jw(s, a, p[i], false) && jw(s, a, p[i], true); else nz = jw(s, a, p[i], k[i] == 1); }
    if (nz) want.r.push_back({s, a}); }
  { uint64_t s = st; long a = c0; bool nz;
    if (k[2] == 2) nz = jw(s, a, p[2], false) && jw(s, a, p[2], true); else nz = jw(s, a, p[2], k[2] == 1);
    if (nz) want.r.push_back({s, a}); }
  same_vec(out, want, "fermionic operators act as Jordan-Wigner matrices and leave other bits alone");
  sym_observe(out.r.size());
}
// mode order follows the index order (string and integer indices)
ENTRY c08_string_modes() {
  using namespace static_indices;
  static const char* sp[3] = {"dn", "up", "u"};
  int n = sym_param(0);
  hilbert_space<std::string, int> hs;
  for (int s = 0; s < 3; ++s) for (int i = n; i-- > 0;) hs.add(make_space_fermion(sp[s], i));
  // canonical order of index tuples: "dn" < "u" < "up"
  static const int ord[3] = {0, 2, 1};
  int s0 = (int)sym_pick_range("s0", 0, 2), s1 = (int)sym_pick_range("s1", 0, 2);
  int i0 = (int)sym_pick_range("i0", 0, n - 1), i1 = (int)sym_pick_range("i1", 0, n - 1);
  int p0 = ord[s0] * n + i0, p1 = ord[s1] * n + i1;
  using ES = expression<long, std::string, int>;
  ES e = c_dag<long>(sp[s0], i0) * c<long>(sp[s1], i1);
  auto op = make_loperator(e, hs);
  uint64_t st = sym_range("state", 0, (uint64_t(1) << (3 * n)) - 1);
  SymVec<long> out, want;
  op(ket<long>(st), out);
  uint64_t s = st; long a = 1;
  if (jw(s, a, p1, false) && jw(s, a, p0, true)) want.r.push_back({s, a});
  same_vec(out, want, "modes are ordered by their index tuples");
  sym_observe(out.r.size());
}
