// C12: Hilbert-space bit layout.
#include "spaces.h"
using namespace static_indices;
typedef hilbert_space<int> HS;
static const char* KD[5] = {"k0", "k1", "k2", "k3", "k4"};
static const char* IDX[5] = {"i0", "i1", "i2", "i3", "i4"};
// algebra ids increase in this order in canonical order (verified by C04): fermion < boson < spin
static bool before(Sp const& a, Sp const& b) {
  if (a.kind != b.kind) return a.kind < b.kind;
  if (a.kind == 2 && a.dim != b.dim) return a.dim < b.dim;
  return sym_branch(a.idx < b.idx);
}
static bool samesp(Sp const& a, Sp const& b) { return a.kind == b.kind && (a.kind != 2 || a.dim == b.dim) && sym_branch(a.idx == b.idx); }
static Sp pick_space(int i) {
  // kinds: 0 fermion, bosons of dimension 1,2,3,5,8, spins 1/2, 1, 3/2, 2
  static const Sp tab[10] = {{0, 2, 0, 0, 0}, {1, 1, 0, 0, 0}, {1, 2, 0, 0, 0}, {1, 3, 0, 0, 0}, {1, 5, 0, 0, 0}, {1, 8, 0, 0, 0}, {2, 2, 0, 0, 0}, {2, 3, 0, 0, 0}, {2, 4, 0, 0, 0}, {2, 5, 0, 0, 0}};
  Sp x = tab[sym_pick_range(KD[i], 0, 9)];
  x.idx = (int)sym_bits(IDX[i], 32);
  return x;
}
static int algid(int kind) { return kind == 0 ? fermion : kind == 1 ? boson : spin; }
static void check_layout(HS const& hs, SpaceSet const& S) {
  sym_check(hs.size() == S.s.size(), "number of elementary spaces");
  sym_check(hs.total_n_bits() == S.bits, "total number of bits");
  sym_check(hs.vec_size() == (uint64_t(1) << S.bits) && get_vec_size(hs) == (uint64_t(1) << S.bits), "vector size");
  sym_check(hs.dim() == S.dim && get_dim(hs) == S.dim, "total dimension");
  sym_check(hs.is_sparse() == (S.dim != (uint64_t(1) << S.bits)), "sparseness");
  int lo[3] = {-1, -1, -1}, hi[3] = {-1, -1, -1};
  for (int i = 0; i < (int)S.s.size(); ++i) {
    auto es = S.make(i);
    Sp const& x = S.s[i];
    sym_check(hs.has(*es), "every space that was added is found");
    bit_range_t r = hs.bit_range(*es);
    sym_check(r.first == x.lo && r.second == x.lo + x.w - 1, "bit range");
    sym_check(hs.dim(*es) == x.dim, "dimension of an elementary space");
    sym_check(hs.index(*es) == i, "position of an elementary space");
    if (lo[x.kind] < 0) lo[x.kind] = x.lo;
    hi[x.kind] = x.lo + x.w - 1;
    HS h2(hs);
    uint64_t n = x.dim - 1;
    sym_check(h2.basis_state_index(*es, n) == (n << x.lo), "basis_state_index");
    sym_check(h2.basis_state_index(*es, 0) == 0, "basis_state_index of the vacuum");
  }
  for (int k = 0; k < 3; ++k) {
    sym_check(hs.has_algebra(algid(k)) == (lo[k] >= 0), "has_algebra");
    if (lo[k] >= 0) {
      bit_range_t r{-7, -7};
      try { r = hs.algebra_bit_range(algid(k)); } catch (std::runtime_error&) {}
      sym_check(r.first == lo[k] && r.second == hi[k], "bit range of an algebra");
    }
  }
  int n = 0; bool order = true;
  hs.foreach_elementary_space([&](elementary_space<int> const& es) { order = order && n < (int)S.s.size() && es == *S.make(n); ++n; });
  sym_check(order && n == (int)S.s.size(), "foreach_elementary_space visits the spaces in canonical order");
}
// params: number of spaces, construction
ENTRY c12_layout() {
  int n = sym_param(0), form = sym_param(1);
  std::vector<Sp> in;
  SpaceSet S;
  for (int i = 0; i < n; ++i) {
    Sp x = pick_space(i);
    for (auto& y : in) if (samesp(x, y)) return; // duplicates: see C26
    in.push_back(x);
    size_t p = 0;
    while (p < S.s.size() && before(S.s[p], x)) ++p;
    S.s.insert(S.s.begin() + p, x);
  }
  S.layout();
  SpaceSet I; I.s = in; I.layout();
  HS hs;
  if (form == 1) { // from a vector of pointers, in reverse
    std::vector<std::unique_ptr<elementary_space<int>>> own; std::vector<elementary_space<int>*> ptr;
    for (int i = n; i-- > 0;) { own.push_back(I.make(i)); ptr.push_back(own.back().get()); }
    hs = HS(ptr);
    check_layout(hs, S);
    return;
  }
  for (int i = 0; i < n; ++i) hs.add(*I.make(i));
  if (form == 0) check_layout(hs, S);
  else if (form == 2) { HS c(hs); check_layout(c, S); check_layout(hs, S); sym_check(c == hs && !(c != hs), "a copy equals the original"); }
  else if (form == 3) { HS c(make_space_fermion(77), make_space_boson(9, 0)); c = hs; check_layout(c, S); sym_check(c == hs && !(c != hs), "an assigned space equals the original"); }
  else if (form == 4) { HS c(std::move(hs)); check_layout(c, S); HS d(make_space_spin(1.5, 0)); d = std::move(c); check_layout(d, S); }
  else if (form == 5) { // grown after copying
    HS c(hs); HS e(make_space_spin(0.5, 1), make_space_fermion(3)); e = c;
    Sp x = pick_space(n);
    for (auto& y : in) if (samesp(x, y)) return;
    SpaceSet X; X.s.push_back(x);
    c.add(*X.make(0)); e.add(*X.make(0));
    check_layout(hs, S);
    size_t p = 0; while (p < S.s.size() && before(S.s[p], x)) ++p;
    S.s.insert(S.s.begin() + p, x); S.layout();
    check_layout(c, S); check_layout(e, S);
    sym_check(c == e && !(c == hs) && c != hs, "equality of spaces");
  } else if (form == 6) { HS& r = hs; hs = r; check_layout(hs, S); }
  sym_cover("laid out");
}
// construction from an expression (bosons of one dimension) equals incremental construction; operators can be built on copies
ENTRY c12_expression() {
  int n = sym_param(0);
  uint64_t bd = sym_param(1);
  expression<double, int> e(1.0);
  SpaceSet S;
  for (int i = 0; i < n; ++i) {
    int k = (int)sym_pick_range(KD[i], 0, 4), id = (int)sym_bits(IDX[i], 32);
    Sp x;
    if (k == 0) { x = {0, 2, id, 0, 0}; e = e * c_dag(id); }
    else if (k == 1) { x = {1, bd, id, 0, 0}; e = e + a(id); }
    else if (k == 2) { x = {2, 2, id, 0, 0}; e = e * (1.0 + S_z(id)); }
    else if (k == 3) { x = {2, 3, id, 0, 0}; e = e + S_p<3>(id) * S_m<3>(id); }
    else { x = {2, 6, id, 0, 0}; e = e - S_z<6>(id); }
    bool dup = false;
    for (auto& y : S.s) dup = dup || samesp(x, y);
    if (dup) return;
    size_t p = 0; while (p < S.s.size() && before(S.s[p], x)) ++p;
    S.s.insert(S.s.begin() + p, x);
  }
  S.layout();
  auto hs = make_hilbert_space(e, boson_es_constructor(bd));
  check_layout(hs, S);
  HS c(hs), d; d = hs;
  uint64_t st = sym_range("st", 0, 3);
  auto o1 = make_loperator(e, hs);
  bool ok = true;
  try { auto o2 = make_loperator(e, c); auto o3 = make_loperator(e, d);
    SymVec<double> v = ket<double>(0);
    auto x = o1 * v, y = o2 * v, z = o3 * v;
    ok = x.r.size() == y.r.size() && y.r.size() == z.r.size();
    for (size_t i = 0; ok && i < x.r.size(); ++i) ok = x.r[i].idx == y.r[i].idx && x.r[i].idx == z.r[i].idx && x.r[i].amp == y.r[i].amp && x.r[i].amp == z.r[i].amp;
  } catch (std::exception&) { ok = false; }
  sym_check(ok, "operators built on copies of a Hilbert space act as on the original");
  (void)st;
}
// equality of spaces: the same elementary spaces with the same dimensions
ENTRY c12_equality() {
  int n = sym_param(0);
  SpaceSet A, B;
  for (int i = 0; i < n; ++i) {
    int k = (int)sym_pick_range(KD[i], 0, 2);
    static const char* DA[5] = {"a0", "a1", "a2", "a3", "a4"};
    static const char* DB[5] = {"b0", "b1", "b2", "b3", "b4"};
    static const char* J[5] = {"j0", "j1", "j2", "j3", "j4"};
    uint64_t da = k == 0 ? 2 : sym_pick_range(DA[i], k == 1 ? 1 : 2, k == 1 ? 5 : 4);
    uint64_t db = k == 0 ? 2 : sym_pick_range(DB[i], k == 1 ? 1 : 2, k == 1 ? 5 : 4);
    int ia = (int)sym_bits(IDX[i], 32), ib = (int)sym_bits(J[i], 32);
    A.s.push_back({k, da, ia, 0, 0}); B.s.push_back({k, db, ib, 0, 0});
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (samesp(A.s[i], A.s[j]) || samesp(B.s[i], B.s[j])) return;
  HS ha, hb;
  for (int i = 0; i < n; ++i) ha.add(*A.make(i));
  for (int i = n; i-- > 0;) hb.add(*B.make(i));
  bool same = true; // every space of A occurs in B
  for (int i = 0; i < n; ++i) { bool f = false; for (int j = 0; j < n; ++j) f = f || (samesp(A.s[i], B.s[j]) && A.s[i].dim == B.s[j].dim); same = same && f; }
  sym_check((ha == hb) == same && (ha != hb) == !same, "spaces are equal exactly if they have the same elementary spaces and dimensions");
  sym_check((hb == ha) == same && ha == ha && !(hb != hb), "equality is symmetric and reflexive");
  HS hc(hb); hc.add(make_space_spin(3.0, 0));
  sym_check(hc != ha && hc != hb, "spaces of different sizes differ");
  sym_cover(same ? "same" : "different");
}
// wide spaces: elementary spaces of large dimension, up to 63 bits in total
ENTRY c12_wide() {
  static const uint64_t tab[9] = {1, 2, 1000003, (1u << 20) + 1, uint64_t(1) << 31, (uint64_t(1) << 32) + 1, uint64_t(1) << 40, (uint64_t(1) << 45) - 1, (uint64_t(1) << 62) + 1};
  int nf = sym_param(0), nb = sym_param(1);
  SpaceSet S;
  for (int i = 0; i < nf; ++i) S.s.push_back({0, 2, i - 1, 0, 0});
  for (int i = 0; i < nb; ++i) S.s.push_back({1, tab[sym_pick_range(KD[i], 0, 8)], i, 0, 0});
  S.s.push_back({2, 3, 0, 0, 0});
  S.layout();
  if (S.bits > 63) return;
  HS hs;
  for (int i = (int)S.s.size(); i-- > 0;) hs.add(*S.make(i));
  check_layout(hs, S);
  HS c(hs);
  check_layout(c, S);
  sym_cover(S.bits > 32 ? "wide" : "narrow");
}
