// C20, C21: invariant subspaces of an operator and their merging.
#include "spaces.h"
#include <libcommute/loperator/space_partition.hpp>
#include <libcommute/loperator/sparse_state_vector.hpp>
using namespace static_indices;
typedef expression<long, int> EL;
typedef loperator<long, fermion, boson, spin> LO;
// reference matrices: columns are the images of the basis states (valid states only)
template <typename S> struct Mat {
  int n; std::vector<S> e; // e[i*n+j]: <i|O|j> over ranks
  S at(int i, int j) const { return e[(size_t)i * n + j]; }
};
template <typename S, typename OP> static Mat<S> matrix_of(OP const& op, SpaceSet const& sp) {
  Mat<S> m; m.n = (int)sp.dim; m.e.assign(sp.dim * sp.dim, S(0));
  uint64_t size = uint64_t(1) << sp.bits;
  for (uint64_t j = 0; j < sp.dim; ++j) {
    std::vector<S> v(size), w;
    v[sp.unrank(j)] = S(1);
    w = op(v);
    for (uint64_t i = 0; i < sp.dim; ++i) m.e[i * m.n + j] = w[sp.unrank(i)];
  }
  return m;
}
template <typename S> static bool nz(S x) { return sym_branch(x != S(0)); }
struct Part {
  int n; std::vector<int> lab;
  explicit Part(int n) : n(n), lab(n) { for (int i = 0; i < n; ++i) lab[i] = i; }
  bool unite(int a, int b) { int x = lab[a], y = lab[b]; if (x == y) return false; for (auto& l : lab) if (l == y) l = x; return true; }
};
template <typename SP> static void check_partition(SP const& sp, SpaceSet const& hs, Part const& want, const char* lsame) {
  int n = (int)hs.dim;
  sym_check(sp.dim() == hs.dim, "dimension of the partitioned space");
  std::vector<uint64_t> sub(n);
  std::vector<bool> used(n + 1, false);
  uint64_t h = 0;
  for (int i = 0; i < n; ++i) { sub[i] = sp[hs.unrank(i)]; sym_check(sub[i] < sp.n_subspaces(), "subspace indices are below the number of subspaces"); if (sub[i] < (uint64_t)n) used[sub[i]] = true; h = h * 13 + sub[i]; }
  bool ok = true;
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) ok = ok && (sub[i] == sub[j]) == (want.lab[i] == want.lab[j]);
  sym_check(ok, lsame);
  uint64_t cnt = 0; for (bool u : used) cnt += u;
  sym_check(cnt == sp.n_subspaces(), "subspace indices are consecutive");
  auto bases = sp.subspace_bases();
  sym_check(bases.size() == sp.n_subspaces(), "one basis per subspace");
  std::vector<int> seen(uint64_t(1) << hs.bits, 0);
  uint64_t tot = 0;
  for (uint64_t s = 0; s < bases.size(); ++s) {
    auto b = sp.subspace_basis(s);
    sym_check(b == bases[s], "subspace_basis and subspace_bases agree");
    for (auto st : b) { bool v = st < seen.size() && hs.valid(st); sym_check(v, "subspaces are spanned by basis states"); if (v) { ++seen[st]; sym_check(sub[hs.rank(st)] == s, "a basis holds the states of its subspace"); } ++tot; }
  }
  sym_check(tot == hs.dim, "every basis state belongs to one subspace");
  for (int i = 0; i < n; ++i) sym_check(seen[hs.unrank(i)] == 1, "every basis state is listed once");
  bool thrown = false; try { sp.subspace_basis(sp.n_subspaces()); } catch (std::runtime_error&) { thrown = true; }
  sym_check(thrown, "an absent subspace is rejected");
  uint64_t visits = 0; bool fok = true;
  foreach(sp, [&](sv_index_type st, sv_index_type s) { ++visits; fok = fok && st < seen.size() && hs.valid(st) && s == sub[hs.rank(st)]; });
  sym_check(fok && visits == hs.dim, "foreach visits every basis state with its subspace");
  sym_observe(h);
}
template <typename S> static void check_elements(matrix_elements_map<S> const& me, Mat<S> const& m, SpaceSet const& hs, const char* label) {
  uint64_t cnt = 0;
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (nz(m.at(i, j))) {
    ++cnt;
    auto it = me.find({hs.unrank(i), hs.unrank(j)});
    sym_check(it != me.end() && it->second == m.at(i, j), label);
  }
  sym_check(me.size() == cnt, "no other matrix elements are reported");
}
template <typename SP, typename S, typename OP> static void check_connections(SP const& sp, OP const& op, Mat<S> const& m, SpaceSet const& hs) {
  auto con = sp.find_connections(op);
  std::set<std::pair<sv_index_type, sv_index_type>> want;
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (nz(m.at(i, j))) want.insert({sp[hs.unrank(j)], sp[hs.unrank(i)]});
  sym_check(con == want, "connections are the pairs of subspaces joined by non-zero elements");
}
static const char* KC[6] = {"k0", "k1", "k2", "k3", "k4", "k5"};
static const char* QN[6] = {"q0", "q1", "q2", "q3", "q4", "q5"};
static long coef(int i) { return (long)sym_range(KC[i], 0, 1 << 21) - (1 << 20); }
static EL gen(int q, int layout) {
  auto cd = [](int m) { return c_dag<long>(m); };
  auto cc = [](int m) { return c<long>(m); };
  if (layout == 2) // spin 1/2 and two fermions
    switch (q) { case 0: return cd(0) * cc(1); case 1: return S_p<long>(0) * cc(0); case 2: return S_p<long>(0); case 3: return cd(0) * cd(1); case 4: return n<long>(0) * cd(1); default: return n<long>(1); }
  switch (q) { case 0: return cd(0) * cc(1); case 1: return cd(1) * cc(2); case 2: return cd(2) * cc(0); case 3: return cd(0) * cd(1); case 4: return n<long>(0) * cd(2); default: return cd(1); }
}
static SpaceSet layout_of(int layout) {
  SpaceSet S;
  for (int i = 0; i < (layout == 2 ? 2 : 3); ++i) S.s.push_back({0, 2, i, 0, 0});
  if (layout == 2) S.s.push_back({2, 2, 0, 0, 0});
  S.layout();
  return S;
}
static hilbert_space<int> make_space(SpaceSet const& S) { hilbert_space<int> hs; for (int i = (int)S.s.size(); i-- > 0;) hs.add(*S.make(i)); return hs; }
static Part components(Mat<long> const& m) { Part p(m.n); for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (i != j && nz(m.at(i, j))) p.unite(i, j); return p; }
// params: layout, number of terms, add Hermitian conjugate
ENTRY c20_partition() {
  int lay = sym_param(0), nt = sym_param(1), herm = sym_param(2);
  SpaceSet S = layout_of(lay);
  auto hs = make_space(S);
  EL e = coef(5) * n<long>(0);
  for (int t = 0; t < nt; ++t) { EL g = gen((int)sym_pick_range(QN[t], 0, 5), lay); e += coef(t) * (herm ? EL(g + conj(g)) : g); }
  LO op = make_loperator(e, hs);
  auto m = matrix_of<long>(op, S);
  Part want = components(m);
  auto sp = make_space_partition(op, hs);
  check_partition(sp, S, want, "states share a subspace exactly when connected");
  matrix_elements_map<long> me;
  auto sp2 = make_space_partition(op, hs, me);
  check_partition(sp2, S, want, "states share a subspace exactly when connected (elements stored)");
  check_elements(me, m, S, "stored matrix elements of the operator");
  LO probe = make_loperator(gen((int)sym_pick_range("probe", 0, 5), lay), hs);
  check_connections(sp, probe, matrix_of<long>(probe, S), S);
}
// spaces with unused bit patterns: bosons and spins of any dimension
ENTRY c20_sparse() {
  SpaceSet S;
  static const char* DN[3] = {"d0", "d1", "d2"};
  S.s.push_back({0, 2, 0, 0, 0});
  S.s.push_back({1, sym_pick_range(DN[0], 1, sym_param(0)), 0, 0, 0});
  S.s.push_back({1, sym_pick_range(DN[1], 1, sym_param(0)), 1, 0, 0});
  S.layout();
  auto hs = make_space(S);
  typedef expression<double, int> ED;
  auto cf = [](int i) { return (double)sym_pick_range(KC[i], 0, 2) - 1.0; };
  ED e = cf(0) * (a_dag<double>(0) * a<double>(1) + a_dag<double>(1) * a<double>(0)) + cf(1) * (a_dag<double>(0) * a_dag<double>(0) + a<double>(0) * a<double>(0)) + cf(2) * (c_dag<double>(0) * a_dag<double>(1) + c<double>(0) * a<double>(1)) + cf(3) * n<double>(0);
  auto op = make_loperator(e, hs);
  auto m = matrix_of<double>(op, S);
  Part want(m.n);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (i != j && m.at(i, j) != 0) want.unite(i, j);
  matrix_elements_map<double> me;
  auto sp = make_space_partition(op, hs, me);
  check_partition(sp, S, want, "states share a subspace exactly when connected (sparse space)");
  check_elements(me, m, S, "stored matrix elements of the operator (sparse space)");
  auto sp2 = make_space_partition(op, hs);
  check_partition(sp2, S, want, "states share a subspace exactly when connected (sparse space)");
  // merging for a boson ladder operator
  auto Cd = make_loperator(a_dag<double>(0), hs), C = make_loperator(a<double>(0), hs);
  auto mCd = matrix_of<double>(Cd, S), mC = matrix_of<double>(C, S);
  auto els = sp.merge_subspaces(Cd, C);
  bool more = true;
  while (more) {
    more = false;
    for (auto* mm : {&mCd, &mC}) for (int j = 0; j < m.n; ++j) for (int i = 0; i < m.n; ++i) if (mm->at(i, j) != 0)
      for (int j2 = 0; j2 <= j; ++j2) if (want.lab[j] == want.lab[j2]) for (int i2 = 0; i2 < m.n; ++i2) if (mm->at(i2, j2) != 0) more |= want.unite(i, i2);
  }
  check_partition(sp, S, want, "merging joins exactly what one-to-one maps require (sparse space)");
  check_elements(els.first, mCd, S, "matrix elements of Cd"); check_elements(els.second, mC, S, "matrix elements of C");
}
// params: layout, terms in H, Hermitian pair (1) or independent operators (0), merges
ENTRY c21_merge() {
  int lay = sym_param(0), nt = sym_param(1), pair = sym_param(2), merges = sym_param(3);
  SpaceSet S = layout_of(lay);
  auto hs = make_space(S);
  EL e = n<long>(0);
  for (int t = 0; t < nt; ++t) { EL g = gen((int)sym_pick_range(QN[t], 0, 5), lay); e += coef(t) * (g + conj(g)); }
  LO op = make_loperator(e, hs);
  auto m = matrix_of<long>(op, S);
  Part want = components(m);
  auto sp = make_space_partition(op, hs);
  for (int k = 0; k < merges; ++k) {
    static const char* P1[2] = {"p0", "p1"}; static const char* P2[2] = {"r0", "r1"}; static const char* P3[2] = {"m0", "m1"};
    EL o = gen((int)sym_pick_range(P1[k], 0, 5), lay) + ((long)sym_range(P3[k], 0, 1 << 21) - (1 << 20)) * gen((int)sym_pick_range(P2[k], 0, 5), lay);
    EL oc = pair ? EL(conj(o)) : gen((int)sym_pick_range(k ? "s1" : "s0", 0, 5), lay);
    LO Cd = make_loperator(o, hs), C = make_loperator(oc, hs);
    auto mCd = matrix_of<long>(Cd, S), mC = matrix_of<long>(C, S);
    std::vector<std::vector<int>> nzs; // list of non-zero elements (matrix, i, j)
    for (int q = 0; q < 2; ++q) for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) if (nz((q ? mC : mCd).at(i, j))) nzs.push_back({q, i, j});
    bool more = true;
    while (more) { more = false; for (auto& x : nzs) for (auto& y : nzs) if (x[0] == y[0] && want.lab[x[2]] == want.lab[y[2]]) more |= want.unite(x[1], y[1]); }
    bool store = k == 0;
    auto els = sp.merge_subspaces(Cd, C, store);
    check_partition(sp, S, want, "merging joins exactly what one-to-one maps require");
    if (store) { check_elements(els.first, mCd, S, "matrix elements of Cd are reported"); check_elements(els.second, mC, S, "matrix elements of C are reported"); }
    else sym_check(els.first.empty() && els.second.empty(), "no elements are returned when not requested");
    for (int q = 0; q < 2; ++q) {
      auto con = sp.find_connections(q ? C : Cd);
      std::set<sv_index_type> src, dst; for (auto& c : con) { src.insert(c.first); dst.insert(c.second); }
      sym_check(src.size() == con.size(), "each subspace is mapped into at most one subspace");
      if (pair) sym_check(dst.size() == con.size(), "connections are one-to-one");
    }
    check_connections(sp, Cd, mCd, S);
  }
}
