// C18: operators applied through views equal the projected action.
#include "sectors.h"
#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <libcommute/loperator/sparse_state_vector.hpp>
typedef sector_descriptor<HS> SD;
typedef loperator<long, fermion, boson, spin> LO;
typedef expression<long, int> EL;
// basis states of a space with M fermions and nb other bits that hold N particles (and N1 of them on modes 0..1)
struct Sub { int M, nb, N, N1; bool has(uint64_t s) const { uint64_t f = s & ((uint64_t(1) << M) - 1); return s < uint64_t(1) << (M + nb) && (N < 0 || popc(f) == N) && (N1 < 0 || popc(f & 3) == N1); } };
template <bool constant, typename F> static void with_view(int kind, HS const& hs, Sub const& sub, std::vector<long>& store, F&& f) {
  uint64_t full = uint64_t(1) << (sub.M + sub.nb);
  std::vector<sv_index_type> st;
  for (uint64_t s = full; s-- > 0;) if (sub.has(s)) st.push_back(s);
  if (kind == 0) { store.assign(full, 3); f(store); }
  else if (kind == 1) { store.assign(full, 3); if constexpr (constant) { auto v = make_const_comp_state_view(store, hs); f(v); } else { auto v = make_comp_state_view(store, hs); f(v); } }
  else if (kind == 2) { store.assign(st.size(), 3); basis_mapper m(st); if constexpr (constant) { auto v = m.make_const_view(store); f(v); } else { auto v = m.make_view(store); f(v); } }
  else if (kind == 3) { store.assign(st.size(), 3); if constexpr (constant) { auto v = make_const_nfs_view(store, hs, sub.N); f(v); } else { auto v = make_nfs_view(store, hs, sub.N); f(v); } }
  else if (kind == 4) {
    std::vector<SD> sec(2); for (int i = 0; i < sub.M; ++i) sec[i < 2 ? 0 : 1].indices.insert(std::make_tuple(i));
    sec[0].N = sub.N1; sec[1].N = sub.N - sub.N1;
    store.assign(st.size(), 3);
    if constexpr (constant) { auto v = make_const_nfms_view(store, hs, sec); f(v); } else { auto v = make_nfms_view(store, hs, sec); f(v); }
  } else if constexpr (!constant) { sparse_state_vector<long> v(full); f(v); }
}
static const char* ON[4] = {"op0", "op1", "op2", "op3"};
static const char* KC[4] = {"k0", "k1", "k2", "k3"};
// words conserving the particle number of both groups of modes, or moving particles by a fixed amount
static EL word(int cls, int t, int M, int nb) {
  auto cd = [](int m) { return c_dag<long>(m); };
  auto cc = [](int m) { return c<long>(m); };
  EL e;
  if (cls == 0) switch ((int)sym_pick_range(ON[t], 0, 4)) { // conserve both groups
    case 0: e = cd(0) * cc(1); break;
    case 1: e = cd(1) * cc(0); break;
    case 2: e = n<long>(0) * n<long>(M - 1); break;
    case 3: if (M > 3) e = cd(2) * cc(3); else e = n<long>(1); break;
    case 4: if (nb & 1) e = S_p<long>(0) + 2 * S_m<long>(0); else e = n<long>(M - 1); break;
  }
  else if (cls == 1) { int i = (int)sym_pick_range(ON[t], 0, 1); e = cd(i); if (nb & 1) e *= (EL(2) + S_p<long>(0)); if (sym_pick_range("nn", 0, 1)) e *= n<long>(M - 1); } // adds a particle to the first group
  else { int i = (int)sym_pick_range(ON[t], 2, M - 1); int j = (int)sym_pick_range(KC[t], 0, 1); e = cd(j) * cc(i); } // moves one particle from the second to the first group
  return e;
}
// params: source view, target view, modes, other bits, class of operators, terms, symbolic source state (0) or all-states vector (1)
ENTRY c18_action() {
  int ks = sym_param(0), kd = sym_param(1), M = sym_param(2), nb = sym_param(3), cls = sym_param(4), nt = sym_param(5);
  HS hs = make_hs(M, nb);
  int N = -1, N1 = -1;
  int dN = cls == 1 ? 1 : 0, dN1 = cls == 0 ? 0 : 1;
  if (ks >= 2 && ks <= 4) { N = (int)sym_pick_range("N", 0, M - dN); }
  else if (kd >= 2 && kd <= 4) { N = (int)sym_pick_range("N", 0, M - dN); }
  bool two = ks == 4 || kd == 4 || (ks == 2 && kd == 2);
  if (two && N >= 0) { N1 = (int)sym_pick_range("N1", 0, 2); sym_assume(N1 <= N && N - N1 <= M - 2 && N1 + dN1 <= 2 && N - N1 + dN - dN1 >= 0); }
  Sub src{M, nb, N, ks == 3 ? -1 : N1}, dst{M, nb, N < 0 ? -1 : N + dN, (kd == 3 || N1 < 0) ? -1 : N1 + dN1};
  if (ks == 0 || ks == 1 || ks == 5) src.N = src.N1 = -1;
  EL e;
  static const char* CN[3] = {"c0", "c1", "c2"};
  for (int t = 0; t < nt; ++t) { long k = (long)sym_range(CN[t], 0, 20) - 10; sym_assume(k != 0); e += k * word(cls, t, M, nb); }
  LO op = make_loperator(e, hs);
  uint64_t full = uint64_t(1) << (M + nb);
  // source with two non-zero amplitudes at states inside the source view whose images stay inside the target view
  Sub inner{M, nb, N, N1};
  std::vector<uint64_t> st; for (uint64_t s = 0; s < full; ++s) if (inner.has(s)) st.push_back(s);
  if (st.empty()) return;
  uint64_t x = st[sym_pick_range("x", 0, st.size() - 1)], y = st[sym_pick_range("y", 0, sym_param(6) ? st.size() - 1 : 0)];
  long ax = (long)sym_range("ax", 1, 10), ay = x == y ? 0 : -(long)sym_range("ay", 1, 10);
  std::vector<long> dense(full), want;
  dense[x] = ax; if (x != y) dense[y] = ay;
  want = op(dense);
  std::vector<long> s1, s2;
  with_view<false>(ks, hs, src, s1, [&](auto& v) { set_zeros(v); update_add_element(v, x, ax); if (x != y) update_add_element(v, y, ay); 
    with_view<false>(kd, hs, dst, s2, [&](auto& w) {
      op(v, w);
      uint64_t h = 0;
      for (uint64_t s = 0; s < full; ++s) {
        if (dst.has(s)) { long g = get_element(w, s); sym_check(g == want[s], "amplitudes equal those of the action on the full space"); h = h * 7 + (uint64_t)g; }
        else sym_check(want[s] == 0, "images remain inside the target view");
      }
      uint64_t cnt = 0, nzs = 0;
      for (auto a : want) if (sym_branch(a != 0)) ++nzs;
      bool ok = true;
      foreach(w, [&](sv_index_type s, long a) { ok = ok && s < full && sym_branch(a == want[s]); ++cnt; });
      sym_check(ok && cnt == nzs, "enumerating the target view gives the non-zero amplitudes");
      sym_observe(h);
    });
  });
  // through a constant view
  if (ks >= 1 && ks < 5) {
    std::vector<long> keep = s1, tmp;
    with_view<true>(ks, hs, src, tmp, [&](auto& cv) {
      tmp = keep;
      std::vector<long> out(full, 5);
      op(cv, out);
      bool ok = true; for (uint64_t s = 0; s < full; ++s) ok = ok && sym_branch(out[s] == want[s]);
      sym_check(ok, "acting from a constant view");
    });
  }
}
// sparse spaces: bosons of any dimension, a spin and a fermion, real amplitudes
ENTRY c18_sparse() {
  int ks = sym_param(0), kd = sym_param(1), dmax = sym_param(2);
  SpaceSet S;
  S.s.push_back({0, 2, 0, 0, 0});
  S.s.push_back({1, sym_pick_range("d0", 2, dmax), 0, 0, 0});
  S.s.push_back({1, sym_pick_range("d1", 1, dmax), 1, 0, 0});
  S.s.push_back({2, 3, 0, 0, 0});
  S.layout();
  HS hs; for (int i = (int)S.s.size(); i-- > 0;) hs.add(*S.make(i));
  typedef expression<double, int> ED;
  ED e;
  switch ((int)sym_pick_range("w", 0, 3)) {
    case 0: e = a_dag<double>(0) * a<double>(1) - 2.0 * a_dag<double>(1) * a<double>(0) + 0.5; break;
    case 1: e = c_dag<double>(0) * a<double>(0) + c<double>(0) * a_dag<double>(0); break;
    case 2: e = S_p<3, double>(0) * a<double>(0) + S_m<3, double>(0) * a_dag<double>(0) + S_z<3, double>(0); break;
    default: e = a_dag<double>(0) * a_dag<double>(0) + n<double>(0) * a<double>(1); break;
  }
  auto op = make_loperator(e, hs);
  uint64_t full = uint64_t(1) << S.bits;
  uint64_t r0 = sym_pick_range("x", 0, S.dim - 1), x = S.unrank(r0), y = S.unrank(S.dim - 1 - r0);
  std::vector<double> dense(full), want;
  dense[x] = 2; if (y != x) dense[y] = -0.5;
  want = op(dense);
  std::vector<sv_index_type> all; for (uint64_t r = S.dim; r-- > 0;) all.push_back(S.unrank((r * 7 + 3) % S.dim)); // some order
  if (S.dim % 7 == 0) { all.clear(); for (uint64_t r = 0; r < S.dim; ++r) all.push_back(S.unrank(r)); }
  auto run = [&](auto& v, auto& w) {
    set_zeros(v); update_add_element(v, x, 2.0); if (y != x) update_add_element(v, y, -0.5);
    op(v, w);
    bool ok = true; uint64_t cnt = 0, nzs = 0;
    for (uint64_t r = 0; r < S.dim; ++r) { uint64_t s = S.unrank(r); ok = ok && close(get_element(w, s), want[s]); nzs += want[s] != 0; }
    sym_check(ok, "amplitudes equal those of the action on the full space (sparse)");
    ok = true;
    foreach(w, [&](sv_index_type s, double a) { ok = ok && s < full && close(a, want[s]); ++cnt; });
    sym_check(ok && cnt == nzs, "enumerating the target view gives the non-zero amplitudes (sparse)");
  };
  basis_mapper m(all);
  std::vector<double> s1, s2;
  auto target = [&](auto& v) {
    if (kd == 0) { s2.assign(full, 3); run(v, s2); }
    else if (kd == 1) { s2.assign(S.dim, 3); auto w = make_comp_state_view(s2, hs); run(v, w); }
    else { s2.assign(S.dim, 3); auto w = m.make_view(s2); run(v, w); }
  };
  if (ks == 0) { s1.assign(full, 3); target(s1); }
  else if (ks == 1) { s1.assign(S.dim, 3); auto v = make_comp_state_view(s1, hs); target(v); }
  else { s1.assign(S.dim, 3); auto v = m.make_view(s1); target(v); }
  sym_cover("done");
}
