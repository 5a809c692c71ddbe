// C15: mapped basis views and basis mappers address the declared states.
#include "spaces.h"
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <unordered_map>
#include <set>
using namespace static_indices;
typedef hilbert_space<int> HS;
static const char* SN[6] = {"s0", "s1", "s2", "s3", "s4", "s5"};
// ---- views through a mapper built from a list of arbitrary distinct basis states
// params: number of states, bits of a state, kind of view (0 lvalue, 1 owning copy)
ENTRY c15_view() {
  int K = sym_param(0), bits = sym_param(1), own = sym_param(2);
  std::vector<sv_index_type> st(K);
  for (int i = 0; i < K; ++i) { st[i] = sym_range(SN[i], 0, bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1); for (int j = 0; j < i; ++j) sym_assume(st[j] != st[i]); }
  basis_mapper mapper(st);
  sym_check(mapper.size() == (uint64_t)K, "one position per listed state");
  auto const& map = mapper.map();
  auto inv = mapper.inverse_map();
  sym_check(map.size() == (uint64_t)K && inv.size() == (uint64_t)K, "map and inverse map have one entry per listed state");
  for (int i = 0; i < K; ++i) {
    auto it = map.find(st[i]);
    sym_check(it != map.end() && it->second == (uint64_t)i, "a listed state maps to its position in the list");
    auto jt = inv.find(i);
    sym_check(jt != inv.end() && jt->second == st[i], "the inverse map inverts the map");
  }
  std::vector<long> v(K + 1);
  for (int i = 0; i <= K; ++i) v[i] = 1000 + i;
  auto run = [&](auto& view, auto const& cview, std::vector<long>& store) {
    for (int i = 0; i < K; ++i) sym_check(get_element(view, st[i]) == 1000 + i, "elements are read at the mapped position");
    uint64_t x = sym_range("x", 0, bits == 64 ? ~uint64_t(0) : (uint64_t(1) << bits) - 1);
    int in = -1; for (int i = 0; i < K; ++i) if (sym_branch(st[i] == x)) in = i;
    bool thrown = false; long got = -1;
    try { got = get_element(cview, x); } catch (std::out_of_range&) { thrown = true; }
    sym_check(thrown == (in < 0), "reading throws exactly for states outside of the map");
    if (in >= 0) sym_check(got == 1000 + in, "a constant view reads the mapped element");
    thrown = false;
    try { update_add_element(view, x, 7L); } catch (std::out_of_range&) { thrown = true; }
    sym_check(thrown == (in < 0), "updating throws exactly for states outside of the map");
    for (int i = 0; i <= K; ++i) sym_check(store[i] == 1000 + i + (i == in ? 7 : 0), "only the mapped element is updated");
    if (in >= 0) store[in] = 0;
    int n = 0; bool ok = true; uint64_t seen = 0;
    foreach(view, [&](sv_index_type s, long a) { int w = -1; for (int i = 0; i < K; ++i) if (sym_branch(st[i] == s)) w = i; ok = ok && w >= 0 && w != in && a == 1000 + w; if (w >= 0) { ok = ok && !(seen >> w & 1); seen |= uint64_t(1) << w; } ++n; });
    sym_check(ok && n == K - (in >= 0), "enumeration visits each mapped state with a non-zero amplitude once");
    set_zeros(view);
    bool z = true; for (int i = 0; i <= K; ++i) z = z && store[i] == 0;
    sym_check(z, "all elements are set to zero");
    sym_cover(in < 0 ? "outside" : "inside");
  };
  if (own) {
    auto cview = mapper.make_const_view(std::vector<long>(v));
    auto view = mapper.make_view(std::vector<long>(v));
    run(view, cview, view.state_vector);
    sym_check(v[0] == 1000, "an owning view leaves the original vector alone");
  } else {
    auto view = mapper.make_view(v);
    auto cview = mapper.make_const_view(v);
    run(view, cview, v);
  }
}
// ---- mappers built from operators
static expression<long, int> pick_op(int i, int set) {
  static const char* ON[4] = {"o0", "o1", "o2", "o3"};
  static const char* CN[4] = {"k0", "k1", "k2", "k3"};
  expression<long, int> e;
  auto cd = [](int m) { return c_dag<long>(m); };
  auto cc = [](int m) { return c<long>(m); };
  long k = (long)sym_pick_range(CN[i], 0, 2) - 1; // coefficient of the second term
  switch ((int)sym_pick_range(ON[i], 0, set ? 3 : 4)) {
    case 0: e = cd(0) + k * (cd(1) * cc(0)); break;
    case 1: e = cd(1) + k * cc(1); break;
    case 2: e = cd(2) * cc(0) + k * (cd(0) * cd(1)); break;
    case 3: e = S_p<long>(0) + k * n<long>(0); break;
    case 4: e = cd(2) + k * cd(0); break;
  }
  return e;
}
typedef loperator<long, fermion, boson, spin> LO;
static std::vector<long> act(LO const& o, std::vector<long> const& v) { return o(v); }
// all products O_i^{n_i} ... O_{M-1}^{n_{M-1}} |v> with n_i + ... = N, the last factor acting first
static void products(std::vector<LO> const& O, int m, int N, std::vector<long> const& v, std::set<uint64_t>& out) {
  if (m == 0) { if (N == 0) for (uint64_t j = 0; j < v.size(); ++j) if (v[j]) out.insert(j); return; }
  std::vector<long> w = v;
  for (int n = 0; n <= N; ++n) { products(O, m - 1, N - n, w, out); if (n < N) w = act(O[m - 1], w); }
}
static void same_map(basis_mapper const& mapper, std::set<uint64_t> const& want) {
  auto const& map = mapper.map();
  sym_check(mapper.size() == want.size() && map.size() == want.size(), "the mapper holds as many states as the products reach");
  std::set<uint64_t> pos; bool ok = true;
  for (auto const& p : map) { ok = ok && want.count(p.first) && p.second < want.size(); pos.insert(p.second); }
  sym_check(ok, "the mapper holds exactly the states reached");
  sym_check(pos.size() == want.size(), "positions are distinct and consecutive");
  auto inv = mapper.inverse_map();
  for (auto const& p : map) sym_check(inv.count(p.second) && inv[p.second] == p.first, "the inverse map inverts the map (operators)");
  uint64_t h = 0; for (auto j : want) h = h * 67 + j + 1;
  sym_observe(h);
}
static HS small_space() { return HS(make_space_fermion(0), make_space_fermion(1), make_space_fermion(2), make_space_spin(0.5, 0)); }
ENTRY c15_operator() {
  HS hs = small_space();
  auto e = pick_op(0, 0) * pick_op(1, 0) + (long)sym_pick_range("t", 0, 1) * pick_op(2, 0);
  LO o = make_loperator(e, hs);
  basis_mapper mapper(o, hs);
  std::vector<long> vac(get_vec_size(hs)); vac[0] = 1;
  auto v = act(o, vac);
  std::set<uint64_t> want; for (uint64_t j = 0; j < v.size(); ++j) if (v[j]) want.insert(j);
  same_map(mapper, want);
}
// params: number of operators, largest N, operator set
ENTRY c15_products() {
  int M = sym_param(0), N = (int)sym_pick_range("N", 0, sym_param(1));
  HS hs = small_space();
  std::vector<LO> O;
  for (int i = 0; i < M; ++i) O.push_back(make_loperator(pick_op(i, sym_param(2)), hs));
  basis_mapper mapper(O, hs, N);
  std::vector<long> vac(get_vec_size(hs)); vac[0] = 1;
  std::set<uint64_t> want;
  products(O, M, N, vac, want);
  same_map(mapper, want);
}
// operators of different reach on bosons: components leave the space at different times (amplitudes are positive, nothing cancels)
static expression<double, int> pick_boson_op(int i) {
  static const char* ON[4] = {"o0", "o1", "o2", "o3"};
  static const char* CN[4] = {"k0", "k1", "k2", "k3"};
  auto ad = [](int m) { return a_dag<double>(m); };
  double k = (double)sym_pick_range(CN[i], 0, 1);
  switch ((int)sym_pick_range(ON[i], 0, 5)) {
    case 0: return ad(0) + k * ad(1);
    case 1: return ad(0) * ad(0) + k * ad(1);
    case 2: return ad(1) * n<double>(0) + k * ad(0) * ad(1);
    case 3: return ad(0) + k * c_dag<double>(0);
    case 4: return ad(1) + k * ad(1) * a<double>(0);
    default: return ad(0) * c<double>(0) + k * c_dag<double>(0);
  }
}
typedef loperator<double, fermion, boson, spin> LD;
static void products_d(std::vector<LD> const& O, int m, int N, std::set<uint64_t> const& v, std::set<uint64_t>& out, uint64_t dim) {
  if (m == 0) { if (N == 0) out.insert(v.begin(), v.end()); return; }
  std::set<uint64_t> w = v;
  for (int n = 0; n <= N; ++n) {
    products_d(O, m - 1, N - n, w, out, dim);
    if (n == N) return;
    std::vector<double> x(dim), y; for (auto j : w) x[j] = 1;
    y = O[m - 1](x);
    w.clear(); for (uint64_t j = 0; j < dim; ++j) if (y[j] != 0) w.insert(j);
  }
}
// params: number of operators, largest N, dimension of the first boson
ENTRY c15_bosons() {
  int M = sym_param(0), N = (int)sym_pick_range("N", 0, sym_param(1));
  HS hs(make_space_fermion(0), make_space_boson(sym_param(2), 0), make_space_boson(4, 1));
  std::vector<LD> O;
  for (int i = 0; i < M; ++i) O.push_back(make_loperator(pick_boson_op(i), hs));
  basis_mapper mapper(O, hs, N);
  std::set<uint64_t> want;
  products_d(O, M, N, {0}, want, get_vec_size(hs));
  same_map(mapper, want);
}
// creation operators reach exactly the fixed-number sector of a mixed space
ENTRY c15_sector() {
  int nf = sym_param(0), nb = sym_param(1), N = (int)sym_pick_range("N", 0, sym_param(2));
  SpaceSet S;
  for (int i = 0; i < nf; ++i) S.s.push_back({0, 2, i, 0, 0});
  static const char* DN[3] = {"d0", "d1", "d2"};
  for (int i = 0; i < nb; ++i) S.s.push_back({1, sym_pick_range(DN[i], 1, 4), i, 0, 0});
  S.layout();
  HS hs; for (int i = (int)S.s.size(); i-- > 0;) hs.add(*S.make(i));
  std::vector<LD> O;
  for (int i = 0; i < nf; ++i) O.push_back(make_loperator(c_dag<double>(i), hs));
  for (int i = 0; i < nb; ++i) O.push_back(make_loperator(a_dag<double>(i), hs));
  basis_mapper mapper(O, hs, N);
  std::set<uint64_t> want;
  for (uint64_t r = 0; r < S.dim; ++r) { uint64_t st = S.unrank(r); uint64_t n = 0; for (size_t i = 0; i < S.s.size(); ++i) n += S.part(st, (int)i); if (n == (uint64_t)N) want.insert(st); }
  same_map(mapper, want);
}
