// C16: N-fermion sector views index the fixed-number subspace one-to-one.
#include "sectors.h"
// params: modes, other bits, algorithm (-1: all)
ENTRY c16_bijection() {
  int M = sym_param(0), nb = sym_param(1), alg = sym_param(2);
  if (alg < 0) alg = (int)sym_pick_range("alg", 0, 8);
  int N = (int)sym_pick_range("N", 0, M);
  HS hs = make_hs(M, nb);
  uint64_t size = binom(M, N) << nb;
  auto list = n_fermion_sector_basis_states(hs, N);
  sym_check(n_fermion_sector_size(hs, N) == size, "size of the sector");
  sym_check(list.size() == size, "number of listed basis states");
  if (list.size() != size) return;
  with_alg(alg, [&](auto* tag) {
    typedef std::remove_pointer_t<decltype(tag)> R;
    std::vector<long> v(size);
    for (uint64_t j = 0; j < size; ++j) v[j] = 1000 + (long)j;
    n_fermion_sector_view<std::vector<long>, true, R> view(v, hs, N);
    uint64_t x = sym_range("x", 0, (uint64_t(1) << (M + nb)) - 1);
    uint64_t fm = (uint64_t(1) << M) - 1;
    sym_assume(popc(x & fm) == N);
    uint64_t m = view.map_index(x);
    sym_check(m < size, "indices lie in the sector");
    if (m >= size) return;
    sym_check(list[m] == x, "listed basis states invert map_index");
    sym_check(get_element(view, x) == 1000 + (long)m, "elements are read at the mapped position");
    sym_observe(m);
    for (uint64_t j = 0; j < size; ++j) sym_check(view.map_index(list[j]) == j, "map_index inverts the listed basis states");
    uint64_t n = 0; bool ok = true;
    foreach(view, [&](sv_index_type i, long a) { ok = ok && n < size && i == list[n] && a == 1000 + (long)n; ++n; });
    sym_check(ok && n == size, "enumeration visits the listed basis states with their amplitudes");
    update_add_element(view, x, 5L);
    sym_check(v[m] == 1005 + (long)m, "elements are updated at the mapped position");
    long sum = 0; for (uint64_t j = 0; j < size; ++j) sum += v[j];
    sym_check(sum == (long)(1000 * size + size * (size - 1) / 2 + 5), "no other element is updated");
    set_zeros(view);
    bool z = true; for (uint64_t j = 0; j < size; ++j) z = z && v[j] == 0;
    sym_check(z, "all elements are set to zero");
  });
}
// two basis states of a large sector have different indices within the sector
// params: modes, particles, other bits, algorithm
ENTRY c16_injective() {
  int M = sym_param(0), N = sym_param(1), nb = sym_param(2), alg = sym_param(3);
  HS hs = make_hs(M, nb);
  uint64_t size = n_fermion_sector_size(hs, N);
  sym_check(size == binom(M, N) << nb, "size of the sector");
  int few = N <= M / 2 ? N : M - N;
  auto state = [&](const char* const* nm, const char* rest) {
    uint64_t f = 0;
    for (int i = 0; i < few; ++i) { uint64_t p = sym_range(nm[i], 0, M - 1); uint64_t b = uint64_t(1) << p; sym_assume(b > f); f |= b; }
    if (few != N) f ^= (uint64_t(1) << M) - 1;
    return f | (nb ? sym_range(rest, 0, (uint64_t(1) << nb) - 1) << M : 0);
  };
  static const char* xn[4] = {"x0", "x1", "x2", "x3"};
  static const char* yn[4] = {"y0", "y1", "y2", "y3"};
  uint64_t x = state(xn, "xr"), y = state(yn, "yr");
  sym_assume(x < y);
  with_alg(alg, [&](auto* tag) {
    typedef std::remove_pointer_t<decltype(tag)> R;
    std::vector<long> v(1);
    n_fermion_sector_view<std::vector<long>, true, R> view(v, hs, N);
    uint64_t a = view.map_index(x), b = view.map_index(y);
    sym_check(a < size && b < size, "indices lie in the sector (large spaces)");
    sym_check(a != b, "different states have different indices (large spaces)");
    sym_observe(a); sym_observe(b);
  });
}
// sector sizes of all spaces of up to 63 modes
ENTRY c16_sizes() {
  int M = (int)sym_pick_range("M", 1, 63), N = (int)sym_pick_range("N", 0, 63);
  sym_assume(N <= M);
  int nb = sym_param(0);
  if (M + nb > 63) return;
  HS hs = make_hs(M, nb);
  uint64_t b = binom(M, N);
  sym_check(n_fermion_sector_size(hs, N) == b << nb, "size of the sector");
  std::vector<sector_descriptor<HS>> sec(1);
  for (int i = 0; i < M; ++i) sec[0].indices.insert(std::make_tuple(i));
  sec[0].N = N;
  sym_check(n_fermion_multisector_size(hs, sec) == b << nb, "size of the multisector with one sector");
}
// the first states of a large sector are enumerated in the order of their indices
struct Stop {};
ENTRY c16_prefix() {
  int M = (int)sym_pick_range("M", 60, 63), N = (int)sym_pick_range("N", 29, 34);
  HS hs = make_hs(M, 0);
  SymVec<long> sv;
  struct Ones { };
  std::vector<long> v(40, 7);
  n_fermion_sector_view<std::vector<long>> view(v, hs, N);
  uint64_t n = 0; bool ok = true;
  try { foreach(view, [&](sv_index_type i, long a) { ok = ok && popc(i) == N && (i >> M) == 0 && view.map_index(i) == n && a == 7; if (++n == 30) throw Stop(); }); } catch (Stop&) {}
  sym_check(n == 30, "large sectors are enumerated");
  sym_check(ok, "large sectors are enumerated in the order of their indices");
}
// an enumeration of a view started from the functor of another one over the same view
// params: modes, other bits
ENTRY c16_nested() {
  int M = sym_param(0), nb = sym_param(1), N = (int)sym_pick_range("N", 0, M);
  int alg = (int)sym_pick_range("alg", 0, 8);
  HS hs = make_hs(M, nb);
  auto list = n_fermion_sector_basis_states(hs, N);
  uint64_t size = list.size();
  std::vector<long> v(size);
  for (uint64_t j = 0; j < size; ++j) v[j] = 1000 + (long)j;
  with_alg(alg, [&](auto* tag) {
    typedef std::remove_pointer_t<decltype(tag)> R;
    n_fermion_sector_view<std::vector<long>, true, R> const view(v, hs, N);
    uint64_t x = sym_range("x", 0, size - 1), outer = 0, inner = 0; bool ok = true;
    foreach(view, [&](sv_index_type i, long a) {
      ok = ok && outer < size && i == list[outer] && a == 1000 + (long)outer;
      ++outer;
      if (sym_branch(x == outer - 1)) foreach(view, [&](sv_index_type k, long b) { ok = ok && inner < size && k == list[inner] && b == 1000 + (long)inner; ++inner; });
    });
    sym_check(ok && outer == size && inner == size, "nested enumerations do not disturb each other");
  });
}
// sectors too large to be listed: map_index continues the order in which small sectors are listed
// params: modes, particles, other bits, algorithm
ENTRY c16_large() {
  int M = sym_param(0), N = sym_param(1), nb = sym_param(2), alg = sym_param(3);
  int o = order_of(M, N);
  if (o < 0) { sym_cover("another order"); return; }
  HS hs = make_hs(M, nb);
  uint64_t x = large_state(M, N, "at", "pattern", "fill"), r = nb ? sym_range("rest", 0, (uint64_t(1) << nb) - 1) : 0;
  with_alg(alg, [&](auto* tag) {
    typedef std::remove_pointer_t<decltype(tag)> R;
    std::vector<long> v(1);
    n_fermion_sector_view<std::vector<long>, true, R> view(v, hs, N);
    uint64_t m = view.map_index(x | r << M);
    sym_check(m == (rank_in(o, M, N, x) << nb) + r, "indices of large sectors are the positions of the states");
    sym_observe(m);
  });
  sym_cover("done");
}
