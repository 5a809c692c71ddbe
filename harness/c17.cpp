// C17: N-fermion multisector views index the intersection of sectors one-to-one.
#include "sectors.h"
typedef sector_descriptor<HS> SD;
static const char* MN[8] = {"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"};
template <typename V> static void check_view(V& view, std::vector<long>& v, std::vector<sv_index_type> const& list, uint64_t const* mask, int const* N, int nsec, int tot) {
  uint64_t size = v.size();
  uint64_t x = sym_range("x", 0, (uint64_t(1) << tot) - 1);
  for (int s = 0; s < nsec; ++s) sym_assume(popc(x & mask[s]) == N[s]);
  uint64_t m = view.map_index(x);
  sym_check(m < size, "indices lie in the multisector");
  if (m >= size) return;
  sym_check(list[m] == x, "listed basis states invert map_index");
  sym_check(get_element(view, x) == 1000 + (long)m, "elements are read at the mapped position");
  sym_observe(m);
  for (uint64_t j = 0; j < size; ++j) sym_check(view.map_index(list[j]) == j, "map_index inverts the listed basis states");
  uint64_t n = 0; bool ok = true;
  foreach(view, [&](sv_index_type i, long a) { ok = ok && n < size && i == list[n] && a == 1000 + (long)n; ++n; });
  sym_check(ok && n == size, "enumeration visits the listed basis states with their amplitudes");
}
// params: modes, other bits, sectors (1..3), algorithm (-1: any), copies (0 none, 1 copy outliving the original, 2 moved)
ENTRY c17_bijection() {
  int M = sym_param(0), nb = sym_param(1), nsec = sym_param(2), alg = sym_param(3), copies = sym_param(4);
  if (alg < 0) alg = (int)sym_pick_range("alg", 0, 8);
  HS hs = make_hs(M, nb);
  std::vector<SD> sec(nsec);
  uint64_t mask[3] = {0, 0, 0}; int cnt[3] = {0, 0, 0}, N[3];
  for (int i = 0; i < M; ++i) { int s = (int)sym_pick_range(MN[i], 0, nsec); if (s < nsec) { sec[s].indices.insert(std::make_tuple(i)); mask[s] |= uint64_t(1) << i; ++cnt[s]; } }
  static const char* NM[3] = {"N0", "N1", "N2"};
  uint64_t size = uint64_t(1) << nb; int used = 0;
  for (int s = 0; s < nsec; ++s) { N[s] = (int)sym_pick_range(NM[s], 0, cnt[s]); sec[s].N = N[s]; size *= binom(cnt[s], N[s]); used += cnt[s]; }
  size <<= M - used;
  auto list = n_fermion_multisector_basis_states(hs, sec);
  sym_check(n_fermion_multisector_size(hs, sec) == size, "size of the multisector");
  sym_check(list.size() == size, "number of listed basis states");
  if (list.size() != size) return;
  with_alg(alg, [&](auto* tag) {
    typedef std::remove_pointer_t<decltype(tag)> R;
    typedef n_fermion_multisector_view<std::vector<long>, true, R> V;
    std::vector<long> v(size);
    for (uint64_t j = 0; j < size; ++j) v[j] = 1000 + (long)j;
    std::unique_ptr<V> view(new V(v, hs, sec));
    if (copies == 1) { std::unique_ptr<V> c(new V(*view)); view.reset(); std::vector<SD> other(1); other[0].indices.insert(std::make_tuple(M - 1)); other[0].N = 1; std::unique_ptr<V> junk(new V(v, hs, other)); view = std::move(c); }
    if (copies == 2) { std::unique_ptr<V> c(new V(std::move(*view))); view = std::move(c); }
    check_view(*view, v, list, mask, N, nsec, M + nb);
    uint64_t e = sym_range("e", 0, size - 1);
    update_add_element(*view, list[e], 5L);
    sym_check(v[e] == 1005 + (long)e, "elements are updated at the mapped position");
    long sum = 0; for (uint64_t j = 0; j < size; ++j) sum += v[j];
    sym_check(sum == (long)(1000 * size + size * (size - 1) / 2 + 5), "no other element is updated");
    set_zeros(*view);
    bool z = true; for (uint64_t j = 0; j < size; ++j) z = z && v[j] == 0;
    sym_check(z, "all elements are set to zero");
  });
}
// sectors whose modes lie anywhere among 62 modes; all other modes belong to a third sector that is empty or full
ENTRY c17_wide() {
  int alg = sym_param(0), full = sym_param(1);
  static const int pos[8] = {0, 1, 30, 31, 32, 33, 60, 61};
  int M = 62;
  HS hs = make_hs(M, 0);
  std::vector<SD> sec(3);
  uint64_t mask[3] = {0, 0, 0}; int cnt[3] = {0, 0, 0}, N[3];
  for (int i = 0; i < 8; ++i) { int s = (int)sym_pick_range(MN[i], 0, 2); if (alg == 0 && i < 4 && s == 2) s = 0; sec[s].indices.insert(std::make_tuple(pos[i])); mask[s] |= uint64_t(1) << pos[i]; ++cnt[s]; }
  sym_assume(cnt[0] <= 4 && cnt[1] <= 4);
  for (int i = 0; i < M; ++i) if (!((mask[0] | mask[1] | mask[2]) >> i & 1)) { sec[2].indices.insert(std::make_tuple(i)); mask[2] |= uint64_t(1) << i; ++cnt[2]; }
  uint64_t size = 1;
  N[0] = cnt[0] / 2; N[1] = cnt[1] ? 1 : 0; N[2] = full ? cnt[2] : 0;
  for (int s = 0; s < 3; ++s) { sec[s].N = N[s]; size *= binom(cnt[s], N[s]); }
  auto list = n_fermion_multisector_basis_states(hs, sec);
  sym_check(n_fermion_multisector_size(hs, sec) == size, "size of the multisector (wide)");
  sym_check(list.size() == size, "number of listed basis states (wide)");
  if (list.size() != size) return;
  std::vector<long> v(size);
  for (uint64_t j = 0; j < size; ++j) v[j] = 1000 + (long)j;
  n_fermion_multisector_view<std::vector<long>> view(v, hs, sec);
  check_view(view, v, list, mask, N, 3, M);
}
// one of the sectors may be empty, and sectors that share a mode are rejected
ENTRY c17_invalid() {
  int M = sym_param(0);
  HS hs = make_hs(M, 1);
  int a = (int)sym_pick_range("a", 0, M), b = (int)sym_pick_range("b", 0, M), c = (int)sym_pick_range("c", 0, M);
  int n0 = (int)sym_pick_range("n0", 0, 3), n1 = (int)sym_pick_range("n1", 0, 2);
  std::vector<SD> sec(2);
  sec[0].indices.insert(std::make_tuple(a)); sec[0].indices.insert(std::make_tuple(b)); sec[0].N = n0;
  sec[1].indices.insert(std::make_tuple(c)); sec[1].N = n1;
  int c0 = a == b ? 1 : 2;
  bool bad = a == M || b == M || c == M || c == a || c == b;
  bool toomany = n0 > c0 || n1 > 1;
  std::vector<long> v(64);
  int thrown = 0;
  try { n_fermion_multisector_view<std::vector<long>> view(v, hs, sec); } catch (std::runtime_error&) { thrown |= 1; }
  try { n_fermion_multisector_basis_states(hs, sec); } catch (std::runtime_error&) { thrown |= 2; }
  uint64_t sz = 77;
  try { sz = n_fermion_multisector_size(hs, sec); } catch (std::runtime_error&) { thrown |= 4; }
  sym_check((thrown & 3) == (bad || toomany ? 3 : 0), "invalid sectors are rejected, valid ones accepted");
  sym_check(((thrown & 4) != 0) == bad, "sizes of overlapping or unknown sectors are rejected");
  if (!bad) sym_check(sz == (toomany ? 0 : binom(c0, n0) * binom(1, n1) << (M + 1 - c0 - 1)), "size of a multisector without states is zero");
  sym_cover(bad ? "bad" : toomany ? "too many" : "fine");
}
// an enumeration of a view started from the functor of another one over the same view
// params: modes, other bits, sectors
ENTRY c17_nested() {
  int M = sym_param(0), nb = sym_param(1), nsec = sym_param(2);
  HS hs = make_hs(M, nb);
  std::vector<SD> sec(nsec); int cnt[3] = {0, 0, 0};
  for (int i = 0; i < M; ++i) { int s = (int)sym_pick_range(MN[i], 0, nsec); if (s < nsec) { sec[s].indices.insert(std::make_tuple(i)); ++cnt[s]; } }
  static const char* NM[3] = {"N0", "N1", "N2"};
  for (int s = 0; s < nsec; ++s) sec[s].N = (int)sym_pick_range(NM[s], 0, cnt[s]);
  auto list = n_fermion_multisector_basis_states(hs, sec);
  uint64_t size = list.size();
  std::vector<long> v(size);
  for (uint64_t j = 0; j < size; ++j) v[j] = 1000 + (long)j;
  n_fermion_multisector_view<std::vector<long>> const view(v, hs, sec);
  uint64_t x = sym_range("x", 0, size - 1), outer = 0, inner = 0; bool ok = true;
  foreach(view, [&](sv_index_type i, long a) {
    ok = ok && outer < size && i == list[outer] && a == 1000 + (long)outer;
    ++outer;
    if (sym_branch(x == outer - 1)) foreach(view, [&](sv_index_type k, long b) { ok = ok && inner < size && k == list[inner] && b == 1000 + (long)inner; ++inner; });
  });
  sym_check(ok && outer == size && inner == size, "nested enumerations do not disturb each other");
}
// multisectors too large to be listed: map_index continues the order in which small multisectors are listed
// params: modes of the first sector, particles, modes of the second sector, particles, modes between and after them
ENTRY c17_large() {
  int M0 = sym_param(0), N0 = sym_param(1), M1 = sym_param(2), N1 = sym_param(3), gap = sym_param(4);
  int o0 = order_of(M0, N0), o1 = order_of(M1, N1);
  // mixed radix: which of the sectors and of the remaining bits runs fastest, from a small multisector
  int radix = -1;
  {
    HS hs = make_hs(7, 1);
    std::vector<SD> sec(2);
    for (int i = 0; i < 3; ++i) { sec[0].indices.insert(std::make_tuple(i)); sec[1].indices.insert(std::make_tuple(i + 3)); }
    sec[0].N = sec[1].N = 1;
    auto list = n_fermion_multisector_basis_states(hs, sec);
    int o = order_of(3, 1);
    for (int k = 0; k < 4 && radix < 0; ++k) {
      bool ok = o >= 0 && list.size() == 36;
      for (size_t j = 0; ok && j < list.size(); ++j) {
        uint64_t a = rank_in(o, 3, 1, list[j] & 7), b = rank_in(o, 3, 1, list[j] >> 3 & 7), r = list[j] >> 6;
        uint64_t s = k & 1 ? a + 3 * b : 3 * a + b;
        ok = j == (k & 2 ? r * 9 + s : s * 4 + r);
      }
      if (ok) radix = k;
    }
  }
  if (o0 < 0 || o1 < 0 || radix < 0) { sym_cover("another order"); return; }
  int M = M0 + M1 + 2 * gap;
  HS hs = make_hs(M, 1);
  std::vector<SD> sec(2);
  for (int i = 0; i < M0; ++i) sec[0].indices.insert(std::make_tuple(i));
  for (int i = 0; i < M1; ++i) sec[1].indices.insert(std::make_tuple(M0 + gap + i));
  sec[0].N = N0; sec[1].N = N1;
  uint64_t s0 = binom(M0, N0), s1 = binom(M1, N1);
  int nb = 2 * gap + 1;
  sym_check(n_fermion_multisector_size(hs, sec) == (s0 * s1) << nb, "size of a large multisector");
  uint64_t x = large_state(M0, N0, "at0", "pattern0", "fill0", 4);
  uint64_t y = M1 < 6 ? sym_pick_range("pattern1", 0, (1u << M1) - 1) : large_state(M1, N1, "at1", "pattern1", "fill1", 3);
  sym_assume(popc(y) == N1);
  uint64_t g0 = gap ? sym_pick_range("g0", 0, (uint64_t(1) << gap) - 1) : 0, g1 = gap ? sym_pick_range("g1", 0, (uint64_t(1) << gap) - 1) : 0, sp = sym_pick_range("sp", 0, 1);
  std::vector<long> v(1);
  n_fermion_multisector_view<std::vector<long>> view(v, hs, sec);
  uint64_t m = view.map_index(x | g0 << M0 | y << (M0 + gap) | g1 << (M0 + gap + M1) | sp << M);
  uint64_t rest = g0 | g1 << gap | sp << (2 * gap), a = rank_in(o0, M0, N0, x), b = rank_in(o1, M1, N1, y);
  uint64_t s = radix & 1 ? a + s0 * b : a * s1 + b;
  sym_check(m == (radix & 2 ? rest * (s0 * s1) + s : (s << nb) + rest), "indices of large multisectors are the positions of the states");
  sym_observe(m);
  sym_cover("done");
}
