// C14: the compressed state view is a bijection onto consecutive indices.
#include "spaces.h"
#include <libcommute/loperator/compressed_state_view.hpp>
using namespace static_indices;
typedef hilbert_space<int> HS;
static const char* DN[6] = {"d0", "d1", "d2", "d3", "d4", "d5"};
static HS build(SpaceSet& S, int nf, int nb, int ns, int dmin, int dmax) {
  for (int i = 0; i < nf; ++i) S.s.push_back({0, 2, i, 0, 0});
  for (int i = 0; i < nb; ++i) S.s.push_back({1, sym_pick_range(DN[i], dmin, dmax), i, 0, 0});
  uint64_t last = 2;
  for (int i = 0; i < ns; ++i) { uint64_t d = sym_pick_range(DN[3 + i], 2, dmax); sym_assume(d >= last); last = d; S.s.push_back({2, d, i, 0, 0}); }
  S.layout();
  HS hs;
  for (int i = (int)S.s.size(); i-- > 0;) hs.add(*S.make(i));
  return hs;
}
// params: fermions, bosons, spins, largest dimension
ENTRY c14_bijection() {
  SpaceSet S;
  HS hs = build(S, sym_param(0), sym_param(1), sym_param(2), 1, sym_param(3));
  std::vector<long> v(S.dim);
  for (uint64_t i = 0; i < S.dim; ++i) v[i] = 1000 + (long)i;
  auto view = make_comp_state_view(v, hs);
  uint64_t x = sym_range("x", 0, (uint64_t(1) << S.bits) - 1);
  sym_assume(S.valid(x));
  uint64_t m = view.map_index(x);
  sym_check(m == S.rank(x), "map_index is the rank of the basis state");
  sym_check(m < S.dim, "map_index lies in the adapted vector");
  if (m >= S.dim) return;
  sym_check(get_element(view, x) == 1000 + (long)m, "elements are read at the mapped position");
  update_add_element(view, x, 5L);
  sym_check(v[m] == 1005 + (long)m, "elements are updated at the mapped position");
  long sum = 0; for (uint64_t i = 0; i < S.dim; ++i) sum += v[i];
  sym_check(sum == (long)(1000 * S.dim + S.dim * (S.dim - 1) / 2 + 5), "no other element is updated");
  // enumeration, with one element (or none) being zero
  uint64_t hole = sym_pick_range("hole", 0, S.dim);
  for (uint64_t i = 0; i < S.dim; ++i) v[i] = i == hole ? 0 : 1000 + (long)i;
  uint64_t n = 0; bool ok = true;
  auto cview = make_const_comp_state_view(v, hs);
  foreach(cview, [&](sv_index_type st, long a) {
    uint64_t r = S.rank(st);
    ok = ok && S.valid(st) && r < S.dim && a == 1000 + (long)r && r != hole;
    ++n;
  });
  sym_check(ok, "enumeration passes the basis state and amplitude of non-zero elements");
  sym_check(n == S.dim - (hole < S.dim), "enumeration visits every non-zero element");
  set_zeros(view);
  bool z = true; for (uint64_t i = 0; i < S.dim; ++i) z = z && v[i] == 0;
  sym_check(z, "all elements are set to zero");
  sym_observe(m);
}
// arbitrary dimensions up to 2^40 per space
ENTRY c14_large() {
  static const uint64_t tab[12] = {1, 2, 3, 5, 1000, 1024, 1025, 1048576, uint64_t(1) << 31, (uint64_t(1) << 32) + 5, uint64_t(1) << 33, (uint64_t(1) << 40) - 3};
  SpaceSet S;
  int nf = sym_param(0), nb = sym_param(1);
  for (int i = 0; i < nf; ++i) S.s.push_back({0, 2, i, 0, 0});
  for (int i = 0; i < nb; ++i) S.s.push_back({1, tab[sym_pick_range(DN[i], 0, 11)], i, 0, 0});
  S.s.push_back({2, 3, 0, 0, 0});
  S.layout();
  if (S.bits > 63) return;
  HS hs;
  for (int i = (int)S.s.size(); i-- > 0;) hs.add(*S.make(i));
  SymVec<long> v;
  auto view = make_comp_state_view(v, hs);
  uint64_t x = sym_range("x", 0, (uint64_t(1) << S.bits) - 1);
  sym_assume(S.valid(x));
  uint64_t m = view.map_index(x);
  sym_check(m == S.rank(x), "map_index is the rank of the basis state (large spaces)");
  sym_observe(m);
}
// views that own or copy the adapted vector, and copies of views
ENTRY c14_ownership() {
  SpaceSet S;
  HS hs = build(S, 1, 2, 0, 2, 4);
  std::vector<long> v(S.dim);
  for (uint64_t i = 0; i < S.dim; ++i) v[i] = 1000 + (long)i;
  auto own = make_comp_state_view(std::vector<long>(v), hs);
  auto cp = own;
  uint64_t x = sym_range("x", 0, (uint64_t(1) << S.bits) - 1);
  sym_assume(S.valid(x));
  uint64_t m = S.rank(x);
  update_add_element(cp, x, 7L);
  sym_check(get_element(own, x) == 1000 + (long)m, "an owning view is independent of its copy");
  sym_check(get_element(cp, x) == 1007 + (long)m, "a copy of an owning view holds its own elements");
  auto ref = make_comp_state_view(v, hs);
  auto ref2 = ref;
  update_add_element(ref2, x, 3L);
  sym_check(get_element(ref, x) == 1003 + (long)m && v[m] == 1003 + (long)m, "copies of a referring view share the adapted vector");
  uint64_t n = 0; bool ok = true;
  foreach(cp, [&](sv_index_type st, long a) { ok = ok && S.valid(st) && a == (st == x ? 1007 : 1000) + (long)S.rank(st); ++n; });
  sym_check(ok && n == S.dim, "enumeration through a copied view");
}
// an enumeration of a view started from the functor of another one over the same view
ENTRY c14_nested() {
  SpaceSet S;
  HS hs = build(S, 1, 2, 0, 1, 4);
  std::vector<long> v(S.dim);
  for (uint64_t i = 0; i < S.dim; ++i) v[i] = 1000 + (long)i;
  auto view = make_const_comp_state_view(v, hs);
  uint64_t x = sym_range("x", 0, S.dim - 1), outer = 0, inner = 0;
  bool ok = true;
  foreach(view, [&](sv_index_type st, long a) {
    ok = ok && st == S.unrank(outer) && a == 1000 + (long)outer;
    if (++outer > S.dim) { outer += 1000; return; }
    if (sym_branch(x == outer - 1)) foreach(view, [&](sv_index_type t, long b) { ok = ok && inner < S.dim && t == S.unrank(inner) && b == 1000 + (long)inner; ++inner; });
  });
  sym_check(ok, "nested enumerations of a view do not disturb each other");
  sym_check(outer == S.dim && inner == S.dim, "nested enumerations of a view visit every element");
}
