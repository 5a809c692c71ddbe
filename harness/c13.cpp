// C13: enumeration of basis states.
#include "spaces.h"
using namespace static_indices;
typedef hilbert_space<int> HS;
static const char* DN[6] = {"d0", "d1", "d2", "d3", "d4", "d5"};
struct Stop {};
// params: number of fermions, bosons, spins, largest dimension of the bosons, construction (0 add, 1 copy, 2 assigned, 3 expression-like vector)
ENTRY c13_visit() {
  int nf = sym_param(0), nb = sym_param(1), ns = sym_param(2), dmax = sym_param(3), form = sym_param(4);
  SpaceSet S;
  for (int i = 0; i < nf; ++i) S.s.push_back({0, 2, i, 0, 0});
  for (int i = 0; i < nb; ++i) S.s.push_back({1, sym_pick_range(DN[i], 1, dmax), i, 0, 0});
  uint64_t last = 2;
  for (int i = 0; i < ns; ++i) { uint64_t d = sym_pick_range(DN[3 + i], 2, dmax); sym_assume(d >= last); last = d; S.s.push_back({2, d, i, 0, 0}); }
  S.layout();
  HS h0;
  if (form != 3) for (int i = (int)S.s.size(); i-- > 0;) h0.add(*S.make(i));
  else {
    std::vector<std::unique_ptr<elementary_space<int>>> own; std::vector<elementary_space<int>*> ptr;
    for (int i = 0; i < (int)S.s.size(); ++i) { own.push_back(S.make(i)); ptr.push_back(own.back().get()); }
    h0 = HS(ptr);
  }
  HS h1(make_space_fermion(99), make_space_boson(3, 99), make_space_spin(1.0, 99));
  if (form == 2) h1 = h0;
  HS const hs = form == 2 ? h1 : h0;
  uint64_t x = sym_range("x", 0, (uint64_t(1) << S.bits) - 1);
  uint64_t calls = 0, prev = 0, hits = 0;
  bool inc = true;
  foreach(hs, [&](sv_index_type st) {
    if (calls && st <= prev) inc = false;
    prev = st; ++calls;
    hits += st == x;
    if (calls > S.dim) throw Stop();
  });
  sym_check(calls == S.dim && calls == hs.dim(), "the number of calls equals the dimension");
  sym_check(inc, "states are visited in increasing order");
  sym_check(hits == (S.valid(x) ? 1u : 0u), "exactly the valid product states are visited, once each");
  // a second enumeration is the same (no state is kept)
  uint64_t again = 0, sum = 0; 
  foreach(hs, [&](sv_index_type st) { again += 1; sum += st == x; if (again > S.dim) throw Stop(); });
  sym_check(again == calls && sum == hits, "enumeration can be repeated");
  sym_observe(calls);
  sym_cover(S.dim == (uint64_t(1) << S.bits) ? "dense" : "sparse");
}
// large spaces: the first states (the functor stops the enumeration)
// params: log2 of the big dimension
ENTRY c13_prefix() {
  static const uint64_t small[4] = {3, 5, 6, 2};
  uint64_t d0 = small[sym_pick_range("d0", 0, 3)];
  int lb = (int)sym_pick_range("lb", 20, 44);
  uint64_t d1 = (uint64_t(1) << lb) + sym_pick_range("ex", 0, 1);
  SpaceSet S;
  S.s.push_back({1, d0, 0, 0, 0}); S.s.push_back({1, d1, 1, 0, 0}); S.s.push_back({1, 3, 2, 0, 0});
  S.layout();
  HS hs;
  for (int i = 0; i < 3; ++i) hs.add(*S.make(i));
  uint64_t calls = 0; bool ok = true;
  try { foreach(hs, [&](sv_index_type st) { ok = ok && st == S.unrank(calls); if (++calls == 20) throw Stop(); }); } catch (Stop&) {}
  sym_check(calls == 20, "large sparse spaces are enumerated");
  sym_check(ok, "large sparse spaces: states are visited in order");
}
// the enumeration algorithm itself, started from arbitrary sizes
ENTRY c13_total() {
  uint64_t d0 = sym_pick_range("d0", 1, 5), d1 = sym_pick_range("d1", 1, 5), d2 = sym_pick_range("d2", 1, 5);
  SpaceSet S;
  S.s.push_back({1, d0, 0, 0, 0}); S.s.push_back({1, d1, 1, 0, 0}); S.s.push_back({1, d2, 2, 0, 0});
  S.layout();
  HS hs;
  for (int i = 0; i < 3; ++i) hs.add(*S.make(i));
  // removing by copy-and-grow: enumerate before and after adding a space
  uint64_t n1 = 0, n2 = 0;
  foreach(hs, [&](sv_index_type) { ++n1; });
  HS c(hs);
  c.add(make_space_spin(1.0, 5));
  bool ok = true;
  SpaceSet X = S; X.s.push_back({2, 3, 5, 0, 0}); X.layout();
  foreach(c, [&](sv_index_type st) { ok = ok && st == X.unrank(n2); ++n2; if (n2 > X.dim) throw Stop(); });
  sym_check(n1 == S.dim && n2 == X.dim && ok, "enumeration of a space that was grown after copying");
}
// an enumeration started from the functor of another one over the same space
ENTRY c13_nested() {
  uint64_t d0 = sym_pick_range("d0", 1, 4), d1 = sym_pick_range("d1", 1, 4);
  SpaceSet S;
  S.s.push_back({0, 2, 0, 0, 0}); S.s.push_back({1, d0, 0, 0, 0}); S.s.push_back({1, d1, 1, 0, 0});
  S.layout();
  HS h;
  for (int i = 0; i < 3; ++i) h.add(*S.make(i));
  HS const& hs = h;
  uint64_t x = sym_range("x", 0, S.dim - 1);
  uint64_t outer = 0, inner = 0; bool ok = true;
  foreach(hs, [&](sv_index_type st) {
    ok = ok && st == S.unrank(outer);
    if (++outer > S.dim) throw Stop();
    if (sym_branch(x == outer - 1)) foreach(hs, [&](sv_index_type t) { ok = ok && t == S.unrank(inner); if (++inner > S.dim) throw Stop(); });
  });
  sym_check(ok, "nested enumerations do not disturb each other");
  sym_check(outer == S.dim && inner == S.dim, "nested enumerations visit every state");
}
