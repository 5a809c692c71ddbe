// C19: disjoint sets implement a union-find partition for every history.
#include <sym.h>
#include <libcommute/loperator/disjoint_sets.hpp>
using namespace libcommute;
static const char* ON[8] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
static const char* XN[8] = {"x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"};
static const char* YN[8] = {"y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7"};
// reference: label of each element, relabelled by unions
struct Ref {
  uint64_t lab[20]; int n;
  void unite(uint64_t x, uint64_t y) { // x, y may be symbolic
    uint64_t a = 0, b = 0;
    for (int i = 0; i < n; ++i) { a |= lab[i] & -(uint64_t)(x == (uint64_t)i); b |= lab[i] & -(uint64_t)(y == (uint64_t)i); }
    for (int i = 0; i < n; ++i) { uint64_t m = -(uint64_t)(lab[i] == b); lab[i] = (lab[i] & ~m) | (a & m); }
  }
  bool same(int i, int j) const { return lab[i] == lab[j]; }
  uint64_t sets() const { uint64_t c = 0; for (int i = 0; i < n; ++i) { bool first = true; for (int j = 0; j < i; ++j) first &= lab[j] != lab[i]; c += first; } return c; }
};
static void check_all(disjoint_sets const& ds, Ref const& r, bool smallest) {
  sym_check(ds.size() == (size_t)r.n, "size is the number of elements");
  sym_check(ds.n_sets() == r.sets(), "number of sets");
  uint64_t root[20];
  for (int i = 0; i < r.n; ++i) root[i] = ds.find_root(i);
  uint64_t h = 0;
  for (int i = 0; i < r.n; ++i) {
    sym_check(root[i] < (uint64_t)r.n, "representatives are elements");
    bool isroot = true; uint64_t labroot = 0, rr = 0;
    for (int j = 0; j < r.n; ++j) { labroot |= r.lab[j] & -(uint64_t)(root[i] == (uint64_t)j); rr |= root[j] & -(uint64_t)(root[i] == (uint64_t)j); }
    sym_check(labroot == r.lab[i], "the representative belongs to the set");
    sym_check(rr == root[i], "the representative represents itself");
    for (int j = 0; j < i; ++j) sym_check((root[i] == root[j]) == r.same(i, j), "elements share a representative exactly when connected");
    if (smallest) { bool less = false; for (int j = 0; j < r.n; ++j) less |= r.same(i, j) && (uint64_t)j < root[i]; sym_check(!less, "normalised representatives are the smallest elements"); }
    h = h * 31 + root[i];
    sym_check(ds.in_same_set(i, 0) == r.same(i, 0), "in_same_set");
  }
  if (smallest) sym_observe(h);
}
// params: initial elements, steps, set of operations (0: unions only, 1: all), check after every step
ENTRY c19_history() {
  int n = sym_param(0), K = sym_param(1), all = sym_param(2), every = sym_param(3);
  disjoint_sets ds(n);
  Ref r; r.n = n; for (int i = 0; i < n; ++i) r.lab[i] = i;
  for (int k = 0; k < K; ++k) {
    int op = all ? (int)sym_pick_range(ON[k], 0, 6) : 0;
    switch (op) {
      case 0: case 1: case 6: {
        uint64_t x = sym_pick_range(XN[k], 0, r.n - 1), y = sym_pick_range(YN[k], 0, r.n - 1);
        if (op == 6) { uint64_t f = ds.find_root(x); sym_check(f < (uint64_t)r.n && r.same((int)x, (int)f), "find_root returns an element of the set"); break; }
        uint64_t p;
        if (op == 0) p = ds.set_union(x, y);
        else { uint64_t a = ds.find_root(x), b = ds.find_root(y); if (a == b) break; p = ds.root_union(a, b); }
        r.unite(x, y);
        sym_check(p < (uint64_t)r.n && r.same((int)p, (int)x) && ds.find_root(x) == p, "unions return the representative of the united set");
        break;
      }
      case 2: { uint64_t m = ds.make_set(); sym_check(m == (uint64_t)r.n, "make_set returns the new element"); r.lab[r.n] = r.n; ++r.n; break; }
      case 3: { int ns = (int)sym_pick_range(XN[k], 0, 3); if (ns == 2) ns = 4; ds.make_sets(ns); for (int q = 0; q < ns; ++q) { r.lab[r.n] = r.n; ++r.n; } break; }
      case 4: ds.compress_sets(); break;
      case 5: ds.compress_sets(); ds.normalize_sets(); { disjoint_sets copy(ds); check_all(copy, r, true); } break;
    }
    if (every) { disjoint_sets copy(ds); check_all(copy, r, false); }
  }
  int end = (int)sym_pick_range("end", 0, 2);
  if (end == 1) ds.normalize_sets();
  if (end == 2) { ds.compress_sets(); ds.normalize_sets(); }
  check_all(ds, r, end == 2);
}
// long union histories with symbolic operands
ENTRY c19_symbolic() {
  int n = sym_param(0), K = sym_param(1);
  disjoint_sets ds(n);
  Ref r; r.n = n; for (int i = 0; i < n; ++i) r.lab[i] = i;
  for (int k = 0; k < K; ++k) { uint64_t x = sym_range(XN[k], 0, n - 1), y = sym_range(YN[k], 0, n - 1); ds.set_union(x, y); r.unite(x, y); }
  check_all(ds, r, false);
}
