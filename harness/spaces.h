// Hilbert spaces with independently computed bit layout and enumeration
#pragma once
#include "lop.h"
static inline int width_of(uint64_t d) { int w = 0; while ((uint64_t(1) << w) < d) ++w; return w; }
struct Sp { int kind; uint64_t dim; int idx; int lo; int w; }; // kind 0 fermion, 1 boson, 2 spin
struct SpaceSet {
  std::vector<Sp> s; // in canonical order
  int bits = 0;
  uint64_t dim = 1;
  void layout() { bits = 0; dim = 1; for (auto& x : s) { x.w = width_of(x.dim); x.lo = bits; bits += x.w; dim *= x.dim; } }
  uint64_t part(uint64_t st, int i) const { return (st >> s[i].lo) & ((uint64_t(1) << s[i].w) - 1); }
  bool valid(uint64_t st) const { bool v = true; for (size_t i = 0; i < s.size(); ++i) v &= part(st, (int)i) < s[i].dim; return v; }
  uint64_t rank(uint64_t st) const { uint64_t r = 0, m = 1; for (size_t i = 0; i < s.size(); ++i) { r += part(st, (int)i) * m; m *= s[i].dim; } return r; }
  uint64_t unrank(uint64_t r) const { uint64_t st = 0; for (auto& x : s) { st |= (r % x.dim) << x.lo; r /= x.dim; } return st; }
  std::unique_ptr<elementary_space<int>> make(int i) const {
    Sp const& x = s[i];
    if (x.kind == 0) return std::unique_ptr<elementary_space<int>>(new elementary_space_fermion<int>(x.idx));
    if (x.kind == 1) return std::unique_ptr<elementary_space<int>>(new elementary_space_boson<int>(x.dim, x.idx));
    return std::unique_ptr<elementary_space<int>>(new elementary_space_spin<int>((x.dim - 1) * 0.5, x.idx));
  }
};
