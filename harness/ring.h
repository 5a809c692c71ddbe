#pragma once
#include "oracle.h"
// coefficient: symbolic small integer (long) or a decided dyadic value (double)
template <typename S> struct Coef;
template <> struct Coef<long> { static long get(const char* n, int lo, int hi) { return (long)sym_range(n, 0, hi - lo) + lo; } };
template <> struct Coef<int> { static int get(const char* n, int lo, int hi) { return (int)sym_range(n, 0, hi - lo) + lo; } };
template <> struct Coef<double> { static double get(const char* n, int lo, int hi) { return (double)((long)sym_pick_range(n, 0, hi - lo) + lo); } };
template <> struct Coef<std::complex<long>> {
  static std::complex<long> get(const char* n, int lo, int hi) {
    std::string a = std::string(n) + "r", b = std::string(n) + "i";
    long x = (long)sym_range(a.c_str(), 0, hi - lo) + lo;
    long y = (long)sym_range(b.c_str(), 0, hi - lo) + lo;
    return {x, y};
  }
};
// equality judged independently of the library's comparison operators
static bool same_gen(Gen const& a, Gen const& b) { return a.alg == b.alg && a.mult == b.mult && a.what == b.what && sym_branch(a.idx == b.idx); }
template <typename E> static bool same_expr(E const& x, E const& y) {
  if (x.get_monomials().size() != y.get_monomials().size()) return false;
  auto it = y.get_monomials().begin();
  for (auto const& p : x.get_monomials()) {
    auto const& q = *it; ++it;
    if (p.first.size() != q.first.size()) return false;
    for (size_t i = 0; i < p.first.size(); ++i) if (!same_gen(read_gen(p.first[i]), read_gen(q.first[i]))) return false;
    if (!sym_branch(p.second == q.second)) return false;
  }
  return true;
}
template <typename E> static void check_equal(E const& x, E const& y, const char* label) {
  sym_check(same_expr(x, y), label);
  sym_check(x == y && !(x != y), "operator== agrees with term by term equality");
}
template <typename E> static void check_wellformed(E const& e) {
  check_no_zero(e);
  for (auto const& p : e.get_monomials()) check_canonical(p.first);
}
// kind sets: 0 fermions, 1 bosons, 2 spin 1/2, 3 spin 1, 4 fermions+bosons, 5 everything up to spin 3/2
static int pick_kind(const char* n, int set) {
  switch (set) {
    case 0: return (int)sym_pick_range(n, 0, 1);
    case 1: return (int)sym_pick_range(n, 2, 3);
    case 2: return (int)sym_pick_range(n, 4, 6);
    case 3: return (int)sym_pick_range(n, 7, 9);
    case 4: return (int)sym_pick_range(n, 0, 3);
    case 6: { int k = (int)sym_pick_range(n, 0, 6); return k < 4 ? k : k + 3; } // integer structure constants: fermions, bosons, spin 1
    default: return (int)sym_pick_range(n, 0, 12);
  }
}
static Gen sym_gen(int i, int set) { int k = pick_kind(KN[i], set); return make_gen(k, (int)sym_bits(IX[i], 32)); }
