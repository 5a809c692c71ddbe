// shared by the sector-view harnesses
#pragma once
#include "spaces.h"
#include <libcommute/loperator/n_fermion_sector_view.hpp>
using namespace static_indices;
typedef hilbert_space<int> HS;
static uint64_t binom(int n, int k) { // Pascal's triangle
  if (k < 0 || k > n) return 0;
  uint64_t row[65] = {1};
  for (int i = 1; i <= n; ++i) for (int j = i; j > 0; --j) row[j] += row[j - 1];
  return row[k];
}
static HS make_hs(int M, int nb) { // nb extra bits: bosons of dimension 4 / spins 1/2
  HS hs;
  for (int i = M; i-- > 0;) hs.add(make_space_fermion(i));
  int k = 0;
  while (nb >= 2) { hs.add(make_space_boson(4, k++)); nb -= 2; }
  if (nb) hs.add(make_space_spin(0.5, 0));
  return hs;
}
template <typename F> static void with_alg(int alg, F&& f) {
  switch (alg) {
    case 0: f(static_cast<combination_ranking*>(nullptr)); break;
    case 1: f(static_cast<staggered_ranking<1>*>(nullptr)); break;
    case 2: f(static_cast<staggered_ranking<2>*>(nullptr)); break;
    case 3: f(static_cast<staggered_ranking<3>*>(nullptr)); break;
    case 4: f(static_cast<staggered_ranking<4>*>(nullptr)); break;
    case 5: f(static_cast<trie_ranking<1>*>(nullptr)); break;
    case 6: f(static_cast<trie_ranking<2>*>(nullptr)); break;
    case 7: f(static_cast<trie_ranking<3>*>(nullptr)); break;
    case 8: f(static_cast<trie_ranking<4>*>(nullptr)); break;
    case 9: f(static_cast<staggered_ranking<6>*>(nullptr)); break;
    case 10: f(static_cast<trie_ranking<6>*>(nullptr)); break;
    case 11: f(static_cast<staggered_ranking<8>*>(nullptr)); break;
    default: f(static_cast<trie_ranking<5>*>(nullptr)); break;
  }
}
static int popc(uint64_t x) { return __builtin_popcountll(x); }
// Position of a state among all states with the same number of particles: colexicographic, possibly of the holes,
// possibly reversed.  The order a sector uses is read off a small sector (see order_of).
static uint64_t colex(uint64_t x) { uint64_t r = 0; int k = 0; for (int p = 0; p < 64; ++p) if (x >> p & 1) r += binom(p, ++k); return r; }
static uint64_t rank_in(int order, int M, int N, uint64_t x) {
  uint64_t f = (M == 64 ? 0 : uint64_t(1) << M) - 1;
  uint64_t r = colex(order & 1 ? x ^ f : x);
  return order & 2 ? binom(M, N) - 1 - r : r;
}
// order in which the basis states of a sector are listed, for the ratio of particles to modes of (M, N); -1: another one
static int order_of(int M, int N) {
  int m = M % 2 ? 7 : 6, n = 2 * N < M ? 2 : 2 * N == M ? 3 : m - 2;
  HS hs; for (int i = 0; i < m; ++i) hs.add(make_space_fermion(i));
  auto list = n_fermion_sector_basis_states(hs, n);
  for (int o = 0; o < 4; ++o) {
    bool ok = true;
    for (size_t j = 0; ok && j < list.size(); ++j) ok = rank_in(o, m, n, list[j]) == j;
    if (ok) return o;
  }
  return -1;
}
// a state of a large sector: six modes (W of them) anywhere hold a symbolic pattern, the other particles fill the lowest, the
// highest or every second of the remaining modes
static uint64_t large_state(int M, int N, const char* at, const char* pattern, const char* fill, int W = 6) {
  uint64_t sh = sym_pick_range(at, 0, 2) * (M - W) / 2, w = sym_pick_range(pattern, 0, (1u << W) - 1), f = sym_pick_range(fill, 0, 2);
  uint64_t x = w << sh; int left = N - popc(w);
  sym_assume(left >= 0 && left <= M - W);
  for (int pass = 0; pass < 2; ++pass) for (int i = 0; i < M && left; ++i) {
    int p = f == 1 ? M - 1 - i : i;
    if (p >= (int)sh && p < (int)sh + W) continue;
    if (x >> p & 1) continue;
    if (f == 2 && pass == 0 && p % 2) continue;
    x |= uint64_t(1) << p; --left;
  }
  return x;
}
