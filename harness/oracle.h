// Independent denotation of expressions: unnormalised matrix representations with integer entries.
// Fermions: Jordan-Wigner (sites ordered by first appearance - any fixed order represents the CAR).
// Bosons: a|n>=n|n-1>, a+|n>=|n+1>  (faithful on the algebra).   Spins: S_z|k>=(k-S)|k>, S_+|k>=(2S-k)|k+1>, S_-|k>=k|k-1>.
// Every spin factor is scaled by 2, so amplitudes are integers.
#pragma once
#include "sym.h"
#include <libcommute/expression/expression.hpp>
#include <libcommute/expression/factories.hpp>
#include <vector>
#include <string>
#include <complex>
#include <memory>
using namespace libcommute;
enum Alg { FERM = 0, BOS = 1, SPIN = 2 };
struct Gen { int alg, mult, what, idx; }; // what: fermion/boson: 1 = dagger; spin: 0 plus 1 minus 2 z
static const int MAXS = 8;
struct Sites {
  int n = 0;
  Gen key[MAXS];
  uint64_t q[MAXS]; // symbolic quantum number of each site
  bool pick = false; // decide fermion and spin quantum numbers (used when bosons are present as well)
  static bool same(Gen const& a, Gen const& b) { return a.alg == b.alg && a.mult == b.mult && sym_branch(a.idx == b.idx); }
  int find(Gen const& g) const {
    for (int i = 0; i < n; ++i) if (same(key[i], g)) return i;
    return -1;
  }
  int add(Gen const& g) {
    int i = find(g);
    if (i >= 0) return i;
    key[n] = g;
    static const char* nm[MAXS] = {"q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7"};
    if (g.alg == FERM) q[n] = sym_range(nm[n], 0, 1);
    else if (g.alg == BOS) q[n] = sym_bits(nm[n], 32);
    else q[n] = sym_range(nm[n], 0, g.mult - 1);
    if (pick && g.alg != BOS) q[n] = sym_pick(q[n]);
    return n++;
  }
};
struct Amp { // amplitudes for each shift of the quantum numbers
  struct T { int sh[MAXS]; int64_t a; };
  std::vector<T> t;
  void add(int const* sh, int64_t a) {
    for (auto& x : t) {
      bool eq = true;
      for (int i = 0; i < MAXS; ++i) eq = eq && x.sh[i] == sh[i];
      if (eq) { x.a += a; return; }
    }
    T x; for (int i = 0; i < MAXS; ++i) x.sh[i] = sh[i];
    x.a = a; t.push_back(x);
  }
  int64_t get(int const* sh) const {
    for (auto& x : t) { bool eq = true; for (int i = 0; i < MAXS; ++i) eq = eq && x.sh[i] == sh[i]; if (eq) return x.a; }
    return 0;
  }
};
// action of g (rightmost first) on the symbolic state; returns false if a fermion site is left by more than one
static void act(Sites const& S, Gen const& g, int* sh, int64_t& a) {
  int i = S.find(g);
  sym_check(i >= 0, "every generator of the result lives on a site of the factors");
  if (i < 0) return;
  if (g.alg == FERM) {
    uint64_t occ = (S.q[i] ^ (sh[i] & 1)) & 1;
    uint64_t par = 0;
    for (int k = 0; k < i; ++k) if (S.key[k].alg == FERM) par ^= S.q[k] ^ (sh[k] & 1);
    int64_t s = (par & 1) ? -a : a;
    a = (occ == (g.what ? 0u : 1u)) ? s : 0;
    sh[i] ^= 1;
  } else if (g.alg == BOS) {
    if (g.what) sh[i]++;
    else { a *= (int64_t)(S.q[i] + (int64_t)sh[i]); sh[i]--; }
  } else {
    int64_t k = (int64_t)S.q[i] + sh[i], dS = g.mult - 1;
    if (g.what == 2) a *= 2 * k - dS;
    else if (g.what == 0) { a *= 2 * (dS - k); sh[i]++; }
    else { a *= 2 * k; sh[i]--; }
  }
}
static void word_amp(Sites const& S, Gen const* w, int n, int64_t coeff, Amp& A) {
  int sh[MAXS] = {0};
  int64_t a = coeff;
  for (int i = n; i-- > 0;) act(S, w[i], sh, a);
  A.add(sh, a);
}
template <typename G> static Gen read_gen(G const& g) {
  Gen r{0, 0, 0, std::get<0>(g.indices())};
  if (is_fermion(g)) { r.alg = FERM; r.what = dynamic_cast<generator_fermion<int> const&>(g).dagger(); }
  else if (is_boson(g)) { r.alg = BOS; r.what = dynamic_cast<generator_boson<int> const&>(g).dagger(); }
  else { auto const& s = dynamic_cast<generator_spin<int> const&>(g); r.alg = SPIN; r.mult = s.multiplicity(); r.what = s.component(); }
  return r;
}
// coefficient times 2^sc as an exact integer
static int64_t scaled(long c, int sc) { return (int64_t)c << sc; }
static int64_t scaled(int c, int sc) { return (int64_t)c << sc; }
static int64_t scaled(double c, int sc) {
  double v = c * (double)(int64_t(1) << sc);
  int64_t r = (int64_t)v;
  sym_check((double)r == v, "coefficients are multiples of the structure constants");
  return r;
}
// canonical form of a stored monomial
template <typename M> static void check_canonical(M const& m) {
  for (size_t i = 1; i < m.size(); ++i) {
    Gen a = read_gen(m[i - 1]), b = read_gen(m[i]);
    sym_check(!(m[i - 1] > m[i]) && !(m[i] < m[i - 1]), "stored monomials are ordered");
    if (a.alg == FERM && b.alg == FERM) sym_check(m[i - 1] != m[i], "no fermion generator is stored squared");
    if (a.alg == SPIN && b.alg == SPIN && a.mult == 2 && b.mult == 2)
      sym_check(!sym_branch(a.idx == b.idx), "no product of spin-1/2 generators on one site is stored");
  }
  int run = 1;
  for (size_t i = 1; i < m.size(); ++i) {
    Gen a = read_gen(m[i - 1]), b = read_gen(m[i]);
    run = (a.alg == b.alg && a.mult == b.mult && a.what == b.what && sym_branch(a.idx == b.idx)) ? run + 1 : 1;
    if (b.alg == SPIN && b.what != 2) sym_check(run < b.mult, "no nilpotent power of a spin ladder operator is stored");
  }
}
template <typename E> static void expr_amp(Sites const& S, E const& e, int maxspin, Amp& A) {
  for (auto const& p : e.get_monomials()) {
    Gen w[16]; int n = 0, ns = 0;
    for (auto const& g : p.first) { if (n < 16) { w[n] = read_gen(g); if (w[n].alg == SPIN) ++ns; ++n; } }
    word_amp(S, w, n, scaled(p.second, maxspin - ns), A);
  }
}
static void check_same(Amp const& x, Amp const& y, const char* label) {
  for (auto& t : x.t) sym_check(t.a == y.get(t.sh), label);
  for (auto& t : y.t) sym_check(t.a == x.get(t.sh), label);
}
template <typename E> static void check_no_zero(E const& e) {
  using S = typename E::scalar_type;
  bool first = true;
  typename E::monomial_t const* prev = nullptr;
  for (auto const& p : e.get_monomials()) {
    sym_check(!scalar_traits<S>::is_zero(p.second), "no zero coefficient is stored");
    if (prev) sym_check(*prev < p.first && *prev != p.first, "each monomial is stored once, in order");
    prev = &p.first;
  }
}
// kinds: 0 c+ 1 c 2 a+ 3 a 4..6 S1/2 + - z, 7..9 S1, 10..12 S3/2
static Gen make_gen(int kind, int idx) {
  if (kind < 2) return {FERM, 0, kind == 0, idx};
  if (kind < 4) return {BOS, 0, kind == 2, idx};
  return {SPIN, 2 + (kind - 4) / 3, (kind - 4) % 3, idx};
}
template <typename S> static expression<S, int> gen_expr(Gen const& g) {
  using namespace static_indices;
  if (g.alg == FERM) return g.what ? c_dag<S>(g.idx) : c<S>(g.idx);
  if (g.alg == BOS) return g.what ? a_dag<S>(g.idx) : a<S>(g.idx);
  using E = expression<S, int>;
  return E(scalar_traits<S>::make_const(1), typename E::monomial_t{make_spin((g.mult - 1) / 2.0, (spin_component)g.what, g.idx)});
}
static monomial<int> gen_mono(Gen const& g) {
  using namespace static_indices;
  if (g.alg == FERM) return monomial<int>{make_fermion((bool)g.what, g.idx)};
  if (g.alg == BOS) return monomial<int>{make_boson((bool)g.what, g.idx)};
  return monomial<int>{make_spin((g.mult - 1) / 2.0, (spin_component)g.what, g.idx)};
}
static const char* IX[8] = {"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"};
static const char* KN[8] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"};
// word of n generators: kind of generator i picked from [lo, hi]; first generator kind fixed when k0 >= 0
static void sym_word(Gen* w, int n, int lo, int hi, int k0) {
  for (int i = 0; i < n; ++i) {
    int kind = (i == 0 && k0 >= 0) ? k0 : (int)sym_pick_range(KN[i], lo, hi);
    int idx = (int)sym_bits(IX[i], 32);
    w[i] = make_gen(kind, idx);
  }
}
