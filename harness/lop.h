// State vector of the harness (documented StateVector interface): a list of (basis state, amplitude) records,
// so that a linear operator can act on a symbolic basis state of a space of any size.
#pragma once
#include "oracle.h"
#include <libcommute/loperator/state_vector.hpp>
#include <libcommute/loperator/loperator.hpp>
#include <libcommute/loperator/hilbert_space.hpp>
#include <cmath>
template <typename S> struct SymVec {
  struct R { uint64_t idx; S amp; };
  std::vector<R> r;
};
template <typename S> SymVec<S> ket(uint64_t idx, S a = S(1)) { SymVec<S> v; v.r.push_back({idx, a}); return v; }
namespace libcommute {
template <typename S> struct element_type<SymVec<S>> { using type = S; };
template <typename S> struct element_type<SymVec<S> const> { using type = S; };
}
template <typename S> S get_element(SymVec<S> const& v, libcommute::sv_index_type n) {
  S s(0);
  for (auto& x : v.r) if (sym_branch(x.idx == n)) s += x.amp;
  return s;
}
template <typename S, typename T> void update_add_element(SymVec<S>& v, libcommute::sv_index_type n, T const& a) { v.r.push_back({n, S(a)}); }
template <typename S> void set_zeros(SymVec<S>& v) { v.r.clear(); }
template <typename S> SymVec<S> zeros_like(SymVec<S> const&) { return {}; }
template <typename S, typename F> void foreach(SymVec<S> const& v, F&& f) { for (auto& x : v.r) f(x.idx, x.amp); }
// comparison: amplitudes of equal indices add up to the same value
static inline void same_vec(SymVec<long> const& x, SymVec<long> const& y, const char* label) {
  auto tot = [](SymVec<long> const& v, uint64_t t) { long s = 0; for (auto& e : v.r) s += e.amp & -(long)(e.idx == t); return s; };
  for (auto& e : x.r) sym_check(tot(x, e.idx) == tot(y, e.idx), label);
  for (auto& e : y.r) sym_check(tot(x, e.idx) == tot(y, e.idx), label);
}
static inline void same_vec_b(SymVec<long> const& x, SymVec<long> const& y, const char* label) { // as above, deciding index coincidences first
  auto tot = [](SymVec<long> const& v, uint64_t t) { long s = 0; for (auto& e : v.r) if (sym_branch(e.idx == t)) s += e.amp; return s; };
  for (auto& e : x.r) sym_check(tot(x, e.idx) == tot(y, e.idx), label);
  for (auto& e : y.r) sym_check(tot(x, e.idx) == tot(y, e.idx), label);
}
static inline bool close(double a, double b) { double d = a - b; if (d < 0) d = -d; double m = (a < 0 ? -a : a) + (b < 0 ? -b : b); return d <= 1e-12 * m + 1e-300; }
static inline double absof(double x) { return x < 0 ? -x : x; }
static inline double absof(std::complex<double> x) { return absof(x.real()) + absof(x.imag()); }
template <typename S> static inline void same_vec_f(SymVec<S> const& x, SymVec<S> const& y, const char* label) {
  auto tot = [](SymVec<S> const& v, uint64_t t, double& mag) { S s(0); for (auto& e : v.r) if (sym_branch(e.idx == t)) { s += e.amp; mag += absof(e.amp); } return s; };
  for (int k = 0; k < 2; ++k)
    for (auto& e : (k ? y : x).r) {
      double mag = 0;
      S a = tot(x, e.idx, mag), b = tot(y, e.idx, mag);
      sym_check(absof(a - b) <= 1e-12 * mag, label);
    }
}
static inline uint64_t parity64(uint64_t v) { return __builtin_parityll(v); }
// one Jordan-Wigner matrix on mode p (lower modes counted); returns false when the state is annihilated
static inline bool jw(uint64_t& st, long& a, int p, bool dag) {
  uint64_t occ = (st >> p) & 1;
  a = parity64(st & ((uint64_t(1) << p) - 1)) ? -a : a;
  st ^= uint64_t(1) << p;
  return sym_branch(occ == (dag ? 0u : 1u));
}
