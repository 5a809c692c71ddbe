// C22: sparse state vectors behave as dense vectors.
#include "lop.h"
#include <libcommute/loperator/sparse_state_vector.hpp>
using namespace static_indices;
static const char* ON[8] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
static const char* IN[8] = {"i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7"};
static const char* VN[8] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"};
template <typename S> struct Small { static S get(const char* n) { return S((long)sym_range(n, 0, 4) - 2); } static uint64_t obs(S x) { return (uint64_t)x; } };
template <> struct Small<double> { static double get(const char* n) { return 0.5 * ((double)sym_pick_range(n, 0, 4) - 2.0); } static uint64_t obs(double x) { return (uint64_t)(long)(2 * x); } };
template <> struct Small<std::complex<double>> { static std::complex<double> get(const char* n) { static const std::complex<double> t[5] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}}; return t[sym_pick_range(n, 0, 4)]; } static uint64_t obs(std::complex<double> x) { return (uint64_t)(long)(x.real() + 3 * x.imag()); } };
template <typename S> static bool eq(S a, S b) { return a == b; }
// dense reference with a record of what is stored
template <typename S> struct Dense {
  S v[8]; bool st[8]; int n;
  Dense(int n) : n(n) { for (int i = 0; i < 8; ++i) { v[i] = S(0); st[i] = false; } }
};
template <typename S> static void compare(sparse_state_vector<S> const& sv, Dense<S> const& d) {
  sym_check(sv.size() == (uint64_t)d.n, "size");
  uint64_t cnt = 0; for (int i = 0; i < d.n; ++i) cnt += d.st[i];
  sym_check(sv.n_nonzeros() == cnt, "number of stored elements");
  for (int i = 0; i < d.n; ++i) sym_check(eq(get_element(sv, i), d.v[i]), "every element has the value of the dense vector");
  bool ok = true; uint64_t seen = 0, k = 0;
  foreach(sv, [&](sv_index_type j, S const& a) { ok = ok && j < (uint64_t)d.n; if (j >= (uint64_t)d.n) return; uint64_t jj = sym_pick(j); ok = ok && d.st[jj] && eq(a, d.v[jj]) && !(seen >> jj & 1); seen |= uint64_t(1) << jj; ++k; });
  sym_check(ok && k == cnt, "enumeration visits every stored element once with its value");
}
template <typename S> static void history() {
  int n = sym_param(0), K = sym_param(1), picks = sym_param(2);
  sparse_state_vector<S> sv(n);
  Dense<S> d(n);
  for (int k = 0; k < K; ++k) {
    int op = (int)sym_pick_range(ON[k], 0, 7);
    uint64_t i = 0; S v(0);
    if (op <= 2 || op == 6) { i = sym_pick_range(IN[k], 0, n - 1); v = Small<S>::get(VN[k]); }
    switch (op) {
      case 0: case 1: { // additions
        if (op == 0) update_add_element(sv, i, v); else { S const cv = v; update_add_element(sv, i, cv); }
        S t = d.v[i] + v; d.v[i] = t; d.st[i] = sym_branch(t != S(0)); break; }
      case 2: sv[i] = v; d.v[i] = v; d.st[i] = true; break;
      case 3: set_zeros(sv); d = Dense<S>(n); break;
      case 4: sv.prune(); for (int j = 0; j < n; ++j) d.st[j] = d.st[j] && sym_branch(d.v[j] != S(0)); break;
      case 5: { // predicate
        S lim = S(1); sv.prune([&](S const& a) { return sym_branch(a == lim || a == S(0)); });
        for (int j = 0; j < n; ++j) if (d.st[j] && sym_branch(d.v[j] == lim || d.v[j] == S(0))) { d.st[j] = false; d.v[j] = S(0); } break; }
      case 6: sv[i] += v; d.v[i] += v; d.st[i] = true; break;
      case 7: { auto z = zeros_like(sv); compare(z, Dense<S>(n)); sparse_state_vector<S> cp(sv); compare(cp, d); sparse_state_vector<S> mv(std::move(cp)); compare(mv, d); z = mv; sv = std::move(z); break; }
    }
  }
  compare(sv, d);
  uint64_t h = 0; for (int i = 0; i < n; ++i) h = h * 31 + Small<S>::obs(get_element(sv, i)); sym_observe(h);
}
ENTRY c22_history_long() { history<long>(); }
ENTRY c22_history_double() { history<double>(); }
ENTRY c22_history_complex() { history<std::complex<double>>(); }
// indices that agree modulo a power of two are different elements.  params: number of additions
ENTRY c22_far() {
  int K = sym_param(0);
  uint64_t low = sym_pick_range("low", 0, 2) * 5;
  static const uint64_t OFF[7] = {0, 1ull << 16, 1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 16), 1ull << 48, 1ull << 63};
  sparse_state_vector<long> sv(~uint64_t(0));
  std::vector<uint64_t> idx(K); std::vector<long> v(K);
  for (int k = 0; k < K; ++k) { idx[k] = OFF[sym_pick_range(IN[k], 0, 6)] + low; v[k] = (long)sym_range(VN[k], 0, 4) - 2; update_add_element(sv, idx[k], v[k]); }
  long t[7] = {0}; bool in[7] = {false}; uint64_t nz = 0;
  for (int j = 0; j < 7; ++j) {
    for (int k = 0; k < K; ++k) if (idx[k] == OFF[j] + low) t[j] += v[k];
    sym_check(get_element(sv, OFF[j] + low) == t[j], "distant elements are the sums of their own additions");
    if (sym_branch(t[j] != 0)) { ++nz; in[j] = true; }
  }
  sym_check(sv.n_nonzeros() == nz, "distant elements are stored separately");
  bool ok = true; uint64_t cnt = 0;
  foreach(sv, [&](sv_index_type i, long a) { int w = -1; for (int j = 0; j < 7; ++j) if (i == OFF[j] + low) w = j; ok = ok && w >= 0 && in[w] && a == t[w]; ++cnt; });
  sym_check(ok && cnt == nz, "distant elements are enumerated with their indices");
  sv[OFF[3] + low] = 7; sym_check(get_element(sv, OFF[3] + low) == 7 && get_element(sv, low) == t[0], "assignment to a distant element");
  sym_cover("done");
}
// additions at arbitrary 64-bit indices, all coincidences symbolic
ENTRY c22_wide() {
  int K = sym_param(0);
  sparse_state_vector<long> sv(~uint64_t(0));
  uint64_t idx[6]; long v[6];
  for (int k = 0; k < K; ++k) { idx[k] = sym_range(IN[k], 0, (uint64_t(1) << sym_param(1)) - 1); v[k] = (long)sym_range(VN[k], 0, 4) - 2; update_add_element(sv, idx[k], v[k]); }
  uint64_t nz = 0;
  for (int k = 0; k < K; ++k) {
    long t = 0; bool first = true;
    for (int j = 0; j < K; ++j) { if (sym_branch(idx[j] == idx[k])) { t += v[j]; if (j < k) first = false; } }
    sym_check(get_element(sv, idx[k]) == t, "elements are the sums of the additions");
    if (first && sym_branch(t != 0)) ++nz;
  }
  sym_check(sv.n_nonzeros() == nz, "no zero stays stored");
  uint64_t p = sym_range("probe", 0, (uint64_t(1) << sym_param(1)) - 1);
  long t = 0; for (int j = 0; j < K; ++j) if (sym_branch(idx[j] == p)) t += v[j];
  sym_check(get_element(sv, p) == t, "an arbitrary element");
}
// an operator applied to a sparse vector
ENTRY c22_operator() {
  int kind = sym_param(0);
  hilbert_space<int> hs(make_space_fermion(0), make_space_fermion(1), make_space_spin(0.5, 0));
  long c0 = (long)sym_range("c0", 0, 4) - 2, c1 = (long)sym_range("c1", 0, 4) - 2;
  sym_assume(c0 != 0 && c1 != 0);
  expression<long, int> e;
  if (kind == 0) e = c0 * c_dag<long>(0) * c<long>(1) + c1 * c_dag<long>(1) * c<long>(0);
  else if (kind == 1) e = c0 * S_p<long>(0) + c1 * c<long>(0);
  else e = c0 + c1 * n<long>(1) + c1 * c_dag<long>(0) * c<long>(1);
  auto op = make_loperator(e, hs);
  std::vector<long> dv(8, 0);
  sparse_state_vector<long> sv(8);
  for (int k = 0; k < 3; ++k) { uint64_t i = sym_pick_range(IN[k], 0, 7); if (k) sym_assume(true); long v = (long)sym_range(VN[k], 0, 2) - 1; dv[i] += v; update_add_element(sv, i, v); }
  auto dw = op(dv); auto sw = op(sv);
  sparse_state_vector<long> st(8); st[3] = 9; op(sv, st);
  sparse_state_vector<long> sm = op * sv;
  uint64_t nz = 0;
  for (int i = 0; i < 8; ++i) {
    sym_check(get_element(sw, i) == dw[i] && get_element(st, i) == dw[i] && get_element(sm, i) == dw[i], "operators act on sparse vectors as on dense ones");
    if (sym_branch(dw[i] != 0)) ++nz;
  }
  sym_check(sw.n_nonzeros() == nz && st.n_nonzeros() == nz, "results store no zeros");
}
