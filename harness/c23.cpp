// C23: parametric operators evaluate each coefficient at the given arguments.
#include "lop.h"
#include <libcommute/loperator/sparse_state_vector.hpp>
using namespace static_indices;
// an argument that notices being moved from
struct Arg {
  std::vector<long> v;
  explicit Arg(long x) : v(1, x) {}
  long get() const { return v.empty() ? 77 : v[0]; }
};
// polynomial coefficients in one or two variables: c[0] + c[1] x + c[2] x^2 + d y
struct Poly {
  long c[3]; long d;
  Poly(long c0 = 0, long c1 = 0, long c2 = 0, long d = 0) : c{c0, c1, c2}, d(d) {}
  long eval(long x, long y) const { return c[0] + x * c[1] + x * x * c[2] + y * d; }
  long operator()(long x) const { return eval(x, 0); }
  long operator()(long x, long y) const { return eval(x, y); }
  long operator()() const { return eval(0, 0); }
  long operator()(Arg x) const { return eval(x.get(), 0); }
  long operator()(Arg x, Arg y) const { return eval(x.get(), y.get()); }
  double operator()(double x) const { return (double)c[0] + x * (double)c[1] + x * x * (double)c[2]; }
  Poly operator+(Poly const& p) const { return Poly(c[0] + p.c[0], c[1] + p.c[1], c[2] + p.c[2], d + p.d); }
  Poly operator-(Poly const& p) const { return Poly(c[0] - p.c[0], c[1] - p.c[1], c[2] - p.c[2], d - p.d); }
  Poly operator-() const { return Poly(-c[0], -c[1], -c[2], -d); }
  Poly operator*(Poly const& p) const { // one of the factors is constant
    return Poly(c[0] * p.c[0], c[0] * p.c[1] + c[1] * p.c[0], c[0] * p.c[2] + c[2] * p.c[0], c[0] * p.d + d * p.c[0]); }
  Poly operator*(double x) const { long k = (long)x; return Poly(k * c[0], k * c[1], k * c[2], k * d); }
  friend Poly operator*(double x, Poly const& p) { return p * x; }
};
namespace libcommute {
template <> struct scalar_traits<Poly> {
  static bool is_zero(Poly const& p) { return sym_branch(p.c[0] == 0 && p.c[1] == 0 && p.c[2] == 0 && p.d == 0); }
  static Poly make_const(double x) { return Poly((long)x); }
  static Poly make_const(var_number const& vn) { return Poly((long)(double)vn); }
  static Poly conj(Poly const& p) { return p; }
};
}
static const char* CN[12] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11"};
static int ncoef = 0;
static Poly coef() { long v[4]; for (int i = 0; i < 4; ++i) v[i] = (long)sym_range(CN[ncoef++], 0, 3) - 1; sym_assume(v[0] != 0); return Poly(v[0], v[1], v[2], v[3]); }
typedef expression<Poly, int> EP;
// params: layout (0 fermions, 1 fermion and spin 1/2), terms, form
ENTRY c23_forms() {
  int nt = sym_param(0), form = sym_param(1);
  ncoef = 0;
  hilbert_space<int> hs(make_space_fermion(0), make_space_fermion(1), make_space_spin(0.5, 0));
  EP e; expression<long, int> ref;
  long x = 3 * (long)sym_pick_range("x", 0, 1) - 1, y = (form == 4 || form == 5 || form == 6) ? (long)sym_pick_range("y", 1, 2) : 0;
  if (form == 7) x = 0;
  static const char* TN[3] = {"t0", "t1", "t2"};
  int used = 0;
  for (int t = 0; t < nt; ++t) {
    Poly p = coef();
    int w = (int)sym_pick_range(TN[t], 0, 4);
    sym_assume(!(used >> w & 1)); used |= 1 << w;
    long val = p.eval(x, y);
    expression<long, int> r;
    if (w == 0) { e += p * EP(Poly(1)); r = expression<long, int>(1); }
    else if (w == 1) { e += p * (c_dag<Poly>(0) * c<Poly>(1)); r = c_dag<long>(0) * c<long>(1); }
    else if (w == 2) { e += p * n<Poly>(1); r = n<long>(1); }
    else if (w == 3) { e += p * (c_dag<Poly>(1) * S_p<Poly>(0)); r = c_dag<long>(1) * S_p<long>(0); }
    else { e += p * S_m<Poly>(0); r = S_m<long>(0); }
    ref += val * r;
  }
  sym_check(e.size() == (size_t)nt, "terms of the parametric expression");
  auto P = make_param_loperator(e, hs);
  auto L = make_loperator(ref, hs);
  SymVec<long> src, out, want;
  src.r.push_back({sym_range("s", 0, 7), 1});
  want = L(src);
  out.r.push_back({sym_range("garbage", 0, 7), 5});
  std::vector<long> co(1, 99);
  switch (form) {
    case 0: out = P(src, x); break;
    case 1: { long const cx = x; P(src, out, cx); break; }
    case 2: P.act_and_store_coeffs(src, out, co, x); break;
    case 3: out = P.at(x)(src); break;
    case 4: out = P(src, x, y); break;
    case 5: P(src, out, x, y); P(src, out, x, y); break;
    case 6: { auto at = P.at(x, y); at(src, out); break; }
    case 7: { out = P(src); SymVec<long> o2; P(src, o2); same_vec(o2, want, "no arguments, destination form"); auto o3 = P.at()(src); same_vec(o3, want, "no arguments, at()"); break; }
    case 8: out = P(src, Arg(x)); break;
    case 9: P(src, out, Arg(x)); break;
    case 10: P.act_and_store_coeffs(src, out, co, Arg(x)); break;
    case 11: out = P.at(Arg(x))(src); break;
    case 12: { Arg a(x); out = P(src, a); sym_check(a.get() == x, "lvalue arguments are left alone"); SymVec<long> o2; P(src, o2, a); same_vec(o2, want, "lvalue argument, destination form"); auto o3 = P.at(a)(src); same_vec(o3, want, "lvalue argument, at()"); sym_check(a.get() == x, "lvalue arguments are left alone"); break; }
    case 13: { auto Q = P; auto R = std::move(Q); P.act_and_store_coeffs(src, out, co, x); Q = R; out = Q(src, x); break; }
  }
  same_vec(out, want, "a parametric operator acts with coefficients evaluated at the arguments");
  if (form == 2 || form == 10) {
    sym_check(co.size() == (size_t)nt, "one stored coefficient per term");
    size_t i = 0;
    for (auto const& m : e) { sym_check(i < co.size() && co[i] == m.coeff.eval(x, y), "stored coefficients are the evaluated ones"); ++i; }
    long c0 = x + 1;  // reuse of the storage
    P.act_and_store_coeffs(src, out, co, c0);
    SymVec<long> w2 = P.at(c0)(src);
    same_vec(out, w2, "stored coefficients are replaced by the next call");
    sym_check(co.size() == (size_t)nt, "storage does not accumulate coefficients");
  }
  sym_cover("done");
}
// real arguments, bosons, dense and sparse vectors
ENTRY c23_real() {
  ncoef = 0;
  int dim = sym_param(0);
  hilbert_space<int> hs(make_space_boson(dim, 0), make_space_fermion(0));
  double x = 0.25 * ((double)sym_pick_range("x", 0, 4) - 2);
  auto cf = [](const char* a, const char* b) { return Poly((long)sym_pick_range(a, 1, 3), (long)sym_pick_range(b, 0, 2) - 1, 1); };
  Poly p0 = cf("a0", "b0"), p1 = cf("a1", "b1");
  EP e = p0 * a_dag<Poly>(0) + p1 * (c_dag<Poly>(0) * a<Poly>(0));
  expression<double, int> r = p0(x) * a_dag<double>(0) + p1(x) * (c_dag<double>(0) * a<double>(0));
  auto P = make_param_loperator(e, hs);
  auto L = make_loperator(r, hs);
  SymVec<double> src; src.r.push_back({sym_range("s", 0, get_vec_size(hs) - 1), 1.0});
  sym_assume((src.r[0].idx >> 1) < (uint64_t)dim);
  SymVec<double> want = L(src), out = P(src, x), out2, out3;
  same_vec_f(out, want, "real arguments");
  P(src, out2, x); same_vec_f(out2, want, "real arguments, destination form");
  std::vector<double> co; P.act_and_store_coeffs(src, out3, co, x); same_vec_f(out3, want, "real arguments, stored coefficients");
  auto o4 = P.at(x)(src); same_vec_f(o4, want, "real arguments, at()");
}
