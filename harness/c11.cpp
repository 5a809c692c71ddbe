// C11: linear operator objects represent the expression they were built from.
#include "lop.h"
#include "ring.h"
using namespace static_indices;
typedef expression<long, int> EL;
typedef expression<double, int> ED;
typedef expression<std::complex<double>, int> EC;
static const char* OP[8] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
// ---- sums of terms, all call forms, accumulation into a used destination (integer amplitudes)
static bool fact(int k, int p, uint64_t& s, long& a) { return jw(s, a, p, k == 1); }
// params: modes M, number of source states (1 or 2), call form
ENTRY c11_forms() {
  int M = sym_param(0), ns = sym_param(1), form = sym_param(2);
  hilbert_space<int> hs;
  for (int i = 0; i < M; ++i) hs.add(make_space_fermion(i));
  long c[3];
  for (int i = 0; i < 3; ++i) { static const char* nm[3] = {"c0", "c1", "c2"}; c[i] = (long)sym_range(nm[i], 0, 6) - 3; }
  sym_assume(c[1] != 0 && c[2] != 0);
  int k[3], p[3];
  for (int i = 0; i < 3; ++i) { int o = (int)sym_pick_range(OP[i], 0, 2 * M - 1); k[i] = o & 1; p[i] = o >> 1; }
  auto f = [](int kk, int pp) { return kk ? c_dag<long>(pp) : libcommute::static_indices::c<long>(pp); };
  EL e = c[0] + c[1] * (f(k[0], p[0]) * f(k[1], p[1])) + c[2] * f(k[2], p[2]);
  SymVec<long> src, want;
  static const char* sn[2] = {"s0", "s1"};
  static const char* an[2] = {"a0", "a1"};
  for (int i = 0; i < ns; ++i) src.r.push_back({sym_range(sn[i], 0, (uint64_t(1) << M) - 1), (long)sym_range(an[i], 0, 4) - 2});
  for (auto& r : src.r) {
    want.r.push_back({r.idx, c[0] * r.amp});
    uint64_t s = r.idx; long a = c[1] * r.amp;
    if (fact(k[1], p[1], s, a) && fact(k[0], p[0], s, a)) want.r.push_back({s, a});
    s = r.idx; a = c[2] * r.amp;
    if (fact(k[2], p[2], s, a)) want.r.push_back({s, a});
  }
  auto op = make_loperator(e, hs);
  SymVec<long> out;
  out.r.push_back({sym_range("garbage", 0, 7), 5}); // earlier contents of the destination
  switch (form) {
    case 0: op(src, out); break;
    case 1: out = op(src); break;
    case 2: out = op * src; break;
    case 3: { auto op2 = op; loperator<long, fermion, boson, spin> op3; op3 = op2; op3(src, out); break; }
    case 4: { auto op2 = std::move(op); loperator<long, fermion, boson, spin> op3; op3 = std::move(op2); op3(src, out); op3(src, out); break; }
    case 5: { loperator<long, fermion, boson, spin> z; z(src, out); sym_check(out.r.empty(), "a default constructed operator is zero"); op(src, out); break; }
    case 6: { // restricted list of algebras
      loperator<long, fermion> q(e, hs); q(src, out); break; }
    case 7: { loperator<long, fermion> q;
      for (auto const& m : e) q.add_monomial_action(monomial_action<fermion>(std::make_pair(m.monomial.begin(), m.monomial.end()), hs), m.coeff);
      q(src, out); break; }
  }
  same_vec_b(out, want, "an operator acts as the sum of its terms, overwriting the destination");
  sym_cover("done");
}
// ---- std::vector states: real, integer and complex, all elements symbolic or zero
// params: form 0 long vector, 1 complex<long> operator
ENTRY c11_vectors() {
  int form = sym_param(0);
  hilbert_space<int> hs(make_space_fermion(0), make_space_fermion(1), make_space_spin(1.0, 0));
  int M = 4;
  // S+S- etc of spin 1 carry sqrt(2); use Sz, which is integer for spin 1
  int o0 = (int)sym_pick_range("o0", 0, 3), o1 = (int)sym_pick_range("o1", 0, 3);
  auto f = [](int o) { return (o & 1) ? c_dag<double>(o >> 1) : libcommute::static_indices::c<double>(o >> 1); };
  ED sz = S_z<3>(0);
  ED e = 2.0 * f(o0) * f(o1) + 3.0 * sz * f(o1) - 1.0;
  uint64_t i0 = sym_pick_range("i0", 0, 15), i1 = sym_pick_range("i1", 0, 15);
  if ((i0 >> 2) == 3 || (i1 >> 2) == 3) sym_assume(false);
  double a0 = (double)((long)sym_pick_range("a0", 0, 2) - 1), a1 = (double)((long)sym_pick_range("a1", 0, 1) + 1);
  double want[16] = {};
  auto add = [&](uint64_t st, double am) {
    want[st] -= am;
    uint64_t s = st; long sg = 1;
    if (fact(o1 & 1, o1 >> 1, s, sg)) { want[s] += 3.0 * am * sg * (double((long)(s >> 2)) - 1); if (fact(o0 & 1, o0 >> 1, s, sg)) want[s] += 2.0 * am * sg; }
  };
  add(i0, a0); add(i1, a1);
  if (form == 0) {
    std::vector<double> src(16, 0.0), dst(16, 7.0);
    src[i0] += a0; src[i1] += a1;
    auto op = make_loperator(e, hs);
    op(src, dst);
    auto d2 = op * src;
    for (int i = 0; i < 16; ++i) { sym_check(dst[i] == want[i], "vector states: element"); sym_check(d2[i] == want[i], "vector states: product form"); sym_observe_f(dst[i]); }
  } else if (form == 1) { // complex operator on a real vector into a complex vector
    EC ec = std::complex<double>(0, 1) * e;
    std::vector<double> src(16, 0.0); std::vector<std::complex<double>> dst(16, 7.0);
    src[i0] += a0; src[i1] += a1;
    make_loperator(ec, hs)(src, dst);
    for (int i = 0; i < 16; ++i) sym_check(dst[i] == std::complex<double>(0, want[i]), "vector states: complex operator");
  } else { // real operator on a complex vector
    std::vector<std::complex<double>> src(16, 0.0), dst(16, 7.0);
    src[i0] += std::complex<double>(a0, -2 * a0); src[i1] += std::complex<double>(a1, -2 * a1);
    make_loperator(e, hs)(src, dst);
    for (int i = 0; i < 16; ++i) sym_check(dst[i] == std::complex<double>(want[i], -2 * want[i]), "vector states: complex state");
  }
  (void)M;
}
// params: modes
ENTRY c11_vectors_long() {
  int M = sym_param(0); uint64_t N = uint64_t(1) << M;
  hilbert_space<int> hs;
  for (int i = 0; i < M; ++i) hs.add(make_space_fermion(i));
  auto f = [](int o) { return (o & 1) ? c_dag<long>(o >> 1) : libcommute::static_indices::c<long>(o >> 1); };
  int o0 = (int)sym_pick_range("o0", 0, 2 * M - 1), o1 = (int)sym_pick_range("o1", 0, 2 * M - 1), o2 = (int)sym_pick_range("o2", 0, 2 * M - 1);
  long c0 = (long)sym_range("c0", 0, 6) - 3, c1 = (long)sym_range("c1", 0, 6) - 3;
  sym_assume(c0 != 0 && c1 != 0);
  EL e = c0 * f(o0) * f(o1) + c1 * f(o2) + 2;
  std::vector<long> src(N), dst(N, 9), want(N, 0);
  static const char* vn[8] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"};
  for (uint64_t i = 0; i < N; ++i) src[i] = (long)sym_bits(vn[i], 32);
  auto op = make_loperator(e, hs);
  op(src, dst);
  auto d2 = op(src);
  for (uint64_t i = 0; i < N; ++i) {
    if (!sym_branch(src[i] != 0)) continue;
    want[i] += 2 * src[i];
    uint64_t s = i; long a = 1;
    if (fact(o2 & 1, o2 >> 1, s, a)) want[s] += c1 * a * src[i];
    s = i; a = 1;
    if (fact(o1 & 1, o1 >> 1, s, a) && fact(o0 & 1, o0 >> 1, s, a)) want[s] += c0 * a * src[i];
  }
  for (uint64_t i = 0; i < N; ++i) {
    sym_check(dst[i] == want[i], "vector states: every element of the result");
    sym_check(d2[i] == want[i], "vector states: every element of the returned vector");
    sym_observe(dst[i]);
  }
}
// ---- products are compositions, conjugates are adjoints (mixed algebras, truncation out of play)
static ED gop(int o) { // 0,1 fermions 0/1 (c), 2,3 (c+), 4 a, 5 a+, 6..8 spin 1/2, 9..11 spin 1
  switch (o) {
    case 0: return libcommute::static_indices::c<double>(0);
    case 1: return libcommute::static_indices::c<double>(1);
    case 2: return c_dag<double>(0);
    case 3: return c_dag<double>(1);
    case 4: return a<double>(0);
    case 5: return a_dag<double>(0);
    case 6: return S_p<2, double>(0);
    case 7: return S_m<2, double>(0);
    case 8: return S_z<2, double>(0);
    case 9: return S_p<3, double>(0);
    case 10: return S_m<3, double>(0);
    default: return S_z<3, double>(0);
  }
}
static uint64_t mixed_state() { // fermions bits 0,1; boson bits 2,3 (dim 4, at most one quantum); spin 1/2 bit 4; spin 1 bits 5,6
  uint64_t rest = sym_pick_range("ferm", 0, 3), nb = sym_pick_range("nb", 0, 1), h = sym_pick_range("h", 0, 1), m = sym_pick_range("m", 0, 2);
  return rest | nb << 2 | h << 4 | m << 5;
}
static hilbert_space<int> mixed_space() { return hilbert_space<int>(make_space_fermion(0), make_space_fermion(1), make_space_boson(4, 0), make_space_spin(0.5, 0), make_space_spin(1.0, 0)); }
// params: operators in A, operators in B, first op
ENTRY c11_compose() {
  int na = sym_param(0), nb = sym_param(1), first = sym_param(2);
  ED A, B;
  int ndag = 0;
  for (int i = 0; i < na + nb; ++i) {
    int o = i == 0 && first >= 0 ? first : (int)sym_pick_range(OP[i], 0, 11);
    if (o == 5) ++ndag;
    ED g = gop(o);
    if (i < na) A = i == 0 ? g : A * g; else B = i == na ? g : B * g;
  }
  A = A - 2.0; B = B + 3.0 * gop((int)sym_pick_range("extra", 0, 11));
  if (ndag > 2) return;
  auto hs = mixed_space();
  SymVec<double> v = ket<double>(mixed_state());
  auto oa = make_loperator(A, hs), ob = make_loperator(B, hs);
  auto oab = make_loperator(A * B, hs);
  same_vec_f(oab * v, oa * (ob * v), "the operator of a product is the composition of the operators");
  auto os = make_loperator(2.0 * A - B, hs);
  SymVec<double> w = oa * v, u = ob * v;
  for (auto& r : w.r) r.amp *= 2.0;
  for (auto& r : u.r) { r.amp = -r.amp; w.r.push_back(r); }
  same_vec_f(os * v, w, "the operator of a sum is the sum of the operators");
}
// params: operators in A
ENTRY c11_adjoint() {
  int na = sym_param(0);
  ED A;
  for (int i = 0; i < na; ++i) { ED g = gop((int)sym_pick_range(OP[i], 0, 11)); A = i == 0 ? g : A * g; }
  A = A + 2.0 * gop((int)sym_pick_range("extra", 0, 11));
  auto hs = mixed_space();
  uint64_t st = mixed_state();
  auto oa = make_loperator(A, hs), od = make_loperator(conj(A), hs);
  SymVec<double> x = oa * ket<double>(st);
  for (auto& r : x.r) {
    double am = 0, mag = 0, back = 0, mag2 = 0;
    for (auto& q : x.r) if (q.idx == r.idx) { am += q.amp; mag += absof(q.amp); }
    SymVec<double> y = od * ket<double>(r.idx);
    for (auto& q : y.r) if (q.idx == st) { back += q.amp; mag2 += absof(q.amp); }
    sym_check(absof(am - back) <= 1e-12 * (mag + mag2), "the operator of the conjugate is the adjoint");
    sym_observe_f(am);
  }
}
// ---- user-defined algebra with its own monomial action (phase operator on three-state sites)
namespace libcommute { static constexpr int zthree = min_user_defined_algebra_id; }
template <typename... I> struct gen_z3 : generator<I...> { // cyclic shift of a three-state site
  using base = generator<I...>;
  template <typename... A> explicit gen_z3(A&&... i) : base(std::forward<A>(i)...) {}
  int algebra_id() const override { return libcommute::zthree; }
  using linear_function_t = typename base::linear_function_t;
  var_number swap_with(base const&, linear_function_t& f) const override { f.set(0); return 1; }
};
template <typename... I> struct es_z3 : elementary_space<I...> {
  using base = elementary_space<I...>;
  template <typename... A> explicit es_z3(A&&... i) : base(std::forward<A>(i)...) {}
  std::unique_ptr<base> clone() const override { return make_unique<es_z3>(*this); }
  int algebra_id() const override { return libcommute::zthree; }
  sv_index_type dim() const override { return 3; }
  int n_bits() const override { return 2; }
};
namespace libcommute {
template <> class monomial_action<zthree> {
  std::vector<int> shifts_;
public:
  template <typename... I> monomial_action(detail::monomial_range_t<I...> const& r, hilbert_space<I...> const& hs) {
    for (auto it = r.first; it != r.second; ++it) {
      es_z3<I...> es(std::get<0>(it->indices()));
      shifts_.push_back(hs.bit_range(es).first);
    }
  }
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    for (int s : shifts_) { sv_index_type n = (index >> s) & 3; index = (index & ~(sv_index_type(3) << s)) | (((n + 1) % 3) << s); if (n == 2) coeff = coeff * S(2); }
    return true;
  }
};
}
// params: modes, z3 sites
ENTRY c11_user() {
  int M = sym_param(0), nz = sym_param(1);
  hilbert_space<int> hs;
  for (int i = nz; i-- > 0;) hs.add(es_z3<int>(i));
  for (int i = 0; i < M; ++i) hs.add(make_space_fermion(i));
  int o0 = (int)sym_pick_range("o0", 0, 2 * M - 1), z0 = (int)sym_pick_range("z0", 0, nz - 1), z1 = (int)sym_pick_range("z1", 0, nz - 1), o1 = (int)sym_pick_range("o1", 0, 2 * M - 1);
  auto f = [](int o) { return (o & 1) ? c_dag<long>(o >> 1) : libcommute::static_indices::c<long>(o >> 1); };
  auto z = [](int i) { return EL(1, EL::monomial_t{std::shared_ptr<const generator<int>>(std::make_shared<gen_z3<int>>(i))}); };
  EL e = z(z0) * f(o0) * z(z1) * f(o1);
  loperator<long, fermion, libcommute::zthree> op(e, hs);
  uint64_t st = sym_range("st", 0, (uint64_t(1) << (M + 2 * nz)) - 1);
  for (int i = 0; i < nz; ++i) sym_assume(((st >> (M + 2 * i)) & 3) < 3);
  SymVec<long> out = op * ket<long>(st), want;
  uint64_t s = st; long a = 1;
  if (fact(o1 & 1, o1 >> 1, s, a) && fact(o0 & 1, o0 >> 1, s, a)) {
    int zz[2] = {z1, z0};
    for (int q = 0; q < 2; ++q) { int sh = M + 2 * zz[q]; uint64_t n = (s >> sh) & 3; bool top = sym_branch(n == 2); s = (s & ~(uint64_t(3) << sh)) | ((top ? 0 : n + 1) << sh); if (top) a *= 2; }
    want.r.push_back({s, a});
  }
  same_vec(out, want, "a user-defined algebra acts through its monomial action, beside built-in algebras");
}
