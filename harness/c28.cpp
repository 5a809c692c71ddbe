// C28: Eigen vectors, segments, maps and columns work as state vectors like std::vector and touch nothing outside.
#include <libcommute/expression/expression.hpp>
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "lop.h"
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
using namespace static_indices;
static const char* BN[16] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15"};
static const char* VN[8] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"};
static const char* ON[8] = {"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7"};
static const char* IN[8] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"};
template <typename S> struct Val { static S get(const char* n) { return (S)sym_bits(n, 64); } };
template <> struct Val<double> { static double get(const char* n) { return 0.5 * ((double)(long)sym_pick_range(n, 0, 2) - 1.0); } };
template <> struct Val<std::complex<double>> { static std::complex<double> get(const char* n) { static const std::complex<double> t[3] = {{0, 0}, {1, -2}, {0, 0.5}}; return t[sym_pick_range(n, 0, 2)]; } };
template <typename S> using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <typename S> using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <typename S> using MatR = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
// runs f(view, buffer, position of element k in the buffer) for the kind of vector given
static const int BUF = 12;
template <typename S, typename F> static void with_view(int kind, S const* init, int off, int n, F&& f) {
  auto run = [&](auto& base, auto&& view, auto pos) {
    for (int i = 0; i < (int)base.size(); ++i) base.data()[i] = init[i];
    f(view, base.data(), (int)base.size(), pos);
  };
  switch (kind) {
    case 0: { Vec<S> v(n); run(v, v, [](int k) { return k; }); break; }
    case 1: { Eigen::Matrix<S, 4, 1> v; run(v, v, [](int k) { return k; }); break; }
    case 2: { Vec<S> v(BUF); auto s = v.segment(off, n); run(v, s, [=](int k) { return off + k; }); break; }
    case 3: { Vec<S> v(BUF); auto s = v.head(n); run(v, s, [=](int k) { return k; }); break; }
    case 4: { Vec<S> v(BUF); auto s = v.tail(n); run(v, s, [=](int k) { return BUF - n + k; }); break; }
    case 5: { Mat<S> m(4, 3); auto c = m.col(off % 3); run(m, c, [=](int k) { return (off % 3) * 4 + k; }); break; }
    case 6: { MatR<S> m(4, 3); auto c = m.col(off % 3); run(m, c, [=](int k) { return k * 3 + off % 3; }); break; }
    case 7: { Mat<S> m(4, 3); auto b = m.block(off, 1, n, 1); run(m, b, [=](int k) { return 4 + off + k; }); break; }
    case 8: { MatR<S> m(4, 3); auto b = m.block(off, 2, n, 1); run(m, b, [=](int k) { return (off + k) * 3 + 2; }); break; }
    case 9: { std::vector<S> d(BUF); Eigen::Map<Vec<S>> mp(d.data() + off, n); run(d, mp, [=](int k) { return off + k; }); break; }
    case 11: { Mat<S> m(4, 3); auto b = m.template block<4, 1>(0, off % 3); run(m, b, [=](int k) { return (off % 3) * 4 + k; }); break; }
    case 12: { std::vector<S> d(BUF); Eigen::Map<Eigen::Matrix<S, 4, 1>> mp(d.data() + off); run(d, mp, [=](int k) { return off + k; }); break; }
    case 13: { Mat<S> m(6, 2); auto c = m.col(1); auto s = c.segment(off, n); run(m, s, [=](int k) { return 6 + off + k; }); break; }
    case 14: { Eigen::Matrix<S, 4, 3> m; auto c = m.col(off % 3); run(m, c, [=](int k) { return (off % 3) * 4 + k; }); break; }
  }
}
// fewer kinds (products of kinds are expensive to compile)
template <typename S, typename F> static void with_view2(int kind, S const* init, int off, int n, F&& f) {
  auto run = [&](auto& base, auto&& view, auto pos) {
    for (int i = 0; i < (int)base.size(); ++i) base.data()[i] = init[i];
    f(view, base.data(), (int)base.size(), pos);
  };
  switch (kind) {
    case 0: { Vec<S> v(n); run(v, v, [](int k) { return k; }); break; }
    case 2: { Vec<S> v(BUF); auto s = v.segment(off, n); run(v, s, [=](int k) { return off + k; }); break; }
    case 6: { MatR<S> m(4, 3); auto c = m.col(off % 3); run(m, c, [=](int k) { return k * 3 + off % 3; }); break; }
    case 7: { Mat<S> m(4, 3); auto b = m.block(off, 1, n, 1); run(m, b, [=](int k) { return 4 + off + k; }); break; }
    case 9: { std::vector<S> d(BUF); Eigen::Map<Vec<S>> mp(d.data() + off, n); run(d, mp, [=](int k) { return off + k; }); break; }
  }
}
template <typename V, typename S> static void compare(V const& v, S const* buf, int nb, std::vector<S> const& ref, std::vector<S> const& whole, std::vector<int> const& at) {
  for (int k = 0; k < (int)ref.size(); ++k) sym_check(get_element(v, k) == ref[k], "elements are those of std::vector");
  std::vector<int> inside(nb, -1); for (int k = 0; k < (int)at.size(); ++k) inside[at[k]] = k;
  for (int i = 0; i < nb; ++i) sym_check(buf[i] == (inside[i] >= 0 ? ref[inside[i]] : whole[i]), "memory inside and outside the view");
  std::vector<sv_index_type> i1, i2; std::vector<S> a1, a2;
  foreach(v, [&](sv_index_type i, S const& a) { i1.push_back(i); a1.push_back(a); });
  foreach(ref, [&](sv_index_type i, S const& a) { i2.push_back(i); a2.push_back(a); });
  bool ok = i1.size() == i2.size();
  for (size_t k = 0; ok && k < i1.size(); ++k) ok = i1[k] == i2[k] && a1[k] == a2[k];
  sym_check(ok, "enumeration equals that of std::vector");
  auto z = zeros_like(v); auto zr = zeros_like(ref);
  ok = (size_t)z.size() == zr.size();
  for (size_t k = 0; ok && k < zr.size(); ++k) ok = z(k) == zr[k];
  sym_check(ok, "zeros_like makes zeros of the same size");
  update_add_element(z, 0, S(1));
  sym_check(get_element(v, 0) == ref[0], "the clone is independent");
}
template <typename S> static void history() {
  int kind = sym_param(0), off = sym_param(1), n = sym_param(2), K = sym_param(3);
  S init[16]; for (int i = 0; i < BUF; ++i) init[i] = sym_param(4) ? Val<S>::get(BN[i]) : S(long(i * i % 7) - 3);
  with_view<S>(kind, init, off, n, [&](auto& v, S* buf, int nb, auto pos) {
    int sz = (int)v.size();
    std::vector<int> at; for (int k = 0; k < sz; ++k) at.push_back(pos(k));
    std::vector<S> whole(buf, buf + nb), ref; for (int k = 0; k < sz; ++k) ref.push_back(buf[at[k]]);
    for (int k = 0; k < K; ++k) {
      int op = (int)sym_pick_range(ON[k], 0, 3);
      if (op < 2) { uint64_t i = sym_pick_range(IN[k], 0, sz - 1); S x = Val<S>::get(VN[k]); update_add_element(v, i, x); update_add_element(ref, i, x); }
      else if (op == 2) { set_zeros(v); set_zeros(ref); }
      else compare(v, buf, nb, ref, whole, at);
    }
    auto const& cv = v;
    compare(cv, buf, nb, ref, whole, at);
    using T = typename element_type<typename std::remove_reference<decltype(v)>::type>::type;
    using TC = typename element_type<typename std::remove_reference<decltype(cv)>::type>::type;
    sym_check(std::is_same<T, S>::value && std::is_same<TC, S>::value, "element type");
  });
}
ENTRY c28_history_long() { history<long>(); }
ENTRY c28_history_double() { history<double>(); }
ENTRY c28_history_complex() { history<std::complex<double>>(); }
// linear operators
template <typename S> static expression<S, int> ham(int which, S c0, S c1) {
  if (which == 0) return c0 * c_dag<S>(0) * c<S>(1) + c1 * c_dag<S>(1) * c<S>(0) + n<S>(0);
  if (which == 1) return c0 * S_p<S>(0) + c1 * c<S>(0) - expression<S, int>(S(2));
  return c1 * c_dag<S>(0) * S_m<S>(0) + c0 * c<S>(0) * c_dag<S>(0);
}
template <typename S> static void operators() {
  int k1 = sym_param(0), k2 = sym_param(1), which = sym_param(2);
  hilbert_space<int> hs = which == 0 ? hilbert_space<int>(make_space_fermion(0), make_space_fermion(1)) : hilbert_space<int>(make_space_fermion(0), make_space_spin(0.5, 0));
  auto op = make_loperator(ham<S>(which, S(2), S(-3)), hs);
  S init[16], ini2[16]; for (int i = 0; i < BUF; ++i) { if (i < 4) init[i] = Val<S>::get(BN[i]); ini2[i] = S(long(i + 1)); }
  for (int i = 4; i < BUF; ++i) init[i] = init[i % 4];
  auto views = [&](auto&& f) { if constexpr (std::is_same<S, long>::value) with_view<S>(k1, init, 0, 4, f); else with_view2<S>(k1, init, 0, 4, f); };
  views([&](auto& in, S* ib, int ni, auto ipos) {
    with_view2<S>(k2, ini2, k2 == 7 || k2 == 8 ? 0 : 2, 4, [&](auto& out, S* ob, int no, auto opos) {
      std::vector<S> whole_in(ib, ib + ni), whole_out(ob, ob + no), rin, rout(4);
      std::vector<int> iat, oat; for (int k = 0; k < 4; ++k) { iat.push_back(ipos(k)); oat.push_back(opos(k)); rin.push_back(ib[iat[k]]); }
      op(rin, rout);
      auto const& cin = in;
      op(cin, out);
      compare(out, ob, no, rout, whole_out, oat);
      compare(in, ib, ni, rin, whole_in, iat);
      if constexpr (std::is_same<typename std::decay<decltype(cin)>::type, Vec<S>>::value || std::is_same<typename std::decay<decltype(cin)>::type, Eigen::Matrix<S, 4, 1>>::value) {
        auto r = op(cin); auto r2 = op * cin;
        bool ok = r.size() == 4 && r2.size() == 4;
        for (int k = 0; k < 4; ++k) ok = ok && r(k) == rout[k] && r2(k) == rout[k];
        sym_check(ok, "the returned vector");
      }
      // through a sector view: the same amplitudes as std::vector
      if (which == 0) if constexpr (std::is_same<S, long>::value) {
        auto H = make_loperator(c_dag<S>(0) * c<S>(1) + c_dag<S>(1) * c<S>(0), hs);
        auto vi = make_const_nfs_view(cin, hs, 1); auto vo = make_nfs_view(out, hs, 1);
        auto wi = make_const_nfs_view(rin, hs, 1); auto wo = make_nfs_view(rout, hs, 1);
        H(vi, vo); H(wi, wo);
        compare(out, ob, no, rout, whole_out, oat);
        basis_mapper m(std::vector<sv_index_type>{1, 2});
        auto mi = m.make_const_view(cin); auto mo = m.make_view(out);
        auto pi = m.make_const_view(rin); auto po = m.make_view(rout);
        H(mi, mo); H(pi, po);
        compare(out, ob, no, rout, whole_out, oat);
      }
    });
  });
}
ENTRY c28_operators_long() { operators<long>(); }
ENTRY c28_operators_double() { operators<double>(); }
ENTRY c28_operators_complex() { operators<std::complex<double>>(); }
