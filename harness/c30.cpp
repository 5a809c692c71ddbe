// C30: factories return the operators they name.
#include "oracle.h"
#include <libcommute/expression/factories_dyn.hpp>
namespace st = libcommute::static_indices;
namespace dyn = libcommute::dynamic_indices;
typedef std::complex<double> C;
// index lists: values kept apart from the arguments given to the factory
struct IxA { int i; template <typename F> auto st_(F&& f) const { return f(i); } bool is(std::tuple<int> const& t) const { return std::get<0>(t) == i; } };
struct IxB { int i; std::string s; template <typename F> auto st_(F&& f) const { return f(s, i); } bool is(std::tuple<std::string, int> const& t) const { return std::get<0>(t) == s && std::get<1>(t) == i; } };
struct IxC { int i; template <typename F> auto st_(F&& f) const { return f("up", i, std::string("a longer string index")); } bool is(std::tuple<std::string, int, std::string> const& t) const { return std::get<0>(t) == "up" && std::get<1>(t) == i && std::get<2>(t) == "a longer string index"; } };
struct IxD { template <typename F> auto st_(F&& f) const { return f(); } bool is(std::tuple<> const&) const { return true; } };
static bool dyn_is(dyn::dyn_indices const& d, std::vector<std::variant<int, std::string>> const& v) { return static_cast<dyn::dyn_indices::indices_t const&>(d) == v; }
struct DyA { int i; template <typename F> auto st_(F&& f) const { return f(i); } bool is(std::tuple<dyn::dyn_indices> const& t) const { return dyn_is(std::get<0>(t), {i}); } };
struct DyB { int i; std::string s; template <typename F> auto st_(F&& f) const { return f(std::string(s), i, "xy"); } bool is(std::tuple<dyn::dyn_indices> const& t) const { return dyn_is(std::get<0>(t), {s, i, std::string("xy")}); } };
struct DyC { template <typename F> auto st_(F&& f) const { return f(); } bool is(std::tuple<dyn::dyn_indices> const& t) const { return dyn_is(std::get<0>(t), {}); } };
template <typename... I> static bool is_gen(generator<I...> const& g, int alg, int mult, int what) {
  if (alg == FERM) { auto p = dynamic_cast<generator_fermion<I...> const*>(&g); return g.algebra_id() == fermion && p && p->dagger() == (what != 0); }
  if (alg == BOS) { auto p = dynamic_cast<generator_boson<I...> const*>(&g); return g.algebra_id() == boson && p && p->dagger() == (what != 0); }
  auto p = dynamic_cast<generator_spin<I...> const*>(&g);
  return g.algebra_id() == spin && p && p->multiplicity() == mult && p->spin() == (mult - 1) * 0.5 && (int)p->component() == what;
}
template <typename E, typename X> static void one(E const& e, X const& ix, int alg, int mult, int what, const char* label) {
  bool ok = e.size() == 1;
  for (auto const& p : e.get_monomials()) ok = ok && p.second == typename E::scalar_type(1) && p.first.size() == 1 && is_gen(p.first[0], alg, mult, what) && ix.is(p.first[0].indices());
  sym_check(ok, label);
}
template <typename S, typename X, typename F> static void basic(X const& ix, F const& f) {
  auto cd = f.template cd<S>(ix), c = f.template c<S>(ix), n = f.template n<S>(ix), ad = f.template ad<S>(ix), a = f.template a<S>(ix);
  one(cd, ix, FERM, 0, 1, "c_dag"); one(c, ix, FERM, 0, 0, "c"); one(ad, ix, BOS, 0, 1, "a_dag"); one(a, ix, BOS, 0, 0, "a");
  sym_check(n == cd * c && n.size() == 1, "n = c_dag * c");
  sym_check(conj(cd) == c && conj(ad) == a && conj(n) == n, "conjugate pairs");
  using E = decltype(c);
  sym_check(c * cd + cd * c == E(S(1)) && a * ad - ad * a == E(S(1)) && (c * c).size() == 0 && n * n == n, "canonical relations");
  auto sp = f.template sp<S>(ix), sm = f.template sm<S>(ix), sz = f.template sz<S>(ix);
  one(sp, ix, SPIN, 2, 0, "S_p"); one(sm, ix, SPIN, 2, 1, "S_m"); one(sz, ix, SPIN, 2, 2, "S_z");
  sym_check(conj(sp) == sm && conj(sz) == sz, "conjugate spin operators");
}
template <int M, typename S, typename X, typename F> static void higher(X const& ix, F const& f) {
  auto sp = f.template spM<M, S>(ix), sm = f.template smM<M, S>(ix), sz = f.template szM<M, S>(ix);
  one(sp, ix, SPIN, M, 0, "S_p of a given spin"); one(sm, ix, SPIN, M, 1, "S_m of a given spin"); one(sz, ix, SPIN, M, 2, "S_z of a given spin");
  sym_check(conj(sp) == sm && conj(sz) == sz, "conjugate spin operators");
  if constexpr (!std::is_integral<S>::value || M > 2) {
    sym_check(sp * sm - sm * sp == S(2) * sz && sz * sp - sp * sz == sp && sz * sm - sm * sz == S(-1) * sm, "spin commutation relations");
    sym_check(M == 2 ? sp == f.template sp<S>(ix) && sm == f.template sm<S>(ix) && sz == f.template sz<S>(ix) : !(sp == f.template sp<S>(ix)), "the default spin is 1/2");
  }
}
template <int M, typename X, typename F> static void xy(X const& ix, F const& f) {
  auto sp = f.template spM<M, C>(ix), sm = f.template smM<M, C>(ix), sz = f.template szM<M, C>(ix);
  auto sx = f.template sxM<M>(ix), sy = f.template syM<M>(ix);
  sym_check(sx == C(0.5) * sp + C(0.5) * sm && sx.size() == 2, "S_x = (S_p + S_m) / 2");
  sym_check(sy == C(0, -0.5) * sp + C(0, 0.5) * sm && sy.size() == 2, "S_y = (S_p - S_m) / 2i");
  sym_check(conj(sx) == sx && conj(sy) == sy, "S_x and S_y are Hermitian");
  sym_check(sp == sx + C(0, 1) * sy && sm == sx - C(0, 1) * sy, "S_p = S_x + i S_y");
  sym_check(sx * sy - sy * sx == C(0, 1) * sz && sy * sz - sz * sy == C(0, 1) * sx && sz * sx - sx * sz == C(0, 1) * sy, "spin commutation relations of S_x, S_y, S_z");
  if (M == 2) {
    auto tx = f.sx(ix), ty = f.sy(ix);
    sym_check(tx == sx && ty == sy, "the default spin is 1/2");
    using E = decltype(sx);
    sym_check(sx * sx == E(C(0.25)) && sy * sy == E(C(0.25)) && sz * sz == E(C(0.25)), "spin-1/2 operators square to 1/4");
  }
}
#define FACT(NS) \
  template <typename S, typename X> auto cd(X const& x) const { return x.st_([](auto&&... i) { return NS::c_dag<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto c(X const& x) const { return x.st_([](auto&&... i) { return NS::c<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto n(X const& x) const { return x.st_([](auto&&... i) { return NS::n<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto ad(X const& x) const { return x.st_([](auto&&... i) { return NS::a_dag<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto a(X const& x) const { return x.st_([](auto&&... i) { return NS::a<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto sp(X const& x) const { return x.st_([](auto&&... i) { return NS::S_p<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto sm(X const& x) const { return x.st_([](auto&&... i) { return NS::S_m<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename S, typename X> auto sz(X const& x) const { return x.st_([](auto&&... i) { return NS::S_z<S>(std::forward<decltype(i)>(i)...); }); } \
  template <typename X> auto sx(X const& x) const { return x.st_([](auto&&... i) { return NS::S_x(std::forward<decltype(i)>(i)...); }); } \
  template <typename X> auto sy(X const& x) const { return x.st_([](auto&&... i) { return NS::S_y(std::forward<decltype(i)>(i)...); }); } \
  template <int M, typename S, typename X> auto spM(X const& x) const { return x.st_([](auto&&... i) { return NS::S_p<M, S>(std::forward<decltype(i)>(i)...); }); } \
  template <int M, typename S, typename X> auto smM(X const& x) const { return x.st_([](auto&&... i) { return NS::S_m<M, S>(std::forward<decltype(i)>(i)...); }); } \
  template <int M, typename S, typename X> auto szM(X const& x) const { return x.st_([](auto&&... i) { return NS::S_z<M, S>(std::forward<decltype(i)>(i)...); }); } \
  template <int M, typename X> auto sxM(X const& x) const { return x.st_([](auto&&... i) { return NS::S_x<M>(std::forward<decltype(i)>(i)...); }); } \
  template <int M, typename X> auto syM(X const& x) const { return x.st_([](auto&&... i) { return NS::S_y<M>(std::forward<decltype(i)>(i)...); }); }
struct FS { FACT(st) };
struct FD { FACT(dyn) };
template <typename X, typename F> static void all(X const& ix, F const& f) {
  switch (sym_pick_range("part", 0, 8)) {
    case 0: basic<double>(ix, f); break;
    case 1: basic<C>(ix, f); break;
    case 2: basic<long>(ix, f); break;
    case 3: higher<2, double>(ix, f); higher<2, C>(ix, f); break;
    case 4: higher<3, double>(ix, f); higher<3, long>(ix, f); xy<3>(ix, f); break;
    case 5: higher<4, double>(ix, f); higher<4, C>(ix, f); xy<4>(ix, f); break;
    case 6: higher<5, double>(ix, f); xy<5>(ix, f); break;
    case 7: higher<8, long>(ix, f); xy<8>(ix, f); break;
    case 8: xy<2>(ix, f); break;
  }
}
static std::string sym_str() { std::string s; for (int k = 0, n = (int)sym_pick_range("len", 0, 2); k < n; ++k) s.push_back((char)sym_range(k ? "ch1" : "ch0", 1, 255)); return s; }
ENTRY c30_static() {
  int i = (int)sym_bits("i", 32);
  switch (sym_param(0)) {
    case 0: all(IxA{i}, FS()); break;
    case 1: all(IxB{i, sym_str()}, FS()); break;
    case 2: all(IxC{i}, FS()); break;
    case 3: all(IxD{}, FS()); break;
  }
}
ENTRY c30_dynamic() {
  int i = (int)sym_bits("i", 32);
  switch (sym_param(0)) {
    case 0: all(DyA{i}, FD()); break;
    case 1: all(DyB{i, sym_str()}, FD()); break;
    case 2: all(DyC{}, FD()); break;
  }
}
// the operators act as their matrices on every basis state (scaled integer representation)
ENTRY c30_matrices() {
  int kind = (int)sym_pick_range("kind", 0, 12), i = (int)sym_bits("i", 32);
  Gen g = make_gen(kind, i); Sites S; S.add(g);
  using namespace static_indices;
  expression<double, int> e;
  switch (kind) {
    case 0: e = c_dag(i); break; case 1: e = c(i); break; case 2: e = a_dag(i); break; case 3: e = a(i); break;
    case 4: e = S_p(i); break; case 5: e = S_m(i); break; case 6: e = S_z(i); break;
    case 7: e = S_p<3>(i); break; case 8: e = S_m<3>(i); break; case 9: e = S_z<3>(i); break;
    case 10: e = S_p<4>(i); break; case 11: e = S_m<4>(i); break; default: e = S_z<4>(i); break;
  }
  Amp A, B; expr_amp(S, e, 1, A); word_amp(S, &g, 1, g.alg == SPIN ? 1 : 2, B);
  check_same(A, B, "matrix elements of a factory");
  if (kind == 0) { Gen w[2] = {make_gen(0, i), make_gen(1, i)}; Amp N, M; expr_amp(S, n(i), 0, N); word_amp(S, w, 2, 1, M); check_same(N, M, "matrix elements of n"); }
}
// complex expressions made of real ones
ENTRY c30_make_complex() {
  int n = sym_param(0); expression<double, int> e; expression<double, dyn::dyn_indices> d;
  for (int k = 0; k < n; ++k) {
    Gen g = make_gen((int)sym_pick_range(KN[k], 0, 9), (int)sym_bits(IX[k], 32));
    e += gen_expr<double>(g) * (k + 0.5);
    d += dyn::c<double>(g.idx) * dyn::a_dag<double>(g.idx, "s") * (k + 0.5);
  }
  auto z = st::make_complex(e); auto y = dyn::make_complex(d);
  static_assert(std::is_same<decltype(z), expression<C, int>>::value, "type");
  bool ok = z.size() == e.size() && y.size() == d.size();
  auto i1 = e.get_monomials().begin();
  if (ok) for (auto const& p : z.get_monomials()) { ok = ok && p.first == i1->first && p.second == C(i1->second); ++i1; }
  auto i2 = d.get_monomials().begin();
  if (ok) for (auto const& p : y.get_monomials()) { ok = ok && p.first == i2->first && p.second == C(i2->second); ++i2; }
  sym_check(ok, "a complex expression with the same terms");
}
