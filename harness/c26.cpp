// C26: unrepresentable requests are rejected with the documented exception; valid requests never raise.
#include "sectors.h"
#include <libcommute/loperator/es_constructor.hpp>
#include <libcommute/loperator/space_partition.hpp>
#include <libcommute/loperator/mapped_basis_view.hpp>
enum { OK = 0, EXISTS, NOT_FOUND, TOO_BIG, UNKNOWN, ES_FAIL, RANGE, RUNTIME, OTHER };
static int thrown_bits = -1;
static bool payload = true;
typedef elementary_space<int> ES;
template <typename F> static int outcome(F&& f, ES const* want = nullptr) {
  payload = true;
  try { f(); return OK; }
  catch (HS::elementary_space_exists& e) { payload = !want || *e.elementary_space_ptr == *want; return EXISTS; }
  catch (HS::elementary_space_not_found& e) { payload = !want || *e.elementary_space_ptr == *want; return NOT_FOUND; }
  catch (HS::hilbert_space_too_big& e) { thrown_bits = e.n_bits; return TOO_BIG; }
  catch (unknown_generator<int>&) { return UNKNOWN; }
  catch (es_construction_failure<int>&) { return ES_FAIL; }
  catch (std::out_of_range&) { return RANGE; }
  catch (std::runtime_error&) { return RUNTIME; }
  catch (std::exception&) { return OTHER; }
}
static const char* KD[6] = {"kd0", "kd1", "kd2", "kd3", "kd4", "kd5"};
static const char* ID[6] = {"id0", "id1", "id2", "id3", "id4", "id5"};
// space types: 0 fermion, 1 boson 1 bit, 2 boson 20 bits, 3 boson 31 bits, 4 boson 62 bits, 5 boson 63 bits, 6 spin 1/2, 7 spin 1, 8 boson dim 3, 9 boson dim 1
static Sp make_sp(int type, int idx) {
  static const uint64_t D[10] = {2, 2, uint64_t(1) << 20, uint64_t(1) << 31, uint64_t(1) << 62, uint64_t(1) << 63, 2, 3, 3, 1};
  static const int K[10] = {0, 1, 1, 1, 1, 1, 2, 2, 1, 1};
  Sp s{K[type], D[type], idx, 0, 0}; s.w = width_of(s.dim); return s;
}
static std::unique_ptr<ES> space(Sp const& s) { SpaceSet S; S.s.push_back(s); return S.make(0); }
static bool same_key(Sp const& a, Sp const& b) { return a.kind == b.kind && (a.kind != 2 || a.dim == b.dim) && sym_branch(a.idx == b.idx); }
static void same_hs(HS const& a, HS const& b, const char* label) {
  bool ok = a == b && a.size() == b.size() && a.dim() == b.dim() && a.total_n_bits() == b.total_n_bits() && a.is_sparse() == b.is_sparse();
  for (int alg : {fermion, boson, spin}) {
    ok = ok && a.has_algebra(alg) == b.has_algebra(alg);
    if (a.has_algebra(alg) && b.has_algebra(alg)) ok = ok && a.algebra_bit_range(alg) == b.algebra_bit_range(alg);
  }
  sym_check(ok, label);
}
static Sp pick_sp(int k, int ntypes, int nidx) { int ty = (int)sym_pick_range(KD[k], 0, ntypes - 1); return make_sp(ty, (int)sym_range(ID[k], 0, nidx - 1)); }
static const int TY[3][6] = {{0, 1, 2, 4, 6, 7}, {0, 3, 5, 6, 8, 9}, {0, 3, 4, 5, 7, 2}};
ENTRY c26_add() {
  int n = sym_param(0), set = sym_param(1), nidx = sym_param(2);
  std::vector<Sp> in; int bits = 0; uint64_t dim = 1;
  HS hs; bool dup_any = false; int bits_all = 0;
  std::vector<Sp> all;
  for (int k = 0; k < n; ++k) {
    Sp s = make_sp(TY[set][sym_pick_range(KD[k], 0, 5)], (int)sym_range(ID[k], 0, nidx - 1));
    all.push_back(s); bits_all += s.w;
    bool dup = false; for (auto& x : in) dup = dup || same_key(x, s);
    dup_any = dup_any || dup;
    HS before(hs);
    auto es = space(s);
    int want = dup ? EXISTS : bits + s.w > 63 ? TOO_BIG : OK;
    int got = outcome([&] { hs.add(*es); }, es.get());
    sym_check(got == want, "adding a space");
    sym_check(payload, "the exception names the space");
    if (want == OK) { in.push_back(s); bits += s.w; dim *= s.dim; }
    else { same_hs(hs, before, "a rejected space leaves the Hilbert space unchanged"); if (want == TOO_BIG) sym_check(thrown_bits == bits + s.w, "the exception reports the number of bits"); }
    sym_check(hs.size() == in.size() && hs.dim() == dim && hs.total_n_bits() == bits, "size, dimension and width after each step");
    sym_check(hs.has(*es) == (dup || want == OK), "presence after each step");
  }
  for (auto& s : in) {
    auto es = space(s); int w = -1;
    sym_check(outcome([&] { auto r = hs.bit_range(*es); w = r.second - r.first + 1; }) == OK && w == s.w, "present spaces keep their bit ranges");
  }
  // the other constructors
  std::vector<std::unique_ptr<ES>> own; std::vector<ES*> ptr;
  for (auto& s : all) { own.push_back(space(s)); ptr.push_back(own.back().get()); }
  bool dupl = false; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) dupl = dupl || same_key(all[i], all[j]);
  int got = outcome([&] { HS h2(ptr); same_hs(h2, hs, "construction from pointers equals a sequence of additions"); });
  if (dupl && bits_all > 63) sym_check(got == EXISTS || got == TOO_BIG, "constructor from pointers: rejection");
  else sym_check(got == (dupl ? EXISTS : bits_all > 63 ? TOO_BIG : OK), "constructor from pointers");
  if (n == 2) {
    int g2 = outcome([&] { HS h2(*own[0], *own[1]); same_hs(h2, hs, "construction from spaces equals a sequence of additions"); });
    int w0 = all[0].w > 63 ? TOO_BIG : dupl ? EXISTS : bits_all > 63 ? TOO_BIG : OK;
    sym_check(g2 == w0, "constructor from spaces");
  }
  sym_cover("end");
}
ENTRY c26_absent() {
  int n = sym_param(0);
  HS hs; std::vector<Sp> in;
  static const int T2[5] = {0, 8, 6, 7, 9};
  for (int k = 0; k < n; ++k) {
    Sp s = make_sp(T2[sym_pick_range(KD[k], 0, 4)], (int)sym_bits(ID[k], 32));
    bool dup = false; for (auto& x : in) dup = dup || same_key(x, s);
    if (dup) return;
    hs.add(*space(s)); in.push_back(s);
  }
  Sp q = make_sp(T2[sym_pick_range("kq", 0, 4)], (int)sym_bits("iq", 32));
  int pos = -1; for (int i = 0; i < (int)in.size(); ++i) if (same_key(in[i], q)) pos = i;
  auto es = space(q);
  int want = pos >= 0 ? OK : NOT_FOUND; uint64_t d = 0; int w = 0, ix = -1;
  sym_check(hs.has(*es) == (pos >= 0), "has()");
  sym_check(outcome([&] { d = hs.dim(*es); }, es.get()) == want && payload, "dim() of an absent space");
  sym_check(outcome([&] { auto r = hs.bit_range(*es); w = r.second - r.first + 1; }, es.get()) == want && payload, "bit_range() of an absent space");
  sym_check(outcome([&] { ix = hs.index(*es); }, es.get()) == want && payload, "index() of an absent space");
  sym_check(outcome([&] { hs.basis_state_index(*es, 0); }, es.get()) == want && payload, "basis_state_index() of an absent space");
  if (pos >= 0) sym_check(d == in[pos].dim && w == in[pos].w && ix >= 0 && ix < n, "a present space");
  int alg = (int)sym_range("alg", 0, 70000) - 1000;
  bool has = false; for (auto& x : in) has = has || sym_branch(alg == (x.kind == 0 ? fermion : x.kind == 1 ? boson : spin));
  sym_check(hs.has_algebra(alg) == has, "has_algebra()");
  sym_check(outcome([&] { hs.algebra_bit_range(alg); }) == (has ? OK : RUNTIME), "bit range of an absent algebra");
}
// operators whose generators have no space
static const char* GK[4] = {"gk0", "gk1", "gk2", "gk3"};
static const char* GI[4] = {"gi0", "gi1", "gi2", "gi3"};
static const char* MS[3] = {"ms0", "ms1", "ms2"};
static std::vector<Sp> gen_spaces(int bdim) { // 0/1 fermions, 2/3 bosons, 4/5 spin 1/2, 6/7 spin 1
  std::vector<Sp> v;
  for (int i = 0; i < 8; ++i) v.push_back(Sp{i < 2 ? 0 : i < 4 ? 1 : 2, i < 2 ? uint64_t(2) : i < 4 ? (uint64_t)bdim : i < 6 ? uint64_t(2) : uint64_t(3), i & 1, 0, 0});
  return v;
}
static int space_of(Gen const& g) { int i = (int)sym_pick((uint64_t)g.idx); return (g.alg == FERM ? 0 : g.alg == BOS ? 2 : g.mult == 2 ? 4 : 6) + i; }
template <typename LOp, typename... A> static void build_check(expression<double, int> const& e, HS const& hs, bool bad, const char* label, A...) {
  int got = outcome([&] {
    LOp op(e, hs);
    if (!bad) { SymVec<double> v = ket<double>(0, 1.0), w; op(v, w); }
  });
  sym_check(got == (bad ? UNKNOWN : OK), label);
}
ENTRY c26_generators() {
  int n = sym_param(0), nmiss = sym_param(1), bdim = sym_param(2), sums = sym_param(3);
  auto sp = gen_spaces(bdim);
  unsigned mask = 255;
  for (int i = 0; i < nmiss; ++i) mask &= ~(1u << sym_pick_range(MS[i], 0, 7));
  HS hs; for (int i = 0; i < 8; ++i) if (mask >> i & 1) hs.add(*space(sp[i]));
  expression<double, int> e(1.0);
  for (int k = 0; k < n; ++k) {
    Gen g = make_gen((int)sym_pick_range(GK[k], 0, 9), (int)sym_pick_range(GI[k], 0, 1));
    if (sums) e += gen_expr<double>(g) * (k + 1.0); else e *= gen_expr<double>(g);
  }
  bool miss = false, f = false, b = false, s = false;
  for (auto const& m : e.get_monomials()) for (auto const& g : m.first) {
    Gen r = read_gen(g);
    miss = miss || !(mask >> space_of(r) & 1);
    f = f || r.alg == FERM; b = b || r.alg == BOS; s = s || r.alg == SPIN;
  }
  if (miss) sym_cover("missing"); else sym_cover("present");
  build_check<loperator<double, fermion, boson, spin>>(e, hs, miss, "operator with all algebras");
  build_check<loperator<double, fermion, boson>>(e, hs, miss || s, "operator without spins");
  build_check<loperator<double, boson, spin>>(e, hs, miss || f, "operator without fermions");
  build_check<loperator<double, fermion, spin>>(e, hs, miss || b, "operator without bosons");
  build_check<loperator<double, fermion>>(e, hs, miss || b || s, "fermionic operator");
  build_check<loperator<double, boson>>(e, hs, miss || f || s, "bosonic operator");
  build_check<loperator<double, spin>>(e, hs, miss || f || b, "spin operator");
  build_check<loperator<double>>(e, hs, f || b || s, "constant operator");
  int got = outcome([&] { make_loperator(e, hs); });
  sym_check(got == (miss ? UNKNOWN : OK), "make_loperator");
  got = outcome([&] { parametric_loperator<double, fermion, boson, spin> p(e, hs); });
  sym_check(got == (miss ? UNKNOWN : OK), "parametric operator");
  if (miss) {
    try { make_loperator(e, hs); } catch (unknown_generator<int>& x) {
      sym_check(x.generator_ptr != nullptr, "the exception names a generator");
      if (x.generator_ptr) sym_check(!(mask >> space_of(read_gen(*x.generator_ptr)) & 1), "the exception names a generator without a space");
    } catch (...) {}
  }
}
// generators without a constructible space
template <typename C> static void make_check(expression<double, int> const& e, C&& c, bool bad, const char* label) {
  int g1 = outcome([&] { make_hilbert_space(e, c); });
  sym_check(g1 == (bad ? ES_FAIL : OK), label);
  int g2 = outcome([&] { HS h(e, c); });
  sym_check(g2 == (bad ? ES_FAIL : OK), label);
}
ENTRY c26_constructors() {
  int n = sym_param(0), sums = sym_param(1);
  expression<double, int> e(1.0);
  for (int k = 0; k < n; ++k) {
    Gen g = make_gen((int)sym_pick_range(GK[k], 0, 9), (int)sym_range(GI[k], 0, 3));
    if (sums) e += gen_expr<double>(g) * (k + 1.0); else e *= gen_expr<double>(g);
  }
  bool f = false, b = false, s = false;
  for (auto const& m : e.get_monomials()) for (auto const& g : m.first) { Gen r = read_gen(g); f = f || r.alg == FERM; b = b || r.alg == BOS; s = s || r.alg == SPIN; }
  int g1 = outcome([&] { make_hilbert_space(e); }); sym_check(g1 == (b ? ES_FAIL : OK), "default constructor");
  int g2 = outcome([&] { HS h(e); }); sym_check(g2 == (b ? ES_FAIL : OK), "default constructor");
  make_check(e, boson_es_constructor(5), false, "constructor for all algebras");
  make_check(e, es_constructor<fermion, boson>(5), s, "constructor without spins");
  make_check(e, es_constructor<boson, spin>(5), f, "constructor without fermions");
  make_check(e, es_constructor<fermion>(), b || s, "fermion constructor");
  make_check(e, es_constructor<boson>(5), f || s, "boson constructor");
  make_check(e, es_constructor<spin>(), f || b, "spin constructor");
}
// Hilbert spaces of expressions with more than 63 bits
ENTRY c26_expr_big() {
  int nb = (int)sym_pick_range("w", 1, 63), nm = sym_param(0);
  expression<double, int> e;
  for (int i = 0; i < nm; ++i) e += static_indices::a<double>(i) + static_indices::c<double>(i);
  int bits = nm * (nb + 1);
  int got = outcome([&] { auto h = make_hilbert_space(e, boson_es_constructor(uint64_t(1) << nb)); sym_check(h.total_n_bits() == bits && h.dim() == uint64_t(1) << bits, "dimension of an admissible space"); });
  sym_check(got == (bits > 63 ? TOO_BIG : OK), "Hilbert space of an expression");
  if (got == TOO_BIG) sym_check(thrown_bits == bits, "the exception reports the number of bits");
}
// sectors
typedef sector_descriptor<HS> SD;
ENTRY c26_sector() {
  int M = sym_param(0), nb = sym_param(1), sparse = sym_param(2);
  HS hs = make_hs(M, nb);
  if (sparse) hs.add(make_space_boson(3, 77));
  unsigned N = (unsigned)sym_pick_range("N", 0, M + 3);
  if (N == (unsigned)M + 3) N = ~0u;
  bool empty = M + nb + sparse == 0;
  uint64_t size = empty ? 0 : binom(M, (int)(N > 100 ? -1 : (int)N)) << nb;
  uint64_t r = 0;
  int got = outcome([&] { r = n_fermion_sector_size(hs, N); });
  sym_check(got == (sparse ? RUNTIME : OK), "sector size");
  if (got == OK) sym_check(r == size, "size of a sector");
  bool bad = sparse || N > (unsigned)M;
  got = outcome([&] { auto v = n_fermion_sector_basis_states(hs, N); sym_check(v.size() == size, "basis of an existing sector"); });
  sym_check(got == (bad ? RUNTIME : OK), "basis states of a sector");
  std::vector<double> st(64);
  got = outcome([&] { auto v = make_nfs_view(st, hs, N); (void)v; });
  sym_check(got == (bad ? RUNTIME : OK), "sector view");
  got = outcome([&] { auto v = make_const_nfs_view(st, hs, N); (void)v; });
  sym_check(got == (bad ? RUNTIME : OK), "constant sector view");
  int alg = sym_param(3);
  with_alg(alg, [&](auto* p) {
    using R = typename std::remove_pointer<decltype(p)>::type;
    int g = outcome([&] { n_fermion_sector_view<std::vector<double>, true, R> v(st, hs, N); });
    sym_check(g == (bad ? RUNTIME : OK), "sector view with other ranking algorithms");
  });
}
static const char* NN[3] = {"N0", "N1", "N2"};
ENTRY c26_multisector() {
  int M = sym_param(0), nb = sym_param(1), sparse = sym_param(2), ns = sym_param(3);
  HS hs = make_hs(M, nb);
  if (sparse) hs.add(make_space_boson(3, 77));
  std::vector<SD> sd; unsigned seen = 0; bool unknown = false, overlap = false, toomany = false; uint64_t size = 1; int Mt = 0;
  for (int s = 0; s < ns; ++s) {
    unsigned mk = (unsigned)sym_pick_range(MS[s], 0, (1u << (M + 1)) - 1), N = (unsigned)sym_pick_range(NN[s], 0, 3);
    SD d; d.N = N;
    for (int i = 0; i <= M; ++i) if (mk >> i & 1) d.indices.insert(std::make_tuple(i));
    unknown = unknown || (mk >> M & 1); overlap = overlap || (seen & mk); seen |= mk;
    toomany = toomany || N > (unsigned)popc(mk);
    size *= binom(popc(mk), N); Mt += popc(mk);
    sd.push_back(d);
  }
  bool bad = unknown || overlap || sparse;
  uint64_t r = 0; if (!bad) { size <<= (M + nb - Mt); if (M + nb == 0) size = 0; }
  int got = outcome([&] { r = n_fermion_multisector_size(hs, sd); });
  sym_check(got == (bad ? RUNTIME : OK), "multisector size");
  if (got == OK) sym_check(r == (toomany ? 0 : size), "size of a multisector");
  bool badv = bad || toomany;
  got = outcome([&] { auto v = n_fermion_multisector_basis_states(hs, sd); sym_check(v.size() == size, "basis of an existing multisector"); });
  sym_check(got == (badv ? RUNTIME : OK), "basis states of a multisector");
  std::vector<double> st(64);
  got = outcome([&] { auto v = make_nfms_view(st, hs, sd); (void)v; });
  sym_check(got == (badv ? RUNTIME : OK), "multisector view");
  got = outcome([&] { auto v = make_const_nfms_view(st, hs, sd); (void)v; });
  sym_check(got == (badv ? RUNTIME : OK), "constant multisector view");
  if (badv) sym_cover("rejected"); else sym_cover("accepted");
}
// numbers that are not representable by the scalar type
ENTRY c26_scalars() {
  long i = (long)sym_range("i", 0, 8) - 4, den = (long)sym_pick_range("den", 1, 8);
  double x = (double)(long)sym_pick((uint64_t)i) / den;
  bool integral = (double)(long)x == x;
  long r = 0; int ri = 0;
  int got = outcome([&] { r = scalar_traits<long>::make_const(x); });
  sym_check(got == (integral ? OK : RUNTIME), "integral constant from a real number");
  if (got == OK) sym_check((double)r == x, "value of an integral constant");
  got = outcome([&] { ri = scalar_traits<int>::make_const(x); });
  sym_check(got == (integral ? OK : RUNTIME), "int constant from a real number");
  if (got == OK) sym_check((double)ri == x, "value of an int constant");
  int v = (int)sym_range("v", 0, 200) - 100;
  got = outcome([&] { r = scalar_traits<long>::make_const(var_number(v)); });
  sym_check(got == OK && r == v, "integral constant from an integer");
  got = outcome([&] { r = scalar_traits<long>::make_const(var_number(1, 2)); });
  sym_check(got == RUNTIME, "integral constant from a fraction");
  got = outcome([&] { r = scalar_traits<long>::make_const(var_number(x + 0.5)); });
  if (!(integral)) sym_check(got == RUNTIME || (double)r == x + 0.5, "integral constant from a real variant");
}
// numbers at and beyond the ends of the range of an integral type: +-2^e + d, infinities and NaN
template <typename S> static void range_of() {
  int e = (int)sym_pick_range("e", 0, 70), d = (int)sym_pick_range("d", 0, 2) - 1;
  bool neg = sym_pick_range("neg", 0, 1);
  double x = 1; for (int k = 0; k < e; ++k) x *= 2;
  x = (neg ? -x : x) + d; // rounded where it is not representable
  constexpr int digits = std::numeric_limits<S>::digits;
  double bound = 1; for (int k = 0; k < digits; ++k) bound *= 2;
  bool fits = x < bound && x >= -bound;
  S r{};
  int got = outcome([&] { r = scalar_traits<S>::make_const(x); });
  sym_check(got == (fits ? OK : RUNTIME), "numbers beyond the range of an integral scalar type are rejected");
  if (got == OK) { sym_check((double)r == x, "value of a constant near the end of the range"); sym_cover("inside"); } else sym_cover("outside");
}
ENTRY c26_range() {
  switch (sym_param(0)) {
    case 0: range_of<int>(); break;
    case 1: range_of<long>(); break;
    case 2: range_of<short>(); break;
    default: {
      double inf = std::numeric_limits<double>::infinity(), bad[3] = {inf, -inf, std::numeric_limits<double>::quiet_NaN()};
      double x = bad[sym_pick_range("which", 0, 2)];
      int got = outcome([&] { scalar_traits<int>::make_const(x); });
      sym_check(got == RUNTIME, "infinities and NaN are no integers");
      got = outcome([&] { scalar_traits<long>::make_const(x); });
      sym_check(got == RUNTIME, "infinities and NaN are no integers");
      sym_cover("outside");
    }
  }
}
// products whose result has fractional coefficients
ENTRY c26_fractions() {
  int k0 = (int)sym_pick_range("k0", 0, 2), k1 = (int)sym_pick_range("k1", 0, 2), i = (int)sym_bits("i", 32), j = (int)sym_bits("j", 32);
  int kind = sym_param(0);
  expression<long, int> x = gen_expr<long>(make_gen(kind + k0, i)), y = gen_expr<long>(make_gen(kind + k1, j));
  bool same = sym_branch(i == j);
  // spin 1/2, one site: S+S-, S-S+, SzSz have halves or quarters; S+Sz etc. are +-S+/2; S+S+ = 0
  bool frac = kind == 4 && same && !(k0 == k1 && k0 != 2);
  expression<long, int> p;
  int got = outcome([&] { p = x * y; });
  sym_check(got == (frac ? RUNTIME : OK), "product with fractional coefficients");
  expression<long, int> z = x;
  got = outcome([&] { z *= y; });
  sym_check(got == (frac ? RUNTIME : OK), "in-place product with fractional coefficients");
  if (!frac) sym_check(z == p, "results of admissible products");
}
ENTRY c26_lookup() {
  int bd = sym_param(0);
  HS hs(make_space_fermion(0), make_space_fermion(1), make_space_boson(bd, 0));
  SpaceSet S; S.s = {Sp{0, 2, 0, 0, 0}, Sp{0, 2, 1, 0, 0}, Sp{1, (uint64_t)bd, 0, 0, 0}}; S.layout();
  auto H = c_dag<double>(0) * c<double>(1) + c_dag<double>(1) * c<double>(0) + n<double>(0);
  auto Hop = make_loperator(H, hs);
  space_partition<HS> sp(Hop, hs);
  uint64_t st = sym_pick_range("st", 0, (uint64_t(1) << S.bits) - 1);
  sv_index_type b = 0;
  int got = outcome([&] { b = sp[st]; });
  sym_check(got == (S.valid(st) ? OK : RANGE), "subspace of a basis state");
  if (got == OK) sym_check(b < sp.n_subspaces(), "subspace index");
  uint64_t ix = sym_pick_range("ix", 0, 3 * bd + 2);
  got = outcome([&] { sp.subspace_basis(ix); });
  sym_check(got == (ix < sp.n_subspaces() ? OK : RUNTIME), "basis of a subspace");
  std::vector<sv_index_type> lst; uint64_t msk = sym_pick_range("sel", 0, 15);
  for (int i = 0; i < 4; ++i) if (msk >> i & 1) lst.push_back(3 * i + 1);
  basis_mapper m(lst);
  std::vector<double> v(4, 1.0);
  auto view = m.make_view(v); auto cview = m.make_const_view(v);
  bool in = false; for (auto x : lst) in = in || x == st;
  got = outcome([&] { get_element(view, st); }); sym_check(got == (in ? OK : RANGE), "element of a mapped view");
  got = outcome([&] { get_element(cview, st); }); sym_check(got == (in ? OK : RANGE), "element of a constant mapped view");
  got = outcome([&] { update_add_element(view, st, 1.0); }); sym_check(got == (in ? OK : RANGE), "update of a mapped view");
}
