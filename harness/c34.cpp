// C34: user-defined algebras take part in Hilbert spaces, operators and views beside the built-in ones.
#include "lop.h"
#include <libcommute/loperator/es_constructor.hpp>
#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/n_fermion_sector_view.hpp>
#include <libcommute/loperator/space_partition.hpp>
using namespace static_indices;
typedef expression<long, int> EL;
typedef hilbert_space<int> HS;
namespace libcommute { static constexpr int cyc = min_user_defined_algebra_id, lad = min_user_defined_algebra_id + 3; }
static bool cyc_alone = false; // a constructor used on its own rejects foreign generators itself
static bool cyc_last = false; // the last algebra of a list is given all remaining generators, and rejects foreign ones itself
// generators of commuting algebras: cyclic shift of a three-state site, raising operator of a finite ladder
template <int ID, typename... I> struct gen_u : generator<I...> {
  using base = generator<I...>;
  template <typename... A> explicit gen_u(A&&... i) : base(std::forward<A>(i)...) {}
  int algebra_id() const override { return ID; }
  using linear_function_t = typename base::linear_function_t;
  var_number swap_with(base const&, linear_function_t& f) const override { f.set(0); return 1; }
};
template <typename... I> struct es_cyc : elementary_space<I...> {
  using base = elementary_space<I...>;
  template <typename... A> explicit es_cyc(A&&... i) : base(std::forward<A>(i)...) {}
  std::unique_ptr<base> clone() const override { return make_unique<es_cyc>(*this); }
  int algebra_id() const override { return libcommute::cyc; }
  sv_index_type dim() const override { return 3; }
  int n_bits() const override { return 2; }
};
template <typename... I> struct es_lad : elementary_space<I...> {
  using base = elementary_space<I...>;
  sv_index_type D; int W;
  template <typename... A> es_lad(sv_index_type D, A&&... i) : base(std::forward<A>(i)...), D(D), W(0) { while ((sv_index_type(1) << W) < D) ++W; }
  std::unique_ptr<base> clone() const override { return make_unique<es_lad>(*this); }
  int algebra_id() const override { return libcommute::lad; }
  sv_index_type dim() const override { return D; }
  int n_bits() const override { return W; }
};
namespace libcommute {
template <> class monomial_action<cyc> {
  std::vector<int> shifts_;
public:
  template <typename... I> monomial_action(detail::monomial_range_t<I...> const& r, hilbert_space<I...> const& hs) {
    for (auto it = r.first; it != r.second; ++it) {
      sym_check(it->algebra_id() == cyc || cyc_last, "an algebra followed by others in the list is given its own generators only");
      if (it->algebra_id() != cyc) throw unknown_generator<I...>(*it);
      shifts_.push_back(hs.bit_range(es_cyc<I...>(it->indices())).first);
    }
  }
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    for (int s : shifts_) { bool top = sym_branch(((index >> s) & 3) == 2); index = top ? index - (sv_index_type(2) << s) : index + (sv_index_type(1) << s); if (top) coeff = coeff * S(2); }
    return true;
  }
};
template <> class monomial_action<lad> {
  std::vector<std::pair<bit_range_t, sv_index_type>> sites_;
public:
  template <typename... I> monomial_action(detail::monomial_range_t<I...> const& r, hilbert_space<I...> const& hs) {
    for (auto it = r.first; it != r.second; ++it) {
      if (it->algebra_id() != lad) throw unknown_generator<I...>(*it);
      es_lad<I...> es(1, it->indices());
      sites_.emplace_back(hs.bit_range(es), hs.dim(es));
    }
  }
  template <typename S> bool act(sv_index_type& index, S& coeff) const {
    for (auto const& s : sites_) {
      sv_index_type n = (index >> s.first.first) & ((sv_index_type(1) << (s.first.second - s.first.first + 1)) - 1);
      if (sym_branch(n + 1 == s.second)) return false;
      index += sv_index_type(1) << s.first.first;
      coeff = coeff * S(n + 2);
    }
    return true;
  }
};
template <> class es_constructor<cyc> {
public:
  es_constructor() = default;
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    if (g.algebra_id() != cyc && cyc_alone) throw es_construction_failure<I...>(g);
    sym_check(g.algebra_id() == cyc, "the constructor of an algebra in a list is given its own generators only");
    return make_unique<es_cyc<I...>>(g.indices());
  }
};
template <> class es_constructor<lad> {
  sv_index_type D;
public:
  es_constructor() = delete;
  explicit es_constructor(sv_index_type D) : D(D) {}
  template <typename... I> std::unique_ptr<elementary_space<I...>> operator()(generator<I...> const& g) const {
    sym_check(g.algebra_id() == lad, "the constructor of an algebra in a list is given its own generators only");
    return make_unique<es_lad<I...>>(D, g.indices());
  }
};
}
template <int ID> static EL gen(int i) { return EL(1, EL::monomial_t{std::shared_ptr<const generator<int>>(std::make_shared<gen_u<ID, int>>(i))}); }
// reference layout: algebras in the order fermion, boson, spin, cyc, lad; within an algebra by index
struct Site { int alg; uint64_t dim; int idx; int lo, w; };
struct Layout {
  std::vector<Site> s; int bits = 0; uint64_t dim = 1;
  void finish() { bits = 0; dim = 1; for (auto& x : s) { x.w = 0; while ((uint64_t(1) << x.w) < x.dim) ++x.w; x.lo = bits; bits += x.w; dim *= x.dim; } }
  bool valid(uint64_t st) const { bool v = (st >> bits) == 0; for (auto& x : s) v &= ((st >> x.lo) & ((uint64_t(1) << x.w) - 1)) < x.dim; return v; }
  uint64_t rank(uint64_t st) const { uint64_t r = 0, m = 1; for (auto& x : s) { r += ((st >> x.lo) & ((uint64_t(1) << x.w) - 1)) * m; m *= x.dim; } return r; }
  uint64_t unrank(uint64_t r) const { uint64_t st = 0; for (auto& x : s) { st |= (r % x.dim) << x.lo; r /= x.dim; } return st; }
  std::unique_ptr<elementary_space<int>> make(int i) const {
    Site const& x = s[i];
    typedef std::unique_ptr<elementary_space<int>> P;
    switch (x.alg) {
      case 0: return P(new elementary_space_fermion<int>(x.idx));
      case 1: return P(new elementary_space_boson<int>(x.dim, x.idx));
      case 2: return P(new elementary_space_spin<int>((x.dim - 1) * 0.5, x.idx));
      case 3: return P(new es_cyc<int>(x.idx));
      default: return P(new es_lad<int>(x.dim, x.idx));
    }
  }
};
static const int ALG[5] = {fermion, boson, spin, libcommute::cyc, libcommute::lad};
static const char* SN[5] = {"s0", "s1", "s2", "s3", "s4"};
static const char* DN[5] = {"d0", "d1", "d2", "d3", "d4"};
static void check_layout(HS const& hs, Layout const& L) {
  sym_check(hs.size() == L.s.size() && hs.total_n_bits() == L.bits && hs.dim() == L.dim && hs.vec_size() == uint64_t(1) << L.bits && hs.is_sparse() == (L.dim != uint64_t(1) << L.bits), "size of a space with user-defined algebras");
  int lo[5] = {-1, -1, -1, -1, -1}, hi[5] = {-1, -1, -1, -1, -1};
  for (int i = 0; i < (int)L.s.size(); ++i) {
    auto es = L.make(i); Site const& x = L.s[i];
    bit_range_t r = hs.bit_range(*es);
    sym_check(hs.has(*es) && r.first == x.lo && r.second == x.lo + x.w - 1 && hs.dim(*es) == x.dim && hs.index(*es) == i, "user-defined elementary spaces occupy their own bits in canonical order");
    if (lo[x.alg] < 0) lo[x.alg] = x.lo;
    hi[x.alg] = x.lo + x.w - 1;
  }
  for (int k = 0; k < 5; ++k) {
    sym_check(hs.has_algebra(ALG[k]) == (lo[k] >= 0), "has_algebra of a user-defined algebra");
    if (lo[k] >= 0) { auto r = hs.algebra_bit_range(ALG[k]); sym_check(r.first == lo[k] && r.second == hi[k], "bit range of a user-defined algebra"); }
    else { bool t = false; try { hs.algebra_bit_range(ALG[k]); } catch (std::runtime_error&) { t = true; } sym_check(t, "bit range of an absent algebra is rejected"); }
  }
  sym_check(!hs.has_algebra(libcommute::cyc + 1) && !hs.has_algebra(libcommute::lad + 1), "algebras without spaces are absent");
}
// ---- spaces from expressions
// params: generators, list of algebras known to the constructor
template <typename ESC> static void space(ESC const& esc, bool const* known, uint64_t bd, uint64_t ld) {
  int n = sym_param(0);
  EL e;
  Layout L;
  bool foreign = false, knownalg[5] = {false, false, false, false, false};
  for (int i = 0; i < n; ++i) {
    int k = (int)sym_pick_range(KN[i], 0, 4), id = (int)sym_bits(IX[i], 32);
    for (auto& y : L.s) if (y.alg == k && sym_branch(y.idx == id)) return; // met already
    Site x{k, k == 0 ? 2 : k == 1 ? bd : k == 2 ? 3 : k == 3 ? 3 : ld, id, 0, 0};
    EL g = k == 0 ? c_dag<long>(id) : k == 1 ? a<long>(id) : k == 2 ? S_z<3, long>(id) : k == 3 ? gen<libcommute::cyc>(id) : gen<libcommute::lad>(id);
    if (i % 2) e = e * g; else e = e + g;
    foreign = foreign || !known[k];
    knownalg[k] = true;
    size_t p = 0;
    while (p < L.s.size() && (L.s[p].alg < k || (L.s[p].alg == k && sym_branch(L.s[p].idx < id)))) ++p;
    L.s.insert(L.s.begin() + p, x);
  }
  L.finish();
  bool thrown = false, names = false;
  try {
    HS hs(e, esc);
    check_layout(hs, L);
    HS in;
    for (int i = (int)L.s.size(); i-- > 0;) in.add(*L.make(i));
    check_layout(in, L);
    sym_check(in == hs && !(in != hs), "spaces built from an expression and one by one are equal");
    HS c(hs), d; d = c;
    check_layout(d, L);
    bool dup = false;
    try { in.add(*L.make((int)L.s.size() - 1)); } catch (HS::elementary_space_exists&) { dup = true; }
    sym_check(dup, "a user-defined space cannot be added twice");
    int m = 0; bool ok = true;
    d.foreach_elementary_space([&](elementary_space<int> const& es) { ok = ok && m < (int)L.s.size() && es == *L.make(m) && es.algebra_id() == ALG[L.s[m].alg] && es.dim() == L.s[m].dim; ++m; });
    sym_check(ok && m == (int)L.s.size(), "user-defined spaces are visited in canonical order");
    sym_cover(knownalg[3] && knownalg[4] ? "both user algebras" : "other");
  } catch (es_construction_failure<int>& x) {
    thrown = true;
    for (int k = 0; k < 5; ++k) if (x.generator_ptr->algebra_id() == ALG[k]) names = !known[k] && knownalg[k];
  }
  sym_check(thrown == foreign, "generators of algebras the constructor does not know are rejected");
  if (thrown) { sym_check(names, "the exception carries the offending generator"); sym_cover("rejected"); }
}
ENTRY c34_space() {
  switch (sym_param(1)) {
    case 0: { bool k[5] = {1, 1, 1, 1, 1}; space(es_constructor<fermion, boson, spin, libcommute::cyc, libcommute::lad>(6, 5), k, 6, 5); break; }
    case 1: { bool k[5] = {1, 0, 0, 1, 1}; space(es_constructor<fermion, libcommute::cyc, libcommute::lad>(7), k, 1, 7); break; }
    case 2: { bool k[5] = {0, 1, 0, 0, 1}; space(es_constructor<boson, libcommute::lad>(3, 9), k, 3, 9); break; }
    case 3: { bool k[5] = {1, 1, 1, 1, 0}; space(es_constructor<fermion, boson, spin, libcommute::cyc>(8), k, 8, 1); break; }
    case 4: { cyc_alone = true; bool k[5] = {0, 0, 0, 1, 0}; space(es_constructor<libcommute::cyc>(), k, 1, 1); break; }
    case 5: { bool k[5] = {0, 0, 1, 0, 1}; space(es_constructor<spin, libcommute::lad>(4), k, 1, 4); break; }
  }
}
// ---- operators
static Layout stage() { // 2 fermions, a boson, a spin 1, two cyclic sites, two ladders (5 and 4 states)
  Layout L;
  L.s = {{0, 2, 0, 0, 0}, {0, 2, 1, 0, 0}, {1, 3, 0, 0, 0}, {2, 3, 0, 0, 0}, {3, 3, -4, 0, 0}, {3, 3, 9, 0, 0}, {4, 5, 2, 0, 0}, {4, 4, 7, 0, 0}};
  L.finish();
  return L;
}
// factor k: 0,1 c+; 2,3 c; 4,5 cyclic; 6,7 ladder
static EL factor(int k) {
  switch (k) {
    case 0: case 1: return c_dag<long>(k);
    case 2: case 3: return libcommute::static_indices::c<long>(k - 2);
    case 4: return gen<libcommute::cyc>(-4);
    case 5: return gen<libcommute::cyc>(9);
    case 6: return gen<libcommute::lad>(2);
    default: return gen<libcommute::lad>(7);
  }
}
static bool ref_act(Layout const& L, int k, uint64_t& st, long& am) {
  if (k < 4) return jw(st, am, k & 1, k < 2);
  Site const& x = L.s[k];
  uint64_t n = (st >> x.lo) & ((uint64_t(1) << x.w) - 1);
  if (k < 6) {
    if (sym_branch(n == 2)) { st -= uint64_t(2) << x.lo; am *= 2; } else st += uint64_t(1) << x.lo;
    return true;
  }
  if (sym_branch(n + 1 == x.dim)) return false;
  st += uint64_t(1) << x.lo; am *= (long)(n + 2);
  return true;
}
template <int... A> static void operate() {
  int n = sym_param(1);
  Layout L = stage();
  HS hs;
  for (int i = (int)L.s.size(); i-- > 0;) hs.add(*L.make(i));
  bool foreign = false;
  EL e(1L);
  int w[4];
  bool fz = false; // two equal fermions in a row of the product vanish
  for (int i = 0; i < n; ++i) {
    w[i] = (int)sym_pick_range(KN[i], 0, 7);
    int ids[] = {A..., -100};
    int al = w[i] < 4 ? fermion : w[i] < 6 ? libcommute::cyc : libcommute::lad;
    bool known = false;
    for (int q : ids) known = known || q == al;
    foreign = foreign || !known;
    e = e * factor(w[i]);
  }
  fz = e.size() == 0;
  if (fz) return;
  uint64_t st = sym_range("st", 0, (uint64_t(1) << L.bits) - 1);
  sym_assume(L.valid(st));
  bool thrown = false;
  try {
    loperator<long, A...> op(e, hs);
    SymVec<long> out = op * ket<long>(st, 3), want;
    uint64_t s = st; long am = 3; bool nz = true;
    for (int i = n; nz && i-- > 0;) nz = ref_act(L, w[i], s, am);
    if (nz) { want.r.push_back({s, am}); sym_check(L.valid(s), "reference state"); }
    same_vec_b(out, want, "operators of user-defined algebras act beside built-in ones");
    for (auto& q : out.r) sym_check(L.valid(q.idx), "user-defined operators stay within the space");
    sym_cover(nz ? "acted" : "annihilated");
  } catch (unknown_generator<int>& x) {
    thrown = true;
    int ids[] = {A..., -100}; bool in = false;
    for (int q : ids) in = in || x.generator_ptr->algebra_id() == q;
    sym_check(!in, "the rejected generator belongs to an algebra the operator does not know");
  }
  // a product without factors of unknown algebras left (c c+ = 1 - c+ c) is never rejected
  if (!foreign) sym_check(!thrown, "known generators are accepted");
  else sym_check(thrown, "generators of algebras missing from the operator are rejected");
}
ENTRY c34_operator() {
  using libcommute::cyc; using libcommute::lad;
  switch (sym_param(0)) {
    case 0: operate<fermion, boson, spin, cyc, lad>(); break;
    case 1: operate<fermion, cyc, lad>(); break;
    case 2: operate<cyc, lad>(); break;
    case 3: cyc_last = true; operate<fermion, cyc>(); break;
    case 4: operate<lad>(); break;
    case 5: operate<fermion>(); break;
    case 6: operate<>(); break;
    case 7: operate<spin, lad>(); break;
    case 8: operate<fermion, boson, lad>(); break;
  }
}
// ---- enumeration and views
ENTRY c34_views() {
  Layout L;
  int form = sym_param(0);
  uint64_t D = sym_pick_range("D", 1, 6);
  L.s = {{0, 2, 0, 0, 0}, {0, 2, 1, 0, 0}, {0, 2, 5, 0, 0}};
  if (form == 0) L.s.push_back({2, 3, 0, 0, 0});
  L.s.push_back({3, 3, -1, 0, 0});
  L.s.push_back({4, D, 2, 0, 0});
  if (form == 1) L.s.push_back({4, 2, 6, 0, 0});
  L.finish();
  HS hs;
  for (int i = (int)L.s.size(); i-- > 0;) hs.add(*L.make(i));
  uint64_t cnt = 0; bool ok = true;
  foreach(hs, [&](sv_index_type st) { ok = ok && st == L.unrank(cnt); ++cnt; });
  sym_check(ok && cnt == L.dim, "enumeration visits the product states of user-defined spaces");
  uint64_t x = sym_range("x", 0, (uint64_t(1) << L.bits) - 1);
  sym_assume(L.valid(x));
  std::vector<long> v(L.dim);
  auto cv = make_comp_state_view(v, hs);
  sym_check(cv.map_index(x) == L.rank(x), "compressed index of a state of user-defined spaces");
  sym_observe(cv.map_index(x));
}
ENTRY c34_sector() { // (sector views need spaces of dimension 2^n)
  Layout L;
  L.s = {{0, 2, 0, 0, 0}, {0, 2, 1, 0, 0}, {0, 2, 5, 0, 0}};
  if (sym_param(0) == 1) L.s.push_back({1, 4, 0, 0, 0});
  L.s.push_back({4, uint64_t(1) << sym_pick_range("D", 0, 3), 2, 0, 0});
  L.s.push_back({4, 2, 6, 0, 0});
  L.finish();
  HS hs;
  for (int i = (int)L.s.size(); i-- > 0;) hs.add(*L.make(i));
  uint64_t x = sym_range("x", 0, (uint64_t(1) << L.bits) - 1);
  int N = (int)sym_pick_range("N", 0, 3);
  auto states = n_fermion_sector_basis_states(hs, N);
  sym_assume(__builtin_popcountll(x & 7) == N);
  uint64_t nf = N == 0 || N == 3 ? 1 : 3;
  sym_check(n_fermion_sector_size(hs, N) == nf << (L.bits - 3), "sector size beside user-defined spaces");
  std::vector<long> sv(nf << (L.bits - 3));
  auto view = make_nfs_view(sv, hs, N);
  uint64_t m = view.map_index(x);
  sym_check(m < sv.size(), "sector index lies within the vector");
  uint64_t at = 0, seen = 0;
  for (size_t i = 0; i < sv.size(); ++i) sv[i] = 1000 + (long)i;
  foreach(view, [&](sv_index_type st, long am) { at |= st & -(uint64_t)(am == 1000 + (long)m); seen += (st >> L.bits) == 0 && __builtin_popcountll(st & 7) == N; });
  uint64_t lst = 0;
  for (size_t i = 0; i < states.size(); ++i) lst |= states[i] & -(uint64_t)(i == m);
  sym_check(states.size() == sv.size() && lst == x, "listed basis states of a sector beside user-defined spaces");
  sym_check(seen == sv.size() && at == x, "sector views index states of user-defined spaces one-to-one");
  sym_check(get_element(view, x) == 1000 + (long)m, "elements are read at the mapped position");
  sym_observe(m);
}
// ---- partition: cyclic shift of one site, hopping of a fermion, a ladder
ENTRY c34_partition() {
  Layout L;
  uint64_t D = sym_pick_range("D", 2, 3);
  L.s = {{0, 2, 0, 0, 0}, {0, 2, 1, 0, 0}, {3, 3, -1, 0, 0}, {3, 3, 4, 0, 0}, {4, D, 2, 0, 0}};
  L.finish();
  HS hs;
  for (int i = (int)L.s.size(); i-- > 0;) hs.add(*L.make(i));
  using libcommute::cyc; using libcommute::lad;
  int terms = (int)sym_pick_range("terms", 1, 7);
  EL e;
  if (terms & 1) e += gen<cyc>(4);
  if (terms & 2) e += c_dag<long>(0) * libcommute::static_indices::c<long>(1) + c_dag<long>(1) * libcommute::static_indices::c<long>(0);
  if (terms & 4) e += gen<lad>(2) * gen<cyc>(-1);
  space_partition sp(loperator<long, fermion, cyc, lad>(e, hs), hs);
  // reference: components of the graph of states
  std::vector<uint64_t> lab(L.dim);
  for (uint64_t i = 0; i < L.dim; ++i) lab[i] = i;
  auto join = [&](uint64_t p, uint64_t q) { uint64_t u = lab[p], w = lab[q]; for (auto& l : lab) if (l == w) l = u; };
  for (uint64_t i = 0; i < L.dim; ++i) {
    uint64_t st = L.unrank(i);
    auto get = [&](int k) { return (st >> L.s[k].lo) & ((uint64_t(1) << L.s[k].w) - 1); };
    auto put = [&](uint64_t s, int k, uint64_t v) { return (s & ~(((uint64_t(1) << L.s[k].w) - 1) << L.s[k].lo)) | (v << L.s[k].lo); };
    if (terms & 1) join(i, L.rank(put(st, 3, (get(3) + 1) % 3)));
    if (terms & 2) if (get(0) != get(1)) join(i, L.rank(st ^ 3));
    if (terms & 4) if (get(4) + 1 < D) join(i, L.rank(put(put(st, 4, get(4) + 1), 2, (get(2) + 1) % 3)));
  }
  uint64_t x = sym_pick_range("x", 0, L.dim - 1);
  uint64_t n = 0; for (uint64_t i = 0; i < L.dim; ++i) n += lab[i] == i;
  sym_check(sp.n_subspaces() == n, "number of subspaces of a user-defined operator");
  for (uint64_t y = 0; y < L.dim; ++y) sym_check((sp[L.unrank(x)] == sp[L.unrank(y)]) == (lab[x] == lab[y]), "subspaces of a user-defined operator are its connected components");
}
