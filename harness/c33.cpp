// C33: value semantics and lifetimes. Copies are independent values; an operator, view, partition or space stays usable
// after the objects it was built from are gone. Every access to freed memory is an error of the engine.
#include "ring.h"
#include "sectors.h"
#include <libcommute/loperator/compressed_state_view.hpp>
#include <libcommute/loperator/mapped_basis_view.hpp>
#include <libcommute/loperator/space_partition.hpp>
#include <libcommute/loperator/sparse_state_vector.hpp>
#include <libcommute/loperator/disjoint_sets.hpp>
#include <libcommute/expression/hc.hpp>
#include <optional>
typedef expression<long, int> EL;
template <typename T> using Own = std::unique_ptr<T>;
// how the value under test reaches the place where it is used
static int ways() { return (int)sym_pick_range("way", 0, 6); }
template <typename T> struct Carried { Own<T> a; T const& get() const { return *a; } };
// x is gone when this returns; y is another value to assign to
template <typename T, typename MK, typename MK2> static Own<T> carry(int way, MK&& make, MK2&& make_other) {
  Own<T> x(new T(make())), r;
  switch (way) {
    case 0: r = std::move(x); break;                                                  // the object itself
    case 1: r.reset(new T(*x)); break;                                                // copy constructed
    case 2: r.reset(new T(std::move(*x))); break;                                     // move constructed
    case 3: r.reset(new T(make_other())); *r = *x; break;                             // copy assigned over another value
    case 4: r.reset(new T(make_other())); *r = std::move(*x); break;                  // move assigned over another value
    case 5: { std::vector<T> v; for (int i = 0; i < 5; ++i) v.push_back(*x); x.reset(); r.reset(new T(v[2])); break; } // reallocating vector
    default: { r.reset(new T(make_other())); std::swap(*r, *x); std::swap(*r, *x); std::swap(*x, *r); break; }
  }
  return r;
}
static EL word(Gen const* g, int n, long c) { EL e(c); for (int i = 0; i < n; ++i) e *= gen_expr<long>(g[i]); return e; }
// expressions: params: number of generators, kind set
ENTRY c33_expression() {
  int n = sym_param(0), set = sym_param(1);
  Gen g[4];
  for (int i = 0; i < n; ++i) g[i] = sym_gen(i, set);
  long p = (long)sym_range("p", 1, 5), q = (long)sym_range("q", 1, 5);
  auto make = [&] { return EL(word(g, n, p) + word(g, 1, q)); };
  auto other = [&] { return EL(word(g, 1, 7) + 3L); };
  EL const keep = make();
  Own<EL> x = carry<EL>(ways(), make, other);
  check_equal(*x, keep, "a copied or moved expression has the value of the original");
  EL y(*x);
  switch (sym_pick_range("op", 0, 9)) {
    case 0: y += 1L; break;
    case 1: y *= 2L; break;
    case 2: y.clear(); sym_check(y.size() == 0 && y == EL(), "clear makes an expression zero"); break;
    case 3: y *= word(g, 1, 1); break;
    case 4: y -= word(g, 1, q); break;
    case 5: for (auto& t : y.get_monomials()) t.second += 1; break;
    case 6: y = -y; break;
    case 7: y = conj(y); break;
    case 8: y = other(); break;
    default: y += *x; break;
  }
  check_equal(*x, keep, "changing a copy leaves the original alone");
  EL z(y);
  x.reset();
  check_equal(y, z, "an expression outlives the one it was copied from");
  sym_cover("done");
}
// a single generator and a monomial taken out of an expression that is gone
ENTRY c33_parts() {
  Gen g = sym_gen(0, 5), h = sym_gen(1, 5);
  sym_assume(!(g.alg == h.alg && g.mult == h.mult));
  std::unique_ptr<monomial<int>> m;
  std::optional<monomial<int>::const_iterator> it;
  {
    Own<expression<double, int>> e(new expression<double, int>(gen_expr<double>(g) * gen_expr<double>(h)));
    m.reset(new monomial<int>(e->get_monomials().begin()->first));
  }
  monomial<int> k(*m), s = concatenate(std::make_pair(m->begin() + 1, m->end()));
  sym_check(k == *m && k.size() == 2 && s.size() == 1, "monomials outlive the expression they were taken from");
  Gen a = read_gen((*m)[0]), b = read_gen((*m)[1]);
  sym_check((same_gen(a, g) && same_gen(b, h)) || (same_gen(a, h) && same_gen(b, g)), "monomials keep their generators");
  m.reset();
  sym_check(same_gen(read_gen(k[0]), a) && same_gen(read_gen(s[0]), b), "generators outlive the monomial they were taken from");
  k.swap_generators(0, 1);
  sym_check(same_gen(read_gen(k[0]), b) && same_gen(read_gen(k[1]), a), "swap_generators exchanges generators");
  sym_check(same_gen(read_gen(s[0]), b), "changing a monomial leaves its slices alone");
  sym_cover("done");
}
// linear operators: params: generators, kind set (0 fermions, 1 bosons, 2 spins 1/2)
typedef loperator<double, fermion, boson, spin> LD;
static Own<hilbert_space<int>> big_space() {
  Own<hilbert_space<int>> hs(new hilbert_space<int>());
  for (int i = 0; i < 3; ++i) { hs->add(make_space_fermion(i)); hs->add(make_space_boson(4, i)); hs->add(make_space_spin(0.5, i)); }
  return hs;
}
ENTRY c33_loperator() {
  int n = sym_param(0), set = sym_param(1);
  Gen g[3];
  for (int i = 0; i < n; ++i) { int k = pick_kind(KN[i], set); g[i] = make_gen(k, (int)sym_pick_range(IX[i], 0, 2)); }
  auto hs0 = big_space();
  auto expr = [&](double c) { expression<double, int> e(c); for (int i = 0; i < n; ++i) e *= gen_expr<double>(g[i]); return e; };
  auto make = [&] { auto e = std::make_unique<expression<double, int>>(expr(2) + 1.0); auto hs = big_space(); return LD(*e, *hs); };
  auto other = [&] { return LD(static_indices::n<double>(0) + gen_expr<double>(g[0]) * 3.0, *hs0); };
  LD const keep(expr(2) + 1.0, *hs0);
  Own<LD> x = carry<LD>(ways(), make, other);
  uint64_t st = sym_range("st", 0, (1 << 12) - 1);
  same_vec_f((*x)(ket<double>(st)), keep(ket<double>(st)), "a copied or moved operator acts as the original");
  LD y(*x);
  y = other();
  same_vec_f((*x)(ket<double>(st)), keep(ket<double>(st)), "assigning to a copy leaves the original alone");
  y = *x; x.reset();
  same_vec_f(y(ket<double>(st)), keep(ket<double>(st)), "an operator outlives the one it was copied from");
  sym_cover("done");
}
// Hilbert spaces
ENTRY c33_space() {
  int i = (int)sym_bits("i", 32), j = (int)sym_bits("j", 32), k = (int)sym_bits("k", 32);
  sym_assume(i != j && j != k && i != k);
  // original: sparse with two kinds of gaps or dense; other: dense, sparse or empty
  int kind = (int)sym_pick_range("kind", 0, 1), okind = (int)sym_pick_range("okind", 0, 2);
  auto make = [&] { hilbert_space<int> hs(make_space_fermion(i), make_space_boson(kind ? 4 : 5, j)); hs.add(make_space_spin(kind ? 0.5 : 1, k)); hs.add(make_space_fermion(j)); return hs; };
  auto other = [&] {
    if (okind == 0) return hilbert_space<int>(make_space_fermion(k), make_space_spin(0.5, i));
    if (okind == 1) return hilbert_space<int>(make_space_boson(3, k), make_space_spin(1.5, i), make_space_boson(6, j));
    return hilbert_space<int>();
  };
  hilbert_space<int> const ref(make());
  uint64_t const db = kind ? 4 : 5, ds = kind ? 2 : 3;
  int const sb = 2, ss = kind ? 4 : 5;
  auto x = carry<hilbert_space<int>>(ways(), make, other);
  auto same = [&](hilbert_space<int> const& h, const char* label) {
    sym_check(h == ref && !(h != ref) && h.size() == 4 && h.total_n_bits() == (kind ? 5 : 7) && h.dim() == 4 * db * ds && h.vec_size() == uint64_t(1) << h.total_n_bits() && h.is_sparse() == !kind, label);
    std::vector<std::pair<int, int>> a, b;
    h.foreach_elementary_space([&](elementary_space<int> const& es) { a.push_back(h.bit_range(es)); });
    ref.foreach_elementary_space([&](elementary_space<int> const& es) { b.push_back(ref.bit_range(es)); sym_check(h.has(es) && h.bit_range(es) == ref.bit_range(es) && h.dim(es) == es.dim(), label); });
    sym_check(a == b, label);
    sym_check(h.has_algebra(fermion) && h.has_algebra(boson) && h.has_algebra(spin) && h.algebra_bit_range(fermion) == std::make_pair(0, 1) && h.algebra_bit_range(boson).first == sb && h.algebra_bit_range(spin).first == ss, label);
    uint64_t n = 0; bool ok = true;
    foreach(h, [&](sv_index_type st) { ok = ok && st == ((n & 3) | (n / 4 % db) << sb | (n / 4 / db) << ss); ++n; });
    sym_check(ok && n == 4 * db * ds, label);
  };
  same(*x, "a copied or moved Hilbert space has the layout of the original");
  hilbert_space<int> y(*x);
  if (sym_pick_range("op", 0, 1)) y.add(make_space_fermion(k)); else y = other();
  sym_check(y != ref, "spaces with other elementary spaces are different");
  same(*x, "changing a copy leaves the original alone");
  y = *x; x.reset();
  same(y, "a Hilbert space outlives the one it was copied from");
  sym_cover("done");
}
// views. params: kind (0 compressed, 1 sector, 2 multisector, 3 mapped), algorithm
typedef std::vector<long> V;
template <typename VIEW, typename MK> static void owning(MK&& make, uint64_t size, std::vector<uint64_t> const& states) {
  V v(size); for (uint64_t i = 0; i < size; ++i) v[i] = 10 + (long)i;
  uint64_t at = sym_pick_range("at", 0, size - 1), st = states[at];
  auto mk = [&] { return make(V(v)); };
  auto other = [&] { return make(V(size, 1)); };
  int way = (int)sym_pick_range("way", 0, 2); // views own or refer to a vector: copy and move construction
  Own<VIEW> x = way == 0 ? Own<VIEW>(new VIEW(mk())) : Own<VIEW>();
  if (way) { Own<VIEW> t(new VIEW(mk())); x.reset(way == 1 ? new VIEW(*t) : new VIEW(std::move(*t))); }
  (void)other;
  auto same = [&](VIEW const& w, const char* label) {
    uint64_t cnt = 0; bool ok = true;
    foreach(w, [&](sv_index_type s, long a) { ++cnt; ok = ok && std::find(states.begin(), states.end(), s) != states.end() && get_element(w, s) == a; });
    sym_check(ok && cnt == size, label);
    uint64_t got = 0; for (uint64_t i = 0; i < size; ++i) got += get_element(w, states[i]);
    uint64_t want = 0; for (uint64_t i = 0; i < size; ++i) want += 10 + i;
    sym_check(got == want, label);
  };
  same(*x, "a copied or moved view shows the amplitudes of its vector");
  VIEW y(*x);
  update_add_element(y, st, 1000);
  sym_check(get_element(y, st) == get_element(*x, st) + 1000, "an update changes the copy only");
  same(*x, "changing a copy of an owning view leaves the original alone");
  set_zeros(y);
  same(*x, "changing a copy of an owning view leaves the original alone");
  VIEW z(*x);
  x.reset();
  same(z, "a view outlives the one it was copied from");
  sym_cover("done");
}
static Own<HS> view_space(bool fermions) {
  Own<HS> hs(new HS());
  if (fermions) for (int i = 4; i-- > 0;) hs->add(make_space_fermion(i));
  else { hs->add(make_space_boson(3, 0)); hs->add(make_space_fermion(0)); hs->add(make_space_spin(1, 0)); }
  if (fermions) hs->add(make_space_spin(0.5, 0));
  return hs;
}
ENTRY c33_views() {
  int kind = sym_param(0);
  if (kind == 0) {
    std::vector<uint64_t> states; { auto hs = view_space(false); foreach(*hs, [&](sv_index_type s) { states.push_back(s); }); }
    auto make = [&](V&& v) { auto hs = view_space(false); return make_comp_state_view(std::move(v), *hs); };
    owning<compressed_state_view<V, false>>(make, states.size(), states);
  } else if (kind == 1) {
    int N = (int)sym_pick_range("N", 0, 4);
    std::vector<uint64_t> states; { auto hs = view_space(true); for (auto s : n_fermion_sector_basis_states(*hs, N)) states.push_back(s); }
    with_alg((int)sym_pick_range("alg", 0, 8), [&](auto* tag) {
      typedef n_fermion_sector_view<V, false, std::remove_pointer_t<decltype(tag)>> VIEW;
      auto make = [&](V&& v) { auto hs = view_space(true); return VIEW(std::move(v), *hs, N); };
      owning<VIEW>(make, states.size(), states);
    });
  } else if (kind == 2) {
    int N = (int)sym_pick_range("N", 0, 2), K = (int)sym_pick_range("K", 0, 1);
    auto sectors = [&] { std::vector<sector_descriptor<HS>> s(2); for (int i = 0; i < 2; ++i) s[0].indices.insert(std::make_tuple(i * 2)); s[0].N = N; s[1].indices.insert(std::make_tuple(1)); s[1].N = K; return s; };
    std::vector<uint64_t> states; { auto hs = view_space(true); for (auto s : n_fermion_multisector_basis_states(*hs, sectors())) states.push_back(s); }
    with_alg((int)sym_pick_range("alg", 0, 8), [&](auto* tag) {
      typedef n_fermion_multisector_view<V, false, std::remove_pointer_t<decltype(tag)>> VIEW;
      auto make = [&](V&& v) { auto hs = view_space(true); return VIEW(std::move(v), *hs, sectors()); };
      owning<VIEW>(make, states.size(), states);
    });
  } else { // the mapper itself has to live as long as its views, the operator and the space it was built with need not
    std::vector<uint64_t> states = {5, 3, 9};
    auto mk = [&] { return basis_mapper(std::vector<sv_index_type>{5, 3, 9}); };
    auto mapper = carry<basis_mapper>(ways(), mk, [&] { return basis_mapper(std::vector<sv_index_type>{1, 2}); });
    sym_check(mapper->size() == 3 && mapper->map().size() == 3 && mapper->inverse_map().size() == 3, "a copied mapper holds the states of the original");
    for (int i = 0; i < 3; ++i) sym_check(mapper->map().count(states[i]) == 1, "a copied mapper holds the states of the original");
    V v{0, 0, 0};
    { auto w = mapper->make_view(v); for (int i = 0; i < 3; ++i) update_add_element(w, states[i], 10 + (long)mapper->map().at(states[i])); }
    V back(v);
    auto w2 = mapper->make_view(V(v));
    uint64_t cnt = 0;
    foreach(w2, [&](sv_index_type s, long a) { ++cnt; sym_check(a == 10 + (long)mapper->map().at(s), "a view owning its vector shows its amplitudes"); });
    sym_check(cnt == 3, "a view owning its vector shows its amplitudes");
    update_add_element(w2, 3, 5);
    sym_check(v == back, "an owning view does not change the vector it was made from");
    sym_cover("done");
  }
}
// a view of an lvalue refers to it
ENTRY c33_reference_views() {
  auto hs = view_space(true); auto hc = view_space(false);
  V v(12, 1), c(hc->dim(), 1);
  auto a = make_nfs_view(v, *hs, 2);
  std::vector<sector_descriptor<HS>> s(1); for (int i = 0; i < 4; ++i) s[0].indices.insert(std::make_tuple(i)); s[0].N = 2;
  auto b = make_nfms_view(v, *hs, s);
  auto d = make_comp_state_view(c, *hc);
  auto const ac = make_const_nfs_view(v, *hs, 2);
  hs.reset(); hc.reset(); s.clear();
  auto a2 = a; auto b2 = b; auto d2 = d;
  sym_check(&a2.state_vector == &v && &b2.state_vector == &v && &d2.state_vector == &c && &ac.state_vector == &v, "a view of a vector refers to that vector");
  long x = (long)sym_bits("x", 20);
  update_add_element(a2, 3, x);
  sym_check(get_element(a, 3) == 1 + x && get_element(ac, 3) == 1 + x, "copies of a view refer to the same vector");
  update_add_element(b, 5, x);
  sym_check(get_element(b2, 5) == 1 + x, "copies of a view refer to the same vector");
  update_add_element(d, 0, x);
  sym_check(get_element(d2, 0) == 1 + x && c[0] == 1 + x, "copies of a view refer to the same vector");
  sym_cover("done");
}
// partitions, disjoint sets, sparse vectors
ENTRY c33_partition() {
  auto make_op = [](EL const& e, HS const& hs) { return make_loperator(e, hs); };
  EL H = c_dag<long>(0) * c<long>(1) + c_dag<long>(1) * c<long>(0) + n<long>(2);
  auto space = [] { Own<HS> hs(new HS()); for (int i = 0; i < 4; ++i) hs->add(make_space_fermion(i)); return hs; };
  auto hs = space(); // a partition refers to its Hilbert space
  auto make = [&] { auto op = make_op(H, *hs); return make_space_partition(op, *hs); };
  typedef decltype(make()) P;
  P const ref = make();
  Own<P> x;
  { Own<P> t(new P(make())); int way = (int)sym_pick_range("way", 0, 2); if (way == 0) x = std::move(t); else x.reset(way == 1 ? new P(*t) : new P(std::move(*t))); }
  auto same = [&](P const& p, const char* label) {
    sym_check(p.dim() == ref.dim() && p.n_subspaces() == ref.n_subspaces(), label);
    uint64_t st = sym_pick_range("st", 0, 15);
    sym_check(p[st] == ref[st], label);
    sym_check(p.subspace_bases() == ref.subspace_bases(), label);
  };
  same(*x, "a copied or moved partition has the subspaces of the original");
  P y(*x);
  int m = (int)sym_pick_range("m", 0, 3);
  y.merge_subspaces(make_op(c_dag<long>(m), *hs), make_op(c<long>(m), *hs));
  same(*x, "merging subspaces of a copy leaves the original alone");
  P z(y);
  x.reset();
  sym_check(z.subspace_bases() == y.subspace_bases(), "a partition outlives the one it was copied from");
  sym_cover("done");
}
ENTRY c33_containers() {
  disjoint_sets d(4);
  d.set_union(0, 1);
  disjoint_sets e(d);
  int a = (int)sym_pick_range("a", 0, 3), b = (int)sym_pick_range("b", 0, 3);
  e.set_union(a, b);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sym_check(d.in_same_set(i, j) == (i == j || (i < 2 && j < 2)), "uniting sets of a copy leaves the original alone");
  sym_check(d.n_sets() == 3 && d.size() == 4, "uniting sets of a copy leaves the original alone");
  e = d;
  sym_check(e.n_sets() == 3 && e.in_same_set(0, 1) && !e.in_same_set(2, 3), "assigned disjoint sets");
  sparse_state_vector<long> v(32);
  long x = (long)sym_bits("x", 20) + 1; uint64_t n = sym_pick_range("n", 0, 31);
  update_add_element(v, n, x);
  auto make = [&] { return sparse_state_vector<long>(v); };
  auto other = [&] { sparse_state_vector<long> o(7); update_add_element(o, 3, 9); return o; };
  auto w = carry<sparse_state_vector<long>>(ways(), make, other);
  auto same = [&](sparse_state_vector<long> const& s, const char* label) { sym_check(s.size() == 32 && s.n_nonzeros() == 1 && get_element(s, n) == x, label); };
  same(*w, "a copied or moved sparse vector has the amplitudes of the original");
  sparse_state_vector<long> u(*w);
  switch (sym_pick_range("op", 0, 3)) { case 0: set_zeros(u); break; case 1: update_add_element(u, n, -x); break; case 2: u[(n + 1) % 32] = 4; break; default: u = zeros_like(u); break; }
  same(*w, "changing a copy leaves the original alone");
  u = *w; w.reset();
  same(u, "a sparse vector outlives the one it was copied from");
  sym_cover("done");
}
