// C06: monomials as sequences of generators.
#include "ring.h"
typedef monomial<int> M;
typedef std::shared_ptr<const generator<int>> P;
static std::vector<Gen> word(const char* p, int n, int set) {
  std::vector<Gen> w;
  for (int i = 0; i < n; ++i) {
    std::string nm = std::string(p) + char('0' + i);
    int kind = pick_kind((nm + "k").c_str(), set);
    w.push_back(make_gen(kind, (int)sym_bits(nm.c_str(), 32)));
  }
  return w;
}
static P ptr(Gen const& g) {
  using namespace static_indices;
  if (g.alg == FERM) return make_fermion((bool)g.what, g.idx);
  if (g.alg == BOS) return make_boson((bool)g.what, g.idx);
  return make_spin((g.mult - 1) / 2.0, (spin_component)g.what, g.idx);
}
static M mono(std::vector<Gen> const& w) {
  std::vector<P> v;
  for (auto const& g : w) v.push_back(ptr(g));
  return M(v);
}
static bool samew(Gen const& a, Gen const& b) { return a.alg == b.alg && a.mult == b.mult && a.what == b.what && a.idx == b.idx; }
// every way of reading the monomial shows the word
static void reads(M const& m, std::vector<Gen> const& w, const char* label) {
  sym_check(m.size() == w.size(), label);
  sym_check(m.empty() == w.empty(), label);
  for (size_t i = 0; i < w.size() && i < m.size(); ++i) sym_check(samew(read_gen(m[i]), w[i]), label);
  size_t k = 0;
  for (auto const& g : m) { sym_check(k < w.size() && samew(read_gen(g), w[k]), label); ++k; }
  sym_check(k == w.size(), label);
  k = 0;
  for (auto it = m.cbegin(); it != m.cend(); it++) { sym_check(k < w.size() && samew(read_gen(*it), w[k]), label); ++k; }
  sym_check(k == w.size(), label);
  k = w.size();
  for (auto it = m.rbegin(); it != m.rend(); ++it) { sym_check(k > 0 && samew(read_gen(*it), w[k - 1]), label); --k; }
  sym_check(k == 0, label);
  sym_check((size_t)(m.end() - m.begin()) == w.size(), label);
  for (size_t i = 0; i < w.size(); ++i) {
    sym_check(samew(read_gen(m.begin()[i]), w[i]), label);
    sym_check(samew(read_gen(*(m.begin() + i)), w[i]) && samew(read_gen(*(i + m.begin())), w[i]), label);
    auto it = m.begin(); it += i; sym_check(samew(read_gen(*it), w[i]), label);
    auto e = m.end(); e -= (w.size() - i); sym_check(e == it && samew(read_gen(*e), w[i]), label);
    sym_check(m.end() - (w.size() - i) == it, label);
    sym_check(it < m.end() && m.end() > it && it <= it && it >= it && !(it < it) && !(it > it), label);
    ++e; --e; sym_check(e == it, label);
    auto old = e--; ++e; sym_check(old == e, label);
  }
}
static std::vector<Gen> cat(std::vector<Gen> a, std::vector<Gen> const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// params: n, set
ENTRY c06_access() {
  auto w = word("a", sym_param(0), sym_param(1));
  M m = mono(w);
  reads(m, w, "access to the generators of a monomial");
  M c(m); reads(c, w, "copied monomial");
  M d; d = m; reads(d, w, "assigned monomial");
  M e(std::move(c)); reads(e, w, "moved monomial");
  bool sorted = true;
  for (size_t i = 1; i < w.size(); ++i) if (sym_branch(m[i] < m[i - 1])) sorted = false;
  bool io = m.is_ordered();
  sym_check(io == sorted, "is_ordered reports whether no generator is greater than its successor");
  sym_cover(sorted ? "ordered" : "unordered");
  sym_observe(sorted);
}
// params: n, set: swap two positions
ENTRY c06_swap() {
  int n = sym_param(0);
  auto w = word("a", n, sym_param(1));
  M m = mono(w), before(m);
  size_t i = sym_pick_range("p", 0, n - 1), j = sym_pick_range("q", 0, n - 1);
  m.swap_generators(i, j);
  auto v = w;
  std::swap(v[i], v[j]);
  reads(m, v, "swap_generators exchanges exactly two positions");
  reads(before, w, "swapping does not affect copies");
}
// params: lengths of two words, set
ENTRY c06_concat() {
  int n1 = sym_param(0), n2 = sym_param(1);
  auto w1 = word("a", n1, sym_param(2)), w2 = word("b", n2, sym_param(2)), wg = word("g", 1, sym_param(2));
  M m1 = mono(w1), m2 = mono(w2);
  P gp = ptr(wg[0]);
  auto const& g = *gp;
  size_t lo = sym_pick_range("lo", 0, n1), hi = sym_pick_range("hi", 0, n1);
  sym_assume(lo <= hi);
  std::vector<Gen> wr(w1.begin() + lo, w1.begin() + hi);
  M::range_type r(m1.begin() + lo, m1.begin() + hi);
  reads(concatenate(m1, m2), cat(w1, w2), "concatenation of monomials");
  reads(concatenate(m2, g), cat(w2, wg), "concatenation with a generator");
  reads(concatenate(g, m2), cat(wg, w2), "concatenation with a generator");
  reads(concatenate(r, m2), cat(wr, w2), "concatenation with a range");
  reads(concatenate(m2, r, g), cat(cat(w2, wr), wg), "concatenation of three parts");
  reads(concatenate(g, r, m2, m1), cat(cat(cat(wg, wr), w2), w1), "concatenation of four parts");
  reads(concatenate(m1), w1, "concatenation of one part");
  reads(concatenate(m1, m1), cat(w1, w1), "concatenation of a monomial with itself");
  M x(m2); x.append(g); reads(x, cat(w2, wg), "append generator");
  x.append(r); reads(x, cat(cat(w2, wg), wr), "append range");
  x.append(m1); reads(x, cat(cat(cat(w2, wg), wr), w1), "append monomial");
  M y; y.append(m1); reads(y, w1, "append to an empty monomial");
  reads(m1, w1, "parts are unchanged"); reads(m2, w2, "parts are unchanged");
  if (hi - lo == 1) sym_cover("proper range");
}
// construction from generator objects, smart pointers and initializer lists
ENTRY c06_ctor() {
  using namespace static_indices;
  int i = (int)sym_bits("i", 32), j = (int)sym_bits("j", 32), k = (int)sym_bits("k", 32);
  std::vector<Gen> w{{FERM, 0, 1, i}, {SPIN, 3, 2, j}, {BOS, 0, 0, k}};
  generator_fermion<int> f(true, i); generator_spin<int> s(1.0, spin_component::z, j); generator_boson<int> b(false, k);
  reads(M(f, s, b), w, "construction from generator objects");
  reads(M(generator_fermion<int>(true, i), generator_spin<int>(1.0, spin_component::z, j), generator_boson<int>(false, k)), w, "construction from temporaries");
  reads(M{make_fermion(true, i), make_spin(1.0, spin_component::z, j), make_boson(false, k)}, w, "construction from a list of pointers");
  reads(M(std::vector<P>{make_fermion(true, i), make_spin(1.0, spin_component::z, j), make_boson(false, k)}), w, "construction from a vector of pointers");
  reads(M(), {}, "empty monomial");
}
// a monomial appended to itself.  params: length, set
ENTRY c06_self() {
  int n = sym_param(0);
  auto w = word("a", n, sym_param(1));
  { M x = mono(w); x.append(x); reads(x, cat(w, w), "a monomial appended to itself"); }
  { M x = mono(w); x = concatenate(x, x, x); reads(x, cat(cat(w, w), w), "concatenation assigned to one of its parts"); }
  { M x = mono(w); x = x; reads(x, w, "self-assignment"); }
  for (int k = 0; k < n; ++k) {
    M x = mono(w); x.append(x[k]);
    reads(x, cat(w, {w[k]}), "a generator of a monomial appended to it");
    M y = mono(w), z = concatenate(M::range_type(y.begin() + k, y.end()), y, M::range_type(y.begin(), y.begin() + k));
    std::vector<Gen> v(w.begin() + k, w.end()); v = cat(v, w); v.insert(v.end(), w.begin(), w.begin() + k);
    reads(z, v, "concatenation of ranges of one monomial");
    y = M(); reads(z, v, "concatenation does not depend on its parts");
  }
  sym_cover("done");
}
