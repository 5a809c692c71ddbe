#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run once after editing).
import json, os
E = "include/libcommute/expression/"; L = "include/libcommute/loperator/"; T = "include/libcommute/"
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Normal ordering preserves the operator a product denotes",
  "Multiplying expressions built from fermionic, bosonic, spin (1/2 and higher) and mixed generators yields an expression that denotes the same linear operator as the product of the factors, for every choice and order of generators, indices and coefficients. This includes all sign, commutator-constant and lower-degree terms created by reordering and by nilpotency/spin product rules.",
  ["inputs", "programs"], "all words of generators up to the stated length, all index values (full machine range, decided through their order relation), all coefficients of an integer ring",
  "Tests compare a few dozen fixed products with hand-computed results; the reordering code branches on the relative order of every pair of indices and kinds, so a sample of words misses most order patterns and all longer ones.",
  [E+"expression.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"monomial.hpp"],
  [("expression::normalize_and_store bubble sort with recursion for lower-degree terms", E+"expression.hpp"),
   ("swap_with / simplify_prod / reduce_power of each algebra", E+"generator_*.hpp"),
   ("swap_generators", E+"monomial.hpp")], ["expression operator*, operator*="])

p("C02", "Expressions are canonical: ordered monomials, no zeros, irreducible",
  "Every expression produced by the arithmetic interface stores each monomial at most once, with its generators in non-decreasing canonical order, without a factor that the algebra can still reduce (squares of fermions, products of spin-1/2 generators on one site), and without coefficients that are zero. Consequently two expressions built by different arrangements of the same computation (associativity, commutativity of +, distributivity, A-A=0) compare equal.",
  ["inputs", "programs"], "all words up to the stated length, all index order patterns, all coefficients in an integer ring without zero divisors",
  "Tests check printed forms of particular expressions; identities such as (A*B)*C == A*(B*C) must hold for every triple of generators and index order.",
  [E+"expression.hpp", E+"monomial.hpp", E+"generator_spin.hpp"],
  [("normalize_and_store / store_monomial / reduce_powers / simplify_prod", E+"expression.hpp"), ("is_ordered", E+"monomial.hpp")],
  ["expression::get_monomials, operator==, iteration"])

p("C03", "Hermitian conjugation is an antilinear involutive anti-automorphism",
  "For all expressions A, B and scalars z: conj(conj(A)) == A, conj(A*B) == conj(B)*conj(A), conj(z*A + B) == conj(z)*conj(A) + conj(B), and conj(A) denotes the Hermitian adjoint of A. The plus/minus h.c. placeholder adds or subtracts exactly conj of the expression it is added to or subtracted from.",
  ["inputs", "programs"], "all words up to the stated length, all index order patterns, all complex integer coefficients",
  "Tests conjugate a handful of expressions; conj re-orders whole monomials and accumulates terms, so correctness depends on every order pattern.",
  [E+"expression.hpp", E+"hc.hpp", E+"generator_spin.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp"],
  [("conj(expression)", E+"expression.hpp"), ("operator+/-(expression, hc)", E+"hc.hpp"), ("generator::conj", E+"generator.hpp")], ["conj(), hc"])

p("C04", "Generators, monomials and index sequences are strictly totally ordered",
  "Comparison of algebra generators (of any algebra, spin, component, dagger and index tuple), of monomials of them, of dynamic index sequences and of elementary spaces is a strict total order: exactly one of a<b, a==b, b<a holds, > and != agree with < and ==, and < is transitive; monomials compare by length first and then lexicographically. Equal means same algebra, same kind and same indices.",
  ["inputs"], "all pairs and triples of generators with arbitrary (full-width) indices, spins and components; all monomials / index sequences up to the stated length",
  "Tests check a sorted list of fixed objects; ordering laws are universally quantified over triples.",
  [E+"generator.hpp", E+"generator_fermion.hpp", E+"generator_boson.hpp", E+"generator_spin.hpp", E+"monomial.hpp", E+"dyn_indices.hpp", L+"elementary_space.hpp", T+"utility.hpp"],
  [("generator::equal/less/greater", E+"generator*.hpp"), ("monomial comparison", E+"monomial.hpp"), ("dyn_indices comparison", E+"dyn_indices.hpp")],
  ["operators ==, !=, <, > on generator, monomial, dyn_indices, elementary_space"])

p("C05", "Linear arithmetic of expressions is exact and consistent in all forms",
  "Addition, subtraction, negation, scalar addition/subtraction and scalar multiplication of expressions act term by term as in the free module over the scalars, for lvalues, rvalues, mixed scalar types and constants alike. Each compound assignment gives the result of the corresponding binary operator, including when an expression is combined with itself.",
  ["inputs", "programs"], "all pairs of expressions with up to the stated number of terms with symbolic keys and symbolic coefficients, and every overload",
  "Tests use fixed expressions with fixed numeric coefficients; cancellation, key coincidence and self-aliasing cases are combinatorial.",
  [E+"expression.hpp", T+"scalar_traits.hpp"], [("operator+=,-=,*=,+,-,* and their rvalue overloads", E+"expression.hpp"), ("minimal_copy / scalar_traits", T+"scalar_traits.hpp")],
  ["expression arithmetic operators"])

p("C06", "Monomial sequences: slicing, concatenation, swap_generators, ordering test",
  "For monomials of any generators: concatenation yields the operands' generators in order, append_range/iterators/operator[]/size agree with one another, swap_generators exchanges exactly two positions, and is_ordered reports true exactly when no generator is greater than its successor.",
  ["inputs"], "all monomials up to the stated length over symbolic generators, all positions",
  "Tests use one fixed monomial; the claims are over all positions and contents.",
  [E+"monomial.hpp"], [("monomial::append, concatenate, operator*, swap_generators, is_ordered, iterators", E+"monomial.hpp")], ["monomial public interface"])

p("C07", "User-defined algebras are normalised by exactly the rules they declare",
  "For a user-defined algebra whose generators declare a commutation rule (c g2 g1 + f(g)), a product simplification and a power reduction, products of expressions are rewritten with exactly those rules: each rule returns its linear function into the result with the right prefactor, prefix and suffix, so the value of any product under a representation of the algebra is preserved and the result is in canonical order.",
  ["inputs", "programs"], "all words up to the stated length of a user algebra with symbolic structure constants",
  "Tests contain one user algebra (gamma matrices) and a few products of it.",
  [E+"expression.hpp", E+"generator.hpp", T+"utility.hpp"], [("normalize_and_store", E+"expression.hpp"), ("linear_function", E+"generator.hpp")], ["expression products over user generators"])

p("C08", "Fermionic operators act as canonical Jordan-Wigner matrices",
  "A linear operator made from any product of fermionic creation and annihilation operators acts on a basis state exactly as the composition of the single-mode Jordan-Wigner matrices: result zero exactly when some factor annihilates the state, otherwise the state with the right bits flipped and the sign given by the number of occupied modes passed, wherever the modes lie in the 64-bit state index.",
  ["inputs", "programs"], "all basis-state indices (symbolic up to 63 bits) and all products up to the stated length over symbolic modes",
  "Tests run a few products on Hilbert spaces with at most 5 modes; masks, parities and shifts over 64-bit words are exercised only for low bits.",
  [L+"monomial_action_fermion.hpp", L+"bit_ops.hpp", L+"loperator.hpp"], [("monomial_action<fermion> masks and parity", L+"monomial_action_fermion.hpp"), ("parity_number_of_bits", L+"bit_ops.hpp")], ["loperator::operator(), monomial_action::act"])

p("C09", "Bosonic operators act as truncated ladder matrices",
  "A linear operator made from any product of bosonic creation/annihilation operators acts on a basis state as the ordered composition of ladder operators: zero if an occupation would go below 0 or leave the truncated space, otherwise the shifted occupations with amplitude equal to the product of the square roots of the intermediate occupation numbers, leaving all other bits of the index unchanged.",
  ["inputs", "programs"], "all basis-state indices and all canonical products up to the stated length, with symbolic bit ranges and truncation dimensions",
  "Tests use two bosons with a fixed truncation.",
  [L+"monomial_action_boson.hpp", L+"elementary_space_boson.hpp"], [("monomial_action<boson>", L+"monomial_action_boson.hpp")], ["loperator::operator(), monomial_action::act"])

p("C10", "Spin operators act as the spin-S matrices",
  "A linear operator made from any product of S_z, S_+ and S_- of any spin up to the bounds acts on a basis state as the ordered composition of the spin-S matrices: right target state (or zero at the ends of the multiplet) and amplitude product of m values and sqrt(S(S+1)-m(m±1)), leaving all other bits unchanged.",
  ["inputs", "programs"], "all basis-state indices, spins 1/2..stated bound, all canonical products up to the stated length",
  "Tests use spins 1/2, 1, 3/2 with fixed states.",
  [L+"monomial_action_spin.hpp", L+"elementary_space_spin.hpp"], [("monomial_action<spin>", L+"monomial_action_spin.hpp")], ["loperator::operator(), monomial_action::act"])

p("C11", "Linear operator objects represent the expression they were built from",
  "Applying a linear operator built from an expression to a state equals the sum of coefficient times monomial action over all terms, for every call form; it is linear in the state, overwrites the destination, represents products of expressions as compositions and conjugates as adjoints (on states where truncation plays no role), and its coefficients never leak into or depend on earlier contents of the destination.",
  ["inputs", "programs"], "all states with symbolic amplitudes in an integer ring, all expressions up to the stated shape with symbolic coefficients",
  "Tests apply fixed operators to fixed vectors.",
  [L+"loperator.hpp", L+"state_vector.hpp", L+"monomial_action.hpp"], [("loperator::act / operator() / operator*", L+"loperator.hpp"), ("monomial_action multi-algebra dispatch", L+"monomial_action.hpp")], ["loperator call forms"])

p("C12", "Hilbert-space bit layout is disjoint, ordered, complete and copy-stable",
  "For any set of elementary spaces, the Hilbert space assigns each one a bit range of exactly its width, in the canonical order of the spaces, contiguous from bit 0 and pairwise disjoint, with algebra ranges the union of their members; the layout, total dimension, dimension per space, and basis_state_index are independent of insertion order. Copies, assigned objects and incrementally built objects report the same layout as the original.",
  ["inputs", "histories", "configurations"], "all sets of elementary spaces up to the stated size with symbolic indices, kinds, bit widths and insertion order",
  "Tests check one or two fixed spaces in one insertion order.",
  [L+"hilbert_space.hpp", L+"elementary_space.hpp"], [("hilbert_space::recompute_bit_ranges, add, copy", L+"hilbert_space.hpp")], ["hilbert_space public accessors"])

p("C13", "Enumeration of basis states visits exactly the valid product states",
  "foreach over a Hilbert space calls the functor exactly once, in increasing order, for every index whose every bit range holds a value below the dimension of its elementary space, and for no other index; the number of calls equals the reported dimension, also when dimensions are not powers of two.",
  ["inputs", "configurations"], "all Hilbert spaces up to the stated number of spaces with symbolic dimensions; a symbolic index decides membership",
  "Tests enumerate three fixed spaces.",
  [L+"hilbert_space.hpp"], [("foreach / sparse_foreach_basis_state", L+"hilbert_space.hpp")], ["foreach(hilbert_space, f), dim()"])

p("C14", "Compressed state view is a bijection onto consecutive indices",
  "For a Hilbert space with spaces of arbitrary dimensions, map_index of the compressed view is a strictly increasing bijection between valid basis states and 0..dim-1, and get_element, update_add_element, zeros_like, set_zeros and foreach through the view address exactly that element of the underlying vector.",
  ["inputs", "configurations"], "all Hilbert spaces up to the stated number of spaces with symbolic dimensions, symbolic basis-state indices",
  "Tests use a few fixed Hilbert spaces.",
  [L+"compressed_state_view.hpp"], [("compressed_state_view::map_index", L+"compressed_state_view.hpp"), ("foreach", L+"compressed_state_view.hpp")], ["compressed_state_view interface"])

p("C15", "Mapped basis views and basis mappers address the declared states",
  "A mapped basis view with a map {state -> position} reads and writes exactly the mapped elements and enumerates exactly the mapped states; a basis mapper built from states, a space, or an operator list maps each reachable basis state to a distinct consecutive position, inverse maps invert it, and the operator-list construction contains exactly the states reached by the documented products acting on the vacuum.",
  ["inputs"], "all maps up to the stated size with symbolic keys; operator lists over symbolic generators up to the stated size",
  "Tests use fixed maps and operators.",
  [L+"mapped_basis_view.hpp"], [("mapped_basis_view, basis_mapper", L+"mapped_basis_view.hpp")], ["mapped_basis_view / basis_mapper interface"])

p("C16", "N-fermion sector views index the fixed-number subspace one-to-one",
  "For M fermionic modes plus any non-fermionic bits and N particles, the sector view's map_index is a bijection from basis states with exactly N occupied modes onto 0..size-1 with size = binomial(M,N)*2^(other bits), its enumeration and basis-state list are inverse to map_index, and all ranking algorithms satisfy this.",
  ["inputs", "configurations"], "all basis-state indices for every (M, N, other bits) within the stated bounds, up to 63 modes for ranking kernels",
  "Tests enumerate M up to ~11 exhaustively at fixed sizes; larger M, shifts and table indexing near word limits are not reached.",
  [L+"n_fermion_sector_view.hpp", L+"bit_ops.hpp"], [("combination_ranking / staggered_ranking / trie_ranking, unranking_generator, binomial", L+"n_fermion_sector_view.hpp")], ["n_fermion_sector_view::map_index, foreach, n_fermion_sector_size, n_fermion_sector_basis_states"])

p("C17", "N-fermion multisector views index the intersection of sectors one-to-one",
  "For disjoint groups of fermionic modes with prescribed particle numbers, the multisector view's map_index is a bijection from the basis states satisfying every constraint onto 0..size-1, size equals the product of sector sizes and free bits, enumeration lists exactly those states, and this holds wherever the modes lie in the 64-bit index and for copies of the view. Overlapping sectors are rejected.",
  ["inputs", "configurations"], "all basis-state indices; all assignments of up to the stated number of modes to sectors",
  "Tests enumerate two or three fixed sector choices in small spaces; modes at high bit positions and copies are not reached.",
  [L+"n_fermion_sector_view.hpp"], [("n_fermion_multisector_view, multisector_unranking_generator, n_fermion_sector_params_t", L+"n_fermion_sector_view.hpp")], ["n_fermion_multisector_view interface"])

p("C18", "Operators applied through views equal the projected action",
  "Applying a linear operator from one view to another (compressed, mapped-basis, sector or multisector view, in any combination with plain vectors) gives, for every source state inside the view, the same amplitudes as the action on the full space whenever the images remain inside the target view.",
  ["inputs", "programs"], "all source states with symbolic amplitudes, symbolic operators that conserve the viewed quantum numbers",
  "Tests apply one or two hopping operators to fixed vectors.",
  [L+"loperator.hpp", L+"n_fermion_sector_view.hpp", L+"compressed_state_view.hpp", L+"mapped_basis_view.hpp"], [("loperator::act through StateVector concept", L+"loperator.hpp")], ["loperator::operator()(src view, dst view)"])

p("C19", "Disjoint sets implement a union-find partition for every history",
  "After any sequence of make_set, root_union and set_union operations, two elements have the same representative exactly when they are connected by the performed unions, the representative belongs to the set, sizes and number of sets agree, and compression and index normalisation do not change the partition; after compression and normalisation each representative is the smallest element of its set.",
  ["histories"], "all operation sequences up to the stated length on the stated number of elements, operands symbolic",
  "Tests run one fixed sequence.",
  [L+"disjoint_sets.hpp"], [("disjoint_sets", L+"disjoint_sets.hpp")], ["disjoint_sets interface"])

p("C20", "Space partition finds exactly the connected subspaces of an operator",
  "space_partition groups basis states so that two states share a subspace exactly when they are connected through non-zero matrix elements of the operator (in either direction); subspace indices are consecutive, subspace_basis/subspace_bases, dim and n_subspaces agree, every basis state belongs to one subspace, and the collected matrix elements are exactly the non-zero elements of the operator.",
  ["inputs", "programs"], "all operators over a small space with symbolic (arbitrary) matrix elements",
  "Tests partition three fixed Hamiltonians.",
  [L+"space_partition.hpp", L+"disjoint_sets.hpp", L+"sparse_state_vector.hpp"], [("space_partition constructor", L+"space_partition.hpp")], ["space_partition interface"])

p("C21", "merge_subspaces makes an operator pair map subspaces one-to-one",
  "After merge_subspaces(Cd, C), every resulting subspace is a union of former subspaces, and each subspace is mapped by Cd into at most one subspace and by C into at most one subspace, with matrix elements reported for exactly the non-zero elements; merging joins nothing that the requirement does not force.",
  ["inputs", "programs"], "all pairs of operators over a small space with symbolic matrix elements",
  "Tests merge with the creation operators of two fixed models.",
  [L+"space_partition.hpp"], [("space_partition::merge_subspaces", L+"space_partition.hpp")], ["space_partition::merge_subspaces"])

p("C22", "Sparse state vectors behave as dense vectors",
  "A sparse state vector holds, for every index, exactly the value a dense vector would hold after the same sequence of writes, additions, zeroing and pruning; additions never leave a zero stored, pruning removes exactly the zero elements (or those selected by the predicate), enumeration visits each stored element once and n_nonzeros counts the stored elements; applying an operator to it equals the dense result.",
  ["histories", "inputs"], "all operation sequences up to the stated length with symbolic indices and values",
  "Tests run fixed sequences.",
  [L+"sparse_state_vector.hpp", L+"state_vector.hpp"], [("sparse_state_vector, foreach, prune", L+"sparse_state_vector.hpp")], ["sparse_state_vector interface"])

p("C23", "Parametric operators evaluate each coefficient at the given arguments",
  "A parametric linear operator acts, for given coefficient arguments, as the ordinary operator whose every coefficient is evaluated at those arguments; at(), act() and the coefficient-caching call form agree, for lvalue and rvalue arguments and any number of terms.",
  ["inputs"], "all arguments, all states with symbolic amplitudes, expressions with the stated number of terms",
  "Tests evaluate one operator at fixed times with scalar arguments passed by value.",
  [L+"loperator.hpp"], [("parametric_loperator::at / act_impl / act_and_store_coeffs", L+"loperator.hpp")], ["parametric_loperator interface"])

p("C24", "Bit-manipulation primitives are correct on full 64-bit words",
  "Popcount, population parity, trailing-zero count, parallel bit deposit and parallel bit extract compute their definition for every 64-bit argument, and extract inverts deposit on the mask.",
  ["inputs"], "all 64-bit arguments (proved by the solver without enumeration)",
  "Tests compare against a naive implementation on a few hundred values.",
  [L+"bit_ops.hpp"], [("popcount, parity_number_of_bits, count_trailing_zeros, deposit_bits, extract_bits", L+"bit_ops.hpp")], ["detail:: bit functions"])

p("C25", "Elementary spaces have the documented dimension and sufficient width",
  "Each elementary space reports the dimension of its degree of freedom (2 for fermions, the requested truncation for bosons, 2S+1 for spins) and the minimal number of bits that can hold it; the constructor helpers create for each generator the space of the right algebra, indices, spin and dimension (default or per-generator), for every dimension representable.",
  ["inputs", "configurations"], "all dimensions up to 2^63 and all spins up to the stated bound, symbolic indices",
  "Tests build spaces of dimension up to 16.",
  [L+"elementary_space_boson.hpp", L+"elementary_space_fermion.hpp", L+"elementary_space_spin.hpp", L+"es_constructor.hpp"], [("n_bits computation", L+"elementary_space_*.hpp"), ("es_constructor / boson_es_constructor", L+"es_constructor.hpp")], ["elementary_space::dim, n_bits; make_space_*; hilbert_space(expr, es_constructor)"])

p("C26", "Unrepresentable requests are rejected with an exception, not misapplied",
  "Adding a duplicate elementary space, exceeding 63 bits in total, asking for the bit range or dimension of an absent space or algebra, building an operator whose generators have no space, a generator without a constructible space, a sector with more particles than modes or unknown or overlapping modes, a number the scalar type cannot hold, each raises the documented exception and never yields a silently wrong object; valid requests never raise.",
  ["inputs", "configurations"], "all combinations of spaces and generators up to the stated size with symbolic indices and widths",
  "Tests check one instance of each exception.",
  [L+"hilbert_space.hpp", L+"es_constructor.hpp", L+"loperator.hpp", L+"monomial_action_fermion.hpp", L+"n_fermion_sector_view.hpp"], [("hilbert_space exceptions", L+"hilbert_space.hpp"), ("unknown_generator", L+"monomial_action.hpp")], ["exceptions thrown by public constructors"])

p("C27", "Dynamically indexed expressions behave as statically indexed ones",
  "Expressions with dynamic index sequences obey the same algebra as statically indexed ones: mapping every static index tuple to a dynamic sequence commutes with products, sums and conjugation, and index sequences of mixed length and type (integers and strings) are distinguished and ordered consistently.",
  ["inputs", "programs"], "all words up to the stated length with symbolic integer indices; symbolic short strings",
  "Tests compare a few fixed dynamic expressions.",
  [E+"dyn_indices.hpp", E+"factories_dyn.hpp", E+"expression.hpp"], [("dyn_indices", E+"dyn_indices.hpp"), ("dynamic factories", E+"factories_dyn.hpp")], ["libcommute::dynamic factories"])

p("C28", "Eigen vectors, maps and blocks work as state vectors like std::vector",
  "Reading, accumulating, zeroing, cloning and enumerating an Eigen vector, segment, map or column, and applying operators to them, gives the same values at the same indices as std::vector and touches no element outside the given segment.",
  ["inputs"], "all indices and integer amplitudes within the stated sizes",
  "Tests apply one operator to fixed vectors.",
  [L+"state_vector_eigen3.hpp"], [("StateVector overloads for Eigen types", L+"state_vector_eigen3.hpp")], ["get_element, update_add_element, set_zeros, zeros_like, foreach on Eigen types"])

p("C29", "Printed expressions identify the expression",
  "Printing an expression writes every term with its coefficient and its generators in stored order, with all index values, so that the printed form can be read back: expressions that differ print differently and equal expressions print identically, whenever the coefficients themselves print exactly and string indices contain no separators; powers, the unit monomial and the zero expression are printed unambiguously.",
  ["inputs"], "all expressions with the stated number of terms and symbolic small indices",
  "Tests compare a few fixed strings.",
  [E+"expression.hpp", E+"monomial.hpp", E+"generator_*.hpp", T+"utility.hpp"], [("operator<<", E+"expression.hpp"), ("print_tuple", T+"utility.hpp")], ["operator<<"])

p("C30", "Factories return the operators they name",
  "c_dag, c, n, a_dag, a, S_p, S_m, S_x, S_y, S_z (for spin 1/2 and every other spin, real or complex, static or dynamic indices) denote the named operator: conjugate pairs are conjugate, n equals c_dag*c, S_x and S_y are the half sums/differences of S_p and S_m, and the spin commutation relations hold.",
  ["inputs"], "all index values, spins up to the stated bound",
  "Tests print factories for one index each.",
  [E+"factories.hpp", E+"factories_dyn.hpp"], [("factory functions", E+"factories.hpp")], ["static_indices:: and dynamic_indices:: factories"])

p("C32", "Coefficients of any conforming scalar type give exact arithmetic",
  "Expressions and linear operators work with every scalar type that meets the documented requirements, including user-defined types without default constructor or compound assignments and boost::rational: sums, differences, products with scalars, constants and other expressions, negation, Hermitian conjugation and the action on state vectors give exactly the coefficients that the arithmetic of the scalar type prescribes (structure constants such as 1/2 and 1/4 enter exactly), a coefficient that vanishes in that type is never stored, and a constant the type cannot represent is rejected with an exception.",
  ["inputs", "programs"], "all coefficients of a finite field and all small fractions, all words of generators up to the stated length with arbitrary indices, all vectors over that field",
  "Tests multiply a few fixed coefficients of a mock complex type; the fallbacks for types without compound assignments and the conversion of structure constants are used on all paths of the algebra code.",
  [T+"scalars/boost_rational.hpp", T+"scalar_traits.hpp", E+"expression.hpp", L+"loperator.hpp", L+"state_vector.hpp"],
  [("scalar_traits<boost::rational>::make_const / is_zero", T+"scalars/boost_rational.hpp"), ("add_assign, sub_assign, mul_assign", T+"scalar_traits.hpp"), ("normalize_and_store, store_monomial, *_impl operators", E+"expression.hpp")],
  ["expression arithmetic, loperator::operator()"])

p("C33", "Copies are independent values that outlive their sources",
  "Expressions, monomials, linear operators, Hilbert spaces, state views, basis mappers, space partitions, disjoint sets and sparse vectors have value semantics: a copied, moved, assigned or swapped object has the value of the original, changing a copy never changes the original (a view made from an lvalue refers to that vector, one made from an rvalue owns it), and a copy remains valid after the original is gone. Linear operators, Hilbert spaces and views remain valid after the expressions, Hilbert spaces and sector descriptors they were built from are destroyed; no operation touches freed memory.",
  ["inputs", "histories"], "all ways to copy, move, assign and swap combined with every listed modification and destruction order, all generators, indices, coefficients and basis states within the bounds",
  "Tests keep every source object alive and seldom change copies; sharing of generators, tables or spaces between copies shows only under particular histories.",
  [E+"expression.hpp", E+"monomial.hpp", L+"loperator.hpp", L+"hilbert_space.hpp", L+"n_fermion_sector_view.hpp", L+"compressed_state_view.hpp", L+"mapped_basis_view.hpp", L+"space_partition.hpp", L+"sparse_state_vector.hpp", L+"disjoint_sets.hpp"],
  [("special member functions of the classes", "include/libcommute"), ("hilbert_space copy constructor and assignment", L+"hilbert_space.hpp"), ("state_vector member of the views (Ref)", L+"*_view.hpp")],
  ["copy/move construction and assignment, std::swap, destruction"])

p("C34", "User-defined algebras take part in spaces and operators",
  "An algebra with an ID of at least min_user_defined_algebra_id, given by a generator class, an elementary space class and specialisations of es_constructor and monomial_action, works beside the built-in ones: its spaces occupy their own bits after the built-in ones in the order of algebra IDs, constructors and operators hand every generator to the specialisation of its own algebra (with the constructor arguments meant for it), operators act as the composition of all actions, states are enumerated, compressed, sorted into sectors and partitioned as for built-in algebras, and a generator of an algebra missing from the constructor or the operator is rejected with the documented exception.",
  ["inputs", "configurations", "programs"], "all words of generators up to the stated length with symbolic indices, all lists of known algebras considered, all basis states",
  "Tests use one user-defined algebra alone (gamma matrices on one four-dimensional site); the dispatch over lists of algebras is a recursion over templates whose branches depend on which algebras occur in a product.",
  [L+"es_constructor.hpp", L+"monomial_action.hpp", L+"hilbert_space.hpp", L+"loperator.hpp", "include/libcommute/algebra_ids.hpp"],
  [("es_constructor_impl", L+"es_constructor.hpp"), ("monomial_action_impl::find_algebra_monomial_subrange, act", L+"monomial_action.hpp"), ("recompute_bit_ranges", L+"hilbert_space.hpp")],
  ["hilbert_space(expr, es_constructor), loperator<Scalar, AlgebraIDs...>"])

p("C35", "Structure constants and linear functions keep what an algebra declares",
  "A structure constant (var_number) holds exactly the integer, fraction or real number it was made from, together with its kind: it compares equal to another exactly when kind and value agree, is_zero() is true exactly for a stored zero, and its floating-point value, printed form and conversion to every scalar type that can hold it are the number itself. A linear function holds its constant and its terms in the order given, in every form of construction and assignment; set() replaces all that was there before. A product of two generators, a reduced square or power yields exactly the declared constants, in whichever form (integer, fraction, real) they are given, and no term with a zero coefficient. The zero test of real and complex scalars is the documented one (below 100 machine epsilon, in both parts), that of integers is exact.",
  ["inputs", "programs"], "all kinds and values of two constants (32-bit integers and fractions symbolic), all linear functions within the bounds, all small relations y x = q x y + k + r x + s y and x x = u x + v",
  "Tests define one algebra (gamma matrices) with integer constants that are never zero and compare a few literals; rational and real constants, vanishing terms and reuse of a linear function occur only inside of user-defined algebras.",
  ["include/libcommute/utility.hpp", "include/libcommute/scalar_traits.hpp", E+"expression.hpp", E+"generator.hpp"],
  [("var_number, linear_function", "include/libcommute/utility.hpp"), ("scalar_traits::make_const, is_zero, conj", "include/libcommute/scalar_traits.hpp"), ("expression::normalize_and_store (process_f)", E+"expression.hpp")],
  ["var_number, linear_function<T>, generator<...>::swap_with/simplify_prod"])

p("C31", "GMP coefficients give exact arithmetic in expressions and operators",
  "Expressions and operators with GMP integer/rational/float coefficients compute the same results as exact arithmetic over the corresponding ring.",
  ["inputs"], "all coefficients",
  "Tests use a few fixed values.",
  [T+"scalars/gmpxx.hpp"], [("scalar_traits specialisations", T+"scalars/gmpxx.hpp")], ["expression<mpz_class,...>"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
