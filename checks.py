# Table of checks: property -> harness, jobs (entry, parameter tuples), bounds.
CHECKS = {}
T = "thorough"
CHECKS["C01"] = dict(harness="c01.cpp",
  bounds="words of up to 5 fermion or 5 boson generators, 4 spin-1/2 or spin-1 generators, 3 generators of any mix up to spin 3/2 (thorough: one more generator), indices unrestricted 32-bit integers (every equality/order pattern), amplitudes compared on every symbolic basis state; coefficients 1 (long) or double",
  jobs=[dict(entry="c01_chain_long", params=[(5, 0, 1, -1), (5, 2, 3, -1)], covers=["several terms"], weight=5),
        dict(entry="c01_chain_double", params=[(4, 7, 9, -1), (4, 4, 6, -1), (3, 0, 12, -1)], covers=["several terms"], weight=6),
        dict(entry="c01_ctor_double", params=[(3, 0, 12, -1)], weight=6),
        dict(entry="c01_chain_double", tier=T, params=[(4, 0, 12, k) for k in range(13)] + [(4, 10, 12, -1), (5, 4, 6, -1)], weight=3, time=3000),
        dict(entry="c01_chain_long", tier=T, params=[(6, 0, 1, 0), (6, 0, 1, 1), (6, 2, 3, 2), (6, 2, 3, 3)], weight=9, time=3000)])
CHECKS["C02"] = dict(harness="c02.cpp",
  bounds="ring identities on triples of expressions with up to 2 terms (integer coefficients symbolic in [-2,2]), single generators of every algebra; words of up to 4 generators in two arrangements; powers up to 5; indices unrestricted 32-bit integers",
  jobs=[dict(entry="c02_ring_long", params=[(0, 1), (1, 1), (0, 2), (6, 1)], weight=3), dict(entry="c02_ring_double", params=[(2, 1)], weight=4),
        dict(entry="c02_words_double", params=[(4, 2)], weight=3), dict(entry="c02_words_long", params=[(4, 0)]),
        dict(entry="c02_mixed_int_double", params=[(0, 2), (1, 1), (6, 1)], covers=["cancellation"]), dict(entry="c02_mixed_double_int", params=[(1, 2)], covers=["cancellation"]), dict(entry="c02_mixed_int_long", params=[(0, 2)], covers=["cancellation"]),
        dict(entry="c02_powers_double", params=[(4, 2)]), dict(entry="c02_powers_long", params=[(5, 3)])])
CHECKS["C03"] = dict(harness="c03.cpp",
  bounds="words of up to 4 fermion or 3 spin-1/2 generators or 2 of any integer-safe mix (plus one additional term); coefficients symbolic small (complex) integers; indices unrestricted 32-bit integers",
  jobs=[dict(entry="c03_conj_long", params=[(4, 3, 1)], weight=2), dict(entry="c03_conj_double", params=[(2, 3, 1)], weight=9),
        dict(entry="c03_conj_complex", params=[(6, 2, 1)], weight=2), dict(entry="c03_antihom_complex", params=[6], weight=2), dict(entry="c03_antihom_double", params=[2], weight=2), dict(entry="c03_tiny", params=[(2, 1), (2, 2)], covers=["done"])])
CHECKS["C05"] = dict(harness="c05.cpp",
  bounds="expressions of up to 3 terms with symbolic coefficients and indices (all coincidence patterns of the monomials); scalars symbolic; int, long, double, complex<long>",
  jobs=[dict(entry="c05_binary_long", params=[(3, 0), (3, 1)]), dict(entry="c05_binary_complex", params=[(2, 0), (2, 1)]),
        dict(entry="c05_self_long", params=[(3, k) for k in range(5)]), dict(entry="c05_scalars_long", params=[(3, k) for k in range(4)]),
        dict(entry="c05_scalars_complex", params=[(2, k) for k in range(4)]), dict(entry="c05_mixed_int_long", params=[(2, k) for k in range(3)]),
        dict(entry="c05_mixed_long_double", params=[(2, k) for k in range(3)]), dict(entry="c05_transform", params=[3]), dict(entry="c05_self_unsigned", params=[(3, k) for k in range(4)]), dict(entry="c05_iteration", params=[3])])
CHECKS["C04"] = dict(harness="c04.cpp",
  bounds="generators: every kind (fermion, boson, spin 1/2, 1, 3/2 components, user algebra) with int, (int,int), string and dynamic index tuples, index values unrestricted 32-bit; transitivity over triples; monomials up to 2 generators (lengths 0..2, thorough: 3); elementary spaces of every kind",
  jobs=[dict(entry="c04_generators", params=list(range(15)), covers=["equal", "different"]), dict(entry="c04_generators_str", params=[2]),
        dict(entry="c04_dyn_indices", params=[(2, 1)], covers=["equal"]), dict(entry="c04_generators_dyn", params=[(1, 1)]),
        dict(entry="c04_monomials", params=[(2, 2, 2, 4), (1, 1, 1, 5), (2, 2, 1, 5)], weight=3), dict(entry="c04_spaces")])
CHECKS["C06"] = dict(harness="c06.cpp",
  bounds="monomials of up to 5 generators of every kind with unrestricted 32-bit indices; concatenation of up to 2+2 generators plus a slice",
  jobs=[dict(entry="c06_access", params=[(3, 5), (4, 4)], covers=["ordered", "unordered"]), dict(entry="c06_swap", params=[(4, 4), (1, 5)]),
        dict(entry="c06_concat", params=[(2, 2, 4)], covers=["proper range"], weight=2), dict(entry="c06_concat", params=[(3, 1, 0)], covers=["proper range"]), dict(entry="c06_concat", params=[(0, 1, 0)]), dict(entry="c06_ctor"), dict(entry="c06_self", params=[(3, 4), (2, 5), (0, 0)], covers=["done"])])
CHECKS["C07"] = dict(harness="c07.cpp",
  bounds="words of up to 5 generators (nilpotent algebra; 3-4 elsewhere) over eight user-defined algebras (Clifford, 2x2 matrices, q-Weyl, gl(2), cubic, mixed, ...) covering every combination of swap constants, linear functions with and without constant, product simplifications and power reductions, alone and mixed with built-in algebras; indices unrestricted",
  jobs=[dict(entry="c07_words_long", params=[(0, 4, 0, 0), (1, 4, 0, 0), (6, 3, 0, 0), (2, 4, 0, 0), (3, 3, 0, 0), (4, 4, 0, 0), (5, 3, 0, 0), (8, 3, 0, 0), (5, 5, 1, 1), (5, 5, 0, 1), (4, 6, 1, 2), (3, 4, 1, 2), (2, 5, 1, 2)], weight=2),
        dict(entry="c07_words_long", params=[(7, 5, 0, 0)], covers=["kept", "vanishing"]),
        dict(entry="c07_words_double", params=[(4, 5, 2, 2), (3, 3, 2, 2), (1, 4, 2, 2), (8, 4, 2, 2)], weight=2)])
CHECKS["C08"] = dict(harness="c08.cpp",
  bounds="products of up to 4 operators on 5 modes, 2 on 30 modes, 3 operators at bit positions {0,1,31,32,33,62} of 63 modes, every basis state; two-term sums in spaces shared with bosons and spins; string-and-integer mode labels",
  jobs=[dict(entry="c08_words", params=[(4, 5, 0, 1), (3, 6, 0, 2), (2, 30, 0, 1), (3, 63, 1, 1)], covers=["annihilated", "survives"], weight=4),
        dict(entry="c08_mixed_space", params=[(3, 5, 3)]), dict(entry="c08_string_modes", params=[2]),
        dict(entry="c08_words", tier=T, params=[(4, 7, 0, 1), (4, 63, 1, 1), (2, 63, 0, 1), (3, 8, 0, 2)], weight=9, time=3000)])
CHECKS["C09"] = dict(harness="c09.cpp",
  bounds="products of up to 6 ladder operators on up to 3 modes of dimensions 2..8 and 127 between fermions and a spin, every occupation and every value of the other bits; powers up to 6 at dimensions 200 and 1000 around the ends of the space and of the tabulated square roots; target states for every occupation of dimensions 2^40 and 1029",
  jobs=[dict(entry="c09_words", params=[(6, 2, 4, 5, 1, 2, 1), (4, 3, 3, 2, 5, 1, 1), (6, 1, 8, 1, 1, 3, 1), (6, 1, 8, 1, 1, 3, 0), (4, 2, 4, 3, 1, 1, 0), (5, 1, 127, 1, 1, 1, 1)], covers=["annihilated", "survives"]),
        dict(entry="c09_words", params=[(5, 2, 6, 5, 1, 1, 0)], weight=5), dict(entry="c09_large", params=[(200, 6, 6), (1000, 3, 3), (128, 3, 3), (129, 3, 3)], covers=["annihilated", "survives"]),
        dict(entry="c09_targets", params=[(40, 0, 3, 1, 1), (10, 5, 2, 1, 1)], covers=["annihilated", "survives"], weight=4),
        dict(entry="c09_words", tier=T, params=[(6, 2, 7, 8, 1, 2, 1), (6, 3, 4, 3, 5, 1, 1), (6, 2, 8, 7, 1, 1, 0)], weight=9, time=3000)])
CHECKS["C10"] = dict(harness="c10.cpp",
  bounds="products of up to 4 spin operators on one site or 3 on two sites, spins 1/2, 1, 3/2, 3 and 25/2..63/2 (powers up to 4), every magnetic quantum number and every value of the other bits",
  jobs=[dict(entry="c10_words", params=[(3, 1, 2, 1, 2), (4, 1, 3, 1, 1), (4, 2, 2, 3, 1), (3, 2, 4, 4, 1), (3, 2, 3, 3, 1), (4, 1, 7, 1, 0), (4, 2, 2, 2, 2), (3, 2, 2, 5, 0), (3, 2, 2, 3, 1, 1), (3, 2, 3, 4, 0, 1)], covers=["annihilated", "survives"], weight=2),
        dict(entry="c10_powers", params=[(2, 3), (3, 4), (4, 4), (26, 4), (64, 4), (25, 4), (22, 3), (23, 3)], covers=["annihilated", "survives"]),
        dict(entry="c10_words", tier=T, params=[(5, 1, 4, 1, 1), (5, 1, 5, 1, 1), (4, 2, 3, 4, 1), (4, 2, 4, 4, 0), (5, 2, 2, 3, 0)], weight=9, time=3000)])
CHECKS["C11"] = dict(harness="c11.cpp",
  bounds="sums of three monomials (degree 0, 1, 2) with symbolic integer coefficients on 2-3 fermionic modes, one or two symbolic source records, eight call forms; dense vectors of 8 symbolic elements; A*B against A(B) and conj(A) against the adjoint for words of length 1-2 plus a second term over two fermions, a boson, spin 1/2 and spin 1; a user-defined algebra beside fermions",
  jobs=[dict(entry="c11_forms", params=[(2, 1, k) for k in range(8)], covers=["done"], weight=2), dict(entry="c11_forms", params=[(2, 2, 1)], weight=9),
        dict(entry="c11_vectors", params=[0, 1, 2]), dict(entry="c11_vectors_long", params=[2, 3], weight=3),
        dict(entry="c11_compose", params=[(1, 1, k) for k in range(12)], weight=3), dict(entry="c11_adjoint", params=[2], weight=8), dict(entry="c11_user", params=[(2, 2)]),
        dict(entry="c11_compose", tier=T, params=[(2, 1, k) for k in range(12)], weight=9, time=3000), dict(entry="c11_forms", tier=T, params=[(3, 1, k) for k in range(8)], weight=9, time=3000)])
CHECKS["C12"] = dict(harness="c12.cpp",
  bounds="spaces of up to 3 elementary spaces of symbolic kind and dimension given in every order and through several construction forms; expressions of up to 3 generators",
  jobs=[dict(entry="c12_layout", params=[(3, 0)], covers=["laid out"]), dict(entry="c12_layout", params=[(3, 1)]), dict(entry="c12_equality", params=[1, 2], covers=["same", "different"]), dict(entry="c12_layout", params=[(2, 2), (2, 3), (2, 4), (2, 6)], covers=["laid out"]), dict(entry="c12_layout", params=[(2, 5)], weight=2), dict(entry="c12_expression", params=[(3, 5)]), dict(entry="c12_wide", params=[(1, 2), (3, 1)], covers=["wide", "narrow"])])
CHECKS["C13"] = dict(harness="c13.cpp",
  bounds="spaces of fermions, bosons of dimension up to 6 and spins up to 3/2 with at most 9 bits in every combination of dimensions; prefix of larger spaces up to 63 bits; dimension counts over all layouts",
  jobs=[dict(entry="c13_visit", params=[(1, 2, 1, 5, 0), (0, 3, 0, 5, 1), (2, 1, 1, 6, 2), (1, 1, 2, 4, 3)], weight=3), dict(entry="c13_visit", params=[(0, 0, 0, 4, 3)]), dict(entry="c13_prefix"), dict(entry="c13_nested"), dict(entry="c13_total")])
CHECKS["C14"] = dict(harness="c14.cpp",
  bounds="views of sparse spaces of up to 9 bits with every combination of boson dimensions up to 9 and spins up to 3/2 (every index, symbolic); sparse spaces of about 60 bits with symbolic states",
  jobs=[dict(entry="c14_bijection", params=[(1, 2, 0, 5), (0, 3, 0, 4), (2, 1, 1, 6), (1, 1, 2, 4), (2, 0, 2, 6)], weight=3), dict(entry="c14_bijection", params=[(0, 1, 0, 9), (0, 0, 1, 9)]),
        dict(entry="c14_large", params=[(2, 2), (0, 2)], weight=9), dict(entry="c14_ownership"), dict(entry="c14_nested"),
        dict(entry="c14_bijection", tier=T, params=[(0, 4, 0, 4), (2, 2, 1, 7)], weight=9, time=3000)])
CHECKS["C15"] = dict(harness="c15.cpp",
  bounds="maps of up to 3 arbitrary symbolic 64-bit basis states and any probed state; operator lists of up to 3 two-term operators (symbolic choice and coefficients) with up to 3 factors in a 4-site space; fixed-number sectors of fermions and bosons up to dimension 4",
  jobs=[dict(entry="c15_view", params=[(2, 8, 0), (3, 4, 1)], covers=["inside", "outside"], weight=3), dict(entry="c15_operator", weight=2), dict(entry="c15_products", params=[(2, 2, 0), (2, 3, 1), (3, 2, 1), (1, 3, 0)]), dict(entry="c15_sector", params=[(2, 2, 4)]), dict(entry="c15_bosons", params=[(2, 4, 4), (2, 4, 5), (3, 3, 3)]),
        dict(entry="c15_products", tier=T, params=[(3, 3, 0)], weight=5, time=3000), dict(entry="c15_sector", tier=T, params=[(3, 2, 6), (2, 3, 5)], weight=5, time=3000)])
CHECKS["C16"] = dict(harness="c16.cpp",
  bounds="bijection: up to 9 modes and 2 other bits, every N, all ranking algorithms (combinations; staggered and trie with chunks of 1-4 bits, single jobs with 5, 6 and 8), every state symbolic; injectivity and range: up to 63 modes with N=2 or M-N=3 and 20-30 modes for the non-default algorithms; ranks of symbolic states of sectors with up to 62 modes for the three algorithms with large tables (C(62,30) states); binomial sizes for M up to 63",
  jobs=[dict(entry="c16_bijection", params=[(6, 0, -1), (5, 1, 2), (4, 2, 6)], weight=2), dict(entry="c16_bijection", params=[(9, 0, 0), (8, 1, 2), (7, 2, 3)], weight=6), dict(entry="c16_bijection", params=[(8, 0, 6)], weight=10), dict(entry="c16_bijection", params=[(7, 1, 9), (7, 1, 10), (6, 0, 11), (6, 1, 12)], weight=3),
        dict(entry="c16_injective", params=[(63, 2, 0, 0), (40, 38, 3, 0), (30, 27, 3, 0), (20, 2, 0, 3), (12, 2, 0, 0)], weight=4), dict(entry="c16_sizes", params=[0, 5], weight=4), dict(entry="c16_prefix"), dict(entry="c16_large", params=[(40, 20, 0, 0), (60, 37, 3, 0), (62, 30, 1, 0), (13, 6, 2, 4), (12, 7, 0, 7), (24, 12, 0, 3), (24, 12, 1, 9), (12, 7, 0, 10), (14, 6, 0, 11), (13, 5, 0, 12), (40, 20, 0, 3), (50, 25, 0, 2), (62, 30, 1, 4)]), dict(entry="c16_nested", params=[(3, 1), (5, 0)]),
        dict(entry="c16_injective", tier=T, params=[(63, 3, 0, 0)], weight=9, time=3000), dict(entry="c16_bijection", tier=T, params=[(8, 0, k) for k in range(9)], weight=9, time=3000)])
CHECKS["C17"] = dict(harness="c17.cpp",
  bounds="up to 4 modes distributed in every way over up to 3 sectors and none, every N, up to 2 other bits, all nine ranking algorithms, copies and moved views; sectors spread over 62 modes",
  jobs=[dict(entry="c17_bijection", params=[(3, 0, 2, -1, 0), (4, 0, 2, 0, 0), (4, 1, 2, 2, 1), (4, 0, 2, 6, 2), (4, 2, 1, 0, 1), (3, 0, 3, 0, 0), (4, 1, 2, 9, 0), (4, 0, 2, 10, 1)]), dict(entry="c17_wide", params=[(0, 0), (0, 1)], weight=9), dict(entry="c17_large", params=[(40, 20, 2, 1, 0), (36, 18, 1, 1, 2), (18, 9, 18, 9, 0)], weight=5), dict(entry="c17_nested", params=[(3, 1, 2), (4, 0, 2)]), dict(entry="c17_invalid", params=[3], covers=["bad", "fine", "too many"]),
        dict(entry="c17_bijection", tier=T, params=[(6, 0, 2, 0, 0), (5, 1, 3, 0, 1), (5, 1, 2, 3, 2), (5, 1, 2, 6, 0)], weight=9, time=3000)])
CHECKS["C18"] = dict(harness="c18.cpp",
  bounds="every pair of plain, compressed, mapped, sector, multisector and sparse vectors over 4 (thorough: 5) fermionic modes and a spin, every particle number and source state, operators of up to two words with symbolic coefficients conserving or shifting particle numbers, two symbolic source amplitudes; sparse spaces with bosons of dimension up to 4, spin 1 and a fermion",
  jobs=[dict(entry="c18_action", params=[(s, d, 4, 1, k, 1, 0) for k in range(3) for s in range(6) for d in range(6) if s or d]),
        dict(entry="c18_action", params=[(3, 3, 4, 0, 0, 2, 1), (3, 2, 4, 1, 1, 2, 0), (4, 3, 5, 1, 2, 1, 1), (4, 4, 4, 0, 0, 2, 1), (1, 3, 4, 0, 0, 2, 0), (2, 4, 4, 2, 0, 1, 1)], weight=3),
        dict(entry="c18_sparse", params=[(s, d, 4) for s in range(3) for d in range(3) if s or d], weight=2, covers=["done"]),
        dict(entry="c18_action", tier=T, params=[(s, d, 5, 1, k, 2, 1) for k in range(2) for s, d in ((3, 3), (4, 4), (2, 3), (3, 4), (1, 2))], weight=9, time=3000)])
CHECKS["C19"] = dict(harness="c19.cpp",
  bounds="4 unions with symbolic operands on 4 elements (thorough: 5 elements); every history of 4 unions on 4 elements, 3 on 6, and 3 operations of every kind on 3 to 9 elements (thorough: 4), each followed by compression and normalisation",
  jobs=[dict(entry="c19_symbolic", params=[(4, 4), (6, 2)], weight=6), dict(entry="c19_history", params=[(4, 4, 0, 0), (6, 3, 0, 1), (3, 3, 1, 1)], weight=3),
        dict(entry="c19_symbolic", tier=T, params=[(5, 4)], weight=9, time=3000), dict(entry="c19_history", tier=T, params=[(3, 4, 1, 0), (5, 4, 0, 0)], weight=9, time=3000)])
CHECKS["C20"] = dict(harness="c20.cpp",
  bounds="8-state spaces (3 fermions; 2 fermions and a spin) with operators of up to 2 terms out of 6 with symbolic 21-bit integer coefficients, Hermitian and not; sparse spaces of a fermion and two bosons of dimension 1..3",
  jobs=[dict(entry="c20_partition", params=[(1, 1, 0), (1, 2, 0), (2, 2, 1)], weight=2), dict(entry="c20_sparse", params=[3], weight=2),
        dict(entry="c20_partition", tier=T, params=[(1, 3, 0), (2, 3, 1)], weight=5, time=3000), dict(entry="c20_sparse", tier=T, params=[4], weight=5, time=3000)])
CHECKS["C21"] = dict(harness="c20.cpp",
  bounds="8-state spaces, Hamiltonians with up to 1 hopping/pairing/flip term, Hermitian pairs or independent operators with two terms and symbolic 21-bit integer coefficients, one or two successive merges; sparse spaces of a fermion and two bosons of dimension 1..3",
  jobs=[dict(entry="c21_merge", params=[(1, 1, 1, 1), (2, 1, 1, 1), (2, 1, 0, 1), (1, 0, 1, 2)], weight=3), dict(entry="c20_sparse", params=[3], weight=2),
        dict(entry="c21_merge", tier=T, params=[(1, 2, 1, 1), (1, 1, 1, 2), (1, 0, 0, 2)], weight=9, time=3000)])
CHECKS["C22"] = dict(harness="c22.cpp",
  bounds="histories of up to 4 operations of every kind on 2 elements (3 steps for double and complex values), values symbolic in [-2,2]; additions at 2 arbitrary indices below 256; operators on 8-element vectors with up to 3 symbolic elements",
  jobs=[dict(entry="c22_history_long", params=[(2, 4, 0), (3, 3, 0)], weight=2), dict(entry="c22_history_double", params=[(2, 3, 0)]), dict(entry="c22_history_complex", params=[(2, 3, 0)]), dict(entry="c22_wide", params=[(2, 8)], weight=5), dict(entry="c22_far", params=[3], covers=["done"]), dict(entry="c22_operator", params=[0, 1, 2], weight=4),
        dict(entry="c22_history_long", tier=T, params=[(2, 5, 0), (3, 4, 0)], weight=9, time=3000), dict(entry="c22_wide", tier=T, params=[(2, 10), (3, 7)], weight=9, time=3000)])
CHECKS["C23"] = dict(harness="c23.cpp",
  bounds="two terms (thorough: three) out of five words on two fermions and a spin with symbolic polynomial coefficients, every basis state, fourteen call forms with none, one or two integer or move-aware class arguments; real arguments with bosons of dimension 3 and 4",
  jobs=[dict(entry="c23_forms", params=[(2, k) for k in range(14)], covers=["done"], weight=3), dict(entry="c23_real", params=[3, 4]),
        dict(entry="c23_forms", tier=T, params=[(3, k) for k in (0, 2, 5, 9, 11)], weight=9, time=3000)])
CHECKS["C24"] = dict(harness="c24.cpp", bounds="64-bit arguments unrestricted for popcount/parity/ctz/pow2; deposit/extract: masks inside any window of the stated width, all 64-bit values; portable code paths (no GNU/BMI2 intrinsics): every 64-bit value and every bit position",
  jobs=[dict(entry="c24_counts"), dict(entry="c24_ctz"), dict(entry="c24_pow2"),
        dict(entry="c24_extract", params=[6], covers=["probe"]), dict(entry="c24_deposit", params=[6], covers=["probe"]), dict(entry="c24_roundtrip", params=[6]), dict(entry="c24_wide", params=[3], covers=["done"]), dict(entry="c24_wide", params=[3], harness="c24_portable.cpp"),
        dict(entry="c24_popcount_step", harness="c24_portable.cpp", params=[0, 16, 32, 48], weight=3), dict(entry="c24_parity_step", harness="c24_portable.cpp", params=[0, 16, 32, 48]), dict(entry="c24_ctz", harness="c24_portable.cpp"), dict(entry="c24_pow2", harness="c24_portable.cpp")],
  optional=["c24_portable.cpp"])
CHECKS["C25"] = dict(harness="c25.cpp",
  bounds="boson dimensions: every 62-bit value (symbolic), every dimension up to 300 and 2^k-2..2^k+2 through clones, factories and Hilbert spaces; spins of multiplicity 2..68 and around powers of two up to 2^20; constructors for every kind of generator with boson dimensions up to 40; spaces of expressions of 3 generators",
  jobs=[dict(entry="c25_boson", params=[0, 1]), dict(entry="c25_boson_sym"), dict(entry="c25_spin"), dict(entry="c25_fermion"), dict(entry="c25_constructor", weight=3), dict(entry="c25_from_expression", params=[3]),
        dict(entry="c25_from_expression", params=[4], tier=T)])
CHECKS["C26"] = dict(harness="c26.cpp",
  bounds="sequences of up to 4 added spaces of 10 kinds (widths 0..63 bits, symbolic indices, duplicates included) and the pointer and variadic constructors; queries for absent spaces among up to 3 present ones with 32-bit symbolic indices and symbolic algebra IDs; operators over all generator words and sums of length 3 with one missing space and of length 2 with two, for every combination of algebra IDs; constructors over all words of length 3; sectors with N up to M+2 and 2^32-1, M up to 4; up to 3 sectors over 2 and 2 over 3 modes plus an unknown one; conversion of numbers in eighths, of +-2^e+d with e up to 70 and of infinities and NaN",
  jobs=[dict(entry="c26_add", params=[(3, 0, 2), (4, 0, 2), (4, 1, 2), (4, 2, 2), (2, 1, 2), (2, 2, 2)], covers=["end"]), dict(entry="c26_absent", params=[2, 3]),
        dict(entry="c26_generators", params=[(2, 1, 2, 0), (2, 2, 3, 1), (3, 1, 2, 0)], covers=["missing", "present"], weight=4),
        dict(entry="c26_generators", params=[(3, 2, 2, 0), (3, 1, 3, 1)], tier=T, weight=4, time=800),
        dict(entry="c26_constructors", params=[(2, 0), (3, 0), (3, 1)]), dict(entry="c26_expr_big", params=[1, 2, 3]),
        dict(entry="c26_sector", params=[(M, nb, sp, alg) for M, nb, sp, alg in ((0, 0, 0, 0), (0, 2, 0, 1), (1, 0, 0, 5), (2, 1, 0, 2), (3, 0, 1, 3), (4, 0, 0, 4), (4, 1, 0, 6), (3, 0, 0, 7), (3, 1, 1, 8))]),
        dict(entry="c26_multisector", params=[(2, 0, 0, 2), (2, 1, 1, 1), (3, 1, 0, 2), (2, 0, 0, 3), (0, 0, 0, 1)], covers=["rejected"]),
        dict(entry="c26_scalars"), dict(entry="c26_range", params=[0, 1, 2], covers=["inside", "outside"]), dict(entry="c26_range", params=[3], covers=["outside"]), dict(entry="c26_fractions", params=[4, 7]), dict(entry="c26_lookup", params=[2, 3, 4])])
CHECKS["C27"] = dict(harness="c27.cpp",
  bounds="index sequences of length 0..3 of 32-bit integers and strings of 1..2 symbolic characters: order and equality of every pair and triple; factories for every generator kind and every sequence of length 1..2; products, sums, conjugates and commutators of words of 1+1, 1+2, 2+1 (all algebras, spins up to 3/2) and 2+2 generators (fermions and bosons) on symbolic sites; operators of words of 2 and 3 generators on every basis state",
  jobs=[dict(entry="c27_order", params=[(0, 11, 3)]), dict(entry="c27_factories"), dict(entry="c27_alike", params=[2], weight=9, covers=["different lengths"]),
        dict(entry="c27_words_d", params=[(1, 1, 0, 12, 1, 1, 32), (1, 1, 0, 12, 2, 7, 32), (2, 1, 0, 9, 1, 1, 32)], weight=3),
        dict(entry="c27_words", params=[(2, 2, 0, 3, 1, 1, 32), (2, 2, 0, 1, 1, 2, 32)], weight=3),
        dict(entry="c27_operators", params=[(2, 0, 6, 1, 5, 32), (3, 0, 6, 4, 4, 32)], weight=3),
        dict(entry="c27_words_d", params=[(1, 2, 0, 9, 5, 5, 8), (2, 1, 0, 6, 4, 6, 8), (2, 1, 0, 12, 7, 8, 8)], weight=4, tier=T, time=800),
        dict(entry="c27_words", params=[(2, 2, 0, 3, 4, 5, 32), (2, 2, 0, 1, 1, 4, 32)], tier=T, weight=4, time=800), dict(entry="c27_operators", params=[(3, 0, 6, 1, 3, 32)], tier=T, time=800)])
CHECKS["C28"] = dict(harness="c28.cpp",
  bounds="14 kinds of Eigen vectors (dynamic and fixed vectors, segments, heads, tails, columns and Nx1 blocks of column- and row-major matrices, maps, segments of columns) of 2..4 elements in buffers of up to 12: histories of 2..3 operations with 64-bit symbolic values (long) or values from a table (double, complex); three operators between all pairs of kinds with symbolic amplitudes, directly and through sector and mapped views",
  jobs=[dict(entry="c28_history_long", params=[(k, o, n, 2, 1) for k, o, n in ((0, 0, 4), (1, 0, 4), (2, 3, 4), (5, 1, 4), (9, 2, 3))]),
        dict(entry="c28_history_long", params=[(k, o, n, 3, 0) for k, o, n in ((0, 0, 2), (1, 0, 4), (2, 0, 3), (2, 9, 3), (3, 0, 3), (4, 0, 4), (5, 2, 4), (6, 0, 4), (6, 2, 4), (7, 1, 3), (8, 0, 4), (8, 2, 2), (9, 1, 4), (11, 1, 4), (12, 5, 4), (13, 2, 3), (14, 2, 4))]),
        dict(entry="c28_history_double", params=[(k, o, n, 2, 0) for k, o, n in ((0, 0, 3), (2, 5, 3), (5, 0, 4), (7, 2, 2), (9, 4, 4))]),
        dict(entry="c28_history_complex", params=[(k, o, n, 2, 0) for k, o, n in ((0, 0, 3), (2, 5, 3), (6, 1, 4), (8, 1, 3), (9, 4, 4))]),
        dict(entry="c28_operators_long", params=[(i, (0, 2, 6, 7, 9)[(i + w) % 5], w) for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14) for w in range(3)]),
        dict(entry="c28_operators_double", params=[(0, 2, 0), (7, 6, 1), (9, 7, 2), (6, 9, 0)]),
        dict(entry="c28_operators_complex", params=[(2, 0, 0), (6, 6, 1), (7, 9, 2), (9, 2, 0)]),
        dict(entry="c28_operators_long", params=[(i, j, w) for i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 14) for j in (0, 2, 6, 7, 9) for w in range(3)], tier=T),
        dict(entry="c28_history_long", params=[(k, 1, 3, 5, 0) for k in (0, 2, 5, 7, 8, 9, 13)], tier=T, time=600)])
CHECKS["C29"] = dict(harness="c29.cpp",
  bounds="expressions of one term of 2 generators with a symbolic index in -12..120 and coefficient in -12..120, two terms of 1..2 generators, all kinds of generators (spins up to 3/2), integer, real and complex coefficients; powers up to 6; indices mixing symbolic integers in -110..110 and strings of 1..2 letters; all pairs of two-term expressions of fermions and bosons",
  jobs=[dict(entry="c29_long", params=[(1, 2, 0, 3, 1), (1, 1, 0, 12, 1), (2, 1, 0, 12, 0)], weight=2), dict(entry="c29_double", params=[(2, 1, 0, 12, 0), (1, 2, 0, 12, 0)], weight=2), dict(entry="c29_complex", params=[(2, 1, 0, 3, 0), (1, 2, 0, 3, 0)]),
        dict(entry="c29_powers", params=[(6, 2, 3), (4, 0, 3), (4, 7, 9), (4, 10, 12)]), dict(entry="c29_multi"), dict(entry="c29_spins", params=[101]), dict(entry="c29_dyn"), dict(entry="c29_pairs", params=[(0, 3)], weight=3),
        dict(entry="c29_long", params=[(2, 2, 0, 3, 0), (1, 2, 7, 12, 1)], tier=T, weight=3, time=800), dict(entry="c29_complex", params=[(2, 2, 2, 6, 0)], tier=T, time=800), dict(entry="c29_powers", params=[(7, 2, 3), (6, 7, 9)], tier=T)])
CHECKS["C30"] = dict(harness="c30.cpp",
  bounds="every factory of static and dynamic indices with no index, one 32-bit symbolic index and mixed lists with symbolic strings of 0..2 characters; spins 1/2 to 7/2; integer, real and complex scalars; matrix elements on every state of the degree of freedom; complex copies of real expressions of 3 terms",
  jobs=[dict(entry="c30_static", params=[0, 1, 2, 3]), dict(entry="c30_dynamic", params=[0, 1, 2]), dict(entry="c30_matrices"), dict(entry="c30_make_complex", params=[3])])
CHECKS["C35"] = dict(harness="c35.cpp",
  bounds="two constants of every kind (integers and fractions with every 32-bit numerator and denominator, eight real numbers including -0, the smallest denormal and 1e300); values and printed forms for numerators in [-4,4] and denominators in +-[1,4]; linear functions of up to 3 terms with symbolic basis objects and coefficients, in every constructor and form of set(); relations y x = q x y + k + r x + s y with q in [-1,2] and k, r, s in [-1,1], and x^2 = u x + v with u, v in [-2,2] for powers up to 6, each with the constants given as integers, fractions and reals; zero test at 14 multiples of epsilon in both parts",
  jobs=[dict(entry="c35_number", covers=["equal", "different", "zero", "nonzero"]), dict(entry="c35_value", covers=["done"]), dict(entry="c35_linear", params=[0, 1, 2, 3], covers=["constant", "no constant"]), dict(entry="c35_move_only", covers=["done"]),
        dict(entry="c35_forms", params=[0, 1, 2, 3], covers=["swap", "no swap"]), dict(entry="c35_square", params=[(0, 4), (1, 5), (2, 6), (3, 6)], covers=["kept", "vanishing"]), dict(entry="c35_zero", params=[0, 1, 2], covers=["zero", "nonzero"]),
        dict(entry="c35_square", tier=T, params=[(k, n) for k in range(4) for n in (2, 3, 8)])])
NOT_APPLICABLE = {
 "C31": "GMP arithmetic lives in libgmp/libgmpxx (hand-written assembly kernels outside this repository); there is no source or IR to encode, and modelling it would verify the model instead of the code.",
}
CHECKS["C32"] = dict(harness="c32.cpp",
  bounds="integers modulo 7 (a user-defined scalar type without default constructor and compound assignments; every value of every coefficient symbolic) and boost::rational<int> (numerators in [-2,2], denominators 1-3; in products and operators -1..1 and 1-2); expressions of up to 3 terms, words of up to 3 generators of every built-in kind with unrestricted 32-bit indices, in three forms; operators of up to two words on three fermions and a spin 1/2 acting on complete vectors; conversion of constants: all 16-bit integers, fractions k/d with |k| <= 16, d <= 8, numbers +-2^e+d with e up to 70",
  jobs=[dict(entry="c32_linear_z7", params=[(3, k) for k in range(5)], covers=["done"]), dict(entry="c32_linear_rational", params=[(1, 0), (1, 1)] + [(2, k) for k in range(2, 5)], covers=["done"]),
        dict(entry="c32_words_z7", params=[(3, 4, 0), (3, 4, 1), (3, 5, 0), (3, 2, 2), (2, 5, 2)], covers=["several terms"], weight=3), dict(entry="c32_words_rational", params=[(2, 5, 0), (2, 5, 1), (2, 5, 2)], covers=["several terms"], weight=4),
        dict(entry="c32_rational_const", covers=["done"], weight=2), dict(entry="c32_rational_range", covers=["inside", "outside"]), dict(entry="c32_action_z7", params=[0, 1], covers=["done"], weight=2), dict(entry="c32_action_rational", params=[0, 1], covers=["done"], weight=5),
        dict(entry="c32_linear_rational", tier=T, params=[(2, 0), (2, 1)], time=3000), dict(entry="c32_words_z7", tier=T, params=[(4, 4, 0), (3, 5, 2), (3, 5, 1)], weight=9, time=3000)])
CHECKS["C33"] = dict(harness="c33.cpp",
  bounds="expressions of words of up to 2 generators (thorough: 3) plus another term with symbolic coefficients and unrestricted indices, ten modifications of the copy, seven ways to copy, move, assign and swap; operators of up to 3 generators over a space of three fermions, bosons and spins with a symbolic basis state; Hilbert spaces of 4 elementary spaces with symbolic indices; owning and referring views of every kind and ranking algorithm over 4 modes and a spin 1/2 or a sparse space; partitions, disjoint sets, sparse vectors, basis mappers",
  jobs=[dict(entry="c33_expression", params=[(2, 0), (2, 4), (1, 6)], covers=["done"], weight=2), dict(entry="c33_parts", covers=["done"]), dict(entry="c33_loperator", params=[(3, 0), (2, 1), (2, 2)], covers=["done"], weight=2),
        dict(entry="c33_space", covers=["done"]), dict(entry="c33_views", params=[0, 1, 2, 3], covers=["done"]), dict(entry="c33_reference_views", covers=["done"]),
        dict(entry="c33_partition", covers=["done"]), dict(entry="c33_containers", covers=["done"]),
        dict(entry="c33_expression", tier=T, params=[(3, 0), (2, 6)], weight=9, time=3000)])
CHECKS["C34"] = dict(harness="c34.cpp",
  bounds="two user-defined algebras (three-state sites; ladders of up to 9 states) beside fermions, bosons and spins: spaces of up to 3 (thorough: 4) generators of symbolic kind and index through six constructor lists; operators of up to 3 generators through nine algebra lists with a symbolic basis state of 17 bits; views, sectors and partitions of spaces of up to 10 bits",
  jobs=[dict(entry="c34_space", params=[(3, 0)], covers=["both user algebras"]), dict(entry="c34_space", params=[(2, 1), (2, 2), (2, 3), (2, 4), (2, 5)], covers=["rejected"], weight=2),
        dict(entry="c34_operator", params=[(0, 3), (1, 3)], covers=["acted", "annihilated"], weight=3), dict(entry="c34_operator", params=[(2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (7, 2), (8, 3)]),
        dict(entry="c34_views", params=[0, 1]), dict(entry="c34_sector", params=[0, 1]), dict(entry="c34_partition"),
        dict(entry="c34_space", tier=T, params=[(4, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5)], weight=9, time=3000), dict(entry="c34_operator", tier=T, params=[(0, 4)], weight=9, time=3000)])
