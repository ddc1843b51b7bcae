W = "the unit tests run a few dozen fixed systems and compare with stored output; they cannot range over coefficients, shapes, options and word sizes"
N = "Bounded: holds for every value of the symbolic inputs within the bounds listed in the evidence file. Trusts clang's front end, the interpreter's semantics (validated by replaying path witnesses natively), the libc/GMP models and z3."
prop("F01", "Prime-field Groebner bases are the reduced basis of the input ideal",
 "For every finite set of polynomials over a prime field of characteristic below 2^31, every supported monomial order (degree reverse lexicographical, lexicographical, elimination blocks) and every option of the exact linear algebra, pair selection and hash table, the basis computed by the library is exactly the reduced Groebner basis of the ideal generated by the input: monic, minimal, tail-reduced, each element with its terms in decreasing order.",
 ["inputs", "configurations"], "all coefficient vectors, shapes, primes, orders and options", W,
 ["src/neogb/f4.c", "src/neogb/symbol.c", "src/neogb/update.c", "src/neogb/convert.c", "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/io.c", "src/neogb/engine.c"],
 [("F4 rounds", "f4.c core_f4"), ("pair criteria", "update.c"), ("reducer search", "symbol.c"), ("final interreduction", "f4.c reduce_basis"), ("export", "io.c export_results_from_f4")], N, observe=["export_f4"])
prop("F02", "Normal forms are the unique remainders modulo the ideal",
 "Reducing polynomials modulo an ideal over a prime field returns, for each of them and in input order, the unique polynomial congruent to it none of whose terms is divisible by a leading term of the ideal, for every characteristic below 2^31 and every monomial order, whether the ideal is given by arbitrary generators or by a Groebner basis.",
 ["inputs", "configurations"], "all polynomials to reduce, ideals, primes and orders", "the tests reduce a handful of fixed polynomials in three characteristics",
 ["src/neogb/nf.c", "src/neogb/symbol.c", "src/neogb/convert.c", "src/neogb/la_ff_32.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_8.c"],
 [("reduction matrix", "nf.c core_nf"), ("linear algebra", "exact_sparse_linear_algebra_*"), ("reading results back", "convert.c return_normal_forms_to_basis")], N, observe=["export_nf"])
prop("F03", "Row reduction is exact for every prime, word size, variant and instruction set",
 "Matrix row reduction over GF(p) yields the mathematically exact echelon form for every prime below 2^31, every coefficient value, every row length and gap structure, in all linear algebra options and in the scalar and vectorised builds alike; in particular no accumulator overflows and no element of a vectorised or unrolled loop or of its remainder is lost or duplicated.",
 ["inputs", "configurations"], "all coefficients including the extreme residues, all row lengths relative to the unrolling and vector widths, all primes and builds", "the tests use a few primes in one build of the library and random coefficients that seldom reach the extreme accumulator values",
 ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/tools.h"],
 [("row by pivots", "reduce_dense_row_by_*_pivots_*"), ("row times scalar", "normalize_*_matrix_row_ff_*"), ("delayed modular reduction", "mod2 correction")], N, observe=["export_f4", "export_nf"])
prop("R01", "CRT lifting and rational reconstruction return the right integers and fractions",
 "Lifting a residue by one more prime returns the representative that is congruent to the old residue modulo the old modulus and to the new one modulo the new prime, in the requested range; rational reconstruction succeeds for every residue that comes from a fraction within its bounds and then returns exactly that fraction in lowest terms with positive denominator, it never returns a pair that is out of bounds or not congruent to the residue, and reconstructing a vector returns numerators over one common denominator all congruent to their residues, whether or not a denominator is guessed in advance and wherever an earlier attempt stopped.",
 ["inputs"], "all residues and moduli", "every multi-modular result passes through these functions; the tests only see the final result of runs in which they mostly reconstruct generic fractions",
 ["src/crt/mpz_CRT_ui.c", "src/crt/mpq_reconstruct.c", "src/msolve/msolve.c"],
 [("lifting", "mpz_CRT_ui"), ("reconstruction", "ratrecon, ratreconwden"), ("vectors", "rational_reconstruction_mpz_ptr, rational_reconstruction_mpz_ptr_with_denom")], N, observe=["mpz_CRT_ui", "ratrecon"])
prop("R02", "Real root isolation finds every real root exactly once",
 "For every square-free univariate polynomial with integer coefficients, the real root isolation returns pairwise disjoint intervals (or exact points) with dyadic end points such that each contains exactly one real root and every real root lies in exactly one of them; the number it reports is the number of distinct real roots, whatever their sign, size and mutual distance.",
 ["inputs"], "all square-free integer polynomials", "the unit tests isolate the roots of a few fixed eliminating polynomials; missing or duplicated roots depend on coefficient signs, on roots at bisection points or at zero, on size",
 ["src/usolve/usolve.c", "src/usolve/descartes.c", "src/usolve/utils.c", "src/usolve/taylor_shift.c", "src/usolve/bisection.h"],
 [("bisection", "usolve.c bisection_rec"), ("sign variations", "descartes.c"), ("Taylor shift", "taylor_shift.c")], N, observe=["real_roots"])
prop("R03", "Reported coordinates enclose the true coordinates of the real points",
 "Evaluating an integer polynomial on a dyadic interval returns an interval containing every value the polynomial takes there, and for every rational parametrization whose eliminating polynomial has been isolated, each real root yields one point all of whose coordinate intervals contain the true coordinate values at that root.",
 ["inputs"], "all polynomials, intervals and parametrizations", "a wrong rounding direction or sign case only shows for intervals of a particular sign and position; the tests compare a few printed boxes",
 ["src/usolve/evaluate.c", "src/msolve/msolve.c"],
 [("interval Horner scheme", "evaluate.c mpz_poly_eval_interval"), ("interval scalar products", "evaluate.c generate_table_values_full, mpz_scalar_product_interval"), ("coordinates", "msolve.c isolate_real_roots_param, extract_real_roots_param")], N, observe=["isolate_real_roots_param"])
prop("R04", "Refining a root keeps the root and reaches the requested precision",
 "Refining isolating intervals of a square-free integer polynomial returns, for each root and in the same order, a dyadic interval that still contains that root and no other and whose width is at most two to the minus requested precision, or the exact root; no root is lost, moved to a neighbour or duplicated, for every sign, magnitude and position of the roots relative to the bisection grid.",
 ["inputs"], "all square-free polynomials, isolating intervals and precisions", "quadratic interval refinement takes rarely exercised branches (exact hits on grid points, failed steps, sign at the left end) that no fixed test selects",
 ["src/usolve/refine.c", "src/usolve/usolve.c"],
 [("quadratic interval refinement", "refine.c refine_QIR_*"), ("sign test at grid points", "refine.c sgn_mpz_poly_eval_*")], N, observe=["real_roots"])
prop("T01", "Replaying a learned F4 trace gives the Groebner basis modulo the new prime",
 "A multi-modular computation learns one F4 run modulo a first prime and replays it modulo further primes, whatever exact linear algebra option, monomial order, pair selection and hash table is used: learning returns the reduced Groebner basis modulo the first prime; replaying the trace on the same system modulo any other prime for which the ideal has the learned leading monomials either reports the prime as bad, or returns a basis whose leading monomials differ from the learned ones (and which is then dropped), or returns exactly the reduced Groebner basis modulo that prime; on the very system it was learned from it always succeeds; neither run reads or writes memory outside its tables, however full these are.",
 ["inputs", "configurations", "histories"], "all coefficient vectors for learning and replaying, shapes, primes, orders and options", "the tests run a few fixed systems over the rationals, for which almost no prime is special and all replays follow the learned run",
 ["src/neogb/f4.c", "src/neogb/la_ff_32.c", "src/neogb/symbol.c", "src/neogb/update.c", "src/neogb/convert.c", "src/neogb/meta_data.c"],
 [("learning", "f4.c core_f4 with LEARN_TRACER, la_ff_32.c trace_linear_algebra"), ("replaying", "f4.c core_f4 with APPLY_TRACER, generate_matrix_from_trace"), ("reduction coefficients", "symbol.c, convert.c")], N, observe=["core_gba"])
prop("I01", "Reading an input file yields the polynomials its text denotes",
 "For every file in the documented format (names of variables, characteristic, generators separated by commas), however signs, digits, powers, fractions, repeated factors, blanks and line breaks are placed, the reader stores the number and names of variables, the characteristic and, for every generator, exactly the polynomial written: each monomial once, over a prime field with the residue of the written coefficient (reduced, nonzero), over the rationals with the written fraction; a generator that is zero is one term with coefficient zero. It reads and writes no memory outside its buffers.",
 ["inputs"], "all texts of the documented format: spacing, line breaks, signs, digit strings of any length, repeated factors and like terms", "the tests read a few files written in one style; coefficient sizes, cancellations and white space are unbounded",
 ["src/msolve/iofiles.c", "src/msolve/msolve.c"],
 [("reading", "iofiles.c get_data_from_file, get_coeffs_and_exponents_*"), ("variables and characteristic", "iofiles.c get_variables")], N, observe=["cli"])
prop("O01", "The program prints the basis, leading ideal or normal forms the file asks for",
 "For a file over a prime field and any of the options -g 1, -g 2, -e, -l, -n and -i, running msolve prints, in valid syntax and with every term once, exactly the reduced Groebner basis of the ideal generated by the polynomials of the file for the chosen order (its leading monomials for -g 1), or with -n the normal forms of the last polynomials modulo the ideal of the others, in the order of the file.",
 ["inputs", "configurations"], "all coefficients, shapes, primes and option combinations", "tests compare a few stored outputs; degenerate ideals (unit ideal, zero remainders) and sizes of characteristic select different printing and arithmetic code",
 ["src/msolve/main.c", "src/msolve/iofiles.c", "src/msolve/msolve.c", "src/neogb/io.c", "src/neogb/nf.c", "src/neogb/f4.c"],
 [("options", "main.c getoptions"), ("driver", "msolve.c core_msolve"), ("printing", "iofiles.c print_ff_basis_data, print_ff_nf_data")], N, observe=["cli"])
prop("S01", "Saturation returns the basis of the saturated ideal",
 "With -S, msolve prints the reduced Groebner basis of the ideal of all polynomials that some power of the last polynomial of the file multiplies into the ideal generated by the others, for every prime characteristic and monomial order it accepts; also when the generators already are a Groebner basis, when the last polynomial is a unit, a zero divisor or in the radical, and when the result is the whole ring.",
 ["inputs"], "all systems, coefficients and primes", "one stored example cannot show that all multipliers are found in every order in which pairs and multipliers alternate",
 ["src/neogb/f4sat.c", "src/msolve/msolve.c", "src/neogb/convert.c"],
 [("saturation loop", "f4sat.c core_f4sat"), ("multipliers", "f4sat.c update_multipliers, quotient_basis"), ("kernel", "la_ff_32.c compute_kernel_sat_ff_32")], N, observe=["cli"])
prop("X01", "Solutions over the rationals are complete and correctly enclosed",
 "For every zero-dimensional system with rational coefficients, msolve prints a rational parametrization whose solutions are exactly the solutions of the system, and real boxes each containing exactly one real solution with every real solution in exactly one of them, at the requested precision.",
 ["inputs", "configurations"], "all zero-dimensional systems", W, ["src/msolve/msolve.c", "src/fglm/fglm_core.c", "src/msolve/lifting.c"],
 [("driver", "msolve.c core_msolve, msolve_trace_qq")], na="the number of primes, lifting steps and bisections are data-dependent loops over values of hundreds of bits in every stage, and the run draws random linear forms; the whole pipeline cannot be encoded within useful bounds. Its stages are decided separately by T01, R01, R02, R03, R04 and I01.")
prop("X02", "Results do not depend on the number of threads or their schedule",
 "For every input and every number of threads and schedule, msolve computes the same result and no two threads race on the same memory without synchronisation.",
 ["schedules", "inputs"], "all schedules and thread counts", "schedules cannot be sampled exhaustively", ["src/neogb/la_ff_32.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_8.c", "src/msolve/msolve.c", "src/usolve/taylor_shift.c"],
 [("parallel row reduction", "la_ff_32.c exact_sparse_reduced_echelon_form_ff_32"), ("parallel primes", "msolve.c msolve_trace_qq")], na="the parallel regions interleave whole row reductions over a shared array of pivot rows; encoding the interleavings of that many memory accesses per thread symbolically is out of reach for the engine (one thread), and no smaller separable function carries the guarantee.")
prop("X03", "Probabilistic variants fail only with negligible probability",
 "The probabilistic linear algebra and the random choices (linear forms, primes) give the right result except with a probability that is negligible for the sizes of the fields used.",
 ["inputs"], "all inputs", "probabilities cannot be tested by examples", ["src/neogb/la_ff_32.c", "src/msolve/msolve.c"],
 [("random combinations of rows", "la_ff_32.c probabilistic_sparse_reduced_echelon_form_ff_32")], na="a statement about the distribution of random choices, not about all values of them: for some choices the result is legitimately wrong, so no assertion over all values within bounds decides it.")
