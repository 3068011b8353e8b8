ZZF = ['clpoly/number/ZZ.hh']
prop('N01', 'Integers have one representation per value, at every size',
     'After any operation on arbitrary-precision integers, the result and every operand is stored in the one representation its value calls for: inline exactly when it fits a machine word, on the heap otherwise. Equality, hashing, conversion and comparison therefore never depend on how a value was computed.',
     ['inputs', 'histories'], 'every operation, every mix of small and large operands (including results that cross the word boundary in either direction), every way operands and outputs may be the same object, every order of operations',
     'Tests sample values; crossing the boundary happens on a thin set of inputs (results just inside or outside the 64-bit range, both directions, with aliased outputs), and a non-canonical value prints correctly and only breaks a later comparison or hash.',
     ZZF, [('demotion of heap results', 'clpoly/number/ZZ.hh: _try_demote and the fast paths of every operator')],
     'abstract interpretation of the integer class', note='For all operand values and all alias patterns, over interval and linear-equality abstractions of every public operation.')
prop('N02', 'Integer storage is owned exactly once: no leak, double free or use after free',
     'Every heap cell an integer acquires is initialised before use, owned by exactly one integer at a time, and released exactly once, whatever sequence of construction, copy, move, swap, assignment (including to itself), arithmetic and exceptions happens. Moving from an integer leaves it valid.',
     ['histories', 'inputs'], 'every operation from every representation of its operands, every alias pattern, every exit including exceptional ones',
     'The test binaries run without a leak checker and use few aliased or self-assigned large values; a lost or doubly owned cell passes value assertions.',
     ZZF, [('ownership of the heap cell', 'clpoly/number/ZZ.hh: constructors, operator=, swap, promotion and demotion helpers')],
     'typestate and ownership analysis over abstract interpretation', note='Complete over the abstract entry states of each operation; callers outside the class cannot reach the storage (the fields are private).')
prop('N03', 'Integer operations never hit undefined machine arithmetic',
     'No operation on arbitrary-precision integers performs a signed machine operation whose exact result does not fit its type: whenever a word-sized fast path would overflow (including negation and division of the most negative word), the exact big result is produced instead.',
     ['inputs'], 'every operation and every operand value, in particular the extreme words and their neighbours',
     'Undefined behaviour happens to give the expected bits in a debug build, and needs operands at the edge of the 64-bit range in a particular operation.',
     ZZF, [('overflow-checked fast paths', 'clpoly/number/ZZ.hh: inline arithmetic operators, addmul, submul, fdiv_*, gcd, sizeinbase')],
     'interval abstract interpretation', note='Every signed arithmetic node reached from any entry state is an obligation.')
prop('N04', 'Dividing an integer by zero always throws and changes nothing',
     'Every division, remainder or modular-inverse operation on arbitrary-precision integers reports a zero divisor with an exception, for every size of dividend, and leaves its operands as they were. No such call terminates the process or returns a value.',
     ['inputs'], 'all dividends, both representations, every division entry point, every alias pattern of outputs and operands',
     'A test can check a few dividends; the machine-word and big-number paths fail differently (signal, abort, exception) and aliased outputs may be modified first.',
     ZZF, [('zero-divisor checks', 'clpoly/number/ZZ.hh: operator/, operator%, /=, %=, fdiv_q, fdiv_qr, fdiv_r, fdiv_ui, invert')],
     'abstract interpretation with zero-divisor obligations', note='Every path to a hardware or GMP division, and every normal return of a dividing operation.')
prop('N05', 'Integer arithmetic is exact whatever the representation or aliasing',
     'The value an integer operation leaves in its result depends only on the mathematical values of its operands: small and large representations, in-place forms, fused multiply-add forms and calls where outputs and operands are the same object all give the specified exact result, and operands that are not outputs keep their value. Comparisons and predicates agree with the values.',
     ['inputs', 'histories'], 'all operand values, all four small/large combinations, all alias patterns, all public arithmetic, comparison and assignment operations',
     'Each operation has up to a dozen hand-written paths selected by size, sign and overflow; random tests hit the common ones with distinct operands.',
     ZZF, [('operator bodies', 'clpoly/number/ZZ.hh: all public operators and in-place methods')],
     'symbolic value numbering over abstract interpretation', note='Each path\'s result is compared with the operation\'s specification as a normal form over the entry values (linear and polynomial identities, truncated versus floor division by known signs); GMP functions are taken at their documented meaning.')
prop('N06', 'Rationals stay in lowest terms and reject zero denominators',
     'Every rational number a public operation leaves behind is in lowest terms with a positive denominator and equals the exact result of the operation, also when operands and result are the same object. A zero denominator or a zero divisor is reported by an exception from every entry point, including reading from a stream.',
     ['inputs', 'histories'], 'all operand values, signs and alias patterns; every constructor, operator, assignment, conversion and stream input',
     'Equality and hashing compare numerator and denominator directly, so a value that is right but not reduced passes arithmetic tests and only breaks later comparisons.',
     ['clpoly/number/QQ.hh'], [('canonical form', 'clpoly/number/QQ.hh: _canonicalize and every operator'), ('zero denominators', 'clpoly/number/QQ.hh: constructors, operator/, operator>>')],
     'abstract interpretation with gcd facts', note='Integers are taken at their exact semantics (established by N05).')
prop('N07', 'Residues modulo a prime stay reduced and keep matching modulus constants',
     'Every residue a public operation leaves behind lies in 0..p-1, carries the modulus of its operands together with the reduction constants of exactly that modulus, and is congruent to the specified sum, difference, product, quotient or negation, for every modulus up to 64 bits. Comparisons with residues and integers agree with congruence.',
     ['inputs', 'histories'], 'all residues, all moduli 2..2^64-1 (where sums exceed a machine word), uninitialised accumulators, all alias patterns',
     'Tests use small or fixed primes, for which sums never wrap and the edge residues 0 and p-1 rarely meet; a stale constant gives wrong products only for a different modulus.',
     ['clpoly/number.hh'], [('residue arithmetic', 'clpoly/number.hh: class Zp'), ('lazily adopted modulus', 'clpoly/number.hh: addmul, submul')],
     'abstract interpretation over value numbers', note='Moduli are taken to be at least 2 and inverses of non-zero residues (both asserted preconditions); the word kernels (reduction constants, modular product, modular inverse) are compared by value numbering with reference kernels whose correctness is established on paper.')
prop('N08', 'Dense modular polynomials stay reduced, trimmed and tied to their modulus',
     'For dense polynomials modulo a prime of up to 64 bits: every stored coefficient word is below the modulus; the highest stored coefficient of a result is non-zero, so that the length is the degree plus one (a division is never started with a leading word that is zero); a result carries the modulus of its operands with exactly that modulus\'s reduction constants; and the word kernels (sum, difference, product, three-word accumulation and reduction, reduction constants) compute the exact residue for every modulus and operand.',
     ['inputs', 'histories'], 'all operands and lengths (both sides of the Karatsuba and half-gcd thresholds), all moduli 2..2^64-1, outputs reused from earlier computations with another prime',
     'Leading terms cancel, carries meet and sums exceed 64 bits only for particular coefficients and moduli near 2^64; the half-gcd code runs only above degree 340.',
     ['clpoly/dense_upoly_zp.hh'], [('word kernels', 'clpoly/dense_upoly_zp.hh: nmod_add, nmod_sub, nmod_mul, _lll_mod_preinv, _add_carry3, _umul128, __precompute'), ('lengths and trimming', 'clpoly/dense_upoly_zp.hh: __strip, _poly_normalise, _poly_add, _poly_sub, _poly_divrem, _hgcd_recursive, _gcd_hgcd'), ('object operations', 'clpoly/dense_upoly_zp.hh: mul, divrem, gcd, add, sub, scalar_mul, constructors')],
     'must-dataflow with inferred summaries and value numbering of kernels', note='The polynomial identities behind Karatsuba and half-gcd, and the sizes of their work areas, are not decided. Operands of one call are taken to share their modulus (asserted).')
POLYF = ['clpoly/basic.hh', 'clpoly/basic_monomial.hh', 'clpoly/basic_polynomial.hh', 'clpoly/monomial.hh', 'clpoly/polynomial.hh', 'clpoly/polynomial_.hh', 'clpoly/polynomial_convert.hh', 'clpoly/polynomial_gcd.hh', 'clpoly/polynomial_gcd.cc', 'clpoly/polynomial_factorize_univar.hh', 'clpoly/polynomial_factorize_wang.hh', 'clpoly/polynomial_factorize_zp.hh', 'clpoly/upolynomial.hh']
GCDF = ['clpoly/polynomial_gcd.hh', 'clpoly/polynomial_gcd.cc']
FACF = ['clpoly/polynomial_factorize_univar.hh', 'clpoly/polynomial_factorize_wang.hh', 'clpoly/polynomial_factorize.hh']
prop('P01', 'Polynomials never store a term with coefficient zero, nor exponents of zero',
     'Every polynomial or monomial a public operation returns or leaves in an output (and every one that the library itself hands to an operation reading it) contains no term whose coefficient is zero and no variable with exponent zero, given operands that have none: terms that cancel over the integers, the rationals or modulo the prime disappear. Degree, leading coefficient, emptiness and equality of a polynomial therefore depend only on its value.',
     ['inputs', 'histories'], 'all operands in canonical form, every coefficient ring (including coefficients that vanish only modulo the prime), every instantiation of every operation, any sequence of operations',
     'A stored zero needs two terms to cancel at one particular place of one of the merge loops, and then prints almost as expected: what it changes is a later degree, emptiness or equality test.',
     POLYF, [('zero tests before storing', 'clpoly/basic.hh: pair_vec_add, pair_vec_sub, pair_vec_multiplies, pair_vec_div; clpoly/monomial.hh: the packed forms of the last two'), ('normalization', 'clpoly/basic.hh: pair_vec_normalization; basic_polynomial.hh, basic_monomial.hh: normalization()'), ('reduction modulo a prime', 'clpoly/polynomial.hh, clpoly/upolynomial.hh: polynomial_mod')],
     'typestate dataflow over term containers', note='Non-zero by test, by construction or by later removal, on every path and through calls by function summaries. Assumed: scalars passed to internal functions (moduli, leading coefficients, inverses) are non-zero, contents divide their polynomial, modular combinations keep a residue non-zero.')
prop('P02', 'Polynomials keep their terms in order, each monomial once',
     'Every polynomial an operation returns or leaves in an output has its terms strictly decreasing in its monomial order: the leading term comes first, no monomial appears twice, and building the same polynomial from its terms in any sequence gives the same polynomial. The same holds for the variables inside a monomial built from a list.',
     ['inputs', 'histories'], 'all operands in order, every instantiation, every operation that builds a polynomial term by term: conversion between orders and rings, evaluation, leading and other coefficients, contents, dense to sparse, sparse interpolation, arithmetic with single terms',
     'A list left unsorted prints well and often compares equal on small inputs: what fails is a later merge, leading coefficient or lookup, on an operand whose order happens to change.',
     POLYF, [('normalization', 'clpoly/basic.hh: pair_vec_normalization; basic_polynomial.hh, basic_monomial.hh: constructors and assignments from term lists'), ('functions filling term lists', 'clpoly/polynomial.hh: leadcoeff, coeff, assign, polynomial_mod; polynomial_convert.hh, upolynomial.hh: poly_convert; polynomial_gcd.hh: cont; dense_upoly_zp.hh: to_upoly; polynomial_factorize_wang.hh: __mtshl_sparse_int')],
     'typestate dataflow over term containers', note='A list is in order while it has one term, follows a walk over terms already in order, or falling degrees; otherwise it has to be normalised before it leaves. Merges are decided by T01. Assumed: the order of terms taken off a heap (products, division), of pseudo-quotients, of derivatives in one variable and of the powers put out by gcd interpolation; that a monomial from which the leading variable is taken under a test of the leading variable keeps the order.')
prop('A01', 'A modular gcd candidate is returned only after it divided both inputs',
     'Greatest common divisors of integer polynomials are guessed from images modulo primes or from evaluation at an integer. A guess is returned (times the gcd of the contents) only after each of the two inputs, freed of its content, has been divided by that very guess and no remainder was left; otherwise it is dropped and another prime or point is tried. An image that is unlucky at a prime or a point is never returned as the gcd.',
     ['inputs'], 'all pairs of polynomials, all primes and evaluation points tried, every way the loop over primes can end',
     'Unlucky primes and coincidences of the reconstruction are rare enough never to appear in sampled inputs; the check that catches them is redundant on every other input.',
     GCDF, [('trial divisions', 'clpoly/polynomial_gcd.hh, polynomial_gcd.cc: polynomial_GCD, __gcdheu')],
     'provenance dataflow with verified-by-division facts', note='Covers divisibility of the result; that it is the greatest divisor is not decided.')
prop('A02', 'Factors are accepted only if they divide the polynomial, and none is lost',
     'Factors of an integer polynomial are guessed from modular factors. One is put into the result only after it has been found to divide the remaining polynomial exactly; the remaining polynomial is then replaced by exactly that quotient, and what is left at the end is part of the result. Whatever primes, lifts and subsets are tried, the factors returned by a recombination multiply to the polynomial handed to it, up to a constant.',
     ['inputs'], 'all polynomials, all subsets of modular factors tried in any order, every exit of the recombination loops',
     'A wrong candidate passes through the cheap filters only for particular coefficients; sampled polynomials factor the same with the exact check removed.',
     FACF, [('recombination', 'clpoly/polynomial_factorize_univar.hh: __zassenhaus_recombine, __vanhoeij_recombine; clpoly/polynomial_factorize_wang.hh: __wang_core')],
     'provenance and typestate dataflow', note='Covers the three recombination procedures, with their helpers and lambdas expanded. Irreducibility of the factors is not decided.')
prop('M01', 'Exponents packed into one machine word never spill into their neighbours',
     'Multiplication and division of polynomials pack all exponents of a monomial into one 64-bit word when they fit. For every number of variables and every pair of operands for which packing is chosen: unpacking gives the exponents (and the degree) that were packed; words compare as the monomials do; no sum of exponents formed on packed words can carry into the next field (division notices a carry or borrow by its guard bits before using the word, and then falls back leaving nothing behind); operands with negative exponents or too many variables are not packed; no shift is by the width of the word.',
     ['inputs'], 'every number of variables the tests for packing accept (1 to 64), every subset of them present in a monomial, all exponents up to and beyond the field width',
     'Fields have 64/n bits, so a carry needs exponents just at a power of two depending on the number of variables; sampled inputs have small exponents and two or three variables.',
     ['clpoly/monomial_order.hh', 'clpoly/monomial.hh'], [('field layout and capacity tests', 'clpoly/monomial_order.hh: __is_monomial_can_compression, __monomial_compression, __monomial_decompression, __monomial_compression_div_mold'), ('arithmetic on packed words', 'clpoly/monomial.hh: __pair_vec_multiplies_compression, __pair_vec_div_compression')],
     'bit-field layout evaluation and path facts', note='The layout is computed from the source for each number of variables, exponents staying symbolic; capacity from path conditions; guard bits by dataflow. Exponents of polynomials in one variable are assumed to fit 63 bits.')
prop('D02', 'Assertions and profiling change nothing but diagnostics',
     'The library gives the same results however it is built: no assertion condition changes a variable, an object or hidden state, so disabling assertions removes no needed work, and the statements compiled only into debugging or profiling builds compute diagnostics that nothing else reads and never leave a function early or alter a result.',
     ['inputs'], 'every function and every build configuration (assertions on, assertions off, profiling)',
     'The tests run in one build configuration, where the effects of an assertion are always present.',
     ['clpoly'], [('assertions', 'all of clpoly/'), ('debugging and profiling blocks', 'clpoly/polynomial_factorize.hh, polynomial_factorize_univar.hh, polynomial_factorize_wang.hh, polynomial_factorize_zp.hh')],
     'effect analysis and comparison of build configurations', note='Output to streams is allowed. Whether an assertion can fail on valid input is not decided.')
prop('D01', 'Results depend on the arguments alone',
     'Calling an operation twice with equal arguments gives equal results, whatever was computed before. Operations read and change no state outside their arguments (no static caches or counters, no change of the default modulus, no variables created on the side); randomness is drawn only by the random generators, the elimination orderings and the random evaluation points of the multivariate modular gcd and sparse lifting; no result depends on addresses or on the order of a hashed container; nothing is read before it is set, and every constructor sets all members. A basis kept by an ideal is used only while it is valid.',
     ['inputs', 'histories', 'configurations'], 'every operation and every history of earlier calls',
     'A test sees one history: stale caches, unset members and run-dependent order give the expected value almost always.',
     ['clpoly'], [('hidden state', 'clpoly/variable.hh: registry of variables; clpoly/number.hh: Zp::set_prime'), ('random sources', 'clpoly/random.hh; associatedgraph.cc: __MCS, __MCS_M; polynomial_gcd.hh: __polynomial_GCD; polynomial_factorize_wang.hh: __mtshl_sparse_int'), ('kept basis', 'clpoly/groebner.hh: Ideal')],
     'effect, definite-assignment and typestate analysis', note='Variables compare by their position in the registry, which the user fills; factoring a univariate polynomial registers the name x. That the procedures with random points return the same result whatever is drawn is not decided here.')
prop('L01', 'An argument may be both input and output',
     'Every public operation gives the same result when an object it writes is also one of its inputs: sums, products, quotients, remainders, pseudo-division, resultants, gcds, negation, conversion and assignment of polynomials, monomials, dense modular polynomials and graphs either read all of an input before writing an output, or test whether they are the same object. A graph accepts references to its own nodes. Internal routines without this guarantee are never called with the same object.',
     ['inputs'], 'every public operation, every pair of an output and an input of the same type, every path',
     'Tests pass distinct objects; a missing or misplaced alias test silently yields zero or a partial result for code such as prem(p,p,q,x).',
     ['clpoly'], [('alias guards', 'clpoly/basic.hh: pair_vec_add, pair_vec_sub, pair_vec_multiplies, pair_vec_div, pair_vec_negate; clpoly/polynomial.hh: prem, pquo; clpoly/resultant.hh: resultant; clpoly/polynomial_gcd.hh: polynomial_GCD; clpoly/dense_upoly_zp.hh: divrem'), ('conversions', 'clpoly/polynomial_convert.hh: poly_convert'), ('graphs', 'clpoly/associatedgraph.hh: graph::add_edge, chordal_completion')],
     'alias-conditioned dataflow', note='Integers, rationals and residues: see N05 to N07. leadcoeff and pair_vec_power exclude sharing by an assertion.')
prop('S01', 'Nothing is used after it went away',
     'No operation uses an iterator, pointer or reference into a container after the container was changed in a way that invalidates it, reads an object after moving from it (until it is set again), or takes the end position for an element; and storage obtained with new[] for the heaps of sparse multiplication and division is released exactly once, with delete[], on every path, and not used afterwards.',
     ['inputs', 'histories'], 'every function of the library and every path through it',
     'A stale iterator or a moved-from value often still shows the old bytes; tests run without sanitizers and leaks do not fail them.',
     ['clpoly'], [('heaps', 'clpoly/basic.hh: pair_vec_multiplies, pair_vec_div; clpoly/monomial.hh: __pair_vec_multiplies_compression, __pair_vec_div_compression'), ('moves', 'all of clpoly/'), ('growing containers', 'clpoly/groebner.hh, clpoly/associatedgraph.hh, clpoly/charset.hh, clpoly/polynomial_factorize_*.hh')],
     'typestate analysis', note='Index bounds and emptiness are not decided here. Exceptions thrown by allocation failure are outside.')


prop('K01', 'Orders are strict, total where promised, and agree with equality and hashes',
     'Every order in the library (the variable and monomial orders lex_, grlex_, custom_var_order, univariate_order, less; the comparison operators of variables, monomials, polynomials and isolated real roots; the functors and lambdas given to std::sort, std::min_element and the like) is irreflexive, asymmetric and transitive, and being level is transitive too. <, >, <=, >=, == and != of one pair of types contradict each other nowhere, also when the operands are written the other way round (a root and a rational number). The orders on variables and monomials put no two different ones on one level. Two order objects that compare equal order alike. Equal objects have equal hashes. Two sequences of terms are compared term by term to the end, and found equal exactly when all terms agree.',
     ['inputs'], 'every comparison functor, lambda and operator of the library, over every way the keys they read can be ordered',
     'Normal form, merging and the choice of the leading term rest on the order; a sort with an order that is not strict is undefined behaviour and shows only with enough equal elements.',
     ['clpoly'], [('sequence comparisons', 'clpoly/basic.hh: pair_vec_comp, pair_vec_equal_to'), ('orders', 'clpoly/monomial_order.hh, clpoly/monomial.hh, clpoly/variable.hh, clpoly/upolynomial.hh'), ('roots', 'clpoly/realroot.hh'), ('sorts', 'clpoly/groebner.hh, clpoly/polynomial_factorize*.hh')],
     'decision tables over comparison keys (abstract interpretation of comparison functions)', note='Two lambdas that read the degree of a polynomial through different calls on the two operands are noted as not decided; ZZ, QQ and Zp are under N01-N05.')

prop('O01', 'Copies, moves and swaps carry every member',
     'A copied, moved or assigned variable, monomial, polynomial or rational number has every member of its source: the terms, the cached degree and the order it is kept in. A swap exchanges every member of both operands. Assigning or swapping an object with itself changes nothing, and a copy leaves its source as it was.',
     ['inputs', 'histories'], 'every written-out copy/move constructor, copy/move assignment and swap of the library and every path through it',
     'The order and the cached degree are not seen in the printed value: an object that lost them behaves differently only in a later operation with another object.',
     ['clpoly'], [('monomials', 'clpoly/basic_monomial.hh'), ('polynomials', 'clpoly/basic_polynomial.hh'), ('rational numbers', 'clpoly/number/QQ.hh'), ('variables', 'clpoly/variable.hh')],
     'symbolic transfer functions over members (dataflow)', note='ZZ, a tagged word, is under N01-N05; members the compiler generates copy member by member by the rules of the language.')

prop('M03', 'The cached degree of a monomial is the sum of its exponents',
     'Every monomial carries its total degree beside its exponents, and deg() returns the carried number. Whatever changes the exponents (adding or removing a term, products, quotients, powers, moving, assigning, clearing, changing the variable, restoring from packed form) leaves the carried number equal to the sum of the exponents wherever the monomial is handed on, copied, returned or left to the caller.',
     ['inputs', 'histories'], 'every function that touches the stored exponents or the carried degree, and every path through it',
     'A wrong carried degree does not show when the monomial is printed or compared term by term; graded orders and degree bounds are wrong later, with some other operand.',
     ['clpoly'], [('the class', 'clpoly/basic_monomial.hh'), ('products and quotients', 'clpoly/monomial.hh: __mono_mult__, is_divexact'), ('powers and substitutions', 'clpoly/polynomial_.hh, clpoly/polynomial.hh, clpoly/polynomial_gcd.hh, clpoly/polynomial_factorize_wang.hh')],
     'dataflow over linear forms (relational abstract interpretation)', note='Decompression of packed words is under M01.')

prop('T01', 'Sums and merges of terms count every term of every operand exactly once',
     'Adding, subtracting and negating polynomials (and monomials or numbers with them, in either order), the greatest common divisor and least common multiple of monomials, and combining images modulo two primes or at two points walk lists of terms in step. Every term of each list contributes exactly once: with both lists if its monomial is in both, alone otherwise, and then exactly what it would contribute with a counterpart of zero. No list is left before its end, whichever list ends first or is empty, and a term is dropped only when its coefficient is zero. The result is the sum, difference, minimum, maximum or combination of its operands, in order.',
     ['inputs'], 'all pairs of term lists: every interleaving of their monomials, every way they end, empty operands, equal objects',
     'Which of the branches and tail loops run depends on the interleaving of monomials; in the modular combinations, terms that are missing from one image only occur at unlucky primes or points.',
     ['clpoly/basic.hh', 'clpoly/polynomial_.hh', 'clpoly/basic_polynomial.hh', 'clpoly/monomial.hh', 'clpoly/polynomial_gcd.hh', 'clpoly/polynomial_gcd.cc'],
     [('merge loops', 'clpoly/basic.hh: pair_vec_add, pair_vec_sub, pair_vec_negate; clpoly/monomial.hh: lcm; clpoly/polynomial_gcd.hh: gcd of monomials'), ('combination of images', 'clpoly/polynomial_gcd.hh: polynomial_GCD, __polynomial_GCD; clpoly/polynomial_gcd.cc: polynomial_GCD'), ('operators', 'clpoly/polynomial_.hh, clpoly/basic_polynomial.hh: operator+, operator-')],
     'dataflow over formal sums of terms (relational loop summaries)', note='Loops by an arbitrary iteration; a merge whose form is not understood (the remainder step of __upoly_divmod_mod) is counted as not decided. Lists are assumed sorted by the order of the operands (P01, K01).')

prop('A03', 'Factorizations multiply back to their argument',
     'The content of a factorization times every factor to its multiplicity equals the argument, up to sign and (modulo a prime) the leading coefficient that is kept apart: for squarefree, distinct-degree and equal-degree decompositions, factorization modulo a prime, over the integers and the rationals, of polynomials in one and in several variables. No part split off on the way (a monomial, a content, a repeated part, a p-th power, what is left when a loop ends) is lost, entered twice or entered with another multiplicity, and the modular factors handed on multiply to the argument modulo the prime recorded with them.',
     ['inputs'], 'all polynomials, every number of variables, every sequence of splits, every prime that is tried',
     'The paths differ in multiplicities, in parts that become constant and in p-th powers; most of them need particular repeated factors or a particular prime to be taken.',
     ['clpoly/polynomial_factorize.hh', 'clpoly/polynomial_factorize_zp.hh', 'clpoly/polynomial_factorize_univar.hh', 'clpoly/polynomial_factorize_wang.hh', 'clpoly/polynomial_gcd.hh'],
     [('squarefree', 'clpoly/polynomial_gcd.hh: squarefreefactorize'), ('modulo a prime', 'clpoly/polynomial_factorize_zp.hh: __squarefree_Zp, __ddf_Zp, __edf_Zp, __factor_Zp'), ('over Z and Q', 'clpoly/polynomial_factorize_univar.hh: __select_prime, __factor_squarefree_primitive_ZZ; clpoly/polynomial_factorize.hh: factorize')],
     'abstract interpretation over a free abelian group (multiplicities as linear forms), linear loop invariants', note='Recombination of lifted factors is A02, exactness of single divisions A01; signs are not followed.')

prop('H01', 'Products and quotients count every pair of terms exactly once',
     'A product of polynomials with several terms is the sum over all pairs of a term of one and a term of the other, each taken exactly once, like monomials added together; a quotient subtracts every product of a quotient term and a divisor term exactly once from the dividend, whose terms are each used once and in order. Both go over a heap of pending products, largest monomial first: no pending product is dropped, taken twice or left behind, however the monomials of the pairs coincide and whichever row ends first.',
     ['inputs', 'histories'], 'all operands with more than one term, packed and unpacked monomials, one and several variables, with and without remainder, every pattern of coinciding monomials',
     'Which entries of the heap share a monomial, which rows have ended and which wait for a quotient term depends on the operands; several of the loops only run on operands whose exponents do not fit the packed form.',
     ['clpoly/basic.hh', 'clpoly/monomial.hh'],
     [('products', 'clpoly/basic.hh: pair_vec_multiplies; clpoly/monomial.hh: __pair_vec_multiplies_compression'), ('quotients', 'clpoly/basic.hh: pair_vec_div (both forms); clpoly/monomial.hh: __pair_vec_div_compression (both forms)'), ('the heap', 'clpoly/basic.hh: VHC_insert')],
     'typestate of heap entries over loop paths, must-dataflow', note='That the heap array stays a heap (the sifting in VHC_extract and VHC_insert) is not decided, nor divisibility of single terms; packing is M01, zero coefficients P01. A step moved into a function of its own that is handed the entries is not followed.')

# ---------------------------------------------------------------- outside the reach of static analysis
NT = 'A test samples inputs; the guarantee is about all of them.'
prop('G02', 'A gcd that is returned is the greatest common divisor',
     'The polynomial gcd of two polynomials is divisible by every common divisor, with the content of the inputs restored and the leading coefficient normalised.',
     ['inputs'], 'all pairs of polynomials', NT, ['clpoly/polynomial_gcd.hh', 'clpoly/polynomial_gcd.cc'], [('image degrees', 'clpoly/polynomial_gcd.hh: __polynomial_GCD')],
     na='Maximality is an algebraic fact about degrees of images at run-time primes and evaluation points; nothing in the shape of the code bounds it. That a returned candidate divides both inputs is A01.')
prop('F01', 'Factors returned by factorization are irreducible and pairwise coprime',
     'No polynomial in a factorization splits further over the integers (or modulo the prime), and no two factors have a common divisor.',
     ['inputs'], 'all polynomials', NT, ['clpoly/polynomial_factorize.hh', 'clpoly/polynomial_factorize_univar.hh', 'clpoly/polynomial_factorize_wang.hh', 'clpoly/polynomial_factorize_zp.hh'], [('recombination and lifting', 'clpoly/polynomial_factorize_univar.hh')],
     na='Irreducibility depends on exhaustive recombination of run-time modular factors and on coefficient bounds; no static rule in reach decides it. That the accepted factors divide and none is lost is A02.')
prop('R01', 'Resultants, subresultants and discriminants have the defined value',
     'The resultant is the determinant of the Sylvester matrix, with the right sign; the subresultant chain is the defined one, also with gaps in the degrees.',
     ['inputs'], 'all pairs of polynomials and main variables', NT, ['clpoly/resultant.hh'], [('subresultant algorithm', 'clpoly/resultant.hh: subresultant, resultant, discriminant')],
     na='The value is a polynomial identity over loops whose number of rounds depends on degrees; needs algebraic invariants, not dataflow.')
prop('R02', 'Each isolating interval holds exactly one real root, and none is missed',
     'Real root isolation returns disjoint intervals, one per distinct real root.', ['inputs'], 'all polynomials', NT,
     ['clpoly/realroot.hh', 'clpoly/realroot.cc'], [('Uspensky bisection', 'clpoly/realroot.cc: uspensky')],
     na='Sign variations of run-time coefficients (Vincent, Descartes) decide this; not bounded by any static argument. The order of isolated roots is K01.')
prop('B01', 'Groebner bases and characteristic sets generate what they should',
     'A computed Groebner basis generates the same ideal and all S-polynomials reduce to zero; a characteristic set has the zeros of the input outside the initials.',
     ['inputs'], 'all systems of polynomials', NT, ['clpoly/groebner.hh', 'clpoly/charset.hh'], [('Buchberger loop', 'clpoly/groebner.hh'), ('Wu-Ritt loop', 'clpoly/charset.hh')],
     na='Ideal membership of run-time results; a static rule could only restate the loop as it is written.')
prop('T02', 'Every operation terminates',
     'Searches for primes, evaluation points and reductions end for every input.', ['inputs'], 'all inputs and all random draws', NT,
     ['clpoly/polynomial_gcd.hh', 'clpoly/polynomial_factorize_wang.hh', 'clpoly/random.hh', 'clpoly/groebner.hh'], [('retry loops', 'clpoly/polynomial_gcd.hh, clpoly/polynomial_factorize_wang.hh')],
     na='The retry loops end with probability one or by theorems on the number of unlucky primes; there is no syntactic measure.')
prop('U01', 'Fast multiplication and half-gcd kernels equal the schoolbook ones',
     'Karatsuba multiplication, Newton division, the half-gcd and the fused kernels of dense modular polynomials give the same polynomial as the definitions, within the buffers they are given.',
     ['inputs'], 'all lengths and words', NT, ['clpoly/dense_upoly_zp.hh'], [('divide and conquer', 'clpoly/dense_upoly_zp.hh')],
     na='Recursive identities over symbolic lengths with split points, and buffer sizes that are quadratic or logarithmic formulas in the length; outside linear dataflow. Word kernels, reduction and trimming are N08.')
