"""What each property's check runs.  Bounds are those of the quick tier unless a job says otherwise."""
COMMON = [
    "IR is produced by clang 18 -O1 from /repo's current sources with -DNDEBUG (the project's Release configuration); inlining, vectorising and unrolling are off",
    "x86-64 data layout; malloc and aligned_alloc succeed; single thread",
    "GMP entry points are replaced by a limb-level model of their documented contract (values, limb counts, storage ownership)",
    "stream output is replaced by an empty body",
]
SPEC = {}


def prop(pid, jobs, **kw):
    SPEC[pid] = dict(jobs=jobs, **kw)


prop("U01", [
    dict(h="u01_alloc", e="u01_blocks", reach=["end blocks"], bounds="4 requests (thorough 5) of any size 1..9000 bytes with returns in between"),
    dict(h="u01_alloc", e="u01_page", reach=["end page"], bounds="a first request of any size 1..4200, then 5 of any size 1..120 (thorough 1..4200)"),
    dict(h="u01_alloc", e="u01_swap", reach=["end swap"], bounds="two pools with up to 2 requests each, swapped, then one more request in each (thorough two), any sizes 1..9000"),
])
prop("U02", [dict(h="u01_alloc", e="u02_account", reach=["end account"], bounds="2 pools, 4 operations (thorough 5) of any size 1..9000, optional swap")])
prop("U03", [
    dict(h="u03_list", e="u03_ops", reach=["end"], bounds="two lists, up to 3+1 initial elements, 2 operations (thorough 3) out of 11, all positions, 64-bit symbolic contents"),
    dict(h="u03_list", e="u03_copy", reach=["end copy"], bounds="up to 3 elements, one operation on the source after copying"),
])
prop("U04", [
    dict(h="u04_stack", e="u04_ops", reach=["end"], bounds="two stacks, capacities 1..4 and 1..3, up to 3 initial elements each (thorough 3/5), 2 operations (thorough 3) out of 7 including copy, assignment, swap and pushes of 2..5 elements, 64-bit symbolic contents"),
    dict(h="u04_stack", e="u04_grow", reach=["end grow"], bounds="capacity 1..8, 20 pushes then pops"),
])
prop("U05", [
    dict(h="u05_rbtree", e="u05_insert", reach=["end"], bounds="every insertion order of 6 distinct symbolic keys (thorough 7), every query key"),
    dict(h="u05_rbtree", e="u05_remove", reach=["end"], bounds="every insertion order of 5 distinct keys (thorough 6), then every choice of 3 removals (thorough 4), every query key"),
    dict(h="u05_rbtree", e="u05_big", reach=["end big"], bounds="8..11 keys in four regular orders, every choice of 3 removals (thorough 4)"),
    dict(h="u05_rbtree", e="u05_mixed", reach=["end mixed"], bounds="two trees (up to 3+2 keys), 2 operations (thorough 3) of insert, remove by key or iterator, clear, swap, assign, copy"),
])
prop("U06", [
    dict(h="u06_integer", e="u06_arith", reach=["end"], bounds="every pair of operands of 0 or 1 limbs (any 64-bit magnitude) and any signs; + - * exact / and gcd, in place and three-operand, targets empty or holding a value"),
    dict(h="u06_integer", e="u06_alias", reach=["end alias"], bounds="both operands the same object, 0..2 limbs"),
    dict(h="u06_integer", e="u06_value", reach=["end value"], bounds="copy, move, swap, assignments, negation, set_si/set_ui of operands of 0..2 limbs (thorough 3)"),
    dict(h="u06_integer", e="u06_divides", reach=["end divides"], bounds="dividends -60..60, divisors -12..12 except 0"),
])
prop("U07", [
    dict(h="u06_integer", e="u07_arith", reach=["end"], bounds="operands of 0..3 limbs (thorough 4) and any signs; every operation in place and three-operand, targets empty or holding a one-limb value", time=300),
    dict(h="u06_integer", e="u07_chain", reach=["end chain"], bounds="three integers of up to 2 limbs in two pools, 2 operations (thorough 3) of + - * negation, assignment, move assignment, swap, so that each inherits the other's storage", time=300),
])
prop("U08", [
    dict(h="u08_hilbert", e="u08_binomial", reach=["end binomial"], bounds="dimension 1..5 (thorough 6), every b up to the dimension, a symbolic in -3000..3000, fresh or reused object"),
    dict(h="u08_hilbert", e="u08_arith", reach=["end arith"], bounds="dimension 1..3 (thorough 4), two binomials with symbolic arguments -200..200; sum, difference, scaling by a symbolic integer up to 10^6, a combination of the three"),
], assumptions=["rational functions of GMP are modelled by their documented contract (value, canonical form kept for canonical operands)"])
import itertools
prop("U09", [
    dict(h="u09_perm", e="u09_perm", reach=["end perm"], bounds="sizes 1..5 (thorough 6), 1..3 shuffles, every 32-bit output of the random source, up to one rejected draw"),
    dict(h="u09_perm", e="u09_inject", reach=["end inject", "equal permutations"], bounds="sizes 2..4 (thorough 5), two independent symbolic draw sequences"),
    dict(h="u09_perm", e="u09_onto", reach=["p" + "".join(map(str, p)) for n in (2, 3, 4) for p in itertools.permutations(range(n))], bounds="sizes 2..4"),
], assumptions=["std::uniform_int_distribution is the one of libstdc++ 13, executed symbolically as compiled"])
prop("U10", [dict(h="u10_timer", e="u10_timer", reach=["end timer"], logic="FP", bounds="start followed by 5 (thorough 6) start/continue/stop steps, each clock any value 0..2^40 ticks at 64 ticks per second (sums are then exact doubles)")],
     assumptions=["times() and sysconf(_SC_CLK_TCK) are replaced by symbolic clocks", "64 ticks per second, so every double result is exact"])

_E = "exponents 0..1000, module positions -1..2"
prop("M01", [
    dict(h="m01_monom", e="m01_mul", reach=["end mul"], bounds="1..5 variables (thorough 8), " + _E + "; product by constructor, in place and of a temporary, then divided by either factor"),
    dict(h="m01_monom", e="m01_div", reach=["end div"], bounds="1..5 variables (thorough 8), any two monomials, " + _E),
    dict(h="m01_monom", e="m01_value", reach=["end value"], bounds="1..5 variables (thorough 8), powers 0..1000, copies, moves, assignments, swap, permutations of up to 4 variables (thorough 5)"),
])
prop("M02", [
    dict(h="m01_monom", e="m02_order", reach=["end order"], bounds="three orders, 1..5 variables (thorough 8), exponents 0..1000"),
    dict(h="m01_monom", e="m02_mult", reach=["end mult"], bounds="three orders, 1..5 variables (thorough 8), any three monomials with exponents 0..1000"),
    dict(h="m01_monom", e="m02_trans", reach=["end trans"], bounds="three orders, 1..3 variables (thorough 5), any three monomials with exponents 0..1000"),
])
prop("M03", [
    dict(h="m03_poly", e="m03_order", reach=["end order"], bounds="six module orders, 1..4 variables (thorough 6), positions -1..2 (thorough 3), exponents 0..1000"),
    dict(h="m03_poly", e="m03_product", reach=["end product"], bounds="six module orders, 1..3 variables (thorough 5), either factor carrying the position"),
    dict(h="m03_poly", e="m03_laws", reach=["end laws"], bounds="six module orders, 1..2 variables (thorough 3), any three terms"),
])
prop("B01", [
    dict(h="b01_bmonom", e="b01_build", reach=["end build"], bounds="up to 5 insertions (thorough 6) of any variables 0..1000, repeats included"),
    dict(h="b01_bmonom", e="b01_pair", reach=["end pair"], bounds="two sets of up to 4 variables (thorough 5) out of 0..1000; product, divisibility, quotient, assignment, swap, comparison"),
    dict(h="b01_bmonom", e="b01_trans", reach=["end trans"], bounds="three sets of up to 3 variables (thorough 5)"),
])

_P = "exponents 0..1000, nonzero coefficients -1000..1000, "
prop("A01", [
    dict(h="a_poly", e="a01_build", reach=["end build"], bounds=_P + "up to 3 terms (thorough 4) added in any order with repeats and cancellations, 1..2 variables, positions -1..0, six orders"),
    dict(h="a_poly", e="a01_sum", reach=["end sum"], bounds=_P + "up to 2 terms (thorough 3) plus up to 2, 1..2 variables, module elements at positions 0..1, six orders; in place, of temporaries, with itself, there and back"),
    dict(h="a_poly", e="a01_const", reach=["end const"], bounds=_P + "up to 2 terms (thorough 3), 1..2 variables, positions -1..1, any integer constant -1000..1000"),
])
prop("A02", [
    dict(h="a_poly", e="a02_mult", reach=["end mult"], bounds=_P + "up to 2 terms (thorough 3) times up to 2, zero factors included, 1..2 variables, either factor a module element"),
    dict(h="a_poly", e="a02_const", reach=["end const"], bounds=_P + "up to 3 terms (thorough 4), any integer -1000..1000"),
    dict(h="a_poly", e="a02_pow", reach=["end pow"], bounds="up to 2 terms with exponents 0..1000 and coefficients up to 60, powers 0..4"),
    dict(h="a_poly", e="a02_self", reach=["end self"], bounds=_P + "square in place of up to 2 terms"),
])
prop("A03", [
    dict(h="a03_reduction", e="a03_head", reach=["end head"], bounds=_P + "up to 2 terms (thorough 3) reduced by up to 2 (thorough 3), scalars, module elements and scalar reducers of module elements, coefficients with any common factor, six orders"),
    dict(h="a03_reduction", e="a03_tail", reach=["end tail"], bounds=_P + "2 terms (thorough 3), one tail term reduced by a polynomial of up to 2 terms"),
    dict(h="a03_reduction", e="a03_maybe", reach=["end maybe"], bounds=_P + "up to 2 terms (thorough 3) and a reducer whose leading monomial occurs among them, or not"),
])
prop("A04", [dict(h="a_poly", e="a04_pp", reach=["end pp"], bounds="0..3 coefficients (thorough 4) with any content up to 1000 and any common factors among them (each up to 1000), any signs")])
prop("A05", [
    dict(h="a_poly", e="a05_copy", reach=["end copy"], bounds=_P + "up to 2 terms (thorough 3); copy, assignment, move assignment and swap within and across pools, followed by a change (negation, scaling, sum, zeroth power) of either side"),
    dict(h="a_poly", e="a05_prolong", reach=["end prolong"], bounds=_P + "up to 3 terms, 1..3 variables, every variable"),
    dict(h="a_poly", e="a05_pool", reach=["end pool", "pool compacted"], bounds=_P + "up to 2 terms; pooled copies, prolongation, swap and relocation of a pool with and without garbage"),
    dict(h="a_poly", e="a05_move", reach=["end move"], bounds=_P + "up to 2 terms, moved and then changed"),
])
prop("A06", [
    dict(h="a06_nf", e="a06_one", reach=["end one"], bounds="univariate polynomials of degree up to 2 (thorough 3) with any nonzero coefficients -20..20, modulo x^k + ... with leading coefficient 1, -1 (thorough also 2, -6)"),
    dict(h="a06_nf", e="a06_two", reach=["end two"], bounds="up to two terms of degree up to 2 in each of 2 variables, modulo x^k+s and y^l+t, coefficients -20..20"),
    dict(h="a06_nf", e="a06_module", reach=["end module", "end scalar"], bounds="module elements of up to 2 terms in one variable at positions 0..1, modulo one scalar polynomial or one module element per position with tails at either position"),
])
prop("J01", [dict(h="j01_janet", e="j01_insert", reach=["end insert"], bounds="1..3 variables (thorough 4), up to 3 distinct monomials (thorough 4) in any order, exponents 0..15 (thorough 0..1000), a query monomial of up to twice those exponents")])
prop("J02", [
    dict(h="j01_janet", e="j02_copy", reach=["end copy"], bounds="copies of trees of up to 3 monomials in up to 3 variables, any exponents within the J01 bounds"),
    dict(h="j01_janet", e="j02_pool", reach=["end pool"], bounds="relocation of a pool holding such a tree"),
])
_G = "1..3 distinct generators (1 variable: exponents 0..4; 2 variables: 0..3, three generators 0..2; thorough one more each); "
prop("J03", [
    dict(h="j03_complete", e="j03_list", reach=["end list"], bounds=_G + "list completion under lex, deglex, alex (antichains only), lexGB; query exponents up to 3 more"),
    dict(h="j03_complete", e="j03_tree", reach=["end tree"], bounds=_G + "tree completion compared with list completion"),
    dict(h="j03_complete", e="j03_three", reach=["end three"], bounds="3 variables, up to 2 generators (thorough 3), exponents 0..1 (thorough 2); also the Hilbert polynomial"),
])
prop("J05", [dict(h="j03_complete", e="j05_tree", reach=["end hilbert"], bounds=_G + "Hilbert polynomial against inclusion-exclusion over least common multiples"),
    dict(h="j03_complete", e="j03_three", reach=["end three"], bounds="3 variables, up to 2 generators (thorough 3), exponents 0..1 (thorough 2)"),
    dict(h="j04_basis", e="j05_poly", reach=["end poly"], bounds="polynomial bases of a monomial and a binomial in 1..2 variables, exponents 0..2 (thorough 3), lex and deglex")])
prop("J06", [
    dict(h="j06_wrap", e="j06_wrap", reach=["end wrap"], bounds="1..3 variables, any exponents, positions and flag states; construction, prolongation, update, copy"),
    dict(h="j06_wrap", e="j06_poly", reach=["end poly"], bounds="basis elements of polynomials"),
])
prop("J07", [dict(h="j06_wrap", e="j07_forest", reach=["end forest"], bounds="up to 3 monomials in 1..2 variables, degrees below and beyond the initial capacity, any insertion order, queries of any exponents within the bound")])
_J = "JanetPolyInt::build; "
prop("J04", [
    dict(h="j04_basis", e="j04_mixed", reach=["end mixed"], bounds=_J + "a monomial and a binomial with unit coefficients, 1..2 variables, exponents 0..2 (thorough 3), lex and deglex"),
    dict(h="j04_basis", e="j04_cube", reach=["end cube"], bounds=_J + "the same in 3 variables, exponents 0..1"),
    dict(h="j04_basis", e="j04_three", reach=["end three"], bounds=_J + "a binomial and two monomials pushed in this order, 2 variables (thorough 3), exponents 0..1 and 0..2 (thorough 0..1)"),
    dict(h="j04_basis", e="j04_binom", reach=["end binom"], bounds=_J + "two binomials (the first possibly a monomial), unit coefficients of either sign, 2 variables, exponents 0..1 and 0..2 (thorough 0..2 both), lex and deglex", time_thorough=3000),
    dict(h="j04_basis", e="j04_module", reach=["end module"], bounds=_J + "two module binomials at positions 0..1 in 1 variable, exponents 0..2 (thorough 2 variables, exponents 0..1), POT and TOP over lex and deglex", time_thorough=3000),
    dict(h="j04_basis", e="j04_again", reach=["end again"], bounds=_J + "a second polynomial pushed after the basis of the first was built, 2 variables, exponents 0..1"),
    dict(h="j04_basis", e="j04_uni", reach=["end uni"], bounds=_J + "two binomials in one variable, degree up to 2 (thorough 3), coefficients -2..2", time_thorough=3000),
    dict(h="j04_basis", e="j04_linear", reach=["end linear"], bounds=_J + "two linear polynomials in two variables with coefficients -1..1 (thorough -2..2), constants included", time_thorough=3000),
])
