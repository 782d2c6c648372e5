#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the text of the properties lives here).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe,hook_needed=None)))

p("U01","Pool allocator blocks never overlap",
 "Every block the pool allocator hands out is 16-byte aligned, lies wholly inside memory the pool owns, and does not overlap any other block handed out by the same pool, for any sequence of request sizes and also after the pool is swapped with another. Contents of a block never change because of later requests or returns.",
 ["inputs","histories"],"every sequence of request sizes (including sizes at and around the page boundary, and requests larger than one page), interleaved with returns and swaps",
 "The tests allocate a few fixed and random sizes and only look at the counters; overlap at an exact page-fill boundary needs one particular sum of sizes.",
 ["util/allocator.h","util/allocator.cpp"],[("rounding and bump allocation","util/allocator.cpp Allocator::allocate"),("page list","util/allocator.h Allocator::Node")],["addresses returned by the allocator","contents of earlier blocks"])
p("U02","Pool allocator accounting is exact",
 "The pool's in-use counter always equals the sum of the rounded sizes of blocks requested and not yet returned, its reserved counter equals the memory it holds and is never below the in-use counter, and both return to their starting values when everything is returned and the pool is destroyed. The process-wide current total equals the sum over live pools and the process-wide maximum never decreases and is the highest current value seen.",
 ["inputs","histories"],"every sequence of requests, returns, swaps and pool destructions over several pools",
 "Tests check the counters after a couple of hand-picked calls; they cannot cover all size sequences or swaps between pools.",
 ["util/allocator.h","util/allocator.cpp"],[("counters","util/allocator.cpp allocate/deallocate/~Allocator/swap"),("GC relocation","util/allocator.h GC::reallocate")],["size(), alloc(), currMemory(), maxMemory()"])
p("U03","Linked list behaves as a sequence",
 "After any history of pushes, pops, iterator inserts, deletions, detach/reattach moves, copies, assignments and swaps, the list's content and reported length are those of an ordinary sequence under the same operations. A copy is independent of its source, and destroying the lists returns all their memory.",
 ["inputs","histories"],"every operation history within the bound, at every iterator position, for all element values",
 "Tests walk fixed histories; iterator positions and histories combine without bound and a wrong link or length shows only for particular ones.",
 ["util/list.h"],[("node relinking","util/list.h List::Iterator insert/get/del"),("copy and assignment","util/list.h List constructors, operator=")],["iteration order, length(), head(), allocator size"])
p("U04","Growing stack is last-in first-out",
 "A stack created with any initial capacity returns elements in last-in first-out order and indexes them correctly through any history of pushes, pops, resets, growth, copies, assignments and swaps. No operation touches memory outside its storage, and all storage is returned on destruction.",
 ["inputs","histories"],"every initial capacity and every push/pop/copy/assign history within the bound, all element values",
 "Tests use one capacity and one push/pop pattern; growth and assignment at a particular depth/capacity pair is one point of many.",
 ["util/stack.h"],[("growth","util/stack.h Stack::resize"),("copy/assign","util/stack.h Stack operator= and copy constructor")],["top(), operator[], deep(), allocator size"])
p("U05","Balanced tree is a correct ordered set",
 "After any history of insertions and removals of distinct keys, lookup, minimum, maximum, nearest-below/above queries and both iteration directions agree with the mathematical ordered set of the keys, and the count is exact. The tree stays balanced: no red node has a red child and all root-to-leaf paths have the same number of black nodes; copies and assignments are equal and independent.",
 ["inputs","histories"],"all key values, all insertion/removal orders within the bound",
 "The tests insert random permutations and check internal asserts that are compiled out in the shipped build; each rebalancing case in deletion needs a particular shape.",
 ["util/rbtree.h"],[("rebalancing","util/rbtree.h insertFixup/deleteFixup/rotate"),("navigation","util/rbtree.h next/prev/findPrev/findNext"),("copy","util/rbtree.h copy/clear/operator=")],["find, findPrev, findNext, minimum, maximum, iteration, length, root colors"])
p("U06","Integer arithmetic is exact",
 "Sum, difference, product, exact quotient, greatest common divisor, negation, divisibility, comparison with one and zero, sign, copy, move and swap of arbitrary-precision integers give the mathematically exact result for all operand values, signs and sizes. Operands other than the target are unchanged.",
 ["inputs","histories"],"all operand values (any sign, zero, machine-word boundaries, several words) and short operation histories",
 "Tests compare against random machine-size values; carries across word boundaries, zero operands and sign combinations are measure-zero for random tests.",
 ["util/integer.h","util/integer.cpp"],[("operations","util/integer.cpp Integer::add/sub/mult/div/gcd"),("value semantics","util/integer.h constructors, operator=, swap, set_neg")],["get_str, sgn, isZero, isOne, isAbsOne, norm"])
p("U07","Integer storage is always sufficient and owned",
 "Every integer operation reserves at least the storage the result can need before computing it, so the bignum library never has to move storage that belongs to the memory pool, for any operand sizes. Each storage block is returned exactly once, with the size it was obtained with, to the pool it came from.",
 ["inputs","histories"],"all operand word counts and values, and all short histories of operations, copies, moves and swaps (also across pools)",
 "An under-reservation only corrupts memory for operands whose result crosses a word boundary; tests neither reach those operands nor look at the pool.",
 ["util/integer.h","util/integer.cpp"],[("reservation","util/integer.cpp Integer::reallocate and callers"),("ownership","util/integer.h destructor, move operations, swap")],["reserved word count versus need, pool in-use size after destruction"])
p("U08","Hilbert polynomial arithmetic is exact",
 "For all integers a and all b up to the dimension, the binomial constructor yields exactly the rational coefficients of the polynomial binom(s+a, b) in s with all higher coefficients zero, and addition, subtraction and integer scaling are coefficientwise exact. Coefficients are reported in lowest terms.",
 ["inputs"],"all shifts a, all b up to the dimension bound, all scalars",
 "Tests evaluate a few fixed shifts; equality of polynomials for every shift is a statement over all integers.",
 ["util/hilbertpoly.h","util/hilbertpoly.cpp"],[("recurrence","util/hilbertpoly.cpp HilbertPoly::binomial"),("linear operations","util/hilbertpoly.cpp add/sub/mult")],["operator[], isZero, dim"])
p("U09","Random permutation stays a permutation, uniformly",
 "Whatever numbers the random source delivers, after any number of shuffles the object holds each of 0..n-1 exactly once. Distinct sequences of draws yield distinct permutations and every permutation is reachable, so uniform draws give a uniform permutation.",
 ["inputs","histories"],"every output sequence of the random source, all sizes within the bound",
 "Tests sample a seeded generator and cannot show a permutation is unreachable or over-represented.",
 ["util/randpermutation.h","util/randpermutation.cpp"],[("shuffle","util/randpermutation.h RandPermutation::next")],["operator[] for each index"])
p("U10","Stopwatch accumulates exactly the running intervals",
 "For any clock readings, the elapsed user, system and real times equal the sum of the intervals between each start or continue and the following stop; time passing while stopped does not count, and starting anew resets to zero.",
 ["inputs","histories"],"all clock readings and start/continue/stop histories within the bound",
 "Tests read the real clock and can only print it.",
 ["util/timer.h","util/timer.cpp"],[("accumulation","util/timer.cpp start/cont/stop")],["userTime, sysTime, realTime"])

p("M01","Monomial algebra",
 "Monomial product, division, power, variable multiplication, divisibility, degree of gcd and lcm, copy, move, assignment and permutation follow exponent-vector arithmetic for all exponents, and the cached total degree always equals the sum of the exponents. Dividing a product by a factor gives back the other factor, and a quotient of two monomials at the same module position carries no position so that it can multiply any module term.",
 ["inputs","histories"],"all exponent vectors and module positions within the bound",
 "Tests check one or two random monomials per operation; wrong treatment of one coordinate, of zero exponents or of module positions escapes them.",
 ["ginv/monom.h","ginv/monom.cpp"],[("exponent loops","ginv/monom.cpp mult/div/constructors"),("position rules","ginv/monom.cpp Monom(a,b), div, divisiable")],["exponents, degree(), pos()"])
p("M02","Monomial orders are total and multiplicative",
 "Each monomial order (lexicographic, degree, anti-degree) is a total order that ranks monomials by its textbook definition, is unchanged when both sides are multiplied by the same monomial, and the lexicographic and degree orders rank every monomial at or above 1. Comparing a monomial with a product gives the same answer as forming the product first.",
 ["inputs"],"all pairs/triples of exponent vectors within the bound",
 "Order laws quantify over all triples; tests compare a few.",
 ["ginv/monom.cpp"],[("comparisons","ginv/monom.cpp lex/deglex/alex with one and two arguments")],["comparison results"])
p("M03","Module term orders",
 "Term-over-position and position-over-term comparisons are total orders consistent with the underlying monomial order and with the position index, and comparing against a product of a module term with a scalar monomial equals comparing with the formed product.",
 ["inputs"],"all pairs/triples of module monomials, all six order combinations",
 "No test exercises module positions in comparisons.",
 ["ginv/poly.h","ginv/poly.cpp"],[("order dispatch","ginv/poly.cpp setOrder, TOP*/POT*")],["cmp() and the ordering of polynomial terms"])
p("B01","Boolean monomials are idempotent sets of variables",
 "A boolean monomial is the set of its variables, held strictly decreasing: multiplication is set union, divisibility is set inclusion, division is set difference, copies and assignments are independent, and comparison is a total order by degree and then variables. No operation reads or writes outside its storage and all storage is returned.",
 ["inputs","histories"],"all variable sets and operation combinations within the bound",
 "No test touches this code.",
 ["ginv/bmonom.h","ginv/bmonom.cpp"],[("merge loops","ginv/bmonom.cpp constructors, divisible, div, compare")],["degree(), operator[], comparisons, allocator size"])
p("B02","Boolean polynomials form a boolean ring",
 "Adding a boolean polynomial to itself gives zero, multiplication is idempotent on every polynomial, and the diagram representation denotes exactly the set of its monomials after every operation.",
 ["inputs","histories"],"all boolean polynomials over few variables",
 "No test touches this code.",
 ["ginv/bpoly.h","ginv/bpoly.cpp"],[("decision diagram","ginv/bpoly.cpp")],["iteration over monomials"])

p("A01","Polynomial sums are exact and canonical",
 "Adding, subtracting, negating polynomials and adding or subtracting integer constants yields exactly the mathematical result over the integers, for every order. The result has strictly decreasing distinct monomials and no zero coefficients, and the other operand is unchanged.",
 ["inputs","histories"],"all coefficients and all monomials within the bound (cancellations included), all term orders",
 "The polynomial tests do not compile in this tree; cancellation and merge order depend on which monomials coincide.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],[("sorted merge","ginv/poly_int.cpp PolyInt::add/sub (poly and constant)")],["term iteration, length(), lm(), lc()"])
p("A02","Polynomial products and powers are exact",
 "Multiplying polynomials, multiplying by an integer constant and raising to a non-negative power give exactly the mathematical product in canonical form, including zero operands, single-term operands and the zeroth power; module elements multiplied by scalar polynomials keep their positions.",
 ["inputs","histories"],"all coefficients and monomials within the bound, all term orders, exponents within the bound",
 "The polynomial tests do not compile; special branches (single term, cancellation between partial products) need particular shapes.",
 ["ginv/poly_int.cpp"],[("accumulating merge","ginv/poly_int.cpp PolyInt::mult, pow")],["term iteration"])
p("A03","Reduction is an exact elimination step",
 "Reducing the head or a tail term of a polynomial by another whose leading monomial divides it eliminates that term: the result equals c times the polynomial minus a monomial multiple of the reducer, with c a nonzero divisor of the reducer's leading coefficient, it is in canonical form, and the reducer is unchanged. For module elements every resulting term keeps its own position.",
 ["inputs","histories"],"all coefficients and monomials within the bound, scalar and module elements, all orders",
 "No compiled test reduces module elements; which terms merge or cancel depends on the input.",
 ["ginv/poly_int.cpp","ginv/poly_int.h"],[("head and tail reduction","ginv/poly_int.cpp reduction/redTail/redMaybe")],["term iteration after reduction"])
p("A04","Primitive part divides out exactly the content",
 "Taking the primitive part divides every coefficient by the positive greatest common divisor of all coefficients and changes nothing else; the primitive test answers true exactly when that divisor is one.",
 ["inputs"],"all coefficient tuples within the bound",
 "Early exits make the result depend on where a unit appears among the coefficients.",
 ["ginv/poly_int.cpp"],[("content","ginv/poly_int.cpp isPp/pp")],["coefficients before and after"])
p("A05","Polynomials own their memory and copies are independent",
 "Copying, moving, assigning, swapping, prolonging by a variable and relocating polynomials preserve the value exactly, later changes to one object never affect another, and destroying all objects returns all pool memory exactly once. This holds after every arithmetic operation as well.",
 ["inputs","histories"],"all short histories of construction, copy, move, assignment, arithmetic and destruction, all term counts within the bound",
 "A leaked or doubly returned term is invisible to value tests and appears only in particular branches.",
 ["ginv/poly_int.h","ginv/poly_int.cpp","util/allocator.h"],[("ownership","ginv/poly_int.h constructors/destructor, GCPolyInt; ginv/poly_int.cpp clear/operator=")],["values of both objects, allocator size()"])
p("A06","Normal form is irreducible and congruent",
 "The normal form of a polynomial modulo a basis contains no term involutively divisible by a basis element, differs from a nonzero integer multiple of the input by an element of the ideal, and is a primitive polynomial. Members of the ideal reduce to zero.",
 ["inputs"],"all polynomials within the bound, against bases built from symbolic generators",
 "Irreducibility of every term and the congruence are statements about all inputs.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],[("reduction loops","ginv/poly_int.h PolyInt::nf/nfTail/isNf; JanetPolyInt::nf")],["term iteration of the result"])

p("J01","Janet tree answers the involutive divisor query",
 "After inserting any set of distinct monomials in any order, each element's recorded non-multiplicative variables are exactly those of Janet division, and looking up any monomial returns the element that divides it with a quotient in multiplicative variables only, or nothing if there is none.",
 ["inputs","histories"],"all sets of monomials and all insertion orders within the bound; all query monomials",
 "Tests compare with a list implementation on random sets; insertion order and coordinate coincidences matter.",
 ["ginv/janet.h","ginv/janet.cpp"],[("tree search","ginv/janet.cpp Janet::find"),("insertion and flag update","ginv/janet.cpp Janet::insert")],["find() result, per-element flags"])
p("J02","Relocated Janet trees are equal and independent",
 "Copying or relocating a Janet tree into another memory pool yields a tree that answers every lookup identically and holds every element, shares no memory with the source, and both trees return all memory on destruction.",
 ["inputs","histories"],"all trees from symbolic monomial sets within the bound",
 "No test copies a tree; a lost subtree only shows for particular shapes.",
 ["ginv/janet.h","ginv/janet.cpp","util/allocator.h"],[("tree copy","ginv/janet.cpp Janet::build(Link), Janet copy constructor"),("GC","util/allocator.h GC::reallocate")],["find() before and after, allocator size"])
p("J03","Monomial completion is a complete Janet basis",
 "Completing any set of monomials terminates with a set that contains the generators' cone exactly: every monomial of the ideal has exactly one involutive divisor in the completed set and no monomial outside the ideal has one. The list-based and tree-based completions agree.",
 ["inputs"],"all generator sets within the bound, all query monomials within the bound",
 "Tests run completion on random sets and compare lengths; completeness quantifies over all monomials of the ideal.",
 ["ginv/mcompletion.h","ginv/mcompletion.cpp","ginv/janet.cpp"],[("prolong and insert","ginv/mcompletion.cpp MCompletion::build/MJanet::build")],["find(), length()"])
p("J04","Basis construction yields an involutive Groebner basis",
 "For any finite set of integer polynomials or module elements under a global order (lexicographic or degree reverse lexicographic, either module extension), building the basis (JanetPolyInt::build, also again after further input) terminates with a set generating the same ideal over the rationals: every input reduces to zero, every non-multiplicative prolongation of a basis element reduces to zero, every basis element belongs to the ideal, and the ideal is reported as the whole ring exactly when it contains a nonzero constant. The result is involutively autoreduced, primitive and sorted.",
 ["inputs"],"all input systems within the bound (coefficients, monomials, order, insertion order), scalar and module",
 "The polynomial basis tests cover three fixed systems in one order; completeness for all inputs is the point of the system.",
 ["ginv/poly_int.h","ginv/poly_int.cpp"],[("completion loop","ginv/poly_int.cpp JanetPolyInt::algorithmBlockTQ"),("criteria","ginv/poly_int.cpp JanetPolyInt::prolong"),("lookup","ginv/poly_int.h JanetPolyInt::find")],["basis iteration, find(), isOne()"])
p("J05","Hilbert polynomial of a completed basis counts correctly",
 "The Hilbert polynomial reported for a completed monomial or polynomial basis equals, at every sufficiently large degree, the number of monomials up to that degree outside the leading ideal.",
 ["inputs"],"all generator sets within the bound",
 "No test compares the polynomial with a count.",
 ["ginv/janet.cpp","ginv/poly_int.cpp","util/hilbertpoly.cpp"],[("summation over cones","ginv/janet.cpp Janet::buildHP; ginv/poly_int.cpp JanetPolyInt::buildHP")],["coefficients of the Hilbert polynomial"])
p("J06","Basis element bookkeeping follows its polynomial",
 "An element's leading monomial, ancestor and flags are consistent through construction, prolongation, update and copying: prolongation multiplies the leading monomial by the variable, keeps the ancestor and marks the parent, and updating to a different leading monomial resets ancestor and all flags while an unchanged one keeps them.",
 ["inputs","histories"],"all monomials, flag states and short histories within the bound",
 "Tests only construct elements.",
 ["ginv/wrap.h","ginv/wrap.cpp"],[("state transitions","ginv/wrap.h constructors, setters; ginv/wrap.cpp Wrap::update")],["lm(), ansector(), NM, NMd, build, multi, isGB"])
p("J07","Degree-graded forest lookup is sound",
 "A lookup in the degree-graded forest of trees only ever returns an inserted element whose leading monomial divides the query and whose quotient avoids the element's recorded non-multiplicative variables; elements are found by their own leading monomial, for any insertion history and any degrees.",
 ["inputs","histories"],"all sets of monomials, degrees beyond the initial capacity, insertion histories within the bound",
 "Tests insert a few random monomials below the initial capacity and check nothing about divisibility.",
 ["ginv/gb.h","ginv/gb.cpp"],[("forest growth and lookup","ginv/gb.cpp GB::insert/find")],["find() result, size()"])

p("P01","Python monomial algebra and orders",
 "In the Python package, monomial product, division, power, divisibility, lcm, gcd, prolongation and module positions follow exponent-vector arithmetic for all exponents, every order is a total order compatible with multiplication, and comparison operators, equality and hashing agree with the active order.",
 ["inputs"],"all exponent vectors and positions within the bound, all six orders",
 "The scripts print a few values and assert nothing about results.",
 ["pyginv/monomial.py"],[("tuple arithmetic","pyginv/monomial.py Monom")],["results of the public operators"])
p("P02","Python polynomial arithmetic is exact",
 "In the Python package, sum, difference, product, negation, power, and mixed operations with numbers on either side equal the mathematical result and are returned in canonical form (strictly decreasing monomials, no zero coefficients).",
 ["inputs"],"all coefficients and monomials within the bound, both operand orders",
 "The scripts print results without checking them and never subtract a polynomial from a number.",
 ["pyginv/polynomial.py"],[("merge and operators","pyginv/polynomial.py Poly.__add__/__sub__/__mul__/reflected operators")],["terms of the result"])
p("P03","Python polynomial operations do not alter their operands",
 "Arithmetic on Python polynomials never changes its operands, and modifying a result in place (reduction, primitive part, clearing denominators) never changes the polynomials it was computed from.",
 ["inputs","histories"],"all operand pairs within the bound and all short operation histories ending in an in-place operation",
 "Aliasing shows only when a result is later modified in place while an operand is still used.",
 ["pyginv/polynomial.py"],[("term sharing","pyginv/polynomial.py Poly.__add__/__sub__/__pos__/__pow__")],["terms of the operands afterwards"])
p("P04","Python reduction and S-polynomial are exact",
 "Reducing a term of a Python polynomial by another whose leading monomial divides it removes that term and yields a nonzero multiple of the polynomial minus a monomial multiple of the reducer, in canonical form, reducer unchanged; head, tail and full normal forms leave no reducible term in their scope; the S-polynomial cancels the leading terms, also for module elements.",
 ["inputs"],"all coefficients and monomials within the bound, scalar and module elements",
 "The scripts print a handful of reductions.",
 ["pyginv/polynomial.py"],[("reduction","pyginv/polynomial.py Poly.reduction/redRat/reduce/NF*/S")],["terms after reduction"])
p("P05","Python Janet tree answers the involutive divisor query",
 "The Python Janet tree keeps, for any insertion history, the non-multiplicative variables of Janet division for its elements, returns for any monomial the involutive divisor or nothing, hands back displaced elements exactly once, and counts and iterates exactly its current elements.",
 ["inputs","histories"],"all monomial sets and insertion orders within the bound, all queries",
 "The script's demonstration does not run to completion in this environment.",
 ["pyginv/janet.py"],[("tree","pyginv/janet.py Janet.insert/findWrap/setNonmut")],["findWrap, iteration, nonmult, count"])
p("P06","Python basis construction yields an involutive basis",
 "For any finite input system the Python completion procedures terminate with a set to which every input and every non-multiplicative prolongation reduces to zero and whose elements lie in the ideal.",
 ["inputs"],"all input systems within the bound, both procedures",
 "No script in the tests runs the completion.",
 ["pyginv/ginv.py","pyginv/janet.py","pyginv/polynomial.py"],[("completion","pyginv/ginv.py ginvMin/ginvBlockLow, Q")],["elements of the resulting tree"])
p("P07","Python Hilbert polynomial counts correctly",
 "The cone-counting polynomials of the Python package equal the binomial counts they stand for at every argument, and the Hilbert polynomial of a completed tree equals the number of monomials up to each large degree outside the ideal.",
 ["inputs"],"all arguments, all dimensions and degrees within the bound",
 "The script prints a few values.",
 ["pyginv/janet.py"],[("recurrence","pyginv/janet.py CombRepet, HilbertPoly, Janet.HP")],["coefficients and values"])
p("P08","Differential prolongation obeys the Leibniz rule",
 "Differentiating a differential polynomial with function coefficients by an independent variable raises each derivative and differentiates each coefficient by the product rule, leaving a canonical polynomial and the source unchanged.",
 ["inputs"],"all monomials, variables and symbolic coefficient derivatives within the bound",
 "The script prints one example.",
 ["pyginv/polynomial.py"],[("product rule","pyginv/polynomial.py PolyDiff.prolong")],["terms of the result"])
p("C01","Extension module operators mean what they say",
 "The compiled Python module's operators on monomials and polynomials return the mathematical result of the named operation for polynomial and integer operands on either side, never change their operands, and reject incompatible operands.",
 ["inputs"],"all polynomials and integers within the bound, both operand orders",
 "The module's test script does not run in this tree.",
 ["cython/ginv.pyx"],[("operator dispatch","cython/ginv.pyx const_poly_int.__add__/__sub__/__mul__/__pow__, const_monom operators")],["terms of the result"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
