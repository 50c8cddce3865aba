#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
CX = "src/algebra/complex.rs"; PO = "src/algebra/polynomial.rs"; RI = "src/algebra/ring.rs"
FI = "src/algebra/field.rs"; OR = "src/algebra/ops_with_ref.rs"; CJ = "src/algebra/conj.rs"
SV = "src/linalg/svector.rs"; SM = "src/linalg/smatrix.rs"; DV = "src/linalg/dvector.rs"; DM = "src/linalg/dmatrix.rs"
DE = "src/optimize/differential_evolution.rs"; TF = "src/optimize/test_functions.rs"

# ---------------------------------------------------------------- complex
p("C01", "Complex sums, differences, negation and conjugation act per component",
  "Adding or subtracting two complex numbers adds or subtracts their real parts and their imaginary parts separately, negation negates both parts, and conjugation keeps the real part and negates the imaginary part. This holds for every coefficient type and is the same for the by-value, compound-assignment and by-reference spellings.",
  "all coefficient types with the needed operators, all operand values, all spellings of the operator",
  "Tests use one or two pairs of small integers per operator; a defect tied to a sign, a special value or one spelling is not reached.",
  [CX, CJ], [("Add/AddAssign/Sub/SubAssign/Neg/Conj for Complex", CX)], ["inputs"], ["operator results"])
p("C02", "Complex products obey i*i = -1 over every coefficient ring",
  "The product of a+bi and c+di is (ac-bd)+(ad+bc)i for every coefficient ring, with the left operand's coefficients always on the left so that it also holds over non-commutative rings. Multiplying by a real scalar multiplies both parts by it on the right. Multiplication by value, by reference and in place give the same product.",
  "all rings (commutative or not), all operand values, all spellings",
  "Tests square a single integer pair (1+2i); operand order, asymmetric operands and non-commutative coefficients are never exercised.",
  [CX], [("Mul/MulAssign for Complex", CX)], ["inputs"], ["operator results"])
p("C03", "Complex quotients undo complex products over every field",
  "In exact field arithmetic the quotient of two complex numbers times the divisor gives the dividend whenever the divisor has invertible squared modulus, and dividing by a real scalar divides both parts by it. Division by value and by reference give the same quotient.",
  "all fields, all dividends, all divisors with invertible squared modulus, all spellings",
  "Tests divide one pair of f32 values whose divisor is 1+i, for which many wrong formulas agree.",
  [CX], [("Div impls for Complex", CX)], ["inputs"], ["operator results"])
p("C04", "Modulus and argument of complex numbers follow their definitions",
  "The squared modulus of a complex number is the sum of the squares of its two parts, the absolute value (by value or by reference) is the square root of that, and the argument is the two-argument arctangent of the imaginary part (first) and the real part (second).",
  "all coefficient types with the needed functions, all values",
  "Tests check 3+4i, 1-i and one argument; quadrants, zero parts and size-dependent shortcuts are not covered.",
  [CX], [("sqr_norm, Abs, arg", CX)], ["inputs"], ["return values"])
p("C05", "Complex exp, sin, cos, sinh, cosh and tan extend the real functions",
  "For z = x+iy the library computes exp z = e^x(cos y + i sin y), sin z = sin x cosh y + i cos x sinh y, cos z = cos x cosh y - i sin x sinh y, sinh z = sinh x cos y + i cosh x sin y, cosh z = cosh x cos y + i sinh x sin y and tan z = sin z / cos z, for all z and every real type providing the real functions.",
  "all z, every real coefficient type",
  "Each function is tested at one fixed point or on random points of a small box with a float tolerance; all other regions are open.",
  [CX], [("Exp/Sin/Cos/Sinh/Cosh/Tan for Complex", CX)], ["inputs"], ["return values"])
p("C06", "The complex logarithm is the principal logarithm",
  "The logarithm of a complex number has as real part half the real logarithm of the squared modulus and as imaginary part the argument as given by the two-argument arctangent, for every non-zero input.",
  "all non-zero complex numbers",
  "The test compares ln(ab) with ln a + ln b on random f32 values within a loose tolerance (its last branch accepts errors of 8 pi in the imaginary part).",
  [CX], [("Ln for Complex", CX)], ["inputs"], ["return values"])
p("C07", "The complex square root is a principal root and squares back",
  "In exact arithmetic the square of the square root of z is z for every z, the real part of the root is never negative, and the imaginary part of the root is negative only if the imaginary part of z is negative.",
  "all complex z without NaN parts, on every side of every internal case distinction",
  "The test samples 100 random f32 points in a box; boundary inputs (zero parts, the real and imaginary axes) have probability zero there.",
  [CX], [("Sqrt for Complex", CX)], ["inputs"], ["return values"])
# ---------------------------------------------------------------- polynomial
p("P01", "Evaluating a polynomial gives the sum of coefficient times power",
  "Evaluating the polynomial built from coefficients a_0, ..., a_n at x gives a_0 + a_1 x + ... + a_n x^n (coefficients on the left) for every number of coefficients including none, where it gives zero. Evaluation by value and by reference agree.",
  "every degree including the empty coefficient list, every ring, every x",
  "Tests evaluate one quadratic at 2 plus the zero and one polynomials at 5.",
  [PO], [("from_coefficients, eval, eval_ref", PO)], ["inputs"], ["eval, eval_ref"])
p("P02", "Polynomial sums, differences and negation are coefficient-wise",
  "The k-th coefficient of a sum, difference or negation of polynomials is the sum, difference or negation of the operands' k-th coefficients, a missing coefficient counting as zero, whatever the two lengths are and whichever is longer. By-value, compound-assignment and by-reference spellings agree.",
  "all pairs of lengths (equal, left longer, right longer, empty), all rings, all spellings",
  "Every test adds or subtracts two polynomials of the same length 3; unequal lengths are never tested.",
  [PO], [("Add/AddAssign/Sub/SubAssign/Neg for Polynomial", PO)], ["inputs"], ["operator results"])
p("P03", "Polynomial products are coefficient convolutions",
  "The k-th coefficient of a product of polynomials is the sum of a_i b_j over all i+j = k, with the left operand's coefficients on the left, for all lengths; a product with an operand that has no coefficients is the zero polynomial. Multiplication by value, by reference and in place agree.",
  "all pairs of lengths including empty ones, all rings (commutative or not), all spellings",
  "Tests multiply a quadratic by x only, so most coefficient pairs are never combined non-trivially.",
  [PO], [("Mul/MulAssign for Polynomial", PO)], ["inputs"], ["operator results"])
p("P04", "Polynomials are equal exactly when all their coefficients agree",
  "Two polynomials compare equal if and only if their coefficients agree at every power, a missing coefficient counting as zero, so that p - p equals the zero polynomial and the ring laws hold for the equality test.",
  "all pairs of coefficient lists, in particular those differing by trailing zeros",
  "Tests compare only coefficient lists of the same length.",
  [PO, RI], [("PartialEq for Polynomial", PO)], ["inputs"], ["== and !="])
# ---------------------------------------------------------------- ring-level
p("R01", "Zero and one are the neutral elements of every structure",
  "The zero of each structure (scalars, complex numbers, polynomials, statically sized vectors and matrices) leaves every element unchanged under addition and the one of each (for matrices: the square case) leaves every element unchanged under multiplication from either side; for primitive numbers they are the numbers 0 and 1. The one of a rectangular static matrix has ones on the diagonal and zeros elsewhere.",
  "all structures, all dimensions, all elements",
  "Tests look at one scalar type each, complex f32/i32, and 3x2 or 2-element examples.",
  [RI, CX, PO, SV, SM], [("Zero/One impls", RI)], ["inputs", "programs"], ["zero(), one()"])
p("R02", "Exactly the lawful structures are usable as rings and fields",
  "The signed integers i8 to i128 and isize, f32, f64, complex numbers and polynomials over a ring and square static matrices over a ring can be used wherever a ring is required, and only f32, f64 and complex numbers over a field can be used wherever a field is required. No other type of the library or primitive type is accepted: a program that uses an unsigned integer or a non-square matrix as a ring, or an integer, polynomial or matrix as a field, does not compile.",
  "all programs using the library with any of its or the primitive types",
  "A unit test cannot show that a program is rejected, nor that every listed type is accepted in every instantiation.",
  [RI, FI, CX, PO, SM], [("impl Ring / impl Field items", RI)], ["programs"], ["type checking of client programs"])
p("R03", "By-reference products and quotients and real conjugation match the operators",
  "The by-reference product and quotient of any type are its ordinary product and quotient with the operands in the given order, and complex conjugation of any real scalar type returns its argument unchanged.",
  "all types with by-reference operators, all operand values",
  "Tests check one u16 product, one f64 quotient and one i16 conjugation; operand order of products is invisible on numbers.",
  [OR, CJ], [("MulRefs, DivRefs, Conj for primitives", OR)], ["inputs"], ["return values"])
# ---------------------------------------------------------------- static linalg
p("S01", "Static vectors add, subtract and scale component-wise in every spelling",
  "Sum, difference and scaling of statically sized vectors act on each component for every dimension, scaling multiplying each component by the scalar on the right. By-value, by-reference and compound-assignment spellings agree.",
  "all dimensions including 0, all element types, all spellings",
  "Doc tests use dimension 2 or 3 with small integers only.",
  [SV], [("Add/Sub/Mul<T> and assign impls for SVector", SV)], ["inputs"], ["operator results"])
p("S02", "The static dot product is the sum of the component products",
  "The product of two statically sized vectors of the same dimension is the sum of the products of matching components, left operand first, for every dimension (zero for dimension 0), whether the right operand is passed by value or by reference.",
  "all dimensions including 0, all rings, both spellings",
  "Doc tests use dimension 2 with integers.",
  [SV], [("Mul for SVector", SV)], ["inputs"], ["operator results"])
p("S03", "Static vectors expose their components in order",
  "Building a statically sized vector from an array, indexing it, writing through an index and iterating over it by value, by reference or by mutable reference all see component k of the array at position k, and a write through an index or a mutable iterator changes that component and no other.",
  "all dimensions, all indices, all element types",
  "Tests read and write two components of one vector.",
  [SV], [("From, Index, IndexMut, IntoIterator for SVector", SV)], ["inputs"], ["index, iteration"])
p("S04", "Static matrices add, subtract, negate and conjugate entry-wise",
  "Sum, difference, negation and conjugation of statically sized matrices act on each entry for all numbers of rows and columns, and building a matrix from nested arrays keeps every entry in its place. By-value, by-reference and compound-assignment spellings agree.",
  "all row and column counts including 0, all element types, all spellings",
  "Doc tests use 2x3 matrices of small integers, mostly filled with ones.",
  [SM], [("Add/Sub/Neg/Conj/From and assign impls for SMatrix", SM)], ["inputs"], ["operator results"])
p("S05", "Static matrix products sum row times column in operand order",
  "Entry (i,j) of the product of an LxM and an MxN static matrix is the sum over k of left(i,k) right(k,j), component i of a matrix-vector product is the sum over k of m(i,k) v(k), in this operand order and over the whole range of k, for all L, M, N. By-value, by-reference and in-place products agree.",
  "all compatible dimensions including 0, all rings (commutative or not), all spellings",
  "Doc tests use two 2x3/3x2 and 2x2 integer examples; operand order per entry is invisible on integers.",
  [SM], [("Mul/MulAssign for SMatrix", SM)], ["inputs"], ["operator results"])
# ---------------------------------------------------------------- dynamic linalg
p("D01", "Operands of mismatched dimensions are always rejected",
  "Every operation on dynamically sized vectors or matrices that combines two operands (sum, difference, zip, element-wise product and quotient, compound assignment, matrix product, dot product) panics when the operands' dimensions do not fit, before any entry is computed or modified; it never silently truncates, pads or reads unrelated entries.",
  "all pairs of operands and all dimension pairs that do not match, over all expression types",
  "No test passes mismatched operands to any operation.",
  [DV, DM], [("dimension assertions in zip, Add, Sub, Mul, AddAssign, SubAssign", DM)], ["inputs"], ["panics before results"])
p("D02", "Out-of-range element accesses are always rejected",
  "Reading or writing an entry of a dynamic vector, a dynamic matrix, or an array or slice used as an expression with an index, row or column outside its dimensions panics; a column index beyond the last column never reaches an entry of another row.",
  "all dimensions, all out-of-range indices including a too large column with an in-range row",
  "Tests access in-range entries only.",
  [DV, DM], [("entry, Index, IndexMut of DVector/DMatrix/arrays/slices", DM)], ["inputs"], ["panics"])
p("D03", "Lazy element-wise expressions have the right entries and shape",
  "Entry k (or (r,c)) of a lazy sum, difference, map, zip, element-wise product or quotient, or conjugation is that operation applied to the operands' entries at the same position, in operand order, and its shape is the operands' shape; wrapping an expression changes neither entries nor shape. This holds for every operand expression.",
  "all operand expressions, all positions, all element types",
  "Each combinator is tested on one small integer example; entries are only seen through full evaluation of square-ish small shapes.",
  [DV, DM], [("AddExpr, SubExpr, map, zip, mul_elemwise, div_elemwise, conj, wrap", DV)], ["inputs"], ["entry, len, num_rows, num_cols, is_empty"])
p("D04", "Transposition, Hermitian transposition and diagonals address the right entries",
  "Entry (r,c) of the transpose is entry (c,r) of the matrix and of the Hermitian transpose its conjugate, with row and column counts swapped; the diagonal of a matrix has min(rows, columns) entries, the k-th being entry (k,k); the diagonal matrix of a vector is square with the vector on the diagonal and zero elsewhere.",
  "all matrix shapes (wide, tall, square, empty), all positions, all expressions",
  "Tests use 2x3 matrices only, so tall matrices and long vectors are open.",
  [DM, DV], [("t, h, diag", DM)], ["inputs"], ["entry, shape"])
p("D05", "The dynamic matrix product sums row times column in operand order",
  "Entry (r,c) of the product of two dynamic matrices of compatible shape is the sum over k of left(r,k) right(k,c), in operand order and over the whole inner dimension, and the product has the left operand's rows and the right operand's columns.",
  "all compatible shapes, all positions, all element types",
  "One 2x3 by 3x2 integer product is tested.",
  [DM], [("MulDMatrix", DM)], ["inputs"], ["entry, shape"])
p("D06", "Evaluating an expression materialises exactly its entries",
  "Evaluating any vector or matrix expression yields a dynamic vector or matrix of the same shape whose entry at every position is the expression's entry there (row-major order is consistent between storing and reading); evaluating an already materialised vector, matrix, array, slice or wrapped expression gives the same result as reading its entries one by one.",
  "all shapes including empty ones, all expression types",
  "Tests evaluate shapes up to 3x3 and compare results that were themselves produced by evaluation.",
  [DV, DM], [("eval default methods and overrides", DM)], ["inputs"], ["eval"])
p("D07", "Constant, identity and function-defined expressions have the promised entries",
  "Zeros, ones and constant-filled vectors and matrices have the requested shape and that value at every position, the identity is one on and zero off the diagonal, and an expression made from a function has the requested shape and the function's value at each position with row before column.",
  "all requested shapes, all positions, all functions",
  "Tests evaluate sizes up to 5 or 3x3.",
  [DV, DM], [("zeros, ones, same, eye, make_vector_expr, make_matrix_expr", DM)], ["inputs"], ["entry, shape"])
p("D08", "In-place sums and differences update every entry once",
  "After adding or subtracting an expression of matching shape in place, every entry of the vector or matrix is its old value plus or minus the expression's entry at the same position, and the shape is unchanged.",
  "all shapes, all right-hand expressions of matching shape, all positions",
  "Tests use 2x2 and length-5 operands filled with a constant; the vector subtraction test actually tests addition.",
  [DV, DM], [("AddAssign/SubAssign for DVector and DMatrix", DM)], ["inputs"], ["entries after the operation"])
p("D09", "The dynamic dot product conjugates its left operand",
  "The product of two dynamic vectors of equal length is the sum over all positions of the conjugate of the left entry times the right entry, zero for empty vectors, and is the same by value and by reference.",
  "all lengths including 0, all element types, both spellings",
  "Tests use real integers of length 3, for which conjugation is invisible.",
  [DV], [("Mul for DVector", DV)], ["inputs"], ["operator results"])
p("D10", "A dynamic matrix or vector keeps its shape and unaddressed entries",
  "The shape of a materialised vector or matrix never changes after creation, the number of stored entries of a matrix always equals rows times columns, and writing through an index changes exactly the addressed entry. Client code has no other way to alter the storage.",
  "all sequences of operations, all shapes, all indices",
  "Tests write four entries of a 2x2 matrix and cannot show that no operation breaks the shape.",
  [DM, DV], [("private fields of DMatrix/DVector, IndexMut, eval", DM)], ["inputs", "histories", "programs"], ["index, shape"],
  [("data, num_rows, num_cols", "row-major storage and shape", DM)])
# ---------------------------------------------------------------- functions
p("F01", "Real elementary functions are the standard ones at full precision",
  "For f32 and f64 the absolute value, arcsine, two-argument arctangent, cosine, hyperbolic cosine, exponential, natural logarithm, sine, hyperbolic sine, square root and tangent return exactly what the standard library's function of that name returns for the same argument in the same precision, for every argument including infinities, NaN and negative zero; by-reference absolute values agree with the by-value ones.",
  "every argument of both float types, for each of the eleven functions",
  "Tests sample a few points with tolerances (several atan2, exp, sin and cosh assertions omit the absolute value and accept any too small result).",
  ["src/functions/" + f for f in ("abs.rs", "asin.rs", "atan2.rs", "cos.rs", "cosh.rs", "exp.rs", "log.rs", "sin.rs", "sinh.rs", "sqrt.rs", "tan.rs")],
  [("trait impls for f32, f64, &f32, &f64", "src/functions")], ["inputs"], ["return values"])
p("F02", "The Ackley test function follows its formula",
  "The Ackley test function equals -20 exp(-0.2 sqrt((x^2+y^2)/2)) - exp((cos 2 pi x + cos 2 pi y)/2) + e + 20 in exact arithmetic for all x and y.",
  "all x, y",
  "It is only used inside a randomised optimiser test, which is excluded from the reliable tests.",
  [TF], [("ackley", TF)], ["inputs"], ["return value"])
# ---------------------------------------------------------------- optimiser
p("O01", "The optimiser rejects invalid parameters before doing anything",
  "Differential evolution panics if the population has fewer than 4 members, the crossover probability is outside [0,1] or NaN, or the differential weight is outside [0,2] or NaN, and does so before drawing any random number or comparing any candidates; it accepts all other values of these parameters, including the limits.",
  "all parameter values",
  "No test passes invalid or limiting parameters.",
  [DE], [("assertions at entry", DE)], ["inputs", "configurations"], ["panics, generator use"])
p("O02", "A population member is replaced only by a candidate judged better",
  "During the search a member of the population is overwritten only by the new candidate, and only when the caller's comparison says the candidate (first argument) is better than that member (second argument); all other members stay unchanged. Members are visited cyclically, one per iteration, for exactly the requested number of iterations.",
  "all comparison functions, random streams, parameters and iteration counts",
  "Tests only check convergence on one function; a rare lost or unjustified replacement does not prevent it.",
  [DE], [("greedy replacement", DE)], ["inputs", "histories"], ["comparison calls, population"])
p("O03", "The donors of a candidate are distinct from each other and the target",
  "In every iteration the three members combined into the new candidate are drawn from the whole population, pairwise distinct, and different from the member that may be replaced.",
  "all random streams, population sizes and iterations",
  "Collisions are random events that do not make the convergence tests fail.",
  [DE], [("rejection loops", DE)], ["inputs", "histories"], ["members used for a candidate"])
p("O04", "Candidates are formed by the differential evolution formula",
  "Component n of a candidate is donor1[n] + (donor2[n] - donor3[n]) * weight if n is the randomly chosen component or a fresh random number in [0,1) falls below the crossover probability, and the target member's component n otherwise; so at least one component always comes from the donors.",
  "all dimensions, random streams and parameter values",
  "Convergence tests tolerate wrong formulas as long as some progress is made.",
  [DE], [("candidate construction", DE)], ["inputs", "histories"], ["first argument of the comparison"])
p("O05", "Optimisation is deterministic for a given generator and comparison",
  "All randomness of the optimiser comes from the generator passed by the caller: two runs with equal arguments, equal generator states and equally behaving comparisons perform the same draws and comparisons and return the same result.",
  "all arguments, generator states and comparison functions",
  "Tests use a thread-local unseeded generator and never repeat a run.",
  [DE], [("use of the rng argument only", DE)], ["inputs", "histories"], ["result, generator state"])
p("O06", "The optimiser returns a member that no final member was judged to beat",
  "After the search the returned vector is a member of the final population, selected by comparisons in which every final member takes part: a member is discarded only when the comparison did not judge it better than the member that was kept in its place, or when it was beaten.",
  "all population sizes (odd and even), final populations and comparison functions",
  "The tests use one even population size and accept any converged member.",
  [DE], [("knockout stage", DE)], ["inputs", "histories"], ["result, comparison calls"])
p("O07", "The initial population is drawn inside the bounds",
  "The optimiser starts from exactly the requested number of members, component n of each being drawn uniformly from the half-open interval given by the n-th bounds pair.",
  "all bounds, dimensions, population sizes and random streams",
  "The test uses identical bounds for both components, so a mixed-up index is invisible.",
  [DE], [("initial candidate set", DE)], ["inputs"], ["draws from the generator"])
# ---------------------------------------------------------------- everywhere
p("E01", "The library is safe code without hidden state or side effects",
  "The library contains no unsafe code and no global or thread-local mutable state, and performs no input or output and no access to clocks, threads, processes, the environment or ambient randomness, so results depend only on the arguments (and, for the optimiser, on the generator and comparison passed in).",
  "all programs, histories of calls and environments",
  "Tests cannot observe the absence of an effect or of undefined behaviour.",
  ["src/lib.rs", "src/algebra", "src/functions", "src/linalg", "src/optimize"], [("safe, pure code throughout", "src")],
  ["programs", "histories", "configurations"], ["effects"])
p("E02", "Operations on fitting operands never panic by themselves",
  "Arithmetic, evaluation and element access on polynomials of any lengths, static vectors and matrices of any dimensions and dynamic vectors, matrices and expressions with fitting dimensions and in-range indices never panic, apart from panics raised by the element type's own operators or by running out of memory.",
  "all lengths and dimensions including empty ones, all in-range indices",
  "Tests use a handful of small non-empty shapes.",
  [PO, SV, SM, DV, DM], [("index ranges of all loops, absence of spurious assertions", "src")], ["inputs"], ["panics"])
# ---------------------------------------------------------------- declined
p("V01", "Copies and comparisons of structures respect every component",
  "Cloning (or cloning into) a complex number, polynomial, vector or matrix gives the same shape and the same component at every position and leaves the original alone. Two complex numbers, static vectors, static matrices, dynamic vectors or dynamic matrices compare equal if and only if their shapes agree and all matching components do; in particular matrices with the same entries in the same order but different shapes differ.",
  "all shapes and component values, every component type",
  "Tests compare results with expected values but never establish that a difference in one component or only in the shape is seen.",
  [CX, PO, SV, SM, DV, DM], [("Clone and PartialEq implementations", "src")], ["inputs"], ["== and !=", "clones"])
p("R04", "Complex numbers, polynomials and static matrices obey the ring laws",
  "Over every ring, addition of complex numbers, of polynomials and of square static matrices is associative and commutative, subtraction is addition of the negation, multiplication is associative, and multiplication distributes over addition from both sides.",
  "all elements, degrees and dimensions, commutative or not",
  "No test states a law; a finite sample cannot establish one.",
  [CX, PO, SM, RI], [("operators used through the Ring trait", RI)], ["inputs"], ["operator results"])
p("T01", "Operands of mismatched static dimensions do not compile",
  "A program that adds, subtracts, compares or takes the dot product of statically sized vectors of different dimensions, combines statically sized matrices of different shapes, multiplies an LxM matrix by a matrix or vector with other than M rows, multiplies in place by a matrix that is not square of the fitting size, or uses a result as having other than its true dimensions is rejected by the compiler, and the same program with fitting dimensions is accepted. The product of an LxM and an MxN matrix is an LxN matrix.",
  "all dimensions (as symbolic parameters), all operators and spellings",
  "A test suite contains only programs that compile; none of the repository's tests can fail when a mismatched program starts to compile.",
  [SV, SM], [("const parameters in the operator impls", "src/linalg")], ["programs"], ["acceptance by the compiler"])
p("T02", "Structures and expressions are as shareable and copyable as their entries",
  "Complex numbers, polynomials, static and dynamic vectors and matrices can be sent to and shared between threads, cloned, compared and printed whenever their entries can, and complex numbers, static vectors and static matrices copied whenever their entries can, but not where their entries cannot. Lazy vector and matrix expressions can be sent and shared whenever their operands and functions can, so reading them never changes anything.",
  "all entry types, operand expressions and functions with the respective property",
  "Tests use entries of primitive types on one thread.",
  [CX, PO, SV, SM, DV, DM], [("derives and fields of the structures and expression types", "src")], ["programs"], ["acceptance by the compiler"])
p("E03", "Every element value is dropped exactly once",
  "Values that a client hands to the library or that the library creates are dropped exactly once unless they are returned: no operation leaks, forgets or duplicates an element or an allocation, on any path including panics.",
  "all operations, element types with destructors, sizes and panics of element operators",
  "Tests use element types without destructors and do not count allocations.",
  [CX, PO, SV, SM, DV, DM, DE], [("ownership throughout, no leaking calls", "src")], ["inputs", "histories"], ["drops, allocations"])
p("L01", "Lazy expressions read their operands only on demand and only once",
  "Building an expression (sum, difference, map, zip, element-wise product or quotient, conjugation, transposition, diagonal, wrapping, from a function) and asking for its shape reads no entry of an operand expression and calls no function given by the caller. Reading one entry, evaluating an expression or adding it in place reads no entry of an operand expression and calls no given function more than once for the same position. Reading one entry reads only the operand entries that entry is made of.",
  "all operand expressions and functions, shapes, positions and nestings",
  "Tests use pure closures and arrays, whose reads leave no trace.",
  [DV, DM], [("expression types and eval", DM)], ["inputs", "programs"], ["calls of VectorExpr::entry, MatrixExpr::entry and closures supplied by the client"])
p("N01", "Complex functions are numerically accurate",
  "For f32 and f64 inputs the complex functions return results within a few units in the last place of the exact result, without avoidable overflow, underflow or cancellation.",
  "all finite floating-point inputs",
  "Tests sample points in a small box with tolerances.",
  [CX], [("stable branches in sqrt", CX)], ["inputs"], ["return values"])
p("N02", "Differential evolution converges on the published test functions",
  "With usual parameters the optimiser's result comes close to the global minimum of the test functions with overwhelming probability.",
  "all seeds",
  "The unseeded tests sample a few runs.",
  [DE, TF], [("search loop", DE)], ["histories"], ["result"])
p("N03", "Lazy expressions cost no more than hand-written loops",
  "Evaluating a composed expression takes no more time than a hand-written loop over the operands and allocates only the result.",
  "all expressions and shapes",
  "Tests measure neither time nor allocations.",
  [DV, DM], [("lazy expression types", DM)], ["programs"], ["time, allocations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
