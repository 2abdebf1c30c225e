#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
M = "matrix/"
p("C01", "Elementwise arithmetic acts on exactly the matching elements",
  "For every shape and every arithmetic element type, matrix+matrix, matrix-matrix, matrix+scalar, scalar+matrix, matrix-scalar, matrix*scalar, scalar*matrix, matrix/scalar (non-zero scalar), postfix ++ and --, and abs return a matrix of the operand's shape. Each element (r,c) of the result is that scalar operation applied to element (r,c) of the operands (and the scalar, or 1 for ++/--) and depends on no other element. The function forms and the operator forms agree.",
  ["inputs", "configurations"], "all element values, all shapes i x j, all arithmetic element types, every previous history of calls",
  "The tests look at a handful of 2x2 float matrices; matrix-matrix subtraction, division and abs have no test at all, and no test uses a non-square operand.",
  [M+"matrix_sum.hpp", M+"matrix_sub.hpp", M+"matrix_mult.hpp", M+"matrix_div.hpp", M+"matrix_abs.hpp"],
  [("elementwise loops", M+"matrix_sum.hpp: sum; matrix_sub.hpp: sub; matrix_mult.hpp: mult(A,scalar); matrix_div.hpp: div; matrix_abs.hpp: abs"),
   ("operator forwarders", "operator+, -, *, /, ++, --")], ["returned matrix"])
p("C02", "Matrix product is the row-by-column sum of products for every shape",
  "For all conforming shapes n x m and m x p and all arithmetic element types, A*B (and its function form) is the n x p matrix whose element (r,c) is the sum over all k < m of A[r][k]*B[k][c], in exact arithmetic. The 2x2 Strassen product gives the same matrix as the ordinary product.",
  ["inputs", "configurations"], "all element values, all n, m, p, all arithmetic element types",
  "Only 2x3*3x2 and 2x2 products of fixed numbers are tested; Strassen is tested on one pair, one of whose entries is zero, so several of its seven products are never distinguished.",
  [M+"matrix_mult.hpp", M+"matrix_strassen.hpp"],
  [("triple loop", M+"matrix_mult.hpp: mult(A,B)"), ("seven products", M+"matrix_strassen.hpp: strassen")], ["returned matrix"])
p("C03", "Transpose, concatenation and minors relocate elements exactly",
  "Transposition maps element (r,c) to (c,r); concatenation places every element of the first operand at the top/left and every element of the second below/right of it, unchanged, in all its forms, including both members of the pair returned for two square matrices; taking the minor (i,j) of a square matrix returns the remaining elements in their original order with row i and column j removed. This holds for every shape and element type, and every result element is a verbatim copy of one operand element.",
  ["inputs", "configurations"], "all element values, all shapes, all element types, all valid i, j",
  "The horizontal member of the square concatenation pair is never looked at by a test; minors are tested only on the diagonal (i==j), transposition on two matrices.",
  [M+"matrix_trans.hpp", M+"matrix_concatenate.hpp", M+"matrix_inv.hpp"],
  [("index mapping loops", "trans; concatenate x3; concatenateV; concatenateH; getminor")], ["returned matrix / pair"])
p("C04", "Swapping rows or columns exchanges exactly those two, in place",
  "Swapping two rows (columns) of a matrix with valid indices exchanges exactly those two rows (columns), element by element, and leaves every other element untouched; swapping an index with itself changes nothing. It holds for every shape, in either argument order, and swapping twice restores the matrix.",
  ["inputs", "configurations"], "all element values, all shapes, all pairs of valid indices",
  "Tests swap one or two fixed index pairs per shape; the self-swap test compares the matrix with itself and so cannot fail.",
  [M+"matrix_swap.hpp"], [("swap loops", "swap_rows; swap_cols")], ["the matrix argument after the call"])
p("C05", "fill, zeros, ones and eye build exactly the requested matrix",
  "For every shape and element type, fill gives a matrix with every element equal to the given value, zeros and ones give all-zero and all-one matrices of exactly the requested rows x columns (including non-square ones and the form of ones that takes only rows and columns), and eye gives a square matrix with the given value (default 1) on the diagonal and zero elsewhere.",
  ["inputs", "configurations"], "all fill values, all shapes, all arithmetic element types",
  "ones is tested only for square shapes through its two-number form; eye for n=3,4 and fill for one 5x4 shape.",
  [M+"matrix_fill.hpp", M+"matrix_zeros.hpp", M+"matrix_ones.hpp", M+"matrix_eye.hpp"],
  [("std::array::fill over rows", "fill"), ("forwarding", "zeros, ones, eye")], ["returned matrix, its type"])
p("C06", "det is the mathematical determinant for every size and zero pattern",
  "For every n, det of an n x n matrix equals its determinant in exact arithmetic: also when zero entries force row exchanges (with the right sign for any number of them), when a pivot column is empty, and when the matrix is singular (result 0). The closed forms for n <= 3 and the general elimination agree with it.",
  ["inputs", "configurations"], "all element values including every pattern of zero pivots, all n",
  "Seven fixed matrices; few need a row exchange and none is singular, so most elimination paths of the general routine are never taken.",
  [M+"matrix_det.hpp", M+"matrix_swap.hpp"],
  [("closed forms", "det for 1x1, 2x2, 3x3"), ("Gaussian elimination with zero-pivot search, sign factor and diagonal product", "det(Matrix<T,n,n>)")], ["returned scalar"])
p("C07", "inv returns the two-sided inverse of every invertible matrix",
  "For every n and every n x n matrix with non-zero determinant over a floating-point element type, inv returns the matrix X with A*X = X*A = identity in exact arithmetic.",
  ["inputs", "configurations"], "all invertible matrices, all n, floating-point element types",
  "One fixed matrix for each of n = 2, 3, 4; 1x1 and n >= 5 are never inverted, and neither are matrices whose minors need row exchanges.",
  [M+"matrix_inv.hpp", M+"matrix_div.hpp", M+"matrix_det.hpp", M+"matrix_trans.hpp"],
  [("adjugate closed forms", "inv 1x1, 2x2, 3x3"), ("cofactor expansion, transpose, division by det", "inv(Matrix<T,n,n>), getminor")], ["returned matrix"])
p("C08", "Singular input and zero divisors are refused with a catchable error",
  "Dividing a matrix by a zero scalar, inverting a singular matrix of any size (also through a negative power) and LU-decomposing a matrix that hits a zero pivot end in a thrown std::overflow_error that the caller can catch; they never terminate the process and never return a result computed with that zero divisor. No such error is raised when the divisor, determinant or pivots are non-zero.",
  ["inputs", "configurations"], "all inputs reaching a zero divisor in any of these operations, all sizes, all element types",
  "No test passes a singular matrix or a zero divisor to anything.",
  [M+"matrix_div.hpp", M+"matrix_inv.hpp", M+"matrix_lu.hpp", M+"matrix_pow.hpp"],
  [("zero tests before dividing", "div; inv 1x1/2x2/3x3/nxn; lu")], ["thrown exception type", "normal return"])
p("C09", "LU decomposition yields unit-lower L and upper U with L*U = A",
  "For every n and every square floating-point matrix whose successive pivots are non-zero, the LU decomposition returns a pair (L,U) where L is lower triangular with ones on its diagonal, U is upper triangular, and L*U equals the input in exact arithmetic.",
  ["inputs", "configurations"], "all matrices with non-zero pivots, all n, floating-point element types",
  "Two fixed matrices, n = 2 and n = 3.", [M+"matrix_lu.hpp"],
  [("Doolittle recurrences", "lu")], ["returned pair"])
p("C10", "Cholesky factor is lower triangular with L*trans(L) = A; symmetry test exact",
  "For every n and every symmetric positive definite floating-point matrix, chol returns a lower triangular L (exact zeros above the diagonal, diagonal entries that are square roots) with L*trans(L) equal to the input in exact arithmetic. The symmetry predicate is true exactly when A[r][c] equals A[c][r] for all r and c.",
  ["inputs", "configurations"], "all symmetric positive definite matrices, all square matrices for the predicate, all n",
  "Two fixed matrices; the predicate is tried on one symmetric and one triangular matrix.", [M+"matrix_cholesky.hpp"],
  [("Cholesky-Banachiewicz recurrences", "chol"), ("lower/upper comparison loop", "isSymetric")], ["returned matrix / bool"])
p("C11", "pow is the repeated product for every integer exponent",
  "For every square matrix of floating-point elements, or of integers of int size or wider when p >= 0, and every signed integer exponent p whose negation its type can represent, pow returns the identity for p = 0, the p-fold product of the matrix with itself for p > 0, and the |p|-fold product of its inverse for p < 0, in exact arithmetic.",
  ["inputs", "configurations"], "all element values, all n, all signed exponents whose negation is representable",
  "Exponents -5..5 of one 2x2 matrix.", [M+"matrix_pow.hpp", M+"matrix_mult.hpp", M+"matrix_inv.hpp"],
  [("recursive squaring with odd-exponent correction", "pow")], ["returned matrix"])
p("C12", "3x3 convolution: full, same and valid match the definition at every pixel",
  "For every input shape, the full convolution with a 3x3 kernel is the (i+2) x (j+2) matrix whose element (r,c) is the sum over u,v of kernel[u][v]*A[r-u][c-v] with elements outside A counted as zero, as in Octave's conv2. The 'same' result is its central i x j part and the 'valid' result (shapes of at least 3x3) is the part computed without any padding; borders, corners, asymmetric kernels and non-square inputs included.",
  ["inputs", "configurations"], "all images and kernels, all shapes including those thinner than the kernel",
  "Two 5x5 images with point-symmetric kernels, for which convolution and correlation coincide.", [M+"matrix_conv2.hpp"],
  [("nine guarded products per pixel", "conv2, conv2_full"), ("cropping", "conv2_valid")], ["returned matrix"])
p("C13", "mean, var and stddev are the population statistics of all elements",
  "For every shape, mean is the sum of all elements divided by their number, var is the mean of the squared deviations from that mean (population variance), and stddev is the square root of var, in exact arithmetic for floating-point elements. For integer elements (negative ones included, no overflow) the divisions are ordinary truncating integer divisions of the signed value.",
  ["inputs", "configurations"], "all element values, all shapes, floating-point and integer element types",
  "The assertions only test that (result - expected) is below epsilon, so any too small result passes; one shape, positive values only.",
  [M+"matrix_mean.hpp", M+"matrix_var.hpp", M+"matrix_stddev.hpp"],
  [("accumulation and division by i*j", "mean, var"), ("square root", "stddev")], ["returned scalar"])
p("C14", "median is the middle order statistic for every ordering of the elements",
  "For every shape and every arrangement of NaN-free elements, duplicates included, median returns the middle element of the sorted elements when their number is odd, and half the sum of the two middle ones when it is even. The argument's order does not matter.",
  ["inputs", "configurations"], "all element orderings with ties, all shapes",
  "Two already sorted 3x3 matrices, checked one-sidedly; no even number of elements.", [M+"matrix_median.hpp"],
  [("copy, sort, pick the middle", "median")], ["returned scalar"])
p("C15", "Histograms count every element exactly once",
  "histogram maps each distinct value of the matrix, and nothing else, to the number of elements equal to it; cumulative_histogram has the same keys and maps each to the number of elements not greater than it, so that the largest key maps to rows*columns. It holds for every shape and every arrangement of NaN-free elements.",
  ["inputs", "configurations"], "all element arrangements including ties, all shapes",
  "One 3x3 matrix for histogram; cumulative_histogram has no test.", [M+"matrix_histogram.hpp"],
  [("one map increment per element", "histogram"), ("running sum over the ordered map", "cumulative_histogram")], ["returned map"])
p("C16", "compare and isIdentity answer exactly what they are named for",
  "compare is true exactly when every pair of corresponding elements differs by at most epsilon in absolute value (a NaN never matches anything). isIdentity is true exactly when all diagonal elements are one and all others are zero, for any arithmetic element type. Both look at every element of every shape.",
  ["inputs", "configurations"], "all element values (NaN included for compare), all shapes, all epsilons",
  "compare is called on 2x2 matrices whose first differing element comes early or which are equal; isIdentity only on unsigned matrices.",
  [M+"matrix_utils.hpp", M+"matrix_eye.hpp"],
  [("early-exit comparison loop", "compare"), ("comparison with eye", "isIdentity")], ["returned bool"])
p("C17", "Operations are pure: operands untouched, no hidden state, same result always",
  "Apart from the two swap operations, which modify only the matrix passed to them, no operation modifies an operand, and (apart from printing) none reads or writes state that outlives the call or consults the environment. The result therefore depends only on the arguments, whatever was called before, and operations may run concurrently.",
  ["inputs", "histories", "schedules"], "all call histories and interleavings, all inputs",
  "Each test case runs in its own process and calls each function a few times; state carried between calls or threads is never observed.",
  ["matrix/"], [("by-value results and const-reference operands", "all headers"), ("absence of static or global variables", "all headers")],
  ["operands after the call", "results of repeated calls"])
p("C18", "No operation except the histograms allocates dynamic memory",
  "No library operation other than the two histogram functions, whose result type is a node-based map, allocates from the heap on any path that returns normally; only raising an error may allocate (for the exception object). This is the library's documented 'no dynamic memory allocation' promise.",
  ["inputs", "configurations", "programs"], "all inputs, all shapes, all element types",
  "No test observes allocations.", ["matrix/", "README.md"],
  [("fixed-size std::array storage", M+"matrix_type.hpp"), ("local buffers", M+"matrix_median.hpp: median")], ["calls to allocation functions"])
p("C19", "Every access stays in bounds and nothing uninitialised is read",
  "For every shape (1 x 1 upwards) and all element values, with index arguments inside the matrix, no operation reads or writes outside the storage of its operands, its result or its local buffers, subscripts a row or a matrix beyond its extent, or lets an uninitialised element influence its result.",
  ["inputs", "configurations"], "all element values (every control path), all shapes, all valid index arguments",
  "An out-of-range read inside a larger object, or an uninitialised result element that happens to hold the right value, does not fail a test; few shapes are tried.",
  ["matrix/"], [("loop bounds taken from the shape parameters", "all headers"), ("range tests around padded reads", M+"matrix_conv2.hpp"), ("pivot search bounds", M+"matrix_det.hpp")], ["element accesses"])
p("C20", "Shapes are checked at compile time and result shapes are exact",
  "A program that combines matrices of incompatible shapes (adding, subtracting, comparing or concatenating mismatched shapes, multiplying without matching inner dimension, det/inv/lu/chol/pow/minor/identity/symmetry of a non-square matrix, Strassen on anything but 2x2, a kernel that is not 3x3) does not compile. Every conforming use compiles and its result type has exactly the shape and element type that the operation defines.",
  ["programs", "configurations"], "all client programs over all shape combinations",
  "Tests consist of programs that compile; nothing checks that an ill-shaped program is rejected, and few conforming shapes are instantiated.",
  ["matrix/"], [("shape parameters in the signatures", "all headers")], ["acceptance by the compiler", "types of results"])
p("C21", "matrix.hpp alone suffices, from C++11 on, in any number of units",
  "A translation unit that includes only matrix.hpp, after nothing else, can instantiate and use every operation with any conforming compiler at C++11 or any later standard. Including it in any number of translation units of one program gives no duplicate definition, and including it twice is harmless.",
  ["programs", "configurations"], "all client programs, language standards, compilers and numbers of translation units",
  "Every test is one translation unit that includes gtest (hence most of the standard library) first, at C++14; most templates are never instantiated at C++11.",
  ["matrix/"], [("include list", M+"matrix.hpp, "+M+"matrix_type.hpp"), ("templates and static inline functions only", "all headers"), ("include guards", "all headers")], ["acceptance by compiler and linker"])
p("C22", "Every operation terminates on every input",
  "For every shape, all element values (zeros, singular matrices and equal elements included) and every exponent whose negation its type can represent (C27 covers the others), each operation returns or throws after finitely many steps; no input makes a loop or a recursion run forever.",
  ["inputs", "configurations"], "all element values (every control path), all shapes, all exponents",
  "The pivot search and the recursive power have data-dependent progress; the tests' few matrices contain no zero column and exponents between -5 and 5.",
  [M+"matrix_det.hpp", M+"matrix_pow.hpp", "matrix/"],
  [("pivot/row counters that only advance", M+"matrix_det.hpp: det"), ("exponent halving", M+"matrix_pow.hpp: pow"), ("bounded counting loops", "all headers")], ["return of the call"])
p("C23", "print writes every element once, row by row, in order",
  "Printing a matrix of any shape writes to standard output, for each row in order, each of its elements in order with its default stream formatting followed by one blank, and ends every row with a newline; nothing else is written and the matrix is unchanged.",
  ["inputs", "configurations"], "all element values, all shapes, all streamable arithmetic element types",
  "No test calls print.", [M+"matrix_print.hpp"],
  [("row and column loops", "print"), ("number and line output", "print_num, print_endl")], ["standard output"])
p("C24", "Element values never pass through a narrower or different-kind type",
  "Between operands and result, no operation converts element data to a type with less precision or range than the element type (such as double through float, long double through double, a 64-bit integer through int or floating point); square roots of integers, taken in double, and the comparison of integer matrices with compare's float tolerance are excepted. Results for wide element types are therefore as precise as the element type's own arithmetic.",
  ["inputs", "configurations"], "all element values, all element types (double, long double and 64-bit integers in particular), all shapes",
  "All floating-point tests use float and a tolerance, where narrowing through a smaller type is invisible; the wide types are never used.",
  ["matrix/"], [("element-typed accumulators and constants", "all headers"), ("square roots and absolute values taken in the element type", M+"matrix_cholesky.hpp, "+M+"matrix_stddev.hpp, "+M+"matrix_abs.hpp")], ["returned values"])
p("C25", "A matrix is a plain row-major value with no overhead",
  "For every arithmetic element type and shape, a matrix is an aggregate that can be initialised with its elements in row-major order (also in a constant expression), is trivially copyable with standard layout, occupies exactly rows*columns*sizeof(element) bytes with element alignment, and stores its elements contiguously by rows; A[r][c] names row r, column c, and copying gives an independent value that compares equal.",
  ["programs", "configurations"], "all element types and shapes, all client programs relying on layout",
  "Tests subscript small matrices but nothing checks size, alignment, triviality or layout for other types and shapes.",
  [M+"matrix_type.hpp"], [("alias of nested std::array", M+"matrix_type.hpp: Matrix")], ["types, sizeof, offsets at compile time"])
p("C26", "Floating-point results are accurate to within a bound of the exact ones",
  "For floating-point element types, every numerical operation (products, determinant, inverse, decompositions, statistics) returns a result whose rounding error stays within a moderate multiple of the unit roundoff times the problem's condition.",
  ["inputs"], "all floating-point inputs, all sizes",
  "Tests compare a few well-conditioned matrices with loose tolerances.",
  ["matrix/"], [("order of floating-point operations; pivoting only on exact zeros", M+"matrix_det.hpp, "+M+"matrix_lu.hpp, "+M+"matrix_cholesky.hpp")], ["returned values"])
p("C27", "pow accepts the most negative exponent of every signed exponent type",
  "For every non-singular square floating-point matrix and every signed exponent type, pow with the most negative exponent of that type (such as (signed char)-128 or INT_MIN, whose negation the type cannot represent) returns the 2^(w-1)-fold product of the inverse, in exact arithmetic: it neither drops the sign of the exponent nor overflows nor recurses without end.",
  ["inputs", "configurations"], "all element values, all n, all signed exponent types",
  "Exponents -5..5 of type int only.", [M+"matrix_pow.hpp"],
  [("sign handling of the exponent: halving before the absolute value is taken", "pow")], ["returned matrix"])
p("C28", "Without stream output enabled, printing costs and writes nothing",
  "A unit that includes the library's individual headers (not matrix.hpp, which enables stream output itself) without defining PRINT_IOSTREAM_ENABLE does not get <iostream> from any of them, and print on a matrix of any shape and element type compiles and does nothing: it writes to no stream and changes nothing. With PRINT_IOSTREAM_ENABLE defined as 1 before the inclusion, print writes the same text as through matrix.hpp.",
  ["programs", "configurations"], "all client programs, element types and shapes, both settings of the macro",
  "No test includes an individual header or calls print.", [M+"matrix_print.hpp", "matrix/"],
  [("preprocessor condition selecting the output functions", M+"matrix_print.hpp"), ("include lists", "all headers")], ["standard output, include closure"])
p("C29", "Sums, products, convolution and rearrangement work for complex elements",
  "For matrices of std::complex<float>, std::complex<double> and std::complex<long double> of every shape, element-wise sums and differences (matrix or scalar operand, ++ and --), multiplication by a scalar on either side, the matrix product, the 2x2 Strassen product, transposition, concatenation, the constant matrices (zeros, ones, fill, eye) and the 3x3 convolutions compile and give the complex arithmetic result in exact arithmetic, real and imaginary parts alike (no conjugation, no dropped parts).",
  ["inputs", "configurations"], "all complex element values, all shapes",
  "No test uses complex elements, although matrix_type.hpp includes <complex>.", [M+"matrix_sum.hpp", M+"matrix_sub.hpp", M+"matrix_mult.hpp", M+"matrix_trans.hpp", M+"matrix_concatenate.hpp", M+"matrix_conv2.hpp", M+"matrix_strassen.hpp"],
  [("templates generic in the element type", "all headers"), ("inclusion of <complex>", M+"matrix_type.hpp")], ["returned matrix"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
