#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
A='src/algebra/'; L='src/linalg/'; F='src/functions/'; O='src/optimize/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
           why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                        observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Complex arithmetic is exact over every coefficient ring',
  'For any complex numbers over any ring, +, -, unary minus, *, multiplication by a scalar, conjugation, squared modulus, zero and one give exactly (a+c)+(b+d)i, (ac-bd)+(ad+bc)i, (a,-b), aa+bb and so on, with factors kept in left-to-right order. Every operator form (by value, by reference, compound assignment) of the same operation gives the same result, and operands passed by reference are unchanged.',
  ['inputs'],'all pairs of complex numbers over integer, finite-field, floating-point and non-commutative coefficient types (values for which the component formulas do not overflow)',
  'Unit tests check one fixed integer pair per operator; a sign or component swap that only shows when a part is zero, negative, equal or non-commutative is not reached.',
  [A+'complex.rs',A+'conj.rs',A+'ring.rs'],
  [('operator impls for Complex',A+'complex.rs'),('Conj',A+'conj.rs')],
  ['public fields re/im of the result of each operator'])
p('C02','Complex division undoes multiplication',
  'For any complex a and any b whose squared modulus is invertible, (a*b)/b equals a and (a/b)*b equals a: exactly over exact fields, and for f32/f64 within a few rounding errors relative to the modulus as long as no squared modulus or product leaves the normal range. Dividing by a real scalar divides both parts by that scalar in every operator form (values and references agree), and the multiplicative inverse laws hold.',
  ['inputs'],'all a and all invertible b over exact fields GF(p), and all f32/f64 pairs whose intermediate products stay in the normal range',
  'Two tests divide one fixed pair of small floats; nothing covers zero parts, negative parts, widely different magnitudes of the parts or exact fields.',
  [A+'complex.rs',A+'field.rs',A+'ops_with_ref.rs'],
  [('Div impls for Complex',A+'complex.rs'),('DivRefs',A+'ops_with_ref.rs')],
  ['result of / on Complex by value, by reference and by scalar'])
p('C03','Modulus and argument are the polar form',
  'For every complex number z = x+iy whose squared modulus is in the normal floating-point range, abs (by value or by reference) is sqrt(x^2+y^2) to within a few rounding errors, is non-negative, and arg lies in [-pi, pi] and is the quadrant-correct angle of the point (x, y), including the axes and signed zeros. Hence z equals abs(z)*(cos(arg z) + i sin(arg z)) up to rounding, abs is multiplicative, and abs satisfies the triangle inequality up to rounding.',
  ['inputs'],'all complex f32/f64 whose squared modulus neither overflows nor underflows, including points on the axes and signed zeros',
  'Tests check abs at two points and arg at one; quadrants, axes and signed zeros are not covered.',
  [A+'complex.rs',F+'atan2.rs',F+'abs.rs',F+'sqrt.rs'],
  [('Complex::abs / sqr_norm / arg',A+'complex.rs'),('Atan2',F+'atan2.rs')],
  ['Complex::abs, Complex::sqr_norm, Complex::arg'])
p('C04','Complex sqrt is the principal root, accurate in both components',
  'For every complex z whose squared modulus is in the normal floating-point range (and for zero), sqrt(z) has non-negative real part, an imaginary part that is non-negative when Im z >= 0 (so negative reals map to the positive imaginary axis) and non-positive when Im z < 0, and squares back to z within a few rounding errors of |z|. Each component of the root is itself accurate to a few rounding errors relative to its true value, even when one part of z is many orders of magnitude smaller than the other.',
  ['inputs'],'all complex f32/f64 with squared modulus in the normal range, in every quadrant, on the axes and for every ratio of the parts',
  'The test samples 100 points with uniformly distributed parts in [-5,5], which almost never come near the axes, the branch cut, or extreme ratios, and checks only the normwise residual and the sign of the real part.',
  [A+'complex.rs',F+'sqrt.rs'],
  [('two-branch formula in Sqrt for Complex',A+'complex.rs')],['Sqrt::sqrt on Complex<f32>, Complex<f64>'])
p('C05','Complex exponential and logarithm are inverse and principal',
  'For every complex f32/f64 in range, exp(x+iy) equals e^x(cos y + i sin y) in both components to within a few rounding errors, and ln(z) has real part ln|z| and imaginary part the principal argument in [-pi, pi] of z with the sign of Im z. Hence exp(ln z) returns z, ln(exp z) returns z up to a multiple of 2 pi i, exp(a+b) = exp(a)exp(b), and both commute with conjugation off the branch cut, all up to rounding.',
  ['inputs'],'all complex f32/f64 for which exponentials and squared moduli do not overflow or underflow',
  'exp is tested at one point; ln is tested only through ln(ab) on random points with an imaginary-part tolerance of 8*pi, which accepts any angle.',
  [A+'complex.rs',F+'exp.rs',F+'log.rs'],
  [('Exp and Ln for Complex',A+'complex.rs')],['Exp::exp, Ln::ln on Complex'])
p('C06','Complex sin, cos, tan, sinh, cosh match their exponential definitions',
  'For every complex f32/f64 z with moderate imaginary/real part (no overflow of the hyperbolic functions), sin, cos, sinh and cosh equal the standard component formulas (equivalently the exponential definitions) in each component to within a few rounding errors relative to that component, and tan z = sin z / cos z to within a few rounding errors of its modulus. In particular sin^2+cos^2 = 1, cosh^2-sinh^2 = 1, sinh(iz) = i sin z, cosh(iz) = cos z, sin/tan/sinh are odd, cos/cosh are even, and all commute with conjugation.',
  ['inputs'],'all complex f32/f64 z with |Re z|, |Im z| bounded so that no hyperbolic function or squared modulus overflows',
  'Each of sin, cos, sinh, cosh is tested at a single point (0.3,-1.2) and tan only through an addition formula with loose tolerance.',
  [A+'complex.rs',F+'sin.rs',F+'cos.rs',F+'tan.rs',F+'sinh.rs',F+'cosh.rs'],
  [('Sin, Cos, Tan, Sinh, Cosh for Complex',A+'complex.rs')],['the function traits on Complex'])
p('C07','Real elementary functions are accurate on the whole real line',
  'For every f32 and f64 argument the function traits abs, sqrt, exp, ln, sin, cos, tan, sinh, cosh, asin and atan2 return the mathematical value to within a few ulp (relative to the true value, also near zeros and for large, tiny or subnormal arguments). Special values follow IEEE conventions: out-of-domain arguments (negative sqrt, negative ln, |x|>1 asin, infinite sin/cos/tan) and NaN give NaN, infinities and overflow give the limiting value, odd functions keep the sign of zero, and atan2 is quadrant-correct including signed zeros.',
  ['inputs'],'all f32 and f64 bit patterns (pairs for atan2)',
  'Tests compare a handful of arguments, several of them one-sided (x - y <= eps accepts any smaller value), and never reach large, tiny, negative or special arguments.',
  [F+f for f in ('abs.rs','asin.rs','atan2.rs','cos.rs','cosh.rs','exp.rs','log.rs','sin.rs','sinh.rs','sqrt.rs','tan.rs')],
  [('function trait impls for f32/f64',F)],['the function traits on f32, &f32, f64, &f64'])
p('C08','Built-in number types behave as their native arithmetic through the traits',
  'For every built-in number type supporting them, the generic traits agree with native arithmetic: the zero and one elements are 0 and 1, reference multiplication and division equal the native * and /, and conjugation of a real number is the identity for every value. This holds for every value of every type, including extreme and special values.',
  ['inputs'],'all values of i8..i128, isize, u8..u128, f32, f64',
  'One test per trait with a single value of a single type.',
  [A+'ring.rs',A+'field.rs',A+'ops_with_ref.rs',A+'conj.rs'],
  [('blanket Zero/One/MulRefs/DivRefs, Conj list',A+'ring.rs')],['Zero, One, MulRefs, DivRefs, Conj on built-in types'])
p('C09','Polynomial arithmetic is exact coefficient arithmetic',
  'For any polynomials p and q of any lengths (including empty and with zero coefficients) over any ring, p+q, p-q, -p and p*q have exactly the coefficients given by coefficient-wise addition, subtraction, negation and convolution (coefficient products taken in left-to-right order); the zero and one polynomials are neutral, and multiplying by the zero polynomial gives zero. All operator forms (value, reference, compound assignment) agree with each other, including for machine integers whenever every coefficient of a sum, difference or negation is representable (products: when no partial sum overflows), and leave by-reference operands unchanged.',
  ['inputs','histories'],'all pairs of polynomials of any lengths over exact, machine-integer and non-commutative rings, and sequences of compound assignments',
  'Every operator is tested on one pair of equal-length (or length 3 and 2) integer polynomials; unequal lengths, empty polynomials and non-commutative coefficients are never reached.',
  [A+'polynomial.rs',A+'ring.rs'],
  [('operator impls for Polynomial',A+'polynomial.rs')],['Polynomial operators, observed by == and by eval'],
  [('coefficients','coefficient vector, lowest power first',A+'polynomial.rs')])
p('C10','Polynomial evaluation is the power sum and a ring homomorphism',
  'For every polynomial with coefficients a_0..a_n and every point x, both evaluation methods return a_0 + a_1 x + ... + a_n x^n (coefficients multiplied from the left), exactly over exact rings and within the usual rounding bound for floating point; the empty polynomial evaluates to zero. Over commutative rings evaluating a sum, difference, negation or product gives the sum, difference, negation or product of the evaluations.',
  ['inputs'],'all polynomials of any degree and all evaluation points over exact, floating-point and matrix-valued rings',
  'Doc examples evaluate 1+2x+3x^2 at x=2 only.',
  [A+'polynomial.rs'],[('Polynomial::eval_ref / eval',A+'polynomial.rs')],['Polynomial::eval, Polynomial::eval_ref'])
p('C11','Polynomial equality is mathematical equality',
  'Two polynomials compare equal exactly when they have the same coefficients for every power of x, regardless of how they were produced or how many zero leading coefficients they carry. In particular p-p and 0*p equal the zero polynomial, (p+q)-q equals p, and equality is an equivalence relation that never identifies polynomials with different coefficients.',
  ['inputs','histories'],'all pairs of polynomials over rings with exact equality, including results of cancelling operations',
  'No test compares polynomials of different stored lengths or after a cancellation.',
  [A+'polynomial.rs',A+'ring.rs'],[('PartialEq for Polynomial',A+'polynomial.rs')],['== and != on Polynomial'])
p('C12','Every ring type satisfies the ring laws, including nested types',
  'For every type the library declares to be a ring (machine integers, complex numbers, polynomials, square matrices of every size, and any nesting of them over an exact ring), the ring laws hold through the generic ring interface: addition is commutative and associative with neutral zero and inverse -a, a-b is a+(-b), multiplication is associative with neutral one, and both distributive laws hold. Multiplication by zero gives zero, and a-a equals zero.',
  ['inputs'],'all triples of elements of every ring type built from an exact ring by nesting complex, polynomial and square-matrix constructors',
  'The Ring trait documents these laws as an obligation but no test states any of them; no test nests one algebraic structure in another.',
  [A+'ring.rs',A+'complex.rs',A+'polynomial.rs',L+'smatrix.rs'],
  [('Ring impls',A+'ring.rs')],['Ring interface: Zero, One, += &, -= &, mul_refs, unary -, =='])
p('C13','Static vector arithmetic is component-wise and its product is the dot product',
  'For static vectors of every dimension (including 0) over any ring, + and - act component by component, scaling multiplies every component by the scalar on the right, the product of two vectors is the plain sum of component products (no conjugation, left operand first), and the zero vector is all zeros. Every operator form (value, reference, compound assignment) agrees; iteration by value, by reference and by mutable reference visits all components in order; indexing reads and writes exactly the named component and panics when out of range.',
  ['inputs'],'all vectors of all dimensions over exact, non-commutative and floating-point element types',
  'Doc examples use dimension 2 with one fixed pair of integers per operator.',
  [L+'svector.rs'],[('operator impls for SVector',L+'svector.rs')],['SVector operators, public array field, iteration, indexing'])
p('C14','Static matrix addition, negation, conjugation, zero and identity are entry-wise',
  'For static matrices of every shape (square or not, including empty) over any ring, +, -, unary minus and conjugation act on each entry at its own position, in every operator form. Zero is all zeros, one has ones exactly on the main diagonal (also for non-square shapes), and two matrices are equal exactly when all entries are equal.',
  ['inputs'],'all matrices of all shapes over exact, complex and non-commutative entry types',
  'Doc examples use one 2x3 pair; a defect in one row, one column or one shape is not reached.',
  [L+'smatrix.rs'],[('operator impls for SMatrix',L+'smatrix.rs')],['SMatrix operators compared with =='])
p('C15','Static matrix products follow the definition for every shape',
  'For every LxM and MxN static matrix (including empty dimensions) over any ring, the product is the LxN matrix whose (i,j) entry is the sum over k of a[i][k]*b[k][j] with factors in that order, and the matrix-vector product is the corresponding sum. Value, reference and compound-assignment forms agree, products are associative and distribute over addition, the identity is neutral on both sides, and multiplying a vector by a product equals applying the factors in turn.',
  ['inputs'],'all compatible shapes and all entries over exact and non-commutative rings, and floats in exact range',
  'One 2x3 by 3x2 example, one 3x2 by 2x2 example and one 2x2 matrix-vector example.',
  [L+'smatrix.rs',L+'svector.rs'],[('Mul/MulAssign for SMatrix',L+'smatrix.rs')],['* and *= on SMatrix and SVector'])
p('C16','Matrix constructors and structural views place every entry correctly',
  'For every shape (including empty, single-row and non-square): building a matrix from nested arrays or from a function, and the constant, zero, one and identity matrices, give exactly the stated entry at every (row, column) and the stated number of rows and columns. Transpose moves entry (r,c) to (c,r), Hermitian transpose also conjugates it, diagonal extraction returns the min(rows, columns) diagonal entries, a vector\'s diagonal matrix has the vector on the diagonal and zero elsewhere, map applies the function to each entry and zip pairs matching entries; reading single entries, indexing and full evaluation all agree, and transposing twice (plain or Hermitian) is the identity.',
  ['inputs'],'all shapes and entries, owned, borrowed, array-backed, function-backed and wrapped expressions, and compositions of the views',
  'Each view is tested on one 2x3 integer matrix.',
  [L+'dmatrix.rs',L+'dvector.rs'],[('MatrixExpr implementations and MatrixExprWrapper views',L+'dmatrix.rs')],['MatrixExpr::entry/num_rows/num_cols/eval, DMatrix indexing'],
  [('DMatrix storage','row-major entries with row and column counts',L+'dmatrix.rs')])
p('C17','Lazy matrix expressions evaluate to the eager entry-wise result',
  'Any expression tree built from matrices with +, -, element-wise multiplication and division, map, zip, transpose and Hermitian transpose evaluates to the same matrix (shape and entries, operand order preserved) as computing each step eagerly entry by entry, whatever the nesting, the mix of owned, borrowed and array operands, and also when the two operand matrices have different entry types. Evaluating an intermediate result to a matrix at any point of the tree does not change the final result, and reading one entry of the unevaluated expression gives the entry of the evaluated matrix.',
  ['programs','inputs'],'all expression trees over the matrix operators, all shapes, all entries over exact and non-commutative rings',
  'Tests apply one operator to one pair of literals; no test composes two operators.',
  [L+'dmatrix.rs'],[('AddExpr, SubExpr, zip+map element-wise products',L+'dmatrix.rs')],['eval() and entry() of composed expressions'])
p('C18','Dynamic matrix product follows the definition for every compatible shape',
  'For every m x k and k x n dynamic matrix over any ring, the product has m rows and n columns and its (i,j) entry is the sum over l of a[i,l]*b[l,j] with factors in that order, whether read entry by entry or evaluated. It agrees with the static matrix product, is associative and distributes over addition, (AB)^T = B^T A^T over commutative rings, and the identity is neutral.',
  ['inputs'],'all compatible shapes, including single-row, single-column and empty ones, and all entries over exact and non-commutative rings',
  'One 2x3 by 3x2 example.',
  [L+'dmatrix.rs'],[('MulDMatrix::entry',L+'dmatrix.rs')],['eval()/entry() of &a * &b'])
p('C19','Lazy vector expressions evaluate to the eager component-wise result',
  'For every length (including 0), vectors built from slices, functions, or the constant constructors have exactly the stated components; and any expression tree built with +, -, element-wise multiplication and division, map, zip and conjugation evaluates to the component-by-component eager result with operand order preserved, for owned, borrowed, slice and wrapped operands and for operands of different entry types. Length, emptiness, single-component reads, indexing and full evaluation agree with each other.',
  ['programs','inputs'],'all expression trees over the vector operators, all lengths and components over exact and non-commutative rings',
  'Each operator is tested on one literal pair; the by-reference subtraction test actually tests addition, and the -= test actually tests +=.',
  [L+'dvector.rs'],[('VectorExprWrapper operators, DVector',L+'dvector.rs')],['eval(), entry(), len(), is_empty() of vector expressions'])
p('C20','Dynamic vector product is the sesquilinear inner product',
  'For dynamic vectors u and v of equal length (including 0), u*v is the sum over i of conj(u[i])*v[i] with the left operand conjugated and factors in that order; by-value and by-reference forms agree. Hence it is additive in both arguments, conjugate-symmetric over commutative rings, and u*u for complex vectors has zero imaginary part and real part equal to the sum of squared moduli.',
  ['inputs'],'all pairs of equal-length vectors over real, complex and non-commutative rings with conjugation',
  'One real integer example of length 3; conjugation in the product is never exercised.',
  [L+'dvector.rs',A+'conj.rs'],[('Mul for DVector and &DVector',L+'dvector.rs')],['* on DVector'])
p('C21','Mismatched shapes are always rejected, never silently combined',
  'For dynamic matrices and vectors, combining two operands of different shapes with +, -, +=, -=, element-wise multiplication or division, zip, or the vector inner product, and multiplying matrices whose inner dimensions differ, panics in every build profile and never yields a value; operands of matching shape are always accepted. This holds for every pair of shapes, including ones with the same number of entries, ones where only one dimension differs, and empty ones, and for owned, borrowed, array and lazy operands.',
  ['inputs'],'all pairs of shapes and every binary operation of the dynamic linear-algebra types',
  'No test exercises a mismatching pair.',
  [L+'dmatrix.rs',L+'dvector.rs'],[('dimension assertions in zip, Add, Sub, AddAssign, SubAssign, Mul',L+'dmatrix.rs')],['panic or value of each binary operation'])
p('C22','Indexing reads and writes exactly the named entry or panics',
  'For every dynamic matrix and vector, reading or writing an index within the shape accesses exactly that entry and leaves all others unchanged, while any index with row, column or position outside the shape panics, both through indexing and through single-entry reads of stored matrices, vectors, arrays and slices. An out-of-range column never silently refers to an entry of another row.',
  ['inputs'],'all shapes and all in-range and out-of-range indices (including huge ones)',
  'Index tests use a 2x2 matrix and a length-5 vector with in-range indices only.',
  [L+'dmatrix.rs',L+'dvector.rs'],[('Index/IndexMut/entry',L+'dmatrix.rs')],['DMatrix[[r,c]], DVector[i], entry()'])
p('C23','In-place updates of dynamic matrices and vectors follow a simple model',
  'After any sequence of indexed writes, +=, -= (with owned, borrowed, array or lazy right-hand sides) and clones, a dynamic matrix or vector has the shape it was created with and exactly the entries obtained by applying the same updates to a plain two-dimensional (one-dimensional) table. Updating one value never changes a clone of it or the right-hand side, and equality between values holds exactly when shape and all entries agree.',
  ['histories'],'all operation sequences on a pool of matrices and vectors of all shapes',
  'Tests perform a single in-place operation on one small literal; no sequence of operations is tested.',
  [L+'dmatrix.rs',L+'dvector.rs'],[('AddAssign/SubAssign/IndexMut/Clone/PartialEq',L+'dmatrix.rs')],['entries, ==, shape after every step'],
  [('pool of matrices and vectors','values under update',L+'dmatrix.rs')])
p('C24','Lazy expressions compute each requested entry once and nothing else',
  'Building a matrix or vector expression (from a function, map, zip, arithmetic, transpose, diagonal) calls no user-supplied function; reading one entry calls each involved function exactly once, for exactly the corresponding position or value; and evaluating the expression calls each involved function exactly once per entry of the result. Extracting a diagonal therefore only computes diagonal entries.',
  ['programs','inputs'],'all shapes and expression chains built from function-backed and mapped expressions',
  'Tests only look at final values, never at which entries were computed or how often.',
  [L+'dmatrix.rs',L+'dvector.rs'],[('make_matrix_expr/make_vector_expr/map/zip closures',L+'dmatrix.rs')],['calls observed by closures passed to the expression constructors and map'])
p('C25','Static and dynamic linear algebra agree',
  'For the same entries, static matrices/vectors and dynamic matrices/vectors give the same sums, differences, products, matrix-vector products, conjugates and identity/zero elements, entry for entry, for every shape. A dynamic vector product of real vectors equals the static dot product, and a 1xn by nx1 matrix product equals both.',
  ['inputs'],'all shapes and entries over exact rings and exactly representable floats',
  'No test relates the two families of types.',
  [L+'smatrix.rs',L+'svector.rs',L+'dmatrix.rs',L+'dvector.rs'],[('parallel implementations',L)],['results of the two families compared entry-wise'])
p('C26','Differential evolution returns the best candidate it ever evaluated',
  'For every random generator, population size, number of iterations, parameters, dimension and every comparison that is a strict weak order, the returned point is one of the candidates shown to the comparison, and no candidate ever shown to the comparison is better than it. Consequently running more iterations from the same generator state never returns a worse point, and the result is never worse than any member of the initial population.',
  ['inputs','histories'],'all RNG streams, population sizes >= 4, iteration counts >= 0, crossover probabilities and weights, dimensions >= 1, and objective functions with ties',
  'The only test minimises one smooth function with one population size and a loose tolerance, and is unseeded; odd population sizes, ties, few iterations are never reached.',
  [O+'differential_evolution.rs'],[('greedy replacement and knockout stage',O+'differential_evolution.rs')],['calls of the comparison function, and the returned point'],
  [('population','current candidates',O+'differential_evolution.rs')])
p('C27','Every trial point is a legal differential-evolution step',
  'During the search, members are visited cyclically, and each trial offered against an incumbent differs from it only in coordinates equal to p_j + F*(p_k - p_l) for three distinct current population members j, k, l different from the incumbent\'s own index (the same three for all coordinates), with at least one such coordinate; with crossover probability 1 every coordinate is such, with probability 0 exactly one is. A trial replaces the incumbent exactly when the comparison says it is better; every member can serve as donor in every role, every coordinate can be the forced one, and every other coordinate is replaced independently with the crossover probability.',
  ['histories','inputs'],'all RNG streams, population sizes, dimensions, parameters and objectives; statistical parts over many trials with negligible false-alarm probability',
  'The only test looks at the final point; the search steps are not observed at all.',
  [O+'differential_evolution.rs'],[('index sampling and crossover loop',O+'differential_evolution.rs')],['sequence of (trial, incumbent) pairs seen by the comparison function'],
  [('population','current candidates',O+'differential_evolution.rs')])
p('C28','Differential evolution honours bounds, parameter limits and budget',
  'Every coordinate of the initial population lies within its own half-open bound [lo, hi), samples spread over the whole box, and with zero iterations the result is such a point. Population sizes below 4, crossover probabilities outside [0,1], weights outside [0,2] (NaN included) and empty bounds are rejected by a panic before any comparison is made, while the limits themselves are accepted; the comparison is called at most (iterations + population size) times, and the same generator state and arguments give the same result.',
  ['inputs','configurations'],'all bounds, dimensions, parameter values including limits and NaN, and RNG streams',
  'The test uses a single valid configuration with equal symmetric bounds in both dimensions.',
  [O+'differential_evolution.rs'],[('assertions and initial sampling',O+'differential_evolution.rs')],['points and number of calls seen by the comparison function; panics'])
p('C29','Differential evolution converges on well-behaved objectives',
  'With customary parameters (population 12 or more per dimension but at least 30, crossover 0.9, weight 0.6-0.8, several hundred iterations per member) the optimiser finds the minimiser of a convex quadratic with random centre and scaling to a small fraction of the search box in one to four dimensions, and the documented Ackley example lands within 0.1 of the origin given enough iterations, for essentially every random stream. This holds for both f32 and f64 coordinates and when the minimiser lies anywhere inside the box.',
  ['inputs','configurations'],'random quadratics (centre, scales, box, dimension), random streams, both float types',
  'The existing test is unseeded, covers one function with its minimum in the centre of the box, and is left out of the reliable test set because it fails now and then.',
  [O+'differential_evolution.rs',O+'test_functions.rs'],[('whole optimiser loop',O+'differential_evolution.rs')],['returned point'])
p('C30','The Ackley test function has its published values and shape',
  'For all x, y in [-5, 5], ackley(x, y) equals -20 exp(-0.2 sqrt((x^2+y^2)/2)) - exp((cos 2 pi x + cos 2 pi y)/2) + e + 20 up to single-precision rounding, also very close to the origin. It is symmetric under swapping and sign changes of the arguments, non-negative up to rounding, and zero at the origin only (within rounding).',
  ['inputs'],'all pairs of f32 in the documented domain, including points very close to the origin and on the axes and diagonals',
  'The function is only used inside the (excluded) optimiser test; its values are never checked.',
  [O+'test_functions.rs'],[('ackley',O+'test_functions.rs')],['ackley(x, y)'])
p('C31','Equality is equality of shape and entries; clones are equal and independent',
  'For complex numbers, static vectors and matrices, and dynamic vectors and matrices, == holds exactly when the shapes agree and every pair of corresponding entries is equal under the entries\' own ==, so one differing entry anywhere, a different shape with the same data, a NaN entry or a different length makes values unequal, and != is the exact negation. A clone (or copy) has the same shape and entries, a value of any other shape that takes it over by clone_from has them too, and a later write to either of the two is not visible in the other; the same goes for clones of polynomials of any lengths.',
  ['inputs'],'all shapes and entries, including entry types whose == is not an equivalence, and pairs differing in exactly one place',
  'Tests use == on a few literals of one shape as a tool; they never check that it distinguishes values, and do not look at clones at all.',
  [A+'complex.rs',L+'smatrix.rs',L+'svector.rs',L+'dmatrix.rs',L+'dvector.rs'],[('PartialEq and Clone',L)],['==, !=, clone, clone_from, entries after writes'])
p('C32','Entries are dropped exactly once, even when an entry operation panics',
  'Every entry handed to or created by matrices, vectors, polynomials and expressions is dropped exactly once and never used afterwards; when all operations have completed and all values are gone, none is left over. When an operation on the entries (their clone, conversion, arithmetic, comparison, a mapped function) panics at any point, nothing is dropped twice or used after its drop, and the values the caller still owns keep their shape, contain only live entries, and can still be used and dropped.',
  ['inputs','crash_points'],'all shapes, all operations on generic entries, and a panic injected at every single entry operation',
  'Tests use plain numbers without destructors and entry operations that never panic, so ownership is not observed by any test.',
  [L+'smatrix.rs',L+'svector.rs',L+'dmatrix.rs',L+'dvector.rs',A+'polynomial.rs'],[('construction from functions, by-value arithmetic, in-place updates',L)],['live/dropped state of each entry tracked by a registry'],
  [('registry of live entries','entries created and dropped','harness')])
p('C33','Floating-point vectors, matrices and polynomials are as accurate as defined',
  'Over f32 and f64, sums, differences, negations, element-wise products and quotients and scalings of vectors and matrices (static and dynamic, in place, lazy, transposed) give at every entry exactly the float the native operation gives for the two entries, including infinities, NaN and the sign of zero (for polynomials up to the sign of zero). Every entry of a product (dot product, matrix, matrix-vector, polynomial, also over complex numbers, per component) lies within n rounding errors of the size of its n terms of the exact sum of products, for any cancellation; and if terms are infinite or NaN the entry is what IEEE arithmetic makes of those terms: no term is skipped because a factor is zero.',
  ['inputs'],'all shapes, all float bit patterns for entry-wise operations, finite values of any size short of overflow and special values for products, both float types',
  'Tests use small integers in floats, where reciprocals, reordered or skipped terms and other formulas give the same results.',
  [L+'smatrix.rs',L+'svector.rs',L+'dmatrix.rs',L+'dvector.rs',A+'polynomial.rs',A+'complex.rs'],[('product loops and entry-wise operators',L)],['entries of results over f32/f64'])
p('C34','Results depend on the operands alone, in any order and on any thread',
  'Every operation of the library (elementary functions, complex numbers, polynomials, static and dynamic linear algebra, lazy expressions read repeatedly, the optimiser with a given generator state) gives the same result, to the bit, for the same operands: when called again, in another order, right after the same operation on other operands, and when several threads call operations at the same time.',
  ['histories','schedules'],'all sequences of calls, orders and interleavings on two to four threads',
  'Each test calls a function once or twice on one thread and never compares repeated or concurrent calls.',
  [L,A,'src/functions/',O],[('all operations: no hidden state',A)],['results of repeated, reordered and concurrent calls'])
p('C35','The number of element operations stays proportional to the definition',
  'Evaluating a polynomial of n coefficients takes O(n) ring operations and copies; multiplying polynomials of n and m coefficients O(nm); sums, differences, comparisons O(n+m); an l x m by m x n matrix product O(lmn) and one entry of it O(m); an entry-wise matrix or vector operation a constant number of element operations and copies per entry; transposes and diagonals no arithmetic; a dot product O(n); a complex product a constant number; with constants at most four times those of the straightforward definition.',
  ['inputs','configurations'],'all sizes and shapes from zero up, all operations on generic elements',
  'Tests only look at results for small operands, where an algorithm of a higher order or one that copies whole operands per entry gives the same values.',
  [L+'smatrix.rs',L+'svector.rs',L+'dmatrix.rs',L+'dvector.rs',A+'polynomial.rs',A+'complex.rs'],[('evaluation and product loops',A+'polynomial.rs')],['additions, multiplications, copies and comparisons of elements'])
p('C36','Differential evolution is independent of units and sees only comparisons',
  'Multiplying the bounds of each coordinate by a power of two of its own, with the objective in the new units, multiplies every trial, every compared point and the result by exactly these factors, for the same generator state: no absolute tolerance, step or cut-off takes part in the search. The search is driven by the outcomes of the comparisons alone: a comparison that gives the same answers, in particular that of an objective transformed by an increasing function, leads to the same sequence of points and the same result.',
  ['histories','inputs'],'all boxes, factors per coordinate, parameters, objectives, random streams and run lengths, including runs that have converged',
  'The only test uses one box of unit scale and a single short run per stream.',
  [O+'differential_evolution.rs'],[('whole optimiser loop',O+'differential_evolution.rs')],['points shown to the comparison, result'],
  [('population','current candidates',O+'differential_evolution.rs')])
p('C37','Complex functions keep symmetry and overflow side on the whole float range',
  'For complex f32 and f64 numbers of any bit patterns, including values whose exponentials or squares overflow or underflow: exp, ln, sqrt (off the branch cut), sin, cos, tan, sinh, cosh commute with conjugation; sin, tan, sinh are odd and cos, cosh even; sinh(iz) = i sin z and cosh(iz) = cos z; the modulus is the same for z, its conjugate, -z and iz and never negative; the argument is the accurate angle of z in [-pi, pi], on the side of z; root and logarithm lie on that side too; on the real axis the functions agree with the real ones; a NaN part always shows in the result; and where the exponential part overflows, each component is infinite with the sign of its trigonometric factor.',
  ['inputs'],'all pairs of float bit patterns, with emphasis on the overflow thresholds, extreme sizes, the axes, infinities and NaN',
  'Tests use one or a hundred points of moderate size.',
  [A+'complex.rs','src/functions/'],[('Exp, Sin, Cos, Tan, Sinh, Cosh, Ln, Sqrt, Abs and arg of Complex',A+'complex.rs')],['both components of the results'])
p('C38','Memory stays proportional to operands and results; nothing is kept',
  'Building a lazy matrix or vector expression and reading one of its entries takes no more than a constant amount of heap memory, whatever its size, so that the n x n diagonal matrix of a vector, identities and transposes are never stored unless evaluated. Evaluations, in-place updates, products and polynomial operations never hold more than a small multiple of their operands and results at once, keep nothing but the result, and leave nothing behind when repeated; the optimiser needs memory for its population only, however many iterations it runs; and no operation recurses once per entry, so operands of hundreds of thousands of entries work on a small stack.',
  ['inputs','histories'],'all sizes and shapes from zero to hundreds of thousands of entries, repeated operations, all populations and run lengths',
  'Tests use operands of a few entries and never look at memory.',
  [L,A+'polynomial.rs',A+'complex.rs',O+'differential_evolution.rs'],[('eval of MatrixExpr and VectorExpr',L),('in-place updates',L),('population of the optimiser',O+'differential_evolution.rs')],['bytes in use and their peak under a counting allocator, stack use'])
p('C39','Histories of updates of static and polynomial values follow plain lists',
  'For complex numbers, static vectors, static matrices and polynomials, any history of new values, clones, clone_from, swaps, operations by value, by reference and in place (+, -, *, unary minus, conjugation, scalar and matrix factors, with operands of any length for polynomials), and writes to parts and components leaves every value equal to the plain list of components or coefficients that follows the same history by the definitions. The result of an operation depends on the values only, not on how they came about, such as spare room, trailing zero coefficients or earlier lengths, and a change of one value is never visible in another one, in particular not in the one it was cloned from or in an operand.',
  ['inputs','histories'],'all histories of operations on several values of one type over all coefficient rings, all dimensions, polynomials of all lengths',
  'Tests apply one operation to values fresh from a literal; they never chain operations, clone a value and change one of the two, or use a value with spare room or trailing zeros.',
  [A+'complex.rs',A+'polynomial.rs',L+'svector.rs',L+'smatrix.rs'],[('operator and assignment impls',A+'polynomial.rs'),('operator and assignment impls',A+'complex.rs'),('operator and assignment impls, IndexMut, iterators',L)],['components, coefficients (by equality and evaluation), == after each step'],
  [('coefficient list','Vec of coefficients of a polynomial, any length, trailing zeros allowed',A+'polynomial.rs')])
p('C40','All structures commute with changes of the coefficient ring',
  'For every ring homomorphism, applying an operation of complex numbers, polynomials, static or dynamic vectors and matrices, or structures of structures (complex polynomials, matrices of polynomials, polynomials of matrices or of polynomials, at points and composed) and then the homomorphism to the result gives the same as applying the homomorphism to all entries first: for residue maps, embeddings of numbers into complex numbers, quaternions and matrices, automorphisms, evaluation of polynomial entries and wider number types. Equal structures stay equal, and different ones stay different under an injective map. Operations that conjugate do so for maps that commute with conjugation.',
  ['inputs'],'all programs of operations over pairs of rings connected by a homomorphism, all entries',
  'Tests use number types, one at a time; nothing relates the behaviour over one entry type to that over another, or uses structures as entries of structures.',
  [A,L],[('generic impls bound by Ring, MulRefs, AddAssign<&T>',A),('generic impls of vectors and matrices',L)],['results of operations over two rings'])
p('C41','Complex functions work over every scalar type, not only f32 and f64',
  'The modulus, argument, exp, ln, sqrt, sin, cos, tan, sinh, cosh, division and products of complex numbers are written in terms of the operations of the scalar type alone, so they hold over every scalar type of a user: over floats of twice the precision they are as accurate as those floats (no constant, cut-off, iteration or approximation is tuned to f64); over dual numbers the derivative part is that of the complex derivative in every direction; over formal power series they satisfy the exact identities of the series; over complex numbers as scalars (bicomplex numbers) both images are the functions of the images.',
  ['inputs'],'all scalar types with the operations the bounds ask for, all points away from poles, cuts and overflow',
  'Tests use f32 and f64 only, where a series cut off at 1e-17 or a saturation at |im| > 20 cannot be told from the definition.',
  [A+'complex.rs','src/functions/'],[('generic impls of Exp, Ln, Sqrt, Sin, Cos, Tan, Sinh, Cosh, Abs, Div for Complex',A+'complex.rs')],['results over four scalar types of a user'])
p('C42','The library can be used from within itself and after a panic of user code',
  'Entry operations, functions given to expressions or mapped over them, objectives and random number generators may themselves use the library, at any depth, also the very operation that is calling them: results of both are as if computed apart. If one of them panics, the panic reaches the caller as it is, and everything works afterwards as before: the same expression read again, the same operation, any other operation, another search.',
  ['histories','crash_points'],'all nestings of operations, all points at which user code is called, a panic at any of them',
  'Tests use plain numbers and functions of one line that neither call the library nor panic.',
  [L,A,O+'differential_evolution.rs'],[('calls of user code: entry operations, entry(), map, objective, rng',L)],['results of outer and nested operations, results after a panic'])
p('C43','Structures that represent each other compute alike',
  'Complex numbers over any ring compute like the 2x2 matrices (a, -b; b, a), complex matrices and inner products like real ones of twice the size; products, sums and values of polynomials like Toeplitz matrices, vectors of coefficients and rows times matrices of powers, and a monic polynomial vanishes at its companion matrix over commutative rings; matrices of square blocks like the flat matrix, static and dynamic; complex polynomials like polynomials over complex numbers, matrices of polynomials like polynomials over matrices, polynomials over polynomials like their value at a high power of the variable; diagonal, column and row matrices like vectors. Sums, differences, negatives, products in every form and order, updates in place, and equality correspond, over commutative and non-commutative rings and for all sizes (inner dimension at least one).',
  ['inputs'],'all operands of all sizes over exact rings, commutative or not',
  'Tests look at one structure at a time with fixed small integers; no test relates two structures or nests them.',
  [A+'complex.rs',A+'polynomial.rs',L+'smatrix.rs',L+'dmatrix.rs',L+'dvector.rs',L+'svector.rs'],[('products and sums of all structures',A),('products and sums of vectors and matrices',L)],['results of corresponding operations of two structures'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
print(len(P),'properties')
