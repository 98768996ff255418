"""The single source of properties.jsonl, MANIFEST.json and the property sections of DESIGN.md."""
K = 'intvalpy/kernel/'
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, design, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, design=design, technique=technique, note=note))


KER = [K + 'interval_arithmetics.pyx']
ARR = [K + 'real_intervals.py']

prop('C01', 'Interval arithmetic always encloses the exact result',
     'For intervals with finite endpoints (floats, or integers of magnitude up to 2**52) and numbers of any numeric type, each of + - * / in either operand order gives an interval that contains every exact real result for points of the operands; '
     'this also holds for results of chains of operations. Division by an interval that contains zero raises ValueError and never returns an interval.',
     ['inputs', 'histories'], 'all pairs of proper intervals over a dense endpoint alphabet (tiny, huge, inexact, integer, mixed widths), all scalar types, all operation chains up to depth 3 (thorough 4)',
     'The tests compare a handful of quotients and products with literal endpoints; an enclosure must hold for every rounding situation.',
     KER, [{'name': 'directed rounding of every endpoint', 'where': K + 'interval_arithmetics.pyx: __add__, __sub__, __mul__, __truediv__ and their reflected forms'}],
     'Transition system over pairs (implementation interval, exact rational interval). All operand pairs of the alphabet and all chains up to the bound; every transition is executed and the result compared with the exact rational result (fractions.Fraction).',
     'explicit-state exploration of operation chains against an exact rational model', 'exhaustive over the stated alphabet and depth; trusts CPython Fraction and that one alphabet value per rounding/sign situation represents it')
prop('C02', 'Interval arithmetic is sharp to a few rounding errors',
     'Within the range where nothing over- or underflows, each endpoint of x + y, x - y, x * y and x / y (also with a number as either operand) lies within 4 units in the last place of the exact endpoint.',
     ['inputs'], 'all pairs of proper intervals and all interval/number pairs over the moderate alphabet, float and integer endpoints',
     'Tests compare few results approximately; a result that is too wide still passes every containment test.',
     KER, [{'name': 'one directed rounding per endpoint', 'where': K + 'interval_arithmetics.pyx'}],
     'Same transitions as C01, compared from the other side: distance to the exact endpoint in ulps.',
     'exhaustive enumeration of operand pairs against an exact rational model', 'exhaustive over the alphabet; 4 ulp leaves room for other correct outward roundings')
prop('C03', 'Complete (Kaucher) interval arithmetic and its laws',
     'Operations where at least one operand is improper give the interval of Kaucher arithmetic, rounded outwards and within 4 units in the last place, whatever class represents the operands, and division by an interval whose proper projection contains zero raises ValueError. '
     'Dual, opposite, inverse and proper projection satisfy the laws of Kaucher arithmetic: x + opp(x) and x * inv(x) give [0, 0] and [1, 1] up to rounding, and dual(dual(x)) is x.',
     ['inputs'], 'all pairs of proper and improper intervals over the alphabet, in every class that can represent them, and all interval/number pairs',
     'The tests check a few improper operands; the Kaucher product has 16 sign cases with their zero boundaries.',
     KER, [{'name': 'Kaucher product and quotient', 'where': K + 'interval_arithmetics.pyx: KaucherArithmetic'}],
     'The model is the Kaucher table by sign zones on exact rationals, independent of the implementation formula; all pairs are executed in all representations.',
     'exhaustive enumeration of operand pairs against an exact Kaucher model', 'exhaustive over the alphabet')
prop('C04', 'Every history of interval operations agrees with complete arithmetic',
     'Starting from any interval, any sequence of arithmetic operations, reflected operations, negation, absolute value, natural powers, dual, opp, inv, pro, copies, conversions and in-place operations gives exactly the interval of complete interval arithmetic as long as all endpoints are exactly representable; '
     'in particular a result is proper or improper as its endpoints say, so that later operations use the right rules.',
     ['histories'], 'all sequences up to depth 4 (thorough 5) over about 60 events from proper, improper, zero and degenerate start intervals',
     'Unit tests look at single operations, not at the state an operation leaves for the next one.',
     KER + ARR, [{'name': 'class of a result follows its orientation', 'where': K + 'interval_arithmetics.pyx'}],
     'Breadth-first search over reachable intervals with exact endpoints; each transition is replayed on the implementation object and compared.',
     'breadth-first explicit-state model checking of operation histories, every transition replayed', 'exhaustive up to the depth; endpoints dyadic, so the model is exact')
prop('C05', 'Elementary functions and powers enclose their exact range',
     'exp, log, sqrt, sin, cos and powers with natural or real exponents of a proper interval contain the exact range of the function over the part of the interval inside the domain and are close to it (relative error at most 1e-12, for sin and cos with arguments up to 1e6), whether called as library or NumPy functions, on intervals, numbers or arrays. log and sqrt of an interval entirely outside the domain give nan, and real powers of intervals with negative numbers raise ValueError.',
     ['inputs'], 'all intervals over endpoint alphabets that straddle every extremum within reach and all quadrants, huge and tiny arguments, all exponents 0..64',
     'Tests check some ranges with tolerances larger than rounding and few quadrants.',
     KER + [K + 'elementary_functions.py'], [{'name': 'monotone endpoints and extrema', 'where': K + 'interval_arithmetics.pyx: __array_ufunc__, __pow__'}],
     'The exact range is computed with mpmath at 80 digits from the analytic extrema; every enumerated interval is executed.',
     'exhaustive enumeration against a high-precision range model', 'exhaustive over the alphabet; trusts mpmath')
prop('C06', 'The floating-point rounding mode is always restored',
     'No operation on intervals or interval arrays, whether it succeeds or raises, leaves the floating-point rounding mode different from the one that was set before.',
     ['histories', 'inputs'], 'every operation of the kernel including raising ones, under all four rounding modes, and all ordered pairs of operations',
     'No test looks at the rounding mode; a leak is only visible in later unrelated computations.',
     KER, [{'name': 'RoundingContext', 'where': K + 'interval_arithmetics.pyx'}],
     'State = rounding mode x history; every operation and every pair of operations is executed in each state and the mode read back through libm.',
     'explicit-state exploration of (rounding mode, history)', 'exhaustive over the listed operations and pairs')
prop('C07', 'Comparisons, containment and intersection of intervals',
     'Comparisons hold endpoint by endpoint (== iff both endpoints agree, != is its negation), membership and containment are inclusion of the point or interval, and intersection() is the exact common part of its operands, nan exactly when they do not meet (gaps below 2e-15 excepted). '
     'For interval arrays all of this holds element by element, with broadcasting against a single interval or number.',
     ['inputs'], 'all pairs of proper and improper intervals over the alphabet, in all classes, with all number types, and all vectors of them up to length 3',
     'Tests sample a few comparisons of equal and far-apart intervals, not touching, nested, degenerate and improper ones.',
     KER + ARR + [K + 'preprocessing.py', K + 'utils.py'], [{'name': 'comparison methods', 'where': K + 'interval_arithmetics.pyx'}, {'name': 'intersection', 'where': K + 'preprocessing.py'}],
     'Exact comparison of rational endpoints as the model; all pairs executed.',
     'exhaustive enumeration of pairs against an exact order model', 'exhaustive over the alphabet')
prop('C08', 'Characteristics, distances and structural functions of intervals',
     'mid, rad, wid, inf, sup, mag, mig, khi, sign, dist, diag, compmat, vertex and isnan return, for single intervals and arrays of any shape, the mathematically defined value to within 2 units in the last place (inf, sup, mag, mig exactly); mid and rad reproduce the interval.',
     ['inputs'], 'all proper and improper intervals over the alphabet and all array shapes up to three dimensions',
     'Tests do not cover these on arrays, improper intervals or numbers.',
     KER + ARR + [K + 'utils.py'], [{'name': 'characteristics', 'where': K + 'interval_arithmetics.pyx: BaseTools'}, {'name': 'utils', 'where': K + 'utils.py'}],
     'Exact rational definitions as the model, all alphabet values and shapes executed.',
     'exhaustive enumeration against exact definitions', 'exhaustive over the alphabet')
prop('C09', 'Constructors build exactly the intervals they are given',
     'Interval() in each of its documented forms (two numbers, one number, pair, nested sequence, two arrays, existing interval; sorted or unsorted; midpoint-radius), asinterval, zeros, full and eye create intervals with exactly the given endpoints and the shape of the input; sorting orders the endpoints and midpoint-radius input (also in NumPy numbers of few bits) is accurate to one unit in the last place. get_shape of nested lists of numbers is their NumPy shape; rows of different lengths are refused.',
     ['inputs', 'configurations'], 'all endpoint pairs of the alphabet in all documented forms, number types and nesting shapes',
     'Tests construct intervals in a few forms with easy values.',
     ARR + [K + 'preprocessing.py', K + 'new_objects.py'], [{'name': 'Interval', 'where': K + 'real_intervals.py'}, {'name': 'asinterval, get_shape', 'where': K + 'preprocessing.py'}, {'name': 'zeros, full, eye', 'where': K + 'new_objects.py'}],
     'Model: the pair of given endpoints per element; every form is executed for every pair and shape.',
     'exhaustive enumeration of constructor forms', 'exhaustive over the alphabet and forms')
prop('C10', 'An interval array behaves as a NumPy array of its elements',
     'After any sequence of item assignments (intervals, numbers, arrays, lists; integer, slice, list, mask and tuple keys), deletions (with a tuple: along the axis of its last entry that is not a full slice), transpositions, reshapes, copies and in-place operations an interval array has the content, shape, ndim, ranges, length and iteration order that NumPy gives for the array of its elements. '
     'x in A holds iff some element contains the number or interval x (for an array x of the same shape: the entry at its place). Keys that NumPy refuses are refused and leave the array as it was, and a copy, transpose, reshape or sub-array never changes when its source is assigned to afterwards, nor the source when the result is.',
     ['histories'], 'all histories up to depth 3 (quick: of the states at depth 2 every fifth is extended) over about 150 events from 1-, 2- and 3-dimensional arrays, all reads in every state',
     'Tests create arrays and read single elements; consistency after a mutation history is not covered.',
     ARR, [{'name': 'ArrayInterval container methods', 'where': K + 'real_intervals.py'}],
     'Breadth-first search; the model state is a NumPy object array of exact pairs on which NumPy itself performs the event; the implementation object is compared after each transition, followed by an aliasing probe in both directions.',
     'breadth-first explicit-state model checking, NumPy as the model, every transition replayed', 'exhaustive up to the depth and shapes')
prop('C11', 'Array arithmetic is element-wise exact arithmetic with broadcasting',
     'For interval arrays combined by + - * / with interval arrays, numeric arrays, lists, single intervals or numbers in either operand order, and in place, the result has the NumPy broadcast shape and each element encloses the exact result and is within 4 units in the last place; shapes that do not broadcast raise ValueError and operands of non-in-place operations do not change. The same holds for a single interval with numbers of any NumPy type, numeric arrays and lists in either order and through np.add, np.subtract, np.multiply and np.divide (the result may be an object array of intervals). '
     'Matrix products (also with numeric matrices and lists on either side) enclose the exact product up to a few rounding errors per term, and functions, powers, negation and characteristics of an array act element by element.',
     ['inputs', 'configurations'], 'all operations, operand kinds, operand orders and shape pairs up to three dimensions, several fillings with proper, improper and zero-containing intervals',
     'Tests do not cover mixed operand kinds, broadcasting and matrix products systematically.',
     ARR + KER, [{'name': 'ArrayInterval operators and NumPy dispatch', 'where': K + 'real_intervals.py'}],
     'Exact Kaucher arithmetic on object arrays of rational pairs, broadcast by NumPy; every combination executed.',
     'exhaustive enumeration of operand kinds and shapes against an exact model', 'exhaustive over kinds and shapes; values from fixed fillings')
L = 'intvalpy/linear/'
LNOTE = 'exhaustive over the enumerated systems; solution sets computed exactly in rational arithmetic; systems of 4 to 6 unknowns represented by interleaved independent parts (their solution sets are products of exact ones)'
LWHY = 'The linear solvers have no tests at all; a guarantee over a whole solution set cannot be settled by a few literal systems.'

prop('C13', 'Gauss always encloses the solution set of an interval system',
     'Gauss(A, b) either raises or returns a box that contains every solution of every point system A x = b with A, b inside the interval data. It never returns finite bounds for a matrix that contains a singular matrix, it answers when the matrix is diagonally dominant both by rows and by columns, and for point systems it returns the solution to 1e-9.',
     ['inputs'], 'all systems over small alphabets of interval coefficients: sizes 1 and 2 (full products), 3 and 4 (structured products), point systems, matrices that contain singular ones, and systems of 4 to 6 unknowns made of interleaved independent parts; the same systems with matrix and right-hand side scaled by powers of two',
     LWHY, [L + 'Gauss.py'], [{'name': 'interval forward elimination and back substitution', 'where': L + 'Gauss.py'}],
     'Each system of the alphabet is a model state whose united solution set is an exact union of rational polyhedra (all orthants, all vertices enumerated); the implementation runs on it and its box is compared with the exact hull.',
     'exhaustive enumeration of small interval systems, exact polyhedral solution sets as the model', LNOTE)
prop('C14', 'HBR encloses and for centred matrices is optimal',
     'HBR(A, b) either raises or returns a box containing the united solution set (slack 1e-9); when the midpoint of A is the identity the box is the exact hull (1e-6); matrices that contain a singular matrix are refused, and strictly diagonally dominant ones are answered. For a matrix of right-hand sides each column of the result satisfies the same and equals the result for that column alone.',
     ['inputs'], 'all systems over small alphabets, sizes 1 to 4, with up to 4 columns of right-hand sides, including identity-centred ones with every radius combination, and systems of 4 to 6 unknowns made of interleaved independent parts; the same systems with matrix and right-hand side scaled by powers of two',
     LWHY, [L + 'HBR.py'], [{'name': 'Hansen-Bliek-Rohn bounds', 'where': L + 'HBR.py'}],
     'Same exact model as C13; inclusion, optimality and refusal are decided on every enumerated system.',
     'exhaustive enumeration of small interval systems, exact polyhedral solution sets as the model', LNOTE)
prop('C15', 'Gauss-Seidel iteration never loses a solution at any budget',
     'For every iteration budget Gauss_Seidel(A, b, x0, C, maxiter) returns a box inside x0 that contains all solutions of the united solution set lying in x0; a larger budget never gives a wider box, and the default budget ends at the fixed point of the iteration; it reports an empty intersection only when x0 really contains no solution; the default preconditioner and C = identity behave alike and arguments are left unchanged.',
     ['inputs', 'histories'], 'all systems of the alphabet, systems of 4 to 6 unknowns made of interleaved independent parts x several start boxes (enclosing, cutting, disjoint, wider than the default) x preconditioners x iteration budgets 0..6 and converged',
     LWHY, [L + 'Gauss_Seidel.py'], [{'name': 'componentwise intersection with the extended quotient', 'where': L + 'Gauss_Seidel.py'}],
     'State = (system, start box, preconditioner, budget); the exact part of the solution set inside the start box is computed by vertex enumeration and compared at every budget, so each intermediate iterate is checked.',
     'explicit-state enumeration of (system, start box, budget) against exact polyhedral solution sets', LNOTE)
prop('C16', 'Rohn gives guaranteed estimates of united and tolerable sets',
     'Rohn(A, b) for square or overdetermined systems either raises or returns a box containing the united solution set (slack 1e-9), never a finite box for an unbounded set, and it answers for strongly regular matrices (spectral radius below 0.9). For the tolerable solution set it returns the exact hull to 1e-6, and it refuses exactly when that set is empty.',
     ['inputs'], 'all systems over small alphabets, square and with up to two extra equations, compatible, incompatible and unbounded, and systems of 4 to 6 unknowns made of interleaved independent parts; the same systems with matrix and right-hand side scaled by powers of two',
     LWHY, [L + 'Rohn.py'], [{'name': 'iterative estimate mapped into its interior', 'where': L + 'Rohn.py'}],
     'Exact vertex enumeration of united and tolerable solution sets (the tolerable one over all orthants) decides inclusion, unboundedness and emptiness for each enumerated system.',
     'exhaustive enumeration of small interval systems, exact polyhedral solution sets as the model', LNOTE)
prop('C17', 'PSS: guaranteed at every budget, optimal at convergence',
     'For square and overdetermined systems PSS(A, b) returns at every iteration budget a box (or with nu, one component) that contains the united solution set, with x0 its part inside x0; with enough iterations the estimate equals the exact hull to 1e-6, and with x0 it does not exceed the hull of the solutions whose other components lie in x0.',
     ['inputs', 'histories'], 'all systems of the alphabet, systems of 4 to 6 unknowns made of interleaved independent parts, also scaled by powers of two, x iteration budgets x requested component x start boxes',
     LWHY, [L + 'PSS.py'], [{'name': 'parameter partitioning of the solution set', 'where': L + 'PSS.py'}],
     'State = (system, budget, component, start box); the exact hull is computed by vertex enumeration, and every interruption point of the branch-and-bound is compared with it.',
     'explicit-state enumeration of (system, budget) against exact polyhedral solution sets', LNOTE)
prop('C18', 'PPS: guaranteed at every budget, optimal at convergence',
     'For square systems PPS(A, b) returns at every iteration budget a box (or one component nu) containing the united solution set and with enough iterations the exact hull to 1e-6; it answers for strictly diagonally dominant and point matrices and refuses matrices containing singular ones.',
     ['inputs', 'histories'], 'all square systems of the alphabet, systems of 4 to 6 unknowns made of interleaved independent parts, sizes 1 to 3, also scaled by powers of two, x iteration budgets x requested component',
     LWHY, [L + 'PPS.py'], [{'name': 'partitioning of the matrix parameters with monotonicity tests', 'where': L + 'PPS.py'}],
     'Same model as C17 over (system, budget, component).',
     'explicit-state enumeration of (system, budget) against exact polyhedral solution sets', LNOTE)
prop('C19', 'Subdiff returns the formal solution',
     'For square systems whose matrix is strictly diagonally dominant up to the order of its rows, Subdiff(A, b) returns an interval vector x, proper or improper, with A x = b in Kaucher arithmetic to a relative error of 1e-9, also when A or b contain improper elements.',
     ['inputs'], 'all such systems of sizes 1 to 3 over alphabets of proper and improper coefficients and right-hand sides, also scaled by powers of two, full dominant matrices of 4 to 6 rows and systems of 4 to 6 unknowns made of interleaved parts',
     LWHY, [L + 'Subdiff.py'], [{'name': 'subgradient of the Kaucher product in the immersion space', 'where': L + 'Subdiff.py'}],
     'The residual A x - b is computed with an exact rational Kaucher model for every enumerated system.',
     'exhaustive enumeration of small interval systems with an exact Kaucher residual', 'exhaustive over the alphabet; diagonally dominant systems only, where the Newton iteration is known to converge')
FWHY = 'The functionals and their maximization have no tests; a claim about every point, weight and budget cannot be settled by examples.'
FUNS = [L + 'Tol.py', L + 'Uni.py', L + 'Uss.py']
prop('C20', 'Tol, Uni and Uss take their exact values and decide membership',
     'For A (m x n), b, any point x and any weights (none, an array, or one number for all rows), constituent and value of Tol, Uni and Uss equal the formulas of their documentation to 1e-11 relative, value being the smallest constituent; Tol is non-negative exactly on the tolerable solution set, Uni and Uss exactly on the united solution set. Points may be integer or float arrays.',
     ['inputs'], 'all systems of small alphabets (square, over- and underdetermined, point systems, also with 4 to 6 unknowns) x grid of points x five kinds of weights', FWHY, FUNS,
     [{'name': 'recognizing functionals', 'where': 'constituent and value of Tol, Uni, Uss'}],
     'State = (system, point, weights). The exact value of every constituent is a rational number; membership is decided independently from the definition of the solution sets.',
     'exhaustive enumeration of systems and points against exact rational functionals', 'exhaustive over the alphabet and the grid')
prop('C21', 'maximize is consistent at every budget and finds the maximum of Tol',
     'Tol.maximize, Uni.maximize and Uss.maximize return (point, value, iterations, calls, code 1..5) where the value belongs to the point (1e-9), is not below the value at the start point x0, and never gets worse with a larger maxiter. Tol.maximize reaches the global maximum to 1e-7 for any start point and positive weights (array or number), unless it stopped for stagnation (code 1). Uni.maximize and Uss.maximize reach the global maximum to 1e-7 under the same conditions when A is a matrix of numbers (they are concave then). A, b, x0 and weights are left unchanged.',
     ['inputs', 'histories'], 'systems of small alphabets (also of up to 6 unknowns made of interleaved parts) x weights x start points x nine iteration budgets', FWHY, FUNS + [K + 'ralgb5.py'],
     [{'name': 'value and subgradient passed to ralgb5', 'where': 'maximize of Tol, Uni, Uss'}],
     'State = (system, functional, weights, start, budget). The exact maximum of Tol is the best basic point of one linear program per orthant, computed in rational arithmetic; the value at each returned point is computed exactly.',
     'explicit-state enumeration of (system, start, budget) against exact rational optimization', 'exhaustive over the enumerated systems; stagnation stops (code 1) are repeated with tolf=0; Uni and Uss are not concave, so only consistency is required of them')
prop('C22', 'Maximization under linear constraints respects them and is optimal',
     'With a LinearConstraint (lb, ub or both, one or several rows, infinite sides allowed) Tol.maximize returns a point that satisfies the constraint to 1e-6 and a value within 1e-5 of the exact constrained maximum; for Uni and Uss the value belongs to the point when it satisfies the constraint, and under a box constraint that lies in one orthant (where they are concave), started inside it, they reach their maximum over the box. A weight mu of the penalty given by the caller that is larger than needed changes nothing, mu = 0 and a constraint without limits give the unconstrained maximum. The LinearConstraint object and the arrays of the caller stay unchanged, and an object used before gives the same answer for another system as a new one.',
     ['inputs', 'histories'], 'systems of 1 to 3 unknowns x constraints from a grid of rows and limits (active, inactive, equalities), weights, reuse of one constraint object', FWHY, FUNS + [K + 'abstract.py'],
     [{'name': 'exact penalty for linear constraints', 'where': 'maximize, LinearConstraint and linear_penalty in kernel/abstract.py'}],
     'As C21 with the constraint added to the exact linear programs; feasible combinations only.',
     'explicit-state enumeration of (system, constraint, weights) against exact rational optimization', 'exhaustive over the enumerated pairs; infeasible constraints excluded')
prop('C23', 'Neumaier returns the largest box inside the tolerable set',
     'Neumaier(A, b, centre, w) with positive w returns an interval vector with the given centre and radii proportional to w that lies inside the tolerable solution set and cannot be enlarged (1e-10); it refuses a centre outside the set, accepts every centre inside and, when nothing is rounded, every centre on the boundary, and leaves its arguments unchanged.',
     ['inputs'], 'systems of small alphabets (also with 4 to 6 unknowns) x grid, vertex and inner centres x weights', 'Only an exact computation shows that a box is inside the set and is the largest one.', [L + 'Neumaier.py'],
     [{'name': 'largest inner box around a solution', 'where': L + 'Neumaier.py'}],
     'State = (system, centre, weights); the largest radius is an exact rational minimum over the rows.',
     'exhaustive enumeration of systems and centres against an exact model', 'exhaustive over the alphabet; rows of zeros excluded')
prop('C24', 'Vertices of plane solution sets are exact, ordered and history-free',
     'lineqs(A, b) for A x >= b and IntLinIncR2(A, b) for united and tolerable solution sets return exactly the vertices of each (orthant) piece, each once, in the order of the boundary (1e-7), an empty list for an empty piece. For unbounded sets they return the vertices inside the given bounds or inside the drawing window the library chooses, and that window of lineqs shows every vertex and edge. Numeric systems give the same through IntLinIncR2 as through lineqs. What was drawn before has no influence; arguments stay unchanged.',
     ['inputs', 'histories'], 'systems of up to 6 inequalities with repeated, scaled and zero rows; interval systems with 1 to 5 equations; the same in other units (2**-8 to 2**34); bounds; histories of two calls',
     'The visualization functions have no tests; degenerate pieces and state left by earlier calls need systematic coverage.', [L + 'boundary_intervals.py'],
     [{'name': 'boundary intervals method', 'where': 'lineqs, IntLinIncR2'}],
     'State = (inequalities or interval system with kind, bounds, previous call). The vertex set of every orthant piece is enumerated exactly.',
     'explicit-state enumeration of systems and call histories against exact polyhedra', 'exhaustive over the enumerated systems; pieces that touch only up to 1e-9 may be reported or not')
prop('C25', 'Faces of solid solution sets are complete and in order',
     'lineqs3D(A, b) and IntLinIncR3(A, b) return polygons that lie in the bounding planes, are traversed in order, use exactly the vertices of each (orthant) piece (1e-6), and include every face; unbounded sets are cut by the given bounds, or by a window the library chooses that shows every vertex and face of the set; numeric systems give the same through IntLinIncR3. The helpers unique, non_repeat and clear_zero_rows keep exactly the first occurrence of every row, and all non-zero rows.',
     ['inputs'], 'systems of 4 to 7 inequalities (also with rows of zeros), interval systems of three unknowns, unbounded sets with and without bounds, also in other units (2**-8 to 2**34), all short lists of rows for the helpers',
     'The visualization functions have no tests; completeness of the faces needs an exact model.', [L + 'boundary_intervals.py', K + 'preprocessing.py'],
     [{'name': 'boundary intervals method in three dimensions', 'where': 'lineqs3D, IntLinIncR3'}],
     'The vertices and faces of every piece are enumerated in rational arithmetic and compared with the returned polygons.',
     'exhaustive enumeration of systems against exact polyhedra', 'exhaustive over the enumerated systems; sets whose vertices change when planes move by 1e-9 are not judged')
prop('C26', 'ralgb5 reports the best point it has seen, with true counts and codes',
     'ralgb5(calcfg, x0, ...) evaluates first at x0, returns the smallest value among all its evaluations together with the point where it was seen, the true number of evaluations, at most maxiter + 1 iterations and a stopping code that fits; x0 is unchanged; a larger maxiter never gives a worse value. For convex functions a stop with code 2 or 3 is at the minimum to 1e-6 (with default-like parameters), and functions unbounded below end with code 5.',
     ['inputs', 'histories'], 'maxima of 2 to 6 affine functions and quadratics in 1 to 3 variables x start points x parameter sets x iteration budgets',
     'No tests; the contract is about every evaluation of every run.', [K + 'ralgb5.py'],
     [{'name': 'subgradient method with space dilation', 'where': K + 'ralgb5.py'}],
     'Every evaluation is recorded, so each run is a complete trace, judged step by step; the minimum is computed exactly.',
     'explicit enumeration of (function, start, parameters, budget), complete recorded runs against an exact minimum', 'exhaustive over the enumerated functions and budgets')
prop('C33', 'ChebNorm takes exact values and minimize finds the minimum',
     'ChebNorm.constituent and value equal weight_i * (rad b_i + |mid b_i - A_i x|), the largest distance between points of the residual intervals, and the maximum over the rows (1e-8); ChebNorm.minimize returns a point with the value it reports and reaches the global minimum to 1e-7, for any start point and weights (array or number), also under linear constraints, which the point satisfies to 1e-6. Arguments stay unchanged.',
     ['inputs'], 'systems of small alphabets x points x weights x start points x constraints', FWHY, [L + 'ChebNorm.py'],
     [{'name': 'Chebyshev norm of the residual', 'where': L + 'ChebNorm.py'}],
     'Exact rational values; the exact minimum is a linear program per orthant.',
     'exhaustive enumeration of systems and points against exact rational optimization', 'exhaustive over the enumerated systems')
NL = 'intvalpy/nonlinear/'
prop('C27', 'Hansen-Sengupta and Krawczyk never lose a root at any budget',
     'For functions func and Jacobians J that return enclosures (scalar or vector problems), HansenSengupta and Krawczyk return at every maxiter a part of the start box that contains every root of the start box, or raise; they say that there is no solution, or return an empty (nan) box, only if there is no root. More iterations never give a wider box. If |I - inv(mid J) J| < 0.9 over the start box and a root exists they answer, and for point coefficients the final width is below 1e-9. x0 is unchanged.',
     ['inputs', 'histories'], 'polynomial problems in 1 to 3 variables with point and interval coefficients (also in variables rescaled by 2**12, 2**-12 and 2**21), linear interval systems and elementary functions x start boxes x budgets 0 to 6 and the default',
     'There are no tests; losing a root shows only for particular boxes and iteration counts.', [NL + 'external_evaluation.py'],
     [{'name': 'interval Newton operators intersected with the current box', 'where': NL + 'external_evaluation.py'}],
     'State = (system, start box, method, budget), so every iterate is compared. Exact roots: constructed, all rational grid points that satisfy the interval equations exactly, or all vertices of linear solution sets.',
     'explicit-state enumeration of (problem, start box, budget) against exactly known roots', 'exhaustive over the enumerated problems; wide solution sets are represented by grid points and vertices')
prop('C28', 'globopt: lower end never above the minimum, honest stopping',
     'globopt(func, x0, tol, maxiter) returns a box inside x0 and exactly func of that box; for inclusion-isotonic func the value contains the minimum over x0 at every maxiter (its lower end never exceeds it and never decreases with more iterations); it stops early only when the width is below tol, and then every point of the box is within tol of the minimum. When every variable occurs once in func the tolerance is reached. x0 is unchanged.',
     ['inputs', 'histories'], 'separable and multilinear polynomials in 1 to 3 variables with exactly known minima, also with strongly overestimating extensions that keep hundreds of boxes, x boxes x tolerances x budgets',
     'There are no tests; a wrong order of the list of boxes shows only for particular functions and iteration counts.', [NL + 'globopt.py'],
     [{'name': 'bisection with a list ordered by lower ends', 'where': NL + 'globopt.py'}],
     'State = (function, start box, tolerance, budget); the exact minimum is attained at rational critical points or corners.',
     'explicit-state enumeration of (function, box, budget) against exact minima', 'exhaustive over the enumerated functions')
M = 'intvalpy/models/'
prop('C12', 'Calls do not interfere: arguments untouched, same answer after any history',
     'No public call changes the arguments the caller passes (interval arrays, numeric arrays, data frames, weights, start points, constraint objects), the rounding mode, NumPy or warning settings, or values returned by earlier calls. '
     'Every deterministic call gives the same answer after any other call as in a fresh process, also when a returned value is overwritten in between; calls with random choices depend on the state of the random generator only.',
     ['histories'], 'all ordered pairs (thorough: triples within each part) of about 75 public calls, each answer compared with the one of a fresh process; every call twice with the same objects',
     'Tests run single calls in one fixed order; interference shows for particular pairs of calls.',
     ['intvalpy/'], [{'name': 'all public functions and models', 'where': 'intvalpy/kernel, intvalpy/linear, intvalpy/nonlinear, intvalpy/models'}],
     'State = hidden state of the process (module variables, rounding mode, random generator, library settings, earlier results). The transition graph is complete over the calls: an Euler tour covers every ordered pair. The model of every call is its answer in a process of its own (fork).',
     'exhaustive exploration of call sequences (every ordered pair) against fresh-process answers', 'exhaustive for pairs of the listed calls; each call with one or two argument sets')
prop('C29', 'WILS models: exact objective, optimum, smoothing and prediction',
     'WILS.fit with every objective, norm, smoothing and weights returns coefficients whose reported objective value is the exact value of the smoothed, weighted functional (1e-7); the coefficients are optimal to 1e-5 for Tol and, for point regressors, for every objective, under linear constraints (which they satisfy to 1e-6), and never worse with a larger budget. '
     'predict(X) encloses the exact products; a second fit of a used model gives the answer of a new one, and data, weights and constraints of the caller stay unchanged.',
     ['inputs', 'histories'], 'data sets of 2 to 4 rows and 1 to 2 regressors (point and interval) x objectives x norms x smoothing parameters x weights x constraints x budgets x previous fits',
     'The models have no tests; the optimum and the value need an exact model.', [M + 'WILS.py', K + 'abstract.py'],
     [{'name': 'weighted smoothed recognizing functionals', 'where': M + 'WILS.py'}],
     'The objective is an exact rational function; its optimum comes from exact linear programs (sup norm) and from the vertices of the arrangement (sum). All combinations are executed.',
     'explicit-state enumeration of (data, configuration, budget, previous fit) against exact optimization', 'exhaustive over the enumerated data and configurations')
prop('C30', 'ISPAE models: exact basis ranges, objective, optimum and prediction',
     'For every polynomial basis and order the interval feature values of ISPAE contain the range of the basis polynomial over the data interval and are sharp; the objective of fit is the exact smoothed weighted functional of the data and its optimum is reached to 1e-5 for the concave objectives. '
     'predict contains the values of the model at all points of the data interval and is not wider than the sum of its terms; columns of data frames are taken by name and the data of the caller stay unchanged.',
     ['inputs', 'configurations'], 'one- and two-column data sets (point, interval, around zero) x all bases x orders x bias x objectives x norms x smoothing x weights',
     'The models have no tests; an exact range of a polynomial cannot be read off single examples.', [M + 'ISPAE.py'],
     [{'name': 'interval polynomial regression', 'where': M + 'ISPAE.py'}],
     'Exact rational polynomials with isolated critical points give the exact ranges; the optimum comes from cutting planes whose cuts are exact points of the data; all configurations are executed.',
     'explicit-state enumeration of data and configurations against exact polynomials and linear programs', 'exhaustive over the enumerated data and configurations; a fixed stride selects configurations on the quick tier')
prop('C31', 'The measure of variability ive is the documented corner minimum',
     'ive(A, b, N) returns sqrt(n) times the largest Tol value times the norm ratio times the smallest condition number among corner matrices: the result always belongs to a corner matrix of A, is never below the value of the best corner, and equals it when every corner is visited.',
     ['inputs', 'configurations'], 'interval systems with 1 to 2 unknowns and at most 4 interval coefficients, all corner matrices, four sample counts',
     'The result is random; only the set of all corner matrices decides whether it is admissible.', [L + 'system_properties.py'],
     [{'name': 'ive', 'where': L + 'system_properties.py'}],
     'The model is the finite set of admissible answers, one per corner matrix, computed exactly up to the condition number; every answer must be one of them.',
     'exhaustive enumeration of corner matrices as the set of admissible outcomes', 'exhaustive over the corners; random choices are repeated 40 times per corner')
prop('C32', 'Test systems have the documented entries and properties',
     'Neumaier, Shary and Toft systems have exactly the documented entries for every size and parameter, with parameters outside their documented limits refused; their matrices are regular when documented so; the entries are independent objects, so that assigning one changes no other.',
     ['inputs', 'configurations'], 'all sizes 2 to 5 (thorough 8) x grids of parameters including the limits',
     'No tests exist for the generated systems.', [K + 'new_objects.py', L + 'system_properties.py'],
     [{'name': 'generators of test systems', 'where': 'Neumaier, Shary and Toft systems'}],
     'Exact entries from the published definitions; regularity by exact determinants over all corner matrices for sizes up to 3.',
     'exhaustive enumeration of sizes and parameters against exact definitions', 'exhaustive over sizes and grids')
prop('C34', 'Drawings show exactly the data and the solution sets',
     'IPlot.scatter draws on the chosen axes (by default the first) exactly one mark per pair of intervals: a dot for two points, a segment if one of them is a point, otherwise the filled rectangle; IPlot.lineqs and IntLinIncR2 draw exactly the given polygons and their vertices. '
     'With show=True lineqs, IntLinIncR2, lineqs3D and IntLinIncR3 return the same as with show=False and draw into one new figure (of the given size, title, colour, transparency, limits) exactly the polygons they return; IntLinIncR3 may leave out faces in coordinate planes. save=True writes title.png and nothing else; other figures do not change.',
     ['inputs', 'configurations'], 'all pairs, and lists of up to 4 pairs, of point and wide intervals x grids of axes x axes indices; systems of inequalities and interval systems in the plane and in space x drawing options',
     'The drawing functions have no tests; a missing or wrong shape shows only for particular positions of the set.', [K + 'visualization.py', L + 'boundary_intervals.py'],
     [{'name': 'Matplotlib artists of data and solution sets', 'where': K + 'visualization.py, show=True branches in ' + L + 'boundary_intervals.py'}],
     'State = (data or system, drawing options, figures that exist already). The model is a list of dots, segments and polygons; the artists of the Matplotlib figure (backend Agg) are read back and matched one to one. Files are written in a scratch directory only.',
     'exhaustive enumeration of data and drawing options, drawn shapes compared with a shape model', 'exhaustive over the enumerated plots; shapes are read from the artists, not from pixels')
prop('C35', 'Overlapping calls do not disturb each other',
     'Calls of public functions that overlap in time, one thread being stopped between two lines of the library while others run, or one call being made inside a callback of another (objective of ralgb5 and globopt, function or derivative of HansenSengupta and Krawczyk), each give the result they give alone, whether or not they share their argument objects. '
     'At every moment of a call its arguments have the values they were given and the thread rounds to nearest.',
     ['schedules', 'histories'], 'all schedules with one preemption of the calls of the public API at the lines of the library (quick: first and last visit of each line; thorough: first six and last, and all schedules with two preemptions at first visits), and all re-entrant calls in the first callbacks',
     'A module variable that two calls share is harmless in every sequential test; it shows only if another call runs between its write and its read.', [L + 'boundary_intervals.py', L, K, 'intvalpy/models/', 'intvalpy/nonlinear/'],
     [{'name': 'library calls in several threads and re-entrant calls', 'where': 'all public functions; state beyond arguments in intvalpy/linear, intvalpy/kernel, intvalpy/models, intvalpy/nonlinear'}],
     'State = (point of thread A, point of thread B). A scheduler based on trace events stops the real call A at a chosen line, runs B in a second thread (to its end, or to its own point), and resumes A; every schedule is a new execution. Reduction: variables that two calls could share are reached by code of a common file, so A is stopped in files it has in common with B; B ranges over the calls that share the file, for the kernel files over a sequence of all kernel calls. Oracle: the results of the calls alone. At each line the arguments and the rounding of the thread are observed.',
     'stateless model checking of the implementation: all schedules of two threads with a bounded number of preemptions under a controlled scheduler', 'exhaustive up to one preemption (thorough: two) between lines of Python code; the compiled kernel runs without interruption because it holds the interpreter lock')
prop('C36', 'Inconsistent sizes and unknown options are refused, consistent ones answered',
     'Every solver, estimator, recognizing functional (value, constituent, maximize), drawing function of solution sets, data model (fit) and LinearConstraint raises an exception when the sizes of matrix, right-hand side, start point or box, preconditioner, centre, weights, orders or constraint do not fit each other, and answers with the right number of elements when they fit. '
     'The same holds for the endpoint arrays of Interval, intersection() and matrix products of arrays of all shapes, and for options: unknown names of consistency, objective and norm are refused, the documented ones answered.',
     ['inputs', 'configurations'], 'all functions x all sizes 1 to 5 (thorough 6) of matrix rows, columns, right-hand side and one more argument (quick: every third combination of sizes above 3); all pairs of 12 shapes; all options x 16 names',
     'NumPy broadcasting turns a wrong size into a wrong answer without an error; a test samples one or two sizes per function.', [L, K, M],
     [{'name': 'size and option checks', 'where': 'entry of the public functions in intvalpy/linear, intvalpy/kernel, intvalpy/models'}],
     'State = (function, sizes of all arguments) or (function, option). The model is a table of size rules (one predicate per function and argument); every state is executed on the library and must be refused or answered as the table says. Where the documentation leaves sizes open (fewer equations than unknowns, one weight in an array) nothing is judged.',
     'explicit-state enumeration of argument sizes and options against a table of rules', 'exhaustive over sizes up to the bound; a refusal is any exception')
prop('C37', 'An answer depends on the numbers given, not on how they are represented',
     'The same numbers give the same answer (up to the accuracy of the method) in every public solver, estimator, recognizing functional, drawing function, data model, nonlinear method, array operation and elementwise function, however they are represented: '
     'interval endpoints as floats, integers, both mixed in one array, Fractions, mpmath numbers, NumPy scalars, float32, (unsigned) 8-bit integers, Classical or Kaucher objects, pairs, swapped endpoints, midpoint and radius, elements assigned later, slices, transposes, copies, or results of operations; '
     'numeric vectors and matrices of any NumPy number type or memory layout, or read-only. Lists and tuples in place of documented NumPy vectors may be refused but are never answered differently. The arguments are left unchanged.',
     ['inputs', 'configurations'], 'a catalogue of about 75 calls with up to 10 systems x representations of matrix and right-hand side (25 each; quick: each alone, both alike, and a seventh of the other pairs of the fast calls) and of the numeric argument (12)',
     'Tests use float arrays almost everywhere; the type of the first element, wrap-around of small and unsigned integers and aliasing show up only for other representations.', [L, K, M],
     [{'name': 'type of element-wise results and of numeric arguments', 'where': 'intvalpy/kernel/real_intervals.py, intvalpy/kernel/utils.py, entries of the public functions'}],
     'State = (call, system, representation of each argument). Every state is executed; the oracle is the same call with freshly built float arrays. Entries are small numbers, exact in every representation that is applied to them.',
     'explicit-state enumeration of argument representations, each execution compared with the float reference', 'exhaustive over the catalogue; whether the float answer itself is right is the subject of the other properties')
prop('C38', 'Operands of any type are handled correctly or refused',
     'Every operator, in-place operator, comparison, membership test, NumPy function or ufunc method, elementary function, constructor, item assignment or item access with an interval or interval array and an operand of any type, on either side, either gives the right answer or raises: '
     'numbers, arrays and lists of numbers under + - * / give enclosures element by element (numbers taken to the nearest double; ints, floats and NumPy doubles are answered), NumPy functions that combine elements by + - * / (sums, products, means, dot and outer products, reduce, accumulate, outer, differences) enclose the exact result; '
     'what is not a number (None, text, bytes, dicts, sets, complex numbers, dates, functions, classes, objects, or arrays and lists holding such) is refused by arithmetic, elementary functions, constructors and assignments, never equal to an interval and never a member of one. '
     'Nothing of this ends the process, changes an operand (also when it is refused half-way) or the rounding mode.',
     ['inputs', 'configurations'], 'about 110 operations x 7 interval kinds x about 100 operands x both sides; about 45 NumPy functions x 11 x 11 operands',
     'Tests use numbers, lists and arrays that fit; endless recursion, half-done assignments and ufunc methods answered as the plain function are outside of them.', ARR + KER,
     [{'name': 'operator dispatch of intervals and interval arrays, __array_ufunc__', 'where': K + 'interval_arithmetics.pyx, ' + K + 'real_intervals.py, ' + K + 'preprocessing.py'}],
     'State = (operation, interval, operand, side). Every state is executed in a forked child, so that the end of the process is observed as a violation; values are compared with exact Kaucher arithmetic, for NumPy functions by running the same function on an object array of exact intervals.',
     'explicit-state enumeration of operations and operand types in isolated processes, exact arithmetic as the oracle', 'exhaustive over the catalogue; pandas objects, masked and record arrays and NumPy complex numbers only have to leave process and operands intact')
PROPS.sort(key=lambda p: p['id'])
