NOTES = 'TLA+ specifications in specs/, checked with TLC; harness/ binds them to the code in /repo (python, /opt/venv). See DESIGN.md.'
NOT_APPLICABLE = []
REPLAY = 'TLA+/TLC: exhaustive state enumeration with exact expected observations, every behaviour replayed on the real classes'
TRACE = 'TLA+/TLC: traces recorded from the real code judged by a TLA+ trace specification'
BOTH = 'TLA+/TLC: behaviours of the specification replayed on the real code, and traces of the code judged by a TLA+ trace specification'
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, technique, note):
	PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
		technique=technique, note=note))


P('D01', 'Domains denote sets and their algebra is the algebra of sets',
	'A domain built from bounds, linear inequalities and equalities, ellipsoids or the convex hull of points contains exactly the points that '
	'satisfy its description. Adding constraints and intersecting with & gives exactly the intersection, and multiplying with * gives exactly the '
	'Cartesian product, keeping dimension, bounds and variable names, in whatever order and however often these operations are combined. '
	'Deriving a new domain never changes an existing one.',
	['histories', 'inputs'],
	'All histories of creating, constraining, intersecting and multiplying domains of every class, and all points.',
	'The tests look at a few hand-made domains and random points; they do not cover combinations of classes and operations.',
	['psdr/domains/domain.py', 'psdr/domains/euclidean.py', 'psdr/domains/box.py', 'psdr/domains/linineq.py', 'psdr/domains/linquad.py',
		'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/point.py', 'psdr/domains/unbounded.py', 'psdr/domains/random.py'],
	[('isinside and constraint checks', 'psdr/domains/euclidean.py'), ('add_constraints / & / *', 'psdr/domains/euclidean.py, tensor.py, convexhull.py')],
	['isinside', 'names', 'lb', 'ub', 'len', 'is_box_domain', 'add_constraints', '&', '*', 'copy'],
	REPLAY,
	'Every history up to the depth bound over 21 base domains and 6 sets of extra constraints; membership compared on an exact lattice (dimension <= 3, 4 in '
	'the thorough tier). Trusts TLC and the float tolerance of isinside (lattice points are never within it).')

P('D02', 'Normalization is the affine map of the bounding box onto [-1, 1]',
	'normalize maps the smallest axis-aligned box containing a bounded domain onto [-1,1]^m (shifting coordinates of zero width to 0 and leaving unbounded '
	'coordinates alone), unnormalize is its inverse on all of R^m, and a point is in the domain exactly if its normalization is in the normalized domain. '
	'Both accept one point or many and never change their argument.',
	['inputs', 'configurations'],
	'All domains in the catalogue of the specification (every class, products, intersections; bounded or not; in several units) and all points.',
	'The tests normalize samples of a few domains; constraints, ellipsoids and degenerate coordinates are only touched in passing.',
	['psdr/domains/euclidean.py', 'psdr/domains/box.py', 'psdr/domains/linineq.py', 'psdr/domains/linquad.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/point.py'],
	[('normalize/unnormalize, norm_lb/norm_ub', 'psdr/domains/euclidean.py'), ('_normalize_* of the constraints, normalized_domain', 'psdr/domains/*.py')],
	['normalize', 'unnormalize', 'normalized_domain', 'norm_lb', 'norm_ub'],
	BOTH,
	'Exact ranges of polyhedra from TLC (vertices of all faces in rational arithmetic); ellipsoids judged against the lattice points of the set and attained bounds. Optimization tolerances 1e-4.')

P('D03', 'Corners, closest points and constrained least squares are true optima',
	'On every non-empty domain the corner in a direction, the closest point to a given point (in the given norm), and the constrained least squares solution are '
	'inside the domain and no point of the domain does better; for an empty domain, and for a corner that is infinitely far away, the dedicated '
	'exceptions are raised instead. The emptiness, single-point and unboundedness of a domain, and the centre and radius of its largest inscribed ball, are reported as they are.',
	['inputs', 'configurations'],
	'All domains of the catalogue (bounded, unbounded, empty, lower-dimensional, products, hulls, ellipsoids) and all directions, points and matrices of the specification.',
	'The tests compare a few random problems with other solvers on well-behaved domains.',
	['psdr/domains/euclidean.py', 'psdr/domains/box.py', 'psdr/domains/linineq.py', 'psdr/domains/linquad.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/point.py'],
	[('corner / closest_point / constrained_least_squares', 'psdr/domains/linquad.py, box.py, convexhull.py, point.py'), ('is_empty / is_point / is_unbounded', 'psdr/domains/euclidean.py'), ('chebyshev_center', 'psdr/domains/linineq.py, box.py')],
	['corner', 'closest_point', 'constrained_least_squares', 'is_empty', 'is_point', 'is_unbounded', 'chebyshev_center', 'center', 'radius'],
	BOTH,
	'Polyhedra: exact rational optimum over all faces (KKT systems) computed by TLC. Ellipsoids and balls: returned points judged by feasibility and variational inequality '
	'against all lattice points of the set. Solver tolerances about 1e-5 relative.')

P('D04', 'extent and sweep measure exactly how far a domain reaches',
	'From any point of a domain, the extent in a direction is the largest step that stays in the domain: infinite if there is none, zero if every positive step leaves. '
	'A sweep is the requested number of equispaced points on the longest segment through the given point (made parallel to the equality constraints) that stays in the domain, '
	'with the distances along it; neither changes its arguments.',
	['inputs', 'configurations'],
	'All domains of the catalogue, all lattice points in them (boundary included) and all directions of the specification.',
	'The tests check a few random directions; boundary points, equality constraints and unbounded directions are not reached.',
	['psdr/domains/euclidean.py', 'psdr/domains/box.py', 'psdr/domains/linineq.py', 'psdr/domains/linquad.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py'],
	[('_extent_bounds, _extent_ineq, _extent_quad, _extent', 'psdr/domains/*.py'), ('sweep', 'psdr/domains/euclidean.py')],
	['extent', 'sweep'],
	REPLAY,
	'Exact ratio test in rational arithmetic and exact quadratics from TLC; hulls are compared with the tolerance of the linear program.')

P('D05', 'Every sample comes from the domain and samples cover it',
	'Every point returned by sampling, boundary sampling or grid sampling is in the domain, and exactly as many are returned as asked for, in the documented shape. '
	'Boundary samples are on the boundary, the grid is exactly the tensor grid between the bounds restricted to the domain, and many random samples reach most of '
	'the range of each coordinate; from an empty domain nothing is sampled.',
	['inputs', 'configurations', 'schedules'],
	'All domains of the catalogue, all numbers of samples, any sequence of random numbers.',
	'Tests sample a few domains with full dimension; lower-dimensional, thin, product and single-point domains are not sampled.',
	['psdr/domains/domain.py', 'psdr/domains/euclidean.py', 'psdr/domains/box.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/point.py', 'psdr/domains/random.py'],
	[('hit and run, rejection sampling', 'psdr/domains/euclidean.py'), ('sample_grid, sample_boundary', 'psdr/domains/euclidean.py')],
	['sample', 'sample_boundary', 'sample_grid', 'random_direction'],
	TRACE,
	'Samples are quantized to 1/480 and judged by TLC against the exact description; the random numbers are seeded, not enumerated.')

P('D06', 'A domain is a value: no query influences later answers',
	'Whatever sequence of queries has been made of a domain (optimization, sampling, normalization, deriving other domains), every deterministic question is answered as if it were the first, '
	'and the bounds, constraints and names of the domain stay what they were. Modifying an array that a query returned does not change the domain.',
	['histories'],
	'All histories of up to 2 (3) of 25 kinds of queries, followed by probes, on all domains of the catalogue.',
	'The domains keep caches and walk state; tests never interleave queries.',
	['psdr/domains/euclidean.py', 'psdr/domains/linquad.py', 'psdr/domains/linineq.py', 'psdr/domains/box.py', 'psdr/domains/convexhull.py', 'psdr/domains/tensor.py'],
	[('cached properties (_empty, _point, _unbounded, norm_lb/ub, hit and run state)', 'psdr/domains/euclidean.py')],
	['all queries of a domain'],
	REPLAY,
	'Histories enumerated by TLC; the oracle is the same question asked of a fresh domain.')

P('D07', 'Densities and quadrature rules integrate to what they should',
	'The density of a uniform, normal or log-normal domain (truncated or not) is the exact density of that distribution restricted to the domain and zero outside, for one point or many, '
	'and the samples follow it. Quadrature rules use at most the requested number of points, all inside the domain, with positive weights; Gauss rules and their products on '
	'boxes integrate polynomials of the guaranteed degree exactly, and on other domains the weights add up to the volume. An empty domain is refused.',
	['inputs', 'configurations'],
	'All distributions of the catalogue (dimension 1 to 3, correlated, shifted, truncated, scaled) and points of a lattice; Gauss rules with 1 to 14 nodes, all polygons and boxes of the domain catalogue and numbers of points.',
	'The tests check one normal domain and compare log-normal densities only with themselves; quadrature is tested on the unit square.',
	['psdr/domains/random.py', 'psdr/domains/uniform.py', 'psdr/domains/normal.py', 'psdr/domains/lognormal.py', 'psdr/domains/euclidean.py', 'psdr/quadrature.py'],
	[('pdf and truncation', 'psdr/domains/normal.py, lognormal.py, uniform.py'), ('gauss, quadrature_rule, volume', 'psdr/quadrature.py, psdr/domains/euclidean.py')],
	['pdf', 'sample', 'isinside', 'quadrature_rule', 'volume', 'gauss'],
	BOTH,
	'TLC computes the exact quadratic forms, integrals of monomials and areas; exponentials and the truncation radius are evaluated in the harness. Samples are judged by TLC '
	'through their first two moments (6 to 9 standard errors). The unscaled density of scaled log-normals is a known finding.')

P('F01', 'A function posed on a domain is the user\'s function in normalized coordinates',
	'Wrapping functions and a domain gives a function on the normalized domain whose value is the user\'s function at the unnormalized point and whose gradient is that of the user\'s function '
	'times the derivative of the normalization, for a point or many, one or several functions, one or several outputs, vectorized or not, with gradients given separately, returned together, or by finite differences, '
	'with arguments of the call overriding those of the constructor; value and shape never depend on how it was asked. No gradient is made up, and evaluation on workers gives the same values.',
	['inputs', 'configurations'],
	'All combinations of 9 domains, 6 lists of functions, 4 sources of gradients, vectorized or not, 9 combinations of default and call arguments (a fixed third of them quick), 10 forms of the argument.',
	'The tests wrap three functions with one output on box domains and look at shapes.',
	['psdr/function.py', 'psdr/domains/euclidean.py', 'psdr/misc.py'],
	[('Function.eval, grad, __call__, eval_async', 'psdr/function.py')],
	['eval', 'grad', '__call__', 'predict', 'eval_async', 'call_async'],
	REPLAY,
	'Values and gradients are exact rationals computed by TLC, whose gradients are checked against exact central differences. Workers are a stand-in client that transports what it is given by serialization.')

P('F02', 'The test functions are the published formulas with their exact gradients',
	'OTLCircuit, Borehole, Piston, WingWeight, RobotArm, NowackiBeam, HartmannMHD, GolinskiGearbox, AffineFunction and QuadraticFunction have the published domains, and their values and gradients on the normalized domain are those of the published formulas, for all quantities of interest, '
	'for one point or many, arrays or lists, vectorized or not, for other constants given with a call (which later calls forget), and on workers. The functions underneath, called in application units, agree. '
	'The domains of OpenAeroStruct, NACA0012 and MULTI-F and the random domains have the published coordinates, bounds, distributions and truncation, for all arguments.',
	['inputs'],
	'Ten classes, 40 points each (300 thorough), corners of the domains included; where a function has a kink its gradient is not looked at.',
	'Tests compare gradients with finite differences at one point; no value is ever looked at, so formula and gradient may be wrong together.',
	['psdr/demos/otl_circuit.py', 'psdr/demos/borehole.py', 'psdr/demos/piston.py', 'psdr/demos/wing_weight.py', 'psdr/demos/robot_arm.py', 'psdr/demos/beam.py', 'psdr/demos/hartmann.py', 'psdr/demos/golinski.py', 'psdr/demos/polynomial.py', 'psdr/demos/oas.py', 'psdr/demos/multif.py', 'psdr/demos/_multif_domains3d.py', 'psdr/demos/naca0012.py', 'psdr/function.py'],
	[('Borehole', 'psdr/demos/borehole.py'), ('GolinskiGearbox', 'psdr/demos/golinski.py'), ('Piston', 'psdr/demos/piston.py'), ('RobotArm', 'psdr/demos/robot_arm.py'), ('WingWeight', 'psdr/demos/wing_weight.py')],
	['the functions'],
	REPLAY,
	'The formulas are terms; TLC differentiates them by the rules of calculus, which it checks against dual numbers modulo a prime; the terms are evaluated in double precision.')

P('B01', 'Polynomial bases span total degree polynomials with exact derivatives',
	'Each tensor basis (monomial, Legendre, Chebyshev, Laguerre, Hermite) of degree p in m variables consists of exactly the products of the univariate polynomials of that family whose degrees add up to at most p, '
	'in the coordinates scaled as the family demands by the data it was built with (or unscaled). Matrices, values, gradients and Hessians at any point are those of these polynomials, whatever the order or number of points; '
	'a polynomial of one variable returns its roots. The Arnoldi basis is orthonormal on the data it was built with, spans the same space, and evaluates and differentiates its own elements at new points.',
	['inputs', 'configurations'],
	'All five families, 1 to 3 variables, degrees up to 5, three data sets or none; bases of data in any order, with repeated columns of any weights.',
	'The tests compare with finite differences at a random point in one or two configurations.',
	['psdr/basis.py', 'psdr/vandermonde.py', 'psdr/poly.py'],
	[('V, VC, DV, DDV, scaling', 'psdr/basis.py'), ('Arnoldi bases', 'psdr/vandermonde.py, psdr/basis.py'), ('roots', 'psdr/basis.py, psdr/poly.py')],
	['V', 'VC', 'DV', 'DDV', 'roots', 'indices', 'scale', 'len'],
	REPLAY,
	'Exact rational values of every basis element from TLC by the recurrences of the families, with derivatives checked against exact divided differences in the specification.')

P('B02', 'Polynomial approximations are best approximations',
	'Fitting a polynomial of given degree to data returns one whose mismatch in the chosen norm (1, 2 or infinity) no polynomial of that degree beats, respecting the data as a lower or upper bound if asked; '
	'in any basis, for any order, shift or scaling of the data. Data of such a polynomial are reproduced, derivatives are those of the fitted polynomial, and fitting again forgets the earlier data.',
	['inputs', 'configurations'],
	'All data sets of the specification (1 to 3 variables, degrees 0 to 3), norms, bounds and bases.',
	'The tests fit exact data, where every norm and bound has the same answer.',
	['psdr/poly.py', 'psdr/polyridge.py', 'psdr/basis.py'],
	[('PolynomialApproximation', 'psdr/poly.py'), ('one_norm_fit, two_norm_fit, inf_norm_fit, bound_fit', 'psdr/polyridge.py')],
	['fit', 'eval', 'grad', 'hessian', '__call__', 'coef'],
	REPLAY,
	'TLC finds the exact optimal mismatch in rational arithmetic (vertices of the linear programs, normal equations with active sets). Solver tolerance about 1e-5 relative.')

P('R01', 'Ridge functions vary only along their subspace and fits never get worse',
	'A polynomial ridge function is the profile polynomial of U\'x: value, gradient and Hessian are those of the composition for one point or many and any full rank U. '
	'Fitting on a fixed subspace is optimal in the chosen norm and bound, affine fits are globally optimal, and a full fit returns an orthonormal basis of the requested dimension with a mismatch that is '
	'no larger than that of the starting subspace, optimal on its own subspace, obeying the bound, oriented (if the fit is unique) so that the function increases on average; ridge functions are recovered from their own subspace. '
	'Fewer data than parameters are refused.',
	['inputs', 'configurations'],
	'All norms, bounds, bases, degrees up to 3 (4), subspaces of dimension up to 3 of up to 5 and five kinds of data.',
	'The tests fit exact data from one start; the nonconvex solvers, bounds and orientation are not judged.',
	['psdr/polyridge.py', 'psdr/ridge.py', 'psdr/gn.py', 'psdr/seqlp.py', 'psdr/poly.py'],
	[('PolynomialRidgeFunction', 'psdr/polyridge.py'), ('fit, _fit_affine, _fit_varpro, _fit_alternating, _finish', 'psdr/polyridge.py')],
	['fit', 'fit_fixed_subspace', 'eval', 'grad', 'hessian', 'profile', 'U', 'coef'],
	BOTH,
	'Values and optima on fixed subspaces are exact from TLC; full fits are recorded as traces of integers and judged by RidgeTrace. Global optimality of the nonconvex problem is not claimed.')

P('R02', 'Vector-valued ridge fits contain what is fixed and never get worse',
	'Approximating several outputs by polynomials of one common subspace returns an orthonormal basis of the requested dimension which contains the fixed subspace (all of it, if nothing is left to choose) and whose mismatch never grows '
	'with the number of iterations and is, from a start near a solution, locally optimal; ridge functions are recovered. The answer does not depend on the shape, order or basis of the outputs, on added constants, '
	'on the order of the data, on orthogonal coordinates or on the bases of the start and of the fixed subspace, agrees with PolynomialRidgeApproximation for a single output, and arguments are left alone.',
	['inputs', 'histories'],
	'Up to five coordinates, subspaces of dimension up to three with fixed parts of every dimension, degrees up to 3 (4), three polynomial bases, one to four outputs in four shapes, exact and noisy data, runs of 0 to 60 iterations.',
	'The tests check two examples, one with and one without a fixed subspace.',
	['psdr/polyridge_vec.py', 'psdr/gn.py', 'psdr/initialization.py'],
	[('polynomial_ridge_approximation', 'psdr/polyridge_vec.py')],
	['U'],
	TRACE,
	'Runs are recorded and judged by RidgeVecTrace; global optimality of the nonconvex problem is not claimed.')

P('O01', 'Gauss-Newton only accepts steps that decrease the residual and reports truly',
	'The line search takes the first backtracked step that satisfies the sufficient decrease condition, passing over impossible steps and NaN, and stays put if there is none. '
	'Gauss-Newton follows the proposed direction, or the negative gradient if that direction does not point downhill, keeps the better of two iterates, stops as soon as the gradient or the step is small enough, no '
	'progress is made or the iterations run out, and says which; a non-finite direction is an error. Linear least squares problems are solved; nothing depends on whether progress is printed, and arguments are left alone.',
	['histories', 'inputs'],
	'All sequences of line search outcomes up to length 3 (4), all scripted iterations up to 3 (4) steps, linear and smooth least squares problems.',
	'One test runs one problem and does not look at the result.',
	['psdr/gn.py'],
	[('linesearch_armijo', 'psdr/gn.py'), ('gauss_newton', 'psdr/gn.py')],
	['x', 'info', 'alpha', 'calls of the user functions'],
	BOTH,
	'The iteration is a state machine in TLA+ whose oracles (solver, line search, residuals, Jacobians) are scripted by TLC and replayed; runs on real problems are judged by OptTrace. The line search measures decrease of the norm of the residual.')

P('O02', 'minimax stays in the domain, never gets worse and solves convex problems',
	'Minimizing the maximum of several functions over a domain evaluates the functions only inside the domain (with the linear trajectory), accepts only points that decrease the maximum, and returns one of them, no worse than the start; '
	'affine functions on a polyhedron and distances to points (smallest enclosing balls) are minimized to the accuracy of the solver, with or without trust region, whether or not progress is printed.',
	['inputs', 'schedules'],
	'All domains of the catalogue with families of affine functions, centres of balls and smooth functions, from two starting points.',
	'One test with one unconstrained problem.',
	['psdr/minimax.py'],
	[('minimax', 'psdr/minimax.py')],
	['x', 'calls of the user function and its gradient'],
	TRACE,
	'Exact optima from TLC (vertices of arrangements, equidistant points on faces); the runs are recorded and judged by OptTrace.')

P('O03', 'Sequential linear programs respect their constraints and never get worse',
	'Minimizing a norm (1, 2, infinity), the hinge loss or a single function of a vector function subject to bounds on the functions, nonlinear constraints and a domain evaluates the functions only inside the domain, accepts only points that '
	'decrease the objective and do not violate the constraints more than the start, and returns the best of them; problems with affine functions are solved to the accuracy of the solver. '
	'Functions may be given together or one by one; nothing depends on whether progress is printed, and arguments are left alone.',
	['inputs', 'schedules'],
	'All domains of the catalogue with families of affine and smooth functions, every norm, bounds on the functions, and discs as constraints.',
	'The solver has no test of its own; ridge fits use it with one norm on exact data.',
	['psdr/seqlp.py'],
	[('sequential_lp', 'psdr/seqlp.py')],
	['x', 'calls of the user functions and derivatives'],
	TRACE,
	'Exact optima from TLC as for O02. With nonlinear constraints only feasibility and monotonicity are claimed.')

P('L01', 'The Lipschitz matrix satisfies its constraints with the least trace',
	'For every set of samples and gradients, the estimated H is symmetric positive semidefinite, satisfies (|f_i - f_j| - epsilon)^2 <= (x_i - x_j)^T H (x_i - x_j) and g g^T <= H for all of them, and has the least trace among the '
	'matrices of its kind (full, diagonal, multiples of the identity; low rank updates never beat the full one); L is the square root of H, and the columns of U are its orthonormal eigenvectors, '
	'most important first, along which the data increase on average. Order, offset, sign and units of the data, what was fitted before, and the method of solution make no difference, and arguments are left alone.',
	['inputs'],
	'All sets of points, values and gradients of a catalogue in 1 to 3 dimensions, with and without epsilon, constant and repeated data included.',
	'Tests solve a few random problems and compare the methods with each other.',
	['psdr/lipschitz.py', 'psdr/lipschitz_partial.py', 'psdr/coord.py', 'psdr/subspace.py'],
	[('LipschitzMatrix', 'psdr/lipschitz.py'), ('LipschitzConstant', 'psdr/lipschitz.py'), ('DiagonalLipschitzMatrix', 'psdr/lipschitz.py'), ('PartialLipschitzMatrix', 'psdr/lipschitz_partial.py')],
	['H', 'L', 'U', 'score'],
	TRACE,
	'TLC computes integer lower bounds and witnesses for the least trace over a grid of matrices, and judges the recorded estimates with LipTrace. Coordinates of order 1 only, as the tolerances of the solver are absolute.')

P('L02', 'Lipschitz bounds contain every compatible function and no more',
	'Given data and a Lipschitz matrix, the bounds at a point are max_j y_j - |L(x - x_j)| and min_j y_j + |L(x - x_j)|, widened by epsilon, for any shape of L; bounds over a domain are their extrema; '
	'the shadow of the bounds consists of the bounds over the slices; data made compatible with L are the closest in the chosen norm; the approximation lies in the class of L, misses the data by no more '
	'than its epsilon and is the middle of the bounds if the data are compatible.',
	['inputs'],
	'All data over a catalogue of points and matrices (square, singular, single row, tall) in 1 to 3 dimensions.',
	'Tests check one sample of a smooth function.',
	['psdr/lipschitz.py', 'psdr/lipschitz_approx.py', 'psdr/sample/maximin_coffeehouse.py', 'psdr/geometry/vertex.py'],
	[('uncertainty', 'psdr/lipschitz.py'), ('uncertainty_domain', 'psdr/lipschitz.py'), ('shadow_uncertainty', 'psdr/lipschitz.py'), ('LipschitzApproximation', 'psdr/lipschitz_approx.py')],
	['lb', 'ub', 'values of the approximation'],
	REPLAY,
	'Bounds are differences of an integer and a square root and are compared exactly by TLC; extrema over domains are exact for matrices with one row.')

P('A01', 'Active subspaces are those of the gradients, given or estimated',
	'ActiveSubspace shows C = sum_i w_i g_i g_i\' (for functions: the integral over the normalized domain), its eigenvectors by decreasing eigenvalue, oriented along the average gradient, and nothing of what was fitted before. '
	'Local linear models minimize the weighted squares: one model per requested point, the weights of the given bandwidth or with the given perplexity, whatever the units of the inputs; affine data are reproduced by any weights. '
	'OuterProductGradient is the active subspace of these gradients, transformed back to the inputs; the nonlinearity of data is what the best linear function leaves of their Lipschitz constant. A convergence study reports the largest angles between successive estimates and the numbers of samples they used.',
	['inputs', 'histories'],
	'All small sets of gradients and weights, fitted to a fresh and to a used estimator; all data on a catalogue of designs in 1 to 3 dimensions; all short lists of distances; runs of up to 3 estimates from pools of gradients.',
	'Tests check a rank, an angle below 0.1, affine data, and one perplexity.',
	['psdr/subspace.py', 'psdr/local_linear.py', 'psdr/opg.py', 'psdr/nonlin.py', 'psdr/study.py'],
	[('ActiveSubspace', 'psdr/subspace.py'), ('OuterProductGradient', 'psdr/opg.py'), ('local_linear', 'psdr/local_linear.py'), ('perplexity_bandwidth', 'psdr/local_linear.py'), ('measure_nonlinearity', 'psdr/nonlin.py'), ('subspace_convergence', 'psdr/study.py')],
	['C', 'U', 'singvals', 'coefficients', 'bandwidth', 'nonlinearity'],
	REPLAY,
	'Weights are powers of two, so that local models, outer products and perplexities are exact rationals (perplexities: a rational times 2 to a rational); C is compared entrywise and through its characteristic polynomial.')


P('P01', 'Tables and plots show the data they are given',
	'Tables keep their columns apart from later changes of the data, accept only columns of one length and survive writing and reading with every number intact. Shadow plots show u\'x against the values for every point, in the plot '
	'and in the file, along with the response of a ridge function; the envelope consists of the least and greatest piecewise linear functions on the grid that hold all the data between them; contour files contain the contour '
	'of every level, piece by piece. A plot is drawn on the given axis, and none if there is none.',
	['histories', 'inputs'],
	'All sequences of up to 5 operations on tables with numbers that are hard to print; all values on a catalogue of designs in 1 to 3 dimensions; all affine functions with small slopes and cones on a square.',
	'Tests only call the functions.',
	['psdr/pgf.py', 'psdr/subspace.py', 'psdr/ridge.py'],
	[('PGF', 'psdr/pgf.py'), ('save_contour', 'psdr/pgf.py'), ('shadow_plot', 'psdr/subspace.py'), ('shadow_envelope', 'psdr/subspace.py'), ('RidgeFunction.shadow_plot', 'psdr/ridge.py')],
	['columns', 'files', 'points and lines of the plots'],
	REPLAY,
	'Envelopes are optima of linear programs that TLC finds exactly; the pieces of the contours are exact polygons.')

P('G01', 'Voronoi vertices and fill distances are those of the bounded diagram',
	'On domains bounded by linear inequalities, and for any metric |L(x - y)|, voronoi_vertex lists every vertex of the bounded Voronoi diagram once and nothing else; fill_distance is the greatest distance of a point of the '
	'domain from the sites; the search from samples ends at such vertices, inside the domain, never nearer to the sites than it began, in any units; estimates never exceed the fill distance; coffee-house designs take a furthest point at '
	'every step; the next sequential sample is such a point; metrics lose only redundant rows; unique_points keeps each point once; miniball is the smallest ball.',
	['inputs', 'histories'],
	'Small sets of sites on the lattice points of eight domains in 1 to 3 dimensions, with metrics of any shape and rank (except zero); domains given by their hull are excluded, as they have no inequalities of their own.',
	'Tests compare random generic sites with the unbounded diagram of scipy, and miss equidistant sites, dependent faces and units.',
	['psdr/geometry/vertex.py', 'psdr/geometry/fill.py', 'psdr/geometry/cdist.py', 'psdr/geometry/geometry.py', 'psdr/geometry/miniball.py', 'psdr/sample/maximin_coffeehouse.py', 'psdr/sample/util.py', 'psdr/sample/seqmaximin.py'],
	[('voronoi_vertex', 'psdr/geometry/vertex.py'), ('voronoi_vertex_sample', 'psdr/geometry/vertex.py'), ('fill_distance', 'psdr/geometry/fill.py'), ('fill_distance_estimate', 'psdr/geometry/fill.py'),
	 ('maximin_coffeehouse', 'psdr/sample/maximin_coffeehouse.py'), ('unique_points', 'psdr/geometry/geometry.py'), ('low_rank_L', 'psdr/sample/util.py')],
	['vertices', 'fill distances', 'designs'],
	REPLAY,
	'Vertices, fill distances and furthest points are exact rationals of the intersections of faces and bisectors.')

P('S01', 'Latin hypercubes and Sobol sequences fill the domain evenly',
	'Every design of N points from latin_hypercube_sample or latin_hypercube_maximin, however many iterations it is given, has exactly one point at the centre of each of the N equal intervals of every coordinate; with the '
	'same random numbers, more iterations never make the least distance between two points smaller, and a search that runs to its end is at a design that no exchange improves. The Sobol sequence of a domain consists, in order, of those points '
	'of the sequence of the bounding box that lie in the domain: asking for fewer points yields the first of them. random_sample draws from the domain.',
	['inputs', 'histories'],
	'Bounded boxes, uniform domains and products for Latin hypercubes; eight polyhedra in 1 to 3 dimensions for the Sobol sequence.',
	'Tests look at a few sizes and seeds, and never at a design of one point, no iterations, or the order of the points.',
	['psdr/sample/latin.py', 'psdr/sample/sobol.py', 'psdr/sample/random_sample.py', 'psdr/domains/domain.py'],
	[('latin_hypercube_sample', 'psdr/sample/latin.py'), ('latin_hypercube_maximin', 'psdr/sample/latin.py'), ('sobol_sequence', 'psdr/sample/sobol.py')],
	['the cells of the points', 'the least distance', 'the points of the sequence'],
	BOTH,
	'The direction numbers, Gray code and the bounding box are in the specification, in exact arithmetic.')

P('S02', 'Disc samples keep their distance and coverings leave nothing uncovered',
	'Points from poisson_disk_sample and poisson_disk_sample_grid lie in the domain and are at least the radius apart in the metric |L(x - y)|; with many tries no point of the domain is further than (about) twice the radius from all of them; '
	'the search ends. minimax_covering_discrete selects a least number of points such that every point is within (less than) the radius of a selected one, with or without L, in any units; minimax_covering leaves no point of the domain further than its radius '
	'from the selected points.',
	['inputs', 'histories'],
	'Eight polyhedra in 1 to 3 dimensions, metrics of any rank except zero; coverings of up to 7 points (all minimal coverings are enumerated).',
	'Tests look at one or two radii in a box; minimality of a covering is never tested.',
	['psdr/sample/poisson.py', 'psdr/sample/minimax.py', 'psdr/sample/initial.py'],
	[('poisson_disk_sample', 'psdr/sample/poisson.py'), ('poisson_disk_sample_grid', 'psdr/sample/poisson.py'), ('minimax_covering', 'psdr/sample/minimax.py'), ('minimax_covering_discrete', 'psdr/sample/minimax.py')],
	['the points', 'their distances', 'the coverings'],
	BOTH,
	'Many tries for the covering by discs: after 1000 failed tries a gap is improbable. The grid version is called with metrics of up to two rows.')

P('S03', 'Maximin and sequential designs go where the points are furthest apart',
	'In the metric of a single row, maximin_design_1d and maximin_block space their points evenly from one end of the domain to the other. In other metrics maximin_block stays in the domain, never ends with a smaller least distance than that of the points it was given, and its last point is at a '
	'vertex of the Voronoi diagram of the others. seq_maximin_sample returns a point of the domain whose product of distances in the given metrics is at least the slack times the greatest possible, or, with no points to start from, a corner in the dominant direction of the metrics. '
	'stretch_sample_domain only fixes coordinates at vertices between the existing points. A SequentialMaximinSampler appends such points and the values of the function there to its state, and nothing else changes the state. initial_sample covers the range of the metric. No argument is changed.',
	['inputs', 'histories'],
	'Eight polyhedra in 1 to 3 dimensions; one-row metrics with entries -1..2; several metrics of one coordinate each on boxes; maximin_block in all metrics except zero; histories of up to 4 calls of a sampler.',
	'Tests run a few random designs without an oracle for the furthest point, and never with faces of lower dimension, existing points as lists, or a function with several values.',
	['psdr/sample/maximin.py', 'psdr/sample/seqmaximin.py', 'psdr/sample/sample.py', 'psdr/sample/stretch.py', 'psdr/sample/initial.py', 'psdr/domains/euclidean.py'],
	[('maximin_design_1d', 'psdr/sample/maximin.py'), ('maximin_block', 'psdr/sample/maximin.py'), ('seq_maximin_sample', 'psdr/sample/seqmaximin.py'), ('SequentialMaximinSampler', 'psdr/sample/sample.py'),
	 ('stretch_sample_domain', 'psdr/sample/stretch.py'), ('initial_sample', 'psdr/sample/initial.py')],
	['the points', 'their distances', 'X and fX of the sampler'],
	BOTH,
	'Fill distances and vertices of intervals are exact rationals; the states of samplers are recorded and judged.')

P('S04', 'Minimax designs stay in the domain, and their searches never get worse',
	'In the metric of a single row, minimax_design_1d, minimax_design and minimax_lloyd return the centres of N intervals of the same length that cover the domain. In other metrics, minimax_lloyd, minimax_scale, minimax_cluster and minimax_cluster_pso return N points of the domain (of type float), '
	'such that no point of the domain, or of the given discrete set, is further from the nearest of them than from the design that the search started with or any that it tried, and the more steps the search takes the better it gets. The distance that minimax_cluster_pso reports is that of its design. '
	'A single point that minimax_lloyd finds is the centre of the smallest ball that contains the domain, and none is better. The designs, metrics and options of the caller do not change.',
	['inputs', 'histories'],
	'Eight polyhedra in 1 to 3 dimensions; one-row metrics with entries -1..2; all other metrics of Vor; sets of 1 to 4 points (5 in the thorough tier) as starts; searches of 1 to 8 steps.',
	'Tests look at the output of a few random runs; that the best design seen is the one returned depends on the history of the search, and the distance to the worst point of the domain needs the vertices of a Voronoi diagram.',
	['psdr/sample/minimax.py', 'psdr/sample/minimax_lloyd.py', 'psdr/sample/minimax_scale.py', 'psdr/geometry/vertex.py'],
	[('minimax_design_1d', 'psdr/sample/minimax.py'), ('minimax_cluster', 'psdr/sample/minimax.py'), ('minimax_cluster_pso', 'psdr/sample/minimax.py'),
	 ('minimax_lloyd', 'psdr/sample/minimax_lloyd.py'), ('minimax_scale', 'psdr/sample/minimax_scale.py')],
	['the designs', 'the greatest distance of a point from them', 'the reported distance', 'the arguments afterwards'],
	BOTH,
	'The distance of the start and the smallest ball are exact; distances of the returned designs are evaluated at all intersections of sides and bisectors, by the harness, and judged by the trace specification.')

P('S05', 'Projection designs take one point from each piece of every direction',
	'projection_sample, projection_design and, on domains that are not boxes, latin_hypercube_sample and latin_hypercube_maximin return N points of the domain such that along every given direction each of the N pieces nearest to the targets (spaced evenly from end to end, or centres of pieces of the same length, or as given) '
	'holds exactly one of the points; each point is as near to its targets as its cell allows. The search for a design whose points are far apart never gets worse with more iterations, finds the best of all such designs if there is time to look at them all, and ends. If there is no such design the result is None. Arguments do not change.',
	['inputs', 'histories'],
	'Seven polyhedra in 2 and 3 dimensions; one or two directions with entries -1..2, or all axes; 1 to 4 points; any seed. Cells that the domain only touches are left out.',
	'Tests look at one or two random designs on a box; the best design, the pieces on polyhedra, and infeasible combinations of pieces are never looked at.',
	['psdr/sample/projection.py', 'psdr/sample/latin.py', 'psdr/sample/util.py', 'psdr/domains/euclidean.py'],
	[('projection_sample', 'psdr/sample/projection.py'), ('projection_design', 'psdr/sample/projection.py'), ('latin_hypercube_maximin', 'psdr/sample/latin.py'), ('latin_hypercube_sample', 'psdr/sample/latin.py')],
	['the designs'],
	BOTH,
	'Pieces, feasible cells and the nearest points in them are exact rationals (conditions of Lagrange on all sets of tight constraints); the judge enumerates all designs.')

P('K01', 'Gaussian processes solve their system and interpolate',
	'For every scaling matrix the model that GaussianProcess fits is the one its documentation defines: weights and trend solve the system of kernel, nugget and polynomials, predictions (for one point or many, arrays or lists) are the sum of kernels and trend, variances lie between 0 and 1, are those of the kernel, and vanish at the data; '
	'the marginal likelihood and its gradient are exact. A fit never ends with a worse likelihood than it started with, its matrix has the structure asked for, the model interpolates (unless the matrix makes points indistinguishable), weights are orthogonal to the trend, data that a polynomial of the degree of the trend explains is reproduced everywhere, and earlier fits, arguments changed later, or coordinates that do not vary make no difference.',
	['inputs', 'histories'],
	'One to four points on lattices in 1 and 2 dimensions (one to seven, up to 3 dimensions, for fits), four structures, trends of degree none, 0, 1 (2 for fits), nuggets 0 (rounding) and 1/2. Scalings at which kernels are powers of one half.',
	'Tests compare one gradient with finite differences and interpolate one function; weights, nugget, trends away from the data, variances and structures are never looked at.',
	['psdr/gp.py', 'psdr/basis.py'],
	[('GaussianProcess', 'psdr/gp.py')],
	['the models'],
	BOTH,
	'Kernels at the chosen scalings are powers of one half, so weights, predictions, variances, determinant and gradient are exact rationals; fits are traces judged by TLC.')
