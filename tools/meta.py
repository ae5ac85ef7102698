NOTE = 'Holds on the executions observed (counts in the evidence file), not proved. Trusts numpy, scipy and the independent reference computation in /verif/vmon. '
PROPS = []
def P(**kw): PROPS.append(kw)

P(id = 'C01', title = 'Domain membership equals the stated set, and set operations combine it',
	statement = '''A point is inside a domain exactly when it satisfies, up to the documented tolerance, every constraint the domain was defined by: bounds, linear
	inequalities and equalities, quadratic constraints, the truncation of a (log-)normal domain, being the given point, lying in the convex hull of the given points, or lying in each factor of
	a tensor product. Adding constraints to a domain and intersecting domains (& and add_constraints) gives precisely the points in all of them, for every pair of domain kinds.
	Membership of a batch equals membership of each row, and the constraint attributes exposed by a domain describe the same set.''',
	quant = 'every domain of every kind, product and intersection of them in any dimension and scaling, and every query point or batch away from the tolerance band',
	tests = 'The tests query a few fixed low dimensional domains at sampled points; the guarantee ranges over all domains, compositions of domains and points',
	files = ['psdr/domains/euclidean.py', 'psdr/domains/linquad.py', 'psdr/domains/linineq.py', 'psdr/domains/convexhull.py', 'psdr/domains/tensor.py', 'psdr/domains/normal.py', 'psdr/domains/lognormal.py', 'psdr/domains/point.py', 'psdr/domains/box.py', 'psdr/domains/unbounded.py'],
	mech = [('isinside and the _isinside_* tests', 'psdr/domains/euclidean.py'), ('__and__ / add_constraints', 'psdr/domains/linquad.py, linineq.py, convexhull.py, tensor.py, point.py'), ('_init_lb/_init_ub/_init_ineq/_init_eq/_init_quad', 'psdr/domains/euclidean.py')],
	at = ['Domain.isinside', 'x in domain', 'domain & domain', 'Domain.add_constraints', 'lb/ub/A/b/A_eq/b_eq/Ls/ys/rhos'],
	note = NOTE + 'Points within 0.4-2.5 times the tolerance of the boundary are not judged.')

P(id = 'C02', title = 'closest_point and constrained_least_squares return constrained minimisers',
	statement = '''For every domain, closest_point(x0, L, p) returns a point of the domain at which the (weighted) distance to x0 is as small as at any point of the domain (x0 itself if it is inside);
	constrained_least_squares(A, b) returns a point of the domain minimising ||A x - b||_2. Empty domains and mismatched dimensions are reported by the documented exceptions.''',
	quant = 'every domain of every kind incl. products, hulls and intersections, every x0, weight and (rank deficient) least squares data',
	tests = 'Tests project a handful of points onto boxes and one or two polytopes without checking optimality on constrained products, hulls and quadratic domains',
	files = ['psdr/domains/euclidean.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/point.py', 'psdr/domains/unbounded.py', 'psdr/domains/box.py'],
	mech = [('_closest_point / _constrained_least_squares via the convex program of _build_constraints', 'psdr/domains/euclidean.py'), ('kind specific overrides', 'psdr/domains/box.py, point.py, convexhull.py, tensor.py')],
	at = ['Domain.closest_point', 'Domain.constrained_least_squares'], note = NOTE + 'Feasibility judged to 1e-5 of the domain size, optimality to 2e-4 relative.')

P(id = 'C03', title = 'Corners, centers and the empty/point/bounded classification are right',
	statement = '''corner(p) returns a point of the domain maximising p^T x over it, or raises the unbounded/empty exception when there is none; chebyshev_center returns the center and radius of a largest ball
	in the domain and center a point inside it. is_empty, is_point, is_unbounded (and the domain's dimension) report exactly whether the set is empty, a single point or unbounded, regardless of the order in which
	the domain is queried.''',
	quant = 'every domain of every kind (bounded, unbounded, empty, single point), every direction, every order of queries on one object', over = ['inputs', 'histories'],
	tests = 'Tests check corners of fixed boxes and polytopes and the flags of a few fresh domains; caching of flags makes the answer depend on the history of queries',
	files = ['psdr/domains/euclidean.py', 'psdr/domains/box.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/linineq.py', 'psdr/domains/point.py'],
	mech = [('_corner, _closest_point programs and their status handling', 'psdr/domains/euclidean.py'), ('chebyshev_center', 'psdr/domains/linineq.py'), ('_empty/_point/_unbounded caches', 'psdr/domains/euclidean.py')],
	at = ['Domain.corner', 'LinIneqDomain.chebyshev_center', 'Domain.center', 'Domain.is_empty', 'Domain.is_point', 'Domain.is_unbounded'], note = NOTE + 'Empty/point domains have a margin of the order of the domain size.')

P(id = 'C04', title = 'extent is the exact distance to the boundary and sweeps stay inside',
	statement = '''For a point x of the domain and a direction p, extent(x, p) is the largest alpha with x + alpha p in the domain (infinite if the ray stays inside), so x + alpha p is inside for every alpha up to it and outside beyond it,
	also when x is on the boundary. sweep returns points of the domain on one line through the given point in the given direction, spanning the full chord, and the corresponding positions along it.''',
	quant = 'every domain kind, every starting point incl. boundary points and corners, every direction incl. tangential and outward ones',
	tests = 'Tests check extents from the center of fixed domains; boundary starts, products, hulls and conic constraints in random directions are unreached',
	files = ['psdr/domains/euclidean.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/point.py', 'psdr/domains/unbounded.py'],
	mech = [('_extent_bounds/_extent_ineq/_extent_quad', 'psdr/domains/euclidean.py'), ('_extent overrides', 'psdr/domains/tensor.py, convexhull.py, linquad.py'), ('sweep', 'psdr/domains/euclidean.py')],
	at = ['Domain.extent', 'Domain.sweep'], note = NOTE + 'Directions within 1e-3 of tangential are not judged.')

P(id = 'C05', title = 'Normalization is an invertible affine map onto the normalized domain',
	statement = '''normalize and unnormalize are inverse affine, componentwise increasing maps, applied row by row to batches, for coordinates of any width and position. The normalized domain is precisely the
	image of the domain: membership of x in the domain and of normalize(x) in normalized_domain() agree, as do the constraints both expose, and a bounded domain is mapped into (tightly, onto the sides of) the cube [-1,1]^m.''',
	quant = 'every domain kind incl. unbounded coordinates, truncated or scaled random domains, hulls, points, products and intersections', tests = 'Tests round trip samples of a few bounded domains',
	files = ['psdr/domains/euclidean.py', 'psdr/domains/linquad.py', 'psdr/domains/linineq.py', 'psdr/domains/normal.py', 'psdr/domains/lognormal.py', 'psdr/domains/tensor.py', 'psdr/domains/convexhull.py', 'psdr/domains/box.py', 'psdr/domains/point.py'],
	mech = [('_normalize/_unnormalize, lb_norm/ub_norm', 'psdr/domains/euclidean.py'), ('_normalized_domain', 'every domain class'), ('A_norm, b_norm, Ls_norm, ...', 'psdr/domains/euclidean.py, linquad.py')],
	at = ['Domain.normalize', 'Domain.unnormalize', 'Domain.normalized_domain', 'norm_lb/norm_ub and *_norm attributes'], note = NOTE)

P(id = 'C06', title = 'Sampling a domain yields points inside it that reach all of it',
	statement = '''sample(N) returns N points of the domain (a single point for one), distinct unless the domain is a point, spread over the whole domain; boxes, uniform domains and convex hulls with as many points as a simplex are
	sampled with the stated distribution. sample_grid returns exactly the points of the stated grid that are inside, sample_boundary points of the domain on its boundary, and random_direction directions that can be followed from the point without leaving the domain.''',
	quant = 'every domain kind and dimension, every number of samples, every seed', over = ['inputs', 'histories'], tests = 'Tests sample a few domains once and check membership only',
	files = ['psdr/domains/euclidean.py', 'psdr/domains/domain.py', 'psdr/domains/box.py', 'psdr/domains/convexhull.py', 'psdr/domains/tensor.py', 'psdr/domains/normal.py', 'psdr/domains/linquad.py'],
	mech = [('hit and run (_hit_and_run, random_direction)', 'psdr/domains/euclidean.py'), ('_sample overrides', 'psdr/domains/*.py'), ('sample_grid, sample_boundary', 'psdr/domains/euclidean.py, domain.py')],
	at = ['Domain.sample', 'Domain.sample_grid', 'Domain.sample_boundary', 'Domain.random_direction'], note = NOTE + 'Statistical clauses have false alarm probability below 1e-7 per case.')

P(id = 'C07', title = 'Random domains sample the distribution whose density they report',
	statement = '''The density reported by pdf is that of the stated (truncated) normal, log-normal, uniform or product distribution: it integrates to one over the domain, vanishes outside it, and has the stated shape. Samples follow that distribution and
	stay within the truncation, and normalizing the domain transforms samples and density consistently.''',
	quant = 'every mean, covariance (also full), truncation level, offset, scaling and product of random domains', tests = 'Tests compare moments of one or two instances loosely',
	files = ['psdr/domains/normal.py', 'psdr/domains/lognormal.py', 'psdr/domains/uniform.py', 'psdr/domains/random.py', 'psdr/domains/tensor.py'],
	mech = [('_pdf, _sample, truncation bound clip', 'psdr/domains/normal.py, lognormal.py'), ('RandomDomain.pdf', 'psdr/domains/random.py')], at = ['RandomDomain.pdf', 'Domain.sample', 'normalized_domain().pdf'],
	note = NOTE + 'KS tests at level 1e-8. One known finding: the scaled log-normal density.')

P(id = 'C08', title = 'Quadrature rules integrate exactly, within budget, and volumes are right',
	statement = '''The one dimensional Gauss rule with n nodes integrates every polynomial of degree 2n-1 over its interval exactly with positive weights and nodes inside; tensor rules on boxes do the same per coordinate using at most the requested number of nodes.
	Every rule built for a domain has its nodes in the domain and weights that sum to the volume of the domain (exactly for boxes, approximately otherwise), and Monte Carlo rules use equal weights at exactly the requested number of points.''',
	quant = 'every interval, number of nodes, budget and domain', tests = 'Tests integrate one or two functions',
	files = ['psdr/quadrature.py', 'psdr/domains/euclidean.py', 'psdr/domains/domain.py'], mech = [('gauss', 'psdr/quadrature.py'), ('quadrature_rule', 'psdr/domains/euclidean.py')], at = ['psdr.gauss', 'Domain.quadrature_rule'], note = NOTE)

P(id = 'C09', title = 'Tensor polynomial bases evaluate the named polynomials and derivatives',
	statement = '''A total degree basis in m variables of degree p has one element for each multi-index of total degree at most p; V evaluates the product of the named (monomial, Legendre, Chebyshev, Laguerre, Hermite) one dimensional polynomials at the affinely scaled
	point, VC is V times the coefficients, and DV and DDV are its exact first and second derivatives in the original coordinates. roots returns the roots of a univariate combination, and polynomial functions evaluate, differentiate and solve accordingly.''',
	quant = 'every basis, dimension, degree, scaling data (incl. constant coordinates) and evaluation point', tests = 'Tests check gradients by finite differences at fixed low degree',
	files = ['psdr/basis.py', 'psdr/poly.py'], mech = [('V, VC, DV, DDV, roots, _set_scale, _scale', 'psdr/basis.py'), ('PolynomialFunction', 'psdr/poly.py')], at = ['PolynomialTensorBasis.V/VC/DV/DDV/roots', 'PolynomialFunction.eval/grad/hessian/roots'], note = NOTE)

P(id = 'C10', title = 'Arnoldi bases are orthonormal polynomials, evaluated alike at any points',
	statement = '''The Arnoldi basis of degree p built on points X consists of as many polynomials as the space has dimensions, orthonormal on X, graded by degree, and V, DV give the values and exact derivatives of these same polynomials at any other points, however many and in
	whatever order they are asked for. polyfitA/polyvalA evaluate the least squares polynomial of the stated degree.''',
	quant = 'every set of points in general position, dimension, degree and set of evaluation points', tests = 'Tests compare one degree at the points the basis was built on',
	files = ['psdr/basis.py', 'psdr/vandermonde.py'], mech = [('ArnoldiPolynomialBasis.arnoldi/arnoldi_X/DV', 'psdr/basis.py'), ('vandermonde_arnoldi, polyfitA, polyvalA', 'psdr/vandermonde.py')], at = ['ArnoldiPolynomialBasis.V/DV', 'polyfitA', 'polyvalA'], note = NOTE)

P(id = 'C11', title = 'Polynomial approximations are best in the stated norm and respect bounds',
	statement = '''PolynomialApproximation.fit finds, among polynomials of the stated total degree, one minimising the 1-, 2- or infinity-norm misfit to the data, and with bound 'lower' ('upper') one that is below (above) all the data and minimises the misfit among those.
	The result does not depend on the basis it is written in, data from such a polynomial is reproduced, and values, gradients and Hessians are those of one polynomial.''',
	quant = 'every data set, dimension, degree, basis, norm and bound, and refits of the same object', over = ['inputs', 'histories'], tests = 'Tests check a single norm and degree without optimality or bounds',
	files = ['psdr/poly.py', 'psdr/basis.py'], mech = [('linear_fit', 'psdr/poly.py'), ('PolynomialApproximation.fit', 'psdr/poly.py')], at = ['PolynomialApproximation.fit', 'PolynomialFunction.eval/grad/hessian'], note = NOTE)

P(id = 'C12', title = 'Function evaluates on the normalized domain with consistent derivatives',
	statement = '''Function(x) equals the wrapped functions at the un-normalized point, stacked in order, with the keyword arguments of construction overridden by those of the call; grad is its derivative in normalized coordinates, whichever way it is provided (analytic, returned with the
	value, or finite differences), vectorized or not, and single points and batches agree row by row. Asynchronous evaluation returns the same values, one future per point, in order.''',
	quant = 'every domain, number of functions, way of providing gradients, keyword history, batch and client', over = ['inputs', 'schedules'], tests = 'Tests use one function per option on a box',
	files = ['psdr/function.py'], mech = [('eval, grad, __call__, _shape_grad', 'psdr/function.py'), ('eval_async, call_async', 'psdr/function.py')], at = ['Function.eval/grad/__call__', 'Function.eval_async/call_async'], note = NOTE + 'Asynchronous schedules come from a recording executor and a real dask client with injected delays.')

P(id = 'C13', title = 'Demo functions implement their published formulas, domains and derivatives',
	statement = '''The borehole, OTL circuit, piston, robot arm, wing weight, beam, gear box, Hartmann and polynomial test functions return the value of their published formula at every point of their published domain, and their gradients are the exact derivatives; random variants
	of the domains follow the stated distributions and truncation.''',
	quant = 'every point (and batch) of every demo domain', tests = 'Tests compare gradients with differences at one random point and never the values with the formulas',
	files = ['psdr/demos/borehole.py', 'psdr/demos/golinski.py', 'psdr/demos/hartmann.py', 'psdr/demos/otl_circuit.py', 'psdr/demos/piston.py', 'psdr/demos/robot_arm.py', 'psdr/demos/wing_weight.py', 'psdr/demos/beam.py', 'psdr/demos/polynomial.py', 'psdr/demos/multif.py'],
	mech = [('function and *_grad pairs', 'psdr/demos/*.py'), ('build_*_domain', 'psdr/demos/*.py')], at = ['psdr.demos.<Function>.__call__/grad/domain'], note = NOTE)

P(id = 'C14', title = 'Active subspaces are the eigenspaces of the averaged outer product',
	statement = '''ActiveSubspace.fit makes C the (weighted) average of the outer products of the given gradients, U an orthonormal eigenbasis in decreasing order of the eigenvalues, singvals their square roots, and orients every direction along non-negative average slope;
	the outcome depends only on that fit. fit_function uses at most the given number of gradients and is exact for functions its quadrature rule integrates. Convergence studies report the largest angle between successive subspaces, and shadow envelopes enclose the samples tightly to plotting accuracy.''',
	quant = 'every gradient set (fewer than the dimension, rank deficient, zero mean slope), every weights, every sequence of fits', over = ['inputs', 'histories'], tests = 'Tests only count nonzero singular values of one quadratic',
	files = ['psdr/subspace.py', 'psdr/study.py'], mech = [('ActiveSubspace.fit, fit_function, _fix_subspace_signs_grads', 'psdr/subspace.py'), ('shadow_envelope', 'psdr/subspace.py'), ('subspace_convergence', 'psdr/study.py')],
	at = ['ActiveSubspace.U/C/singvals', 'subspace_convergence', 'shadow_envelope'], note = NOTE)

P(id = 'C15', title = 'Local linear models solve their weighted least squares at the set perplexity',
	statement = '''perplexity_bandwidth returns the bandwidth at which the Gaussian kernel weights have exactly the requested perplexity; local_linear returns at every target point the minimiser of the kernel weighted least squares problem, and gradients are its linear coefficients
	(exact for affine data). The outer product of gradients gives the leading eigenspaces of these gradients in the original coordinates, standardized or not, and initialize_subspace an orthonormal basis of the dominant gradient directions.''',
	quant = 'every data set and scale, perplexity, bandwidth and set of target points', tests = 'Tests check affine data on one random sample',
	files = ['psdr/local_linear.py', 'psdr/opg.py', 'psdr/initialization.py'], mech = [('perplexity_bandwidth, log_entropy, _compute_p1', 'psdr/local_linear.py'), ('local_linear', 'psdr/local_linear.py'), ('OuterProductGradient.fit', 'psdr/opg.py')],
	at = ['perplexity_bandwidth', 'local_linear(_grads)', 'OuterProductGradient.U', 'initialize_subspace'], note = NOTE)

P(id = 'C16', title = 'Polynomial ridge functions evaluate g(U^T x) and its exact derivatives',
	statement = '''A PolynomialRidgeFunction f(x) = g(U^T x) evaluates, at single points, batches and lists, to the polynomial g in the given basis and coefficients at the ridge coordinates; grad and hessian are the exact first and second derivatives with respect to x by the chain
	rule, profile and profile_grad the polynomial and its gradient in the ridge coordinates. These hold for orthonormal and general U, every basis, degree and scaling, and evaluation changes no state.''',
	quant = 'every basis, degree, set of coefficients, directions and points', tests = 'Tests compare derivatives with finite differences for a few random low degree Legendre ridge functions',
	files = ['psdr/ridge.py', 'psdr/polyridge.py', 'psdr/basis.py'], mech = [('PolynomialRidgeFunction.eval/grad/hessian/profile', 'psdr/polyridge.py'), ('basis DV, DDV', 'psdr/basis.py')],
	at = ['PolynomialRidgeFunction.eval', 'grad', 'hessian', 'profile', 'profile_grad'], note = NOTE)

P(id = 'C17', title = 'Ridge approximations are best fits on a subspace no worse than the start',
	statement = '''Fitting a PolynomialRidgeApproximation returns an orthonormal U and the polynomial that is the best fit in the requested norm (1, 2, infinity) and under the requested bound (none, lower, upper) on that subspace: no other coefficients give a smaller misfit. The misfit is not larger than that of the
	best fit on the subspace the optimisation started from; affine fits are optimal over all directions; data from a ridge polynomial are recovered exactly from nearby starts, and 2-norm fits end at stationary points. A fixed subspace is kept. Directions are oriented so that the data increase along them. Underdetermined problems are reported,
	and vector valued ridge approximation obeys the same per output.''',
	quant = 'every data set, norm, bound, basis, degree, dimension, number of ridge directions, start', tests = 'Tests fit noise free ridge data of one fixed function and check a few gradients; bounds and norms are only run',
	files = ['psdr/polyridge.py', 'psdr/polyridge_vec.py', 'psdr/ridge.py', 'psdr/poly.py', 'psdr/subspace.py'], mech = [('_fit_affine_*, _fit_alternating, _varpro, _fit_coef', 'psdr/polyridge.py'), ('polynomial_ridge_approximation', 'psdr/polyridge_vec.py'), ('_fix_subspace_signs', 'psdr/subspace.py')],
	at = ['PolynomialRidgeApproximation.fit', 'fit_fixed_subspace', 'U', 'coef', 'polynomial_ridge_approximation'], note = NOTE + 'The global optimum is not demanded for degree above one.')

P(id = 'C18', title = 'Gauss-Newton never accepts a worse point and reports why it stopped',
	statement = '''gauss_newton only moves to points satisfying the Armijo condition of its line search, along its trajectory, so that the sum of squares never grows, whatever the residual (BadStep exceptions included); it returns the best point, and its info code is right:
	convergence codes only at points meeting the gradient/step/objective tolerance, iteration limits respected. On linear and well conditioned problems it reaches the least squares solution, for rank deficient Jacobians too. linesearch_armijo returns a step satisfying the sufficient
	decrease condition among the geometric backtracking candidates, the first such, or reports failure.''',
	quant = 'every residual function, start, tolerance, iteration limit, trajectory, line search, and history of rejected steps', over = ['inputs', 'histories', 'faults'], tests = 'Tests run two easy problems to convergence and never force rejected steps or early stops',
	files = ['psdr/gn.py'], mech = [('gauss_newton', 'psdr/gn.py'), ('linesearch_armijo, BadStep', 'psdr/gn.py')], at = ['gauss_newton', 'linesearch_armijo', 'trajectory_linear'], note = NOTE)

P(id = 'C19', title = 'minimax and sequential LP descend feasibly to the constrained optimum',
	statement = '''minimax(f, x0, domain) returns a point of the domain whose largest component of f is not larger than at x0, equal to the optimum when the problem is convex (affine or convex quadratic components); sequential_lp the same for the 1-, 2-, infinity-norm, hinge loss or value of f,
	with bounds on f and linear side constraints respected at every accepted point and the trust region / trajectory used as given. Infeasible and unbounded problems are reported.''',
	quant = 'every objective, domain, norm, bound, constraint, trajectory and feasible start', over = ['inputs', 'histories'], tests = 'Tests solve one or two problems per norm and check only a loose first order condition',
	files = ['psdr/minimax.py', 'psdr/seqlp.py'], mech = [('minimax', 'psdr/minimax.py'), ('sequential_lp', 'psdr/seqlp.py')], at = ['psdr.minimax', 'psdr.seqlp.sequential_lp'], note = NOTE + 'Nonlinear side constraints are only linearised and not judged.')

P(id = 'C20', title = 'Lipschitz matrices satisfy every data constraint with least trace',
	statement = '''LipschitzMatrix.fit returns H = L^T L, symmetric positive semidefinite, such that |f(x_i) - f(x_j)| - epsilon <= ||L (x_i - x_j)||_2 for all pairs and g g^T <= H for all gradients, with trace no larger than any other such matrix; the diagonal variant the least trace diagonal one and LipschitzConstant the smallest
	scalar. The given data are kept, U holds the eigenvectors by decreasing eigenvalue. The result is equivariant under rotation, scaling and permutation of the data, and refitting equals a fresh fit.''',
	quant = 'every data set (samples, gradients or both), epsilon, estimator, formulation and history of fits', over = ['inputs', 'histories'], tests = 'Tests check constraints on one sample and compare two formulations; minimality, scale and degenerate data are not checked',
	files = ['psdr/lipschitz.py', 'psdr/subspace.py'], mech = [('LipschitzMatrix._fit, _build_lipschitz_matrix*', 'psdr/lipschitz.py'), ('DiagonalLipschitzMatrix._fit', 'psdr/lipschitz.py'), ('LipschitzConstant._fit', 'psdr/lipschitz.py')],
	at = ['LipschitzMatrix.fit', 'H', 'L', 'U', 'DiagonalLipschitzMatrix', 'LipschitzConstant'], note = NOTE + 'To the accuracy of the conic solver.')

P(id = 'C21', title = 'Lipschitz uncertainty intervals are exactly the values the data allow',
	statement = '''uncertainty(X, fX, Xtest) returns at every test point the interval [max_j y_j - ||L(x-x_j)||, min_j y_j + ||L(x-x_j)||], widened by epsilon, which contains every function of the class fitting the data; uncertainty_domain returns the smallest lower and largest upper end over
	the domain (attained, and reached by the search), and shadow_uncertainty that of each slice of the domain orthogonal to a direction, between the extremes of the domain. Bound functions have exact values and gradients.''',
	quant = 'every Lipschitz matrix (full, rank deficient, diagonal, constant; given or fitted), data, epsilon, test points and domains', tests = 'Tests evaluate uncertainty on one example and compare the domain version with samples only loosely',
	files = ['psdr/lipschitz.py', 'psdr/minimax.py', 'psdr/geometry/vertex.py', 'psdr/sample/maximin_coffeehouse.py'], mech = [('LipschitzMatrix.uncertainty/uncertainty_domain/shadow_uncertainty', 'psdr/lipschitz.py'), ('LowerBound, UpperBound', 'psdr/lipschitz.py'), ('maximin_coffeehouse starts', 'psdr/sample/maximin_coffeehouse.py')],
	at = ['LipschitzMatrix.uncertainty', 'uncertainty_domain', 'shadow_uncertainty'], note = NOTE + 'The range over a domain is compared with a dense scan in one and two dimensions only.')

P(id = 'C22', title = 'Partial Lipschitz matrices are feasible and improve on their start',
	statement = '''PartialLipschitzMatrix(rank).fit returns H = L^T L = U J U^T + alpha (I - U U^T) with U orthonormal (rank columns, given or default start), J diagonal with decreasing nonnegative entries and alpha >= 0, satisfying every sample pair and gradient constraint of the data;
	J and alpha are optimal for the returned subspace, the trace never grows with the iterations, is not larger than at the start and not smaller than that of the full Lipschitz matrix (equal for full rank). Bad arguments are reported.''',
	quant = 'every data set (samples, gradients or both), epsilon, rank, starting subspace and iteration limit', over = ['inputs', 'histories'], tests = 'Tests fit one small data set and look at the shape; feasibility, optimality over the subspace and progress are not checked',
	files = ['psdr/lipschitz_partial.py', 'psdr/lipschitz.py'], mech = [('PartialLipschitzMatrix._fit, _fixed_U, _optimize', 'psdr/lipschitz_partial.py')],
	at = ['PartialLipschitzMatrix.fit', 'H', 'L', 'U', 'J', 'alpha'], note = NOTE + 'Local optimality over subspaces is only judged through progress from the start. Starts are given when the data do not determine the default one.')

P(id = 'C23', title = 'Lipschitz approximations are compatible, closest and central',
	statement = '''lipschitz_approximation_compatible_data(L, X, fX, norm) returns values y with |y_i - y_j| <= ||L (x_i - x_j)|| for all pairs that are closest to fX in the 1-, 2- or infinity-norm. LipschitzApproximation.fit uses these, evaluates to the center of the interval of values they allow at any point
	(hence is Lipschitz with L, constant along directions L ignores, independent of later changes of the data arrays), reports the largest misfit as epsilon and the important directions as U; shadow_plot writes the samples, the center and the bounds along the direction.''',
	quant = 'every Lipschitz matrix, sample set, data and norm', over = ['inputs', 'histories'], tests = 'Tests fit one compatible sample; incompatible data, the norms, refits and plots are not checked',
	files = ['psdr/lipschitz_approx.py', 'psdr/lipschitz.py', 'psdr/pgf.py'], mech = [('lipschitz_approximation_compatible_data', 'psdr/lipschitz_approx.py'), ('LipschitzApproximation.fit/eval/shadow_plot', 'psdr/lipschitz_approx.py')],
	at = ['LipschitzApproximation.fit', 'LipschitzApproximation.__call__', 'epsilon', 'U', 'shadow_plot', 'lipschitz_approximation_compatible_data'], note = NOTE + 'To the accuracy of the conic solver.')

P(id = 'C24', title = 'Gaussian processes maximise their likelihood and evaluate its posterior',
	statement = '''GaussianProcess(structure, degree, nugget).fit uses the likelihood of the Gaussian kernel with the distance matrix structure asked for and its exact gradient, descends from the start to a stationary point, and has weights solving the (polynomially augmented) kernel system: it interpolates without a nugget and reproduces
	polynomials of its degree. Evaluation gives kernel sums plus polynomial and the posterior variance (small at samples, one far away), alike for single points, batches and lists, and does not depend on the order of samples or previous fits.''',
	quant = 'every sample, data, structure, degree, nugget, start and history of fits', over = ['inputs', 'histories'], tests = 'Tests compare the gradient with differences at one point and check interpolation of one function',
	files = ['psdr/gp.py'], mech = [('GaussianProcess._log_marginal_likelihood, _make_L, fit', 'psdr/gp.py'), ('GaussianProcess.eval', 'psdr/gp.py')], at = ['GaussianProcess.fit', 'GaussianProcess.eval', 'L', 'alpha', 'beta'], note = NOTE + 'Kernels too ill conditioned for double precision are only checked for finite values.')

P(id = 'C25', title = 'Voronoi vertices are complete, fill distances exact, geometry right',
	statement = '''voronoi_vertex returns all vertices of the bounded Voronoi diagram of the given points on the domain in the metric ||L (x - y)|| and (for nonsingular L) nothing else; fill_distance is the largest distance of a point of the domain to the nearest given point and the estimate never exceeds it; voronoi_vertex_sample moves each start
	inside the domain, never closer to the points, to a vertex, independently of units. Unique points, weighted distances, samples of spheres and simplices and smallest enclosing balls are right. Arguments are never modified.''',
	quant = 'every box, polytope, product, flat and equality constrained domain, point set (repeated and boundary points included) and metric incl. wide and rank deficient ones', tests = 'Tests check that vertices lie inside and a lower bound for sampled distances on a few boxes with the identity',
	files = ['psdr/geometry/vertex.py', 'psdr/geometry/fill.py', 'psdr/geometry/geometry.py', 'psdr/geometry/cdist.py', 'psdr/geometry/miniball.py'], mech = [('voronoi_vertex, voronoi_vertex_sample', 'psdr/geometry/vertex.py'), ('fill_distance, fill_distance_estimate', 'psdr/geometry/fill.py'), ('unique_points, sample_sphere, sample_simplex', 'psdr/geometry/geometry.py'), ('miniball', 'psdr/geometry/miniball.py')],
	at = ['voronoi_vertex', 'voronoi_vertex_sample', 'fill_distance', 'fill_distance_estimate', 'psdr.geometry.*'], note = NOTE + 'Sampled starts may fail to reach a vertex by rounding: six in ten are demanded.')

P(id = 'C26', title = 'Space-filling designs have the structure they promise',
	statement = '''Every design lies in the domain with the number of points asked for. Latin hypercubes have one point in each of the N strata of each coordinate (at midpoints for boxes) with uniform permutations, maximin ones separated better; one-dimensional maximin designs are equispaced between the ends; block
	designs are stationary and no worse than their start; coffee house designs take the furthest point each time; Poisson disk samples are further apart than r and leave no gaps; Sobol points are the balanced sequence mapped to the domain, with prefixes; initial samples are uniform in a low rank metric; stretch samples are far in the metrics.''',
	quant = 'every box, polytope, product, flat and equality constrained domain, number of points, metric and random state', tests = 'Tests draw one design on a cube and check membership, rarely the structure',
	files = ['psdr/sample/latin.py', 'psdr/sample/maximin.py', 'psdr/sample/maximin_coffeehouse.py', 'psdr/sample/poisson.py', 'psdr/sample/sobol.py', 'psdr/sample/initial.py', 'psdr/sample/stretch.py', 'psdr/sample/util.py'],
	mech = [('latin_hypercube_sample, latin_hypercube_maximin', 'psdr/sample/latin.py'), ('maximin_block, maximin_design_1d', 'psdr/sample/maximin.py'), ('maximin_coffeehouse', 'psdr/sample/maximin_coffeehouse.py'), ('poisson_disk_sample, poisson_disk_sample_grid', 'psdr/sample/poisson.py'), ('sobol_sequence', 'psdr/sample/sobol.py'), ('initial_sample, low_rank_L, stretch_sample', 'psdr/sample/initial.py, util.py, stretch.py')],
	at = ['psdr.latin_hypercube_sample', 'psdr.latin_hypercube_maximin', 'psdr.maximin_block', 'psdr.maximin_design_1d', 'psdr.maximin_coffeehouse', 'psdr.poisson_disk_sample', 'psdr.sobol_sequence', 'psdr.initial_sample', 'psdr.stretch_sample'], note = NOTE + 'Random designs are judged statistically with false alarm probabilities below 1e-6.')

P(id = 'C27', title = 'Covering designs stay inside, cover, and never get worse than their start',
	statement = '''minimax_cluster, minimax_cluster_pso, minimax_lloyd and minimax_scale return designs of the domain of the size asked for whose covering radius is no worse than that of the start, scores and single centers are right; minimax_design_1d puts points at the midpoints of N equal intervals; minimax_covering and minimax_optimal_cover
	cover with radius r, minimax_covering_discrete with the fewest points possible. Arguments (points, metrics, options) are not modified.''',
	quant = 'every box, polytope, product and equality constrained domain, number of points, metric (rank deficient ones included), start, radius and random state', tests = 'Tests build one design each on a square and compare with random points or nothing',
	files = ['psdr/sample/minimax.py', 'psdr/sample/minimax_lloyd.py', 'psdr/sample/minimax_scale.py'],
	mech = [('minimax_cluster, minimax_cluster_pso, _cq_center_cvxpy, minimax_optimal_cover, minimax_covering(_discrete), minimax_design_1d', 'psdr/sample/minimax.py'), ('minimax_lloyd', 'psdr/sample/minimax_lloyd.py'), ('minimax_scale', 'psdr/sample/minimax_scale.py')],
	at = ['psdr.minimax_cluster', 'psdr.minimax_cluster_pso', 'psdr.minimax_lloyd', 'psdr.minimax_scale', 'psdr.minimax_design', 'psdr.minimax_design_1d', 'psdr.minimax_covering', 'psdr.minimax_covering_discrete', 'psdr.minimax_optimal_cover'], note = NOTE + 'No claim that covering radii are optimal, except where stated.')

P(id = 'C28', title = 'Multi-metric designs fill every cell once; samplers keep true histories',
	statement = '''projection_sample and projection_design return points of the domain such that in each metric every Voronoi cell of the targets holds exactly one, each point as close to its targets as its cells allow; more iterations never lower the score, small problems give the best assignment, None means there is none. seq_maximin_sample returns a point of the
	domain far from the given ones in the metrics. Samplers append the number of draws asked for, evaluate each sample once, and keep samples and values aligned and private over any history of draws.''',
	quant = 'every box, polytope and product domain, list of metrics, targets, number of points and iterations, random state, and history of draws', over = ['inputs', 'histories'], tests = 'Tests check that one projection design lies in the domain; the sequential sampler test is disabled',
	files = ['psdr/sample/projection.py', 'psdr/sample/seqmaximin.py', 'psdr/sample/sample.py', 'psdr/sample/random_sample.py'],
	mech = [('projection_sample, projection_design', 'psdr/sample/projection.py'), ('seq_maximin_sample', 'psdr/sample/seqmaximin.py'), ('Sampler, SequentialMaximinSampler', 'psdr/sample/sample.py')],
	at = ['psdr.projection_sample', 'psdr.projection_design', 'psdr.seq_maximin_sample', 'psdr.SequentialMaximinSampler', 'psdr.random_sample'], note = NOTE + 'Cells thinner than the solver tolerance and points on their boundary are not judged.')

P(id = 'C29', title = 'Results depend only on the values of the arguments and the random state',
	statement = '''Throughout the public interface a call repeated with equal arguments and numpy random state gives the same result (to the accuracy of its solver) whatever ran before and even if other data were in the same arrays; arguments are not modified, may be read only, strided, transposed, integers, or (where array-like) lists;
	fitted objects do not change when the arrays they were made from do, equal fresh ones when fitted again, survive copying and pickling; verbose output changes nothing. Hit-and-run chains of a used domain may go on.''',
	quant = 'every operation of the interface, argument values, array layout, history of other calls and of fits', over = ['inputs', 'histories'], tests = 'Tests call each operation once with fresh C-ordered arrays and never look at the arguments again',
	files = ['psdr/basis.py', 'psdr/poly.py', 'psdr/subspace.py', 'psdr/gp.py', 'psdr/local_linear.py', 'psdr/lipschitz.py', 'psdr/gn.py', 'psdr/domains/euclidean.py', 'psdr/domains/linquad.py', 'psdr/sample/*.py'],
	mech = [('constructors and fit methods keep copies', 'psdr/*.py'), ('caches (lru_cache, cached_property) keyed by value or object', 'psdr/domains/euclidean.py, psdr/local_linear.py')],
	at = ['the public interface of psdr: domains, bases, fit/eval, designs, optimisers'], note = NOTE + 'Metamorphic: the values themselves are the subject of the other properties.')


P(id = 'C30', title = 'Exported plot data are exactly what the plots show',
	statement = '''A PGF table keeps its own copy of every column, rejects columns of another length, and writes, in order, exactly the values it holds (to the last bit), so that reading the file (or one written elsewhere) gives the same table. save_contour exports every piece of every level of a contour plot once, with its level, following the plotted curve to the given tolerance.
	Shadow plots draw and export the samples projected onto the first directions of the subspace in use with their values, for lists and arrays, with a given, new or no axis; those of ridge functions add the response over exactly the range of the samples in a file name_response.ext. Envelopes, uncertainty intervals and coordinate scores draw and export the values they return; envelopes enclose all samples, up to the tolerance of their solver, with the smallest sum. No other files are written.''',
	quant = 'every table of finite and non-finite numbers, contour set, subspace, sample set, axis and file name', over = ['inputs'], tests = 'Tests draw one plot of each kind and do not look at the files',
	files = ['psdr/pgf.py', 'psdr/subspace.py', 'psdr/ridge.py', 'psdr/polyridge.py'],
	mech = [('PGF.add/write/read, save_contour', 'psdr/pgf.py'), ('shadow_plot', 'psdr/subspace.py, psdr/ridge.py')],
	at = ['psdr.pgf.PGF, psdr.pgf.save_contour', 'SubspaceBasedDimensionReduction.shadow_plot', 'RidgeFunction.shadow_plot'], note = NOTE + 'Contours are compared with the segments matplotlib reports.')

P(id = 'C31', title = 'Nonlinearity is the least slope left; projections satisfy every constraint',
	statement = '''measure_nonlinearity returns the least achievable ratio of the largest slope between samples after and before removing a linear function, and a linear function attaining it: zero for affine and constant samples, at most one, independent of units, order, shifts and repeated samples, and consistent when a linear function is added.
	The distances to evaluation and gradient constraints are the exact quotients and smallest eigenvalues, also for singular matrices, zero, repeated and aligned gradients; project_evals and project_grads terminate with a symmetric matrix above the given one that satisfies every constraint, change nothing if all hold, take the nearest matrix for a single constraint, and keep their arguments.''',
	quant = 'every sample set with finite slopes, positive semidefinite matrix, set of gradients', over = ['inputs'], tests = 'Tests evaluate one random matrix of full rank and one function',
	files = ['psdr/nonlin.py', 'psdr/lipschitz_utils.py'],
	mech = [('linear program of the slopes', 'psdr/nonlin.py'), ('secular equation and its fallback', 'psdr/lipschitz_utils.py:dist_grad_constraints_slow'), ('sequential projections', 'psdr/lipschitz_utils.py:project_evals, project_grads')],
	at = ['psdr.measure_nonlinearity', 'psdr.lipschitz_utils.dist_eval_constraints, dist_grad_constraints, project_evals, project_grads'], note = NOTE + 'The reference linear program is solved by HiGHS.')

P(id = 'C32', title = 'External simulations get exactly the inputs asked for and leave no trace',
	statement = '''OpenAeroStruct, NACA0012 and MULTIF run the named image once per evaluation (once per batch where vectorized) in a directory of its own mounted at /workdir, holding the inputs in application units to full precision, with the options of the call (version, level, bumps, iterations, processes, cores, adjoint only when gradients are asked for) and an otherwise unchanged configuration,
	and return exactly the outputs (gradients with respect to the normalized inputs) with shapes following the inputs. The directory is removed unless keep_data is set, when it keeps all results and the complete log; directories that exist are neither used nor changed; a run without output raises an error; verbose changes only what is printed.''',
	quant = 'every input, batch size, option, working directory, amount and timing of output, failure of the simulation', over = ['inputs', 'faults'], tests = 'Tests need docker images that are not available and fail; no test looks at files, options or failures',
	files = ['psdr/demos/oas.py', 'psdr/demos/naca0012.py', 'psdr/demos/multif.py', 'psdr/function.py'],
	mech = [('working directory, input file, command line, log and clean up', 'psdr/demos/oas.py:oas_func, psdr/demos/naca0012.py:naca0012_func, psdr/demos/multif.py:multif')],
	at = ['psdr.demos.OpenAeroStruct, NACA0012, MULTIF and the functions they wrap; the docker command line'], note = NOTE + 'The images themselves are replaced by a stand-in that follows the drivers in psdr/demos.')
