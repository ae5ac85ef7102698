"""covering (minimax) designs"""
import itertools
import numpy as np, scipy.optimize as so
import psdr
from ..core import Skip
from .c25 import vertices, dmin
from .c26 import domain, inside, extent, metric

RULE = ('A case draws a domain (box, polytope, product, equality constrained; dimension 1-3, shifted and scaled), a metric (identity, square, wide, one row) and a number of points, and builds a covering design by clustering, particles, Lloyd iteration, scaling, set covering (whole or given sets) or along one direction; '
	'the monitor computes covering radii by brute force (Voronoi vertices, dense samples), optimal clusters by an independent optimiser and minimal set covers by enumeration. Distinct: different domain, metric, points and random state.')
ASSUME = ['covering radii without a full Voronoi diagram are taken over random samples of the domain']


def radius(P, X, L): return dmin(P, X, L).max()


def qcost(Y, y, q): return np.sum(np.sum((Y - y)**2, axis = 1)**(q/2))**(1/q)


def s_cluster(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'prod'))
	kind, L = metric(rng, m); N = int(rng.choice([1, 2, 3, 6])); LL = np.eye(m) if L is None else L
	nl = np.linalg.norm(LL, 2)*np.max(w)
	if not 1e-2 < nl < 1e2 and L is not None: L = LL = L/nl; nl = np.linalg.norm(LL, 2)*np.max(w)
	mode = str(rng.choice(['default', 'X', 'Xhat'])); kw = {'verbose': False, 'N0': int(rng.choice([100, 250]))}
	np.random.seed(rng.randint(2**31)); X = Xh = None
	if mode != 'default': X = kw['X'] = np.array(d.sample(int(rng.choice([max(N, 20), 150])))).reshape(-1, m)
	if mode == 'Xhat': Xh = kw['Xhat'] = np.array(d.sample(N)).reshape(N, m)
	if rng.rand() < .3: kw['maxiter'] = int(rng.choice([1, 2, 5]))
	opts = kw['solver_opts'] = {}
	ctx.info(m = m, domain = k, metric = kind, N = N, mode = mode, maxiter = kw.get('maxiter')); ctx.mix(A, b, LL, np.zeros(1) if X is None else X)
	B = [None if a is None else a.copy() for a in (L, X, Xh)]
	Z = np.asarray(psdr.minimax_cluster(d, N, L = L, **kw))
	ctx.ok(opts == {} and all(a is None or np.array_equal(a, c) for a, c in zip((L, X, Xh), B)), 'inputs-kept')
	if not ctx.ok(Z.shape == (N, m) and np.all(np.isfinite(Z)), 'shape', got = Z): return
	ctx.ok(inside(Z, A, b, Ae, be, w, 1e-4), 'inside', got = Z)
	P = X if X is not None else np.asarray(psdr.sobol_sequence(d, kw['N0'])); S = Xh
	if S is None and X is None: S = P[:N]
	r = radius(P, Z, LL)
	if S is not None: ctx.ok(r <= radius(P, S, LL) + 1e-5*nl, 'no-worse-than-start', got = r, expected = radius(P, S, LL))
	if N == 1 and kw.get('maxiter', 9) > 1:
		# the center of all points in the 10-norm of distances, within a factor of the optimal radius
		Y = P.dot(LL.T); q = qcost(Y, LL.dot(Z[0]), 10)
		R = so.minimize(lambda y: qcost(Y, y, 10)/nl, Y.mean(axis = 0), method = 'Nelder-Mead', options = {'xatol': 1e-9*nl, 'fatol': 1e-10, 'maxiter': 4000})
		s = radius(P, S, LL) if S is not None else np.inf
		# (the start is returned when it is better in the largest distance)
		ctx.ok(q <= R.fun*nl*(1 + 1e-3) or r <= max(np.linalg.norm(Y - R.x, axis = 1))*(1 + 1e-6), 'center', got = q/nl, expected = R.fun)
		ctx.ok(r <= max(np.linalg.norm(Y - R.x, axis = 1))*1.02 + 1e-6*nl, 'center-radius', got = r)
	elif 'maxiter' not in kw and N > 1:
		# a fixed point of the clustering, or its best iterate: one more step from there cannot be found much better
		Z2 = np.asarray(psdr.minimax_cluster(d, N, L = L, X = P, Xhat = Z, verbose = False)); r2 = radius(P, Z2, LL)
		ctx.ok(r2 >= .7*r, 'repeat', 'clustering again from the result decreased the radius from %g to %g' % (r, r2))
		if kind in ('none', 'square'): ctx.ok(r <= 1.6*greedy(P, N, LL), 'quality', got = r, expected = greedy(P, N, LL))


def greedy(P, N, L):
	"""radius of the farthest point heuristic, within twice the optimal radius"""
	X = P[:1]
	for i in range(N - 1): X = np.vstack([X, P[np.argmax(dmin(P, X, L))]])
	return dmin(P, X, L).max()


def s_particles(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'lin', 'prod'))
	kind, L = metric(rng, m, ('none', 'square')); N = int(rng.choice([1, 2, 4])); LL = np.eye(m) if L is None else L; nl = np.linalg.norm(LL, 2)*np.max(w)
	if not 1e-2 < nl < 1e2 and L is not None: L = LL = L/nl; nl = np.linalg.norm(LL, 2)*np.max(w)
	np.random.seed(rng.randint(2**31)); X = np.array(d.sample(60)).reshape(60, m); it = int(rng.choice([1, 3]))
	B = X.copy(); ctx.info(m = m, domain = k, metric = kind, N = N, maxiter = it); ctx.mix(A, b, X)
	Z, s = psdr.minimax_cluster_pso(d, N, L = L, X = X, maxiter = it, n_particles = 3, verbose = False, a4 = float(rng.choice([0, 0, 1])))
	if not ctx.ok(Z.shape == (N, m), 'shape'): return
	ctx.ok(np.array_equal(B, X), 'inputs-kept')
	ctx.ok(inside(Z, A, b, Ae, be, w, 1e-4), 'inside', got = Z)
	ctx.ok(abs(s - radius(X, Z, LL)) <= 1e-9*nl, 'score', got = s, expected = radius(X, Z, LL))
	ctx.ok(s <= np.median([radius(X, np.array(d.sample(N)).reshape(N, m), LL) for i in range(15)]), 'better-than-random')
	if it == 3 and N > 1: ctx.ok(s <= 1.5*greedy(X, N, LL), 'quality', got = s, expected = greedy(X, N, LL))


def s_center(ctx):
	"""the center of a cluster minimises the q-norm of distances"""
	rng = ctx.rng
	try: from psdr.sample.minimax import _cq_center_cvxpy as center
	except ImportError: raise Skip('no access to the center of a cluster')
	m = int(rng.randint(1, 5)); kind, L = metric(rng, m, ('square', 'wide', 'none')); L = np.eye(m) if L is None else L/np.linalg.norm(L, 2)
	n = int(rng.randint(1, 12)); q = float(rng.choice([2, 4, 10])); X = rng.randn(n, m)*rng.uniform(.1, 10); Y = X.dot(L.T); con = bool(rng.rand() < .4)
	lb, ub = X.min(axis = 0) - .1, X.min(axis = 0) + rng.uniform(.2, .6)*np.ptp(X) + .01; d = psdr.BoxDomain(lb, ub) if con else None
	ctx.info(m = m, n = n, q = q, metric = kind, constrained = con); ctx.mix(L, X); s = np.max(np.abs(Y)) + 1e-3
	x = np.asarray(center(Y, L, q = q, xhat = X[0] if rng.rand() < .5 else None, domain = d))
	if not ctx.ok(x.shape == (m,) and np.all(np.isfinite(x)), 'shape'): return
	f = lambda z: qcost(Y, L.dot(z), q)/s
	if con:
		ctx.ok(np.all(x >= lb - 1e-4*s) and np.all(x <= ub + 1e-4*s), 'inside')
		R = min((so.minimize(f, z0, method = 'L-BFGS-B', bounds = list(zip(lb, ub))) for z0 in (np.clip(X.mean(axis = 0), lb, ub), np.clip(x, lb, ub), .5*(lb + ub))), key = lambda r: r.fun)
	else: R = min((so.minimize(f, z0, method = 'BFGS') for z0 in (X.mean(axis = 0), x)), key = lambda r: r.fun)
	ctx.ok(f(x) <= R.fun*(1 + 1e-4) + 1e-4, 'optimal', got = f(x), expected = R.fun)


def s_lloyd(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'prod', 'eq'))
	kind, L = metric(rng, m, ('none', 'none', 'square', 'one') if m < 3 else ('none', 'square', 'one')); M = int(rng.choice([1, 2, 4]))
	LL = np.eye(m) if L is None else L
	if kind == 'square' and np.linalg.cond(LL) > 20: raise Skip('metric')
	nl = np.linalg.norm(LL, 2)*np.max(w)
	if not 1e-2 < nl < 1e2 and L is not None: L = LL = L/nl; nl = np.linalg.norm(LL, 2)*np.max(w)
	start = bool(rng.rand() < .7); np.random.seed(rng.randint(2**31)); full = [None, True, False][rng.randint(3)] if m < 3 else rng.choice([None, True]); it = int(rng.choice([1, 4]))
	X0 = np.array(d.sample(M)).reshape(M, m) if start else None; B = None if X0 is None else X0.copy()
	ctx.info(m = m, domain = k, metric = kind, M = M, start = start, full = str(full), maxiter = it); ctx.mix(A, b, LL)
	X = np.asarray(psdr.minimax_lloyd(d, M, L = L, maxiter = it, Xhat = X0, verbose = bool(rng.rand() < .2), full = full if full is None else bool(full)))
	if B is not None: ctx.ok(np.array_equal(X0, B), 'inputs-kept')
	if not ctx.ok(X.shape == (M, m) and np.all(np.isfinite(X)), 'shape'): return
	ctx.ok(inside(X, A, b, Ae, be, w, 1e-5), 'inside', got = X)
	if kind == 'one' or m == 1: equi(ctx, X, np.ones(1) if L is None else LL[0], A, b, Ae, be, w, M); return
	def fill(Z):
		R = vertices(A, b, Ae, be, Z, L)
		if len(R) == 0: raise Skip('reference')
		return radius(R, Z, LL)
	r = fill(X)
	exact = full is True or (full is None and m < 3) # full Voronoi diagrams in every step
	if B is not None and exact: ctx.ok(r <= fill(B) + 1e-4*nl, 'no-worse-than-start', got = r, expected = fill(B))
	if M == 1 and exact:
		V = vertices(A, b, Ae, be, X, L); Y = V.dot(LL.T)
		R = so.minimize(lambda v: v[-1], np.r_[V.mean(axis = 0), nl*4], constraints = [{'type': 'ineq', 'fun': lambda v: v[-1] - np.linalg.norm(Y - LL.dot(v[:-1]), axis = 1)}, {'type': 'ineq', 'fun': lambda v: (b - A.dot(v[:-1]))}] + ([{'type': 'eq', 'fun': lambda v: Ae.dot(v[:-1]) - be}] if len(Ae) else []), method = 'SLSQP', options = {'maxiter': 500, 'ftol': 1e-10})
		if R.success: ctx.ok(r <= R.fun + 1e-3*nl, 'one-center', got = r, expected = R.fun)
	if not start and exact: ctx.ok(r <= np.median([fill(np.array(d.sample(M)).reshape(M, m)) for i in range(5)]) + 1e-6*nl, 'better-than-random')
	if exact and it == 4 and kind == 'none' and M > 1:
		# the points are centers: radius of each cell cannot be decreased much by moving its point, for the best of points
		X2 = np.asarray(psdr.minimax_lloyd(d, M, L = L, maxiter = 1, Xhat = X, verbose = False, full = True)); ctx.ok(fill(X2) <= r + 1e-4*nl, 'monotone', got = fill(X2), expected = r)


def equi(ctx, X, a, A, b, Ae, be, w, N):
	lo, hi = extent(a, A, b, Ae, be); y = np.sort(X.dot(a)); h = (hi - lo)/N
	ctx.ok(np.max(np.abs(y - (lo + h*(.5 + np.arange(N))))) <= 1e-5*(hi - lo) + 1e-6*np.linalg.norm(a)*np.max(w), 'midpoints', got = y, expected = (lo, hi))


def s_line(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m); N = int(rng.choice([1, 2, 5, 30]))
	L = rng.randn(1, m)*10.**rng.uniform(-3, 3); none = m == 1 and rng.rand() < .5; f = psdr.minimax_design_1d if rng.rand() < .5 else psdr.sample.minimax_design if hasattr(psdr.sample, 'minimax_design') else psdr.minimax_design
	ctx.info(m = m, domain = k, N = N, none = none); ctx.mix(A, b, L)
	X = np.asarray(f(d, N, L = None if none else (L.ravel() if rng.rand() < .3 else L)))
	if not ctx.ok(X.shape == (N, m), 'shape', got = X.shape): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside'); equi(ctx, X, np.ones(1) if none else L[0], A, b, Ae, be, w, N)


def s_scale(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'prod'))
	kind, L = metric(rng, m, ('none', 'square')); LL = np.eye(m) if L is None else L; M = int(rng.choice([1, 2, 5])); nl = np.linalg.norm(LL, 2)*np.max(w)
	if np.linalg.cond(LL) > 50: raise Skip('metric')
	np.random.seed(rng.randint(2**31)); C = np.array(d.sample(400)).reshape(400, m)
	X = C[:M].copy()
	if rng.rand() < .5: X = np.asarray(psdr.maximin_block(d, M, L = L, maxiter = 20))
	full = [None, True][rng.randint(2)] if m > 1 else None
	ctx.info(m = m, domain = k, metric = kind, M = M, full = full); ctx.mix(A, b, LL, X); B = X.copy()
	if m > 1 and rng.rand() < .3: full = False
	Z = np.asarray(psdr.minimax_scale(d, X, L = L, full = full, npoints = int(rng.choice([2, 8])), verbose = bool(rng.rand() < .2), X0 = C if full is False else None))
	ctx.ok(np.array_equal(B, X), 'inputs-kept')
	if not ctx.ok(Z.shape == X.shape and np.all(np.isfinite(Z)), 'shape'): return
	ctx.ok(inside(Z, A, b, Ae, be, w, 1e-5), 'inside', got = Z)
	def fill(Q):
		R = vertices(A, b, Ae, be, Q, L)
		if len(R) == 0: raise Skip('reference')
		return radius(R, Q, LL)
	# Z = c + alpha (X - c) with one factor
	if M > 1:
		D, E = X[1:] - X[0], Z[1:] - Z[0]; a = np.sum(D*E)/max(np.sum(D*D), 1e-300); ctx.ok(np.max(np.abs(E - a*D)) <= 1e-9*np.max(w) + 1e-12*np.max(np.abs(X)), 'scaling'); ctx.ok(-1e-9 <= a <= 1 + 1e-9, 'factor', got = a)
	if full is not False: ctx.ok(fill(Z) <= fill(X) + 1e-6*nl, 'no-worse-than-original', got = fill(Z), expected = fill(X))
	if full is not False and M > 1 and a < .999:
		c = (Z[0] - a*X[0])/(1 - a); best = min(fill(c + t*(X - c)) for t in np.linspace(.5, 1, 6)); ctx.ok(fill(Z) <= best + 2e-2*nl, 'best-scale', got = fill(Z), expected = best)


def mincover(C):
	"""size of the smallest set of columns covering all rows"""
	n = len(C); masks = [sum(1 << int(i) for i in np.flatnonzero(C[:, j])) for j in range(n)]; allm = (1 << n) - 1
	for k in range(1, n + 1):
		for S in itertools.combinations(range(n), k):
			u = 0
			for j in S: u |= masks[j]
			if u == allm: return k


def s_covering_set(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 4)); n = int(rng.choice([1, 2, 5, 9, 13])); X = rng.randn(n, m)*10.**rng.uniform(-3, 3)
	if n > 3 and rng.rand() < .3: X[1] = X[0]
	kind, L = metric(rng, m); LL = np.eye(m) if L is None else L; Y = X.dot(LL.T); D = np.linalg.norm(Y[:, None] - Y[None], axis = 2)
	r = float(rng.choice([.01, .3, .5, .8, 2]))*(D.max() if D.max() > 0 else 1.)
	ctx.info(m = m, n = n, metric = kind, r = r); ctx.mix(X, LL); B = X.copy()
	if np.any(np.abs(D - r) < 1e-9*r): raise Skip('tie')
	I = np.asarray(psdr.minimax_covering_discrete(X.tolist() if rng.rand() < .2 else X, r, L = L))
	ctx.ok(np.array_equal(B, X), 'inputs-kept')
	if not ctx.ok(I.shape == (n,) and I.dtype == bool, 'shape'): return
	ctx.ok(I.any() and np.all(D[:, I].min(axis = 1) < r), 'covers')
	ctx.ok(I.sum() == mincover(D < r), 'smallest', got = int(I.sum()), expected = mincover(D < r))


def s_covering(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'prod'))
	kind, L = metric(rng, m, ('none', 'square')); LL = np.eye(m) if L is None else L
	if np.linalg.cond(LL) > 5: raise Skip('metric')
	e = np.array([extent(a, A, b, Ae, be) for a in LL]); size = np.max(e[:, 1] - e[:, 0]); r = size*float(rng.choice({1: [.1, .5, 2.], 2: [.7, 1., 2.5]}[m]))
	ctx.info(m = m, domain = k, metric = kind, r = r/size); ctx.mix(A, b, LL, r); np.random.seed(rng.randint(2**31))
	X = np.asarray(psdr.minimax_covering(d, r, L = L))
	if not ctx.ok(X.ndim == 2 and X.shape[1] == m and len(X), 'shape'): return
	ctx.ok(inside(X, A, b, Ae, be, w, 1e-5), 'inside')
	P = np.array(d.sample(1000)).reshape(-1, m); ctx.ok(radius(P, X, LL) <= r*(1 + 1e-9), 'covers', got = radius(P, X, LL), expected = r)
	# not wasteful: centers of a cover of the disk samples with r/2, whose number is at most that of a packing with r/2
	Q = P[:1]
	for p in P:
		if dmin(p[None], Q, LL)[0] > r/4: Q = np.vstack([Q, p])
	ctx.ok(len(X) <= len(Q) + 2, 'not-wasteful', got = len(X), expected = len(Q))


def s_optimal(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin'))
	kind, L = metric(rng, m, ('none', 'square')); LL = np.eye(m) if L is None else L
	if np.linalg.cond(LL) > 5: raise Skip('metric')
	nl = np.linalg.norm(LL, 2)*np.max(w)
	if not 1e-2 < nl < 1e2 and L is not None: L = LL = L/nl; nl = np.linalg.norm(LL, 2)*np.max(w)
	e = np.array([extent(a, A, b, Ae, be) for a in LL]); size = np.max(e[:, 1] - e[:, 0]); r = size*float(rng.choice({1: [.2, .4, 3.], 2: [.6, .8, 3.]}[m]))
	P = np.asarray(psdr.sobol_sequence(d, 60)); ctx.info(m = m, domain = k, metric = kind, r = r/size); ctx.mix(A, b, LL, r); np.random.seed(rng.randint(2**31))
	X = np.asarray(psdr.minimax_optimal_cover(d, r, L = L, X = P, maxiter = 8))
	if not ctx.ok(X.ndim == 2 and X.shape[1] == m and len(X), 'shape'): return
	ctx.ok(inside(X, A, b, Ae, be, w, 1e-4), 'inside'); ctx.ok(radius(P, X, LL) <= r*(1 + 1e-9), 'covers', got = radius(P, X, LL), expected = r)
	if r >= 3*size: ctx.ok(len(X) <= max(1, np.floor(np.prod(ub - lb)*abs(np.linalg.det(LL))/(r**m*{1: 2, 2: np.pi}[m])*1.2)), 'one-suffices', got = len(X))
	if len(X) > 1:
		# one point fewer does not suffice for the same method
		Z = np.asarray(psdr.minimax_cluster(d, len(X) - 1, L = L, X = P, verbose = False, maxiter = 8)); ctx.ok(radius(P, Z, LL) >= r*(1 - 1e-6) or len(X) <= 2, 'minimal', got = radius(P, Z, LL), expected = r)


SCENARIOS = [
	{'name': 'cluster', 'func': s_cluster, 'n': (150, 2000), 'timeout': 120},
	{'name': 'particles', 'func': s_particles, 'n': (40, 500), 'timeout': 120},
	{'name': 'center', 'func': s_center, 'n': (200, 2500), 'timeout': 60},
	{'name': 'lloyd', 'func': s_lloyd, 'n': (120, 1500), 'timeout': 120},
	{'name': 'line', 'func': s_line, 'n': (200, 2500), 'timeout': 60},
	{'name': 'scale', 'func': s_scale, 'n': (150, 2000), 'timeout': 60},
	{'name': 'covering_set', 'func': s_covering_set, 'n': (250, 3000), 'timeout': 60},
	{'name': 'covering', 'func': s_covering, 'n': (80, 800), 'timeout': 120},
	{'name': 'optimal', 'func': s_optimal, 'n': (40, 300), 'timeout': 120},
]
