"""uncertainty intervals of Lipschitz functions"""
import numpy as np, os, tempfile, shutil
import psdr
from psdr import LipschitzMatrix, LipschitzConstant, DiagonalLipschitzMatrix
from psdr.lipschitz import LowerBound, UpperBound
from ..core import Skip

RULE = ('A case draws a Lipschitz matrix (full, rank deficient, diagonal, constant, given or fitted), samples of a compatible function, epsilon and test points or a domain (interval, box, polytope, plane section) and asks for the uncertainty; '
	'the monitor evaluates the interval by its definition at every point, checks that the values of the function that produced the data are inside, compares the range on a domain with a dense scan of it, and reads back the written shadow plots. Distinct: different matrix, data and points.')
ASSUME = ['the range over a domain comes from a multistart search: it must be attained (never exceed the true range) and reach the dense scan to 10% in one and two dimensions']


def setup(rng, m = None, many = False):
	m = int(rng.randint(1, 6)) if m is None else m
	kind = str(rng.choice(['full', 'deficient', 'diag', 'constant', 'fitted', 'diagfit', 'constfit']))
	N = int(rng.choice([1, 2, 5, 15] if rng.rand() < .9 or not many else [130, 257, 600]))
	a = rng.randn(m)
	c = rng.randn(m)
	f = lambda X: np.sin(X.dot(a)) + X.dot(c)
	g = lambda X: np.cos(X.dot(a))[:, None]*a + c
	X = rng.uniform(-1, 1, size = (N, m))
	eps = float(rng.choice([0, .1, 1.])) if rng.rand() < .3 else None
	ke = {} if eps is None else {'epsilon': eps}
	if kind in ('full', 'deficient'):
		L = rng.randn(m, m)
		if kind == 'deficient': L[0] = 0
		if eps is None and rng.rand() < .3: L = L[:max(1, m - 1)]
		lip = LipschitzMatrix(L = L, **ke)
		# a function of this class
		w = rng.randn(len(L)); w /= max(np.linalg.norm(w), 1e-300)
		f = lambda X: np.sin(X.dot(L.T).dot(w)) if m > 0 else None
	elif kind == 'diag':
		d = rng.uniform(0, 2, m); lip = DiagonalLipschitzMatrix(L = np.diag(d), **ke); L = np.diag(d); f = lambda X: np.sin(X.dot(L)[:, 0])
	elif kind == 'constant':
		k = float(rng.uniform(.1, 3)); lip = LipschitzConstant(L = k, **ke); L = k*np.eye(m); w = a/np.linalg.norm(a); f = lambda X: k*np.abs(X.dot(w))
	else:
		cls = {'fitted': LipschitzMatrix, 'diagfit': DiagonalLipschitzMatrix, 'constfit': LipschitzConstant}[kind]
		lip = cls(**ke)
		# gradients of an affine function determine its class exactly
		f = lambda X: X.dot(c)
		lip.fit(grads = np.tile(c, (2, 1)))
		L = np.asarray(lip.L)
	return m, kind, lip, L, f, X, eps


def interval(L, X, fX, T, eps):
	lb, ub = np.full(len(T), -np.inf), np.full(len(T), np.inf)
	for i, t in enumerate(T):
		for x, y in zip(X, fX):
			d = np.linalg.norm(L.dot(t - x)); lb[i] = max(lb[i], y - d); ub[i] = min(ub[i], y + d)
	return lb - (eps or 0), ub + (eps or 0)


def s_points(ctx):
	rng = ctx.rng
	m, kind, lip, L, f, X, eps = setup(rng, many = True)
	fX = f(X)
	noisy = rng.rand() < .2
	if noisy: fX = fX + rng.randn(len(X))
	T = np.vstack([rng.uniform(-2, 2, size = (int(rng.choice([1, 7]) if rng.rand() < .95 else 300), m)), X[:2]])
	if len(X) > 100: T = np.vstack([X[-2:], X[rng.randint(len(X), size = 2)], T])
	ctx.info(m = m, kind = kind, N = len(X), epsilon = eps, noisy = noisy); ctx.mix(X, fX, T, L)
	X0, f0, T0 = X.copy(), fX.copy(), T.copy()
	args = (X, fX, T)
	u = rng.rand()
	if u < .2: args = (X.tolist(), fX.tolist(), T.tolist())
	elif u < .4: args = (X, fX.reshape(-1, 1), T)
	if kind == 'constant' and rng.rand() < .3: lip.uncertainty(np.zeros((2, m + 1)), np.zeros(2), np.zeros((1, m + 1)))
	lb, ub = lip.uncertainty(*args)
	wl, wu = interval(L, X, fX, T, eps)
	s = 1 + np.max(np.abs(fX))
	ctx.ok(np.shape(lb) == (len(T),) and np.shape(ub) == (len(T),), 'shape')
	ctx.ok(np.allclose(lb, wl, rtol = 1e-10, atol = 1e-10*s) and np.allclose(ub, wu, rtol = 1e-10, atol = 1e-10*s), 'interval', got = (lb, ub), expected = (wl, wu))
	l1, u1 = lip.uncertainty(X, fX, T[0]); ctx.ok(abs(np.ravel(l1)[0] - wl[0]) < 1e-9*s and abs(np.ravel(u1)[0] - wu[0]) < 1e-9*s, 'single-point')
	if not noisy:
		v = f(T); ctx.ok(np.all(lb <= v + 1e-5*s) and np.all(v <= ub + 1e-5*s), 'contains-function', 'a function of the class leaves the interval')
		if eps is None: ctx.ok(np.allclose(lb[-len(X[:2]):], fX[:2], atol = 2e-4*s) and np.allclose(ub[-len(X[:2]):], fX[:2], atol = 2e-4*s), 'exact-at-samples')
	ctx.ok(np.array_equal(X, X0) and np.array_equal(fX, f0) and np.array_equal(T, T0), 'inputs-kept')
	# the bound functions and their gradients
	for B, sgn in ((LowerBound, -1), (UpperBound, 1)):
		b = B(L, X, fX); x = T[0]
		val = np.asarray(b(x)); want = fX - np.linalg.norm((x - X).dot(L.T), axis = 1) if sgn < 0 else -(fX + np.linalg.norm((x - X).dot(L.T), axis = 1))
		ctx.ok(np.allclose(val.ravel(), want, atol = 1e-10*s), 'bound-values')
		G = np.asarray(b.grad(x)); D = np.zeros_like(G)
		for k in range(m):
			e = np.zeros(m); e[k] = 1e-6; D[:, k] = (np.asarray(b(x + e)).ravel() - np.asarray(b(x - e)).ravel())/2e-6
		near = np.linalg.norm((x - X).dot(L.T), axis = 1) > 1e-3
		ctx.ok(np.allclose(G[near], D[near], atol = 1e-4*(1 + np.max(np.abs(L)))), 'bound-gradients', got = G, expected = D)


def dom_of(rng, m):
	lb, ub = -rng.uniform(.3, 1.5, m), rng.uniform(.3, 1.5, m)
	k = str(rng.choice(['box', 'lin', 'eq'] if m == 2 else ['box']))
	if k == 'box':
		d = psdr.BoxDomain(lb, ub); inside = lambda P: P
	elif k == 'lin':
		A = rng.randn(1, m); b = [.2]; d = psdr.LinIneqDomain(A = A, b = b, lb = lb, ub = ub); inside = lambda P: P[P.dot(A[0]) <= .2]
	else:
		A = rng.randn(m); A /= np.linalg.norm(A); b = 0.; d = psdr.BoxDomain(lb, ub).add_constraints(A_eq = [A], b_eq = [b])
		T = np.array([-A[1], A[0]])
		def inside(P):
			Q = np.linspace(-3, 3, 20001)[:, None]*T; return Q[np.all((Q >= lb) & (Q <= ub), axis = 1)]
	if m == 1: P = np.linspace(lb[0], ub[0], 4001)[:, None]
	else: P = np.stack(np.meshgrid(*[np.linspace(l, u, 201) for l, u in zip(lb, ub)]), axis = -1).reshape(-1, m)
	return k, d, inside(P)


def scan(L, X, fX, P, eps):
	D = np.stack([np.linalg.norm((P - x).dot(L.T), axis = 1) for x in X])
	lo = (fX[:, None] - D).max(axis = 0); hi = (fX[:, None] + D).min(axis = 0)
	return lo.min() - (eps or 0), hi.max() + (eps or 0)


def s_domain(ctx):
	rng = ctx.rng
	m, kind, lip, L, f, X, eps = setup(rng, int(rng.choice([1, 2, 2])))
	X = X[:8]
	fX = f(X); dk, dom, P = dom_of(rng, m)
	n = int(rng.choice([20, 40]))
	ctx.info(m = m, kind = kind, N = len(X), epsilon = eps, domain = dk); ctx.mix(X, fX, L)
	np.random.seed(rng.randint(2**31))
	args = (X.tolist(), fX.tolist()) if rng.rand() < .3 else (X, fX.reshape(-1, 1))
	lb, ub = lip.uncertainty_domain(*args, dom, Nsamp = n)
	lo, hi = scan(L, X, fX, P, eps)
	r = np.max(np.linalg.norm((P[:, None] - X[None][:, :3]).dot(L.T), axis = 2)) if len(P) < 5000 else np.linalg.norm(L)*3
	tol = .02*r*(1. if m == 1 else 1.) + 1e-5*(1 + np.max(np.abs(fX)))
	ctx.ok(np.isfinite(lb) and np.isfinite(ub) and lb <= ub, 'finite', got = (lb, ub))
	ctx.ok(lb >= lo - tol and ub <= hi + tol, 'attained', 'range [%g, %g] exceeds the true range [%g, %g]' % (lb, ub, lo, hi))
	ctx.ok(lb <= lo + .08*r + tol and ub >= hi - .08*r - tol, 'reached', 'range [%g, %g], true range [%g, %g]' % (lb, ub, lo, hi))


def s_shadow(ctx):
	rng = ctx.rng
	m, kind, lip, L, f, X, eps = setup(rng, 2)
	X = X[:5]
	fX = f(X); dk, dom, P = dom_of(rng, 2)
	if dk == 'eq': raise Skip('thin domain')
	u = rng.randn(2); u /= np.linalg.norm(u); g = 4
	ctx.info(kind = kind, N = len(X), epsilon = eps, domain = dk); ctx.mix(X, fX, L, u)
	d = tempfile.mkdtemp()
	try:
		fn = os.path.join(d, 'out.dat')
		np.random.seed(rng.randint(2**31))
		lip.shadow_uncertainty(dom, X, fX, ngrid = g, U = u if rng.rand() < .5 else u.reshape(-1, 1), pgfname = fn, Nsamp = 20)
		rows = open(fn).read().split('\n')
		head = rows[0].split(); T = np.array([[float(v) for v in r.split()] for r in rows[1:] if r.strip()])
	finally: shutil.rmtree(d)
	ctx.ok(head == ['y', 'lb', 'ub'] and T.shape == (g, 3), 'table', got = head)
	proj = P.dot(u)
	h = .03*max(np.ptp(proj), 1e-3)
	ctx.ok(abs(T[0, 0] - proj.min()) < h and abs(T[-1, 0] - proj.max()) < h and np.all(np.diff(T[:, 0]) > 0), 'extent', got = T[:, 0], expected = (proj.min(), proj.max()))
	nL = np.linalg.norm(L, 2); up = np.array([-u[1], u[0]])
	for y, lb, ub in T[1:-1]:
		# the slice of the domain is a segment
		S = y*u + np.linspace(-4, 4, 80001)[:, None]*up
		S = S[np.all(dom.A_aug.dot(S.T).T <= dom.b_aug, axis = 1)]
		if not len(S): continue
		lo, hi = scan(L, X, fX, S, eps)
		tol = (2e-3 + .02*np.linalg.norm(S[-1] - S[0]))*nL
		ctx.ok(lb >= lo - tol and ub <= hi + tol, 'slice-attained', 'at %g: [%g, %g], true [%g, %g]' % (y, lb, ub, lo, hi))
		ctx.ok(lb <= lo + tol + .1*nL*np.linalg.norm(S[-1] - S[0]) and ub >= hi - tol - .1*nL*np.linalg.norm(S[-1] - S[0]), 'slice-reached', 'at %g: [%g, %g], true [%g, %g]' % (y, lb, ub, lo, hi))
	# at the ends the interval of the corner
	for i, sg in ((0, -1), (-1, 1)):
		c = dom.corner(sg*u); lo, hi = interval(L, X, fX, c[None], eps)
		ctx.ok(abs(T[i, 1] - lo[0]) < 1e-6*(1 + nL) and abs(T[i, 2] - hi[0]) < 1e-6*(1 + nL), 'slice-ends', got = T[i], expected = (lo, hi))


SCENARIOS = [
	{'name': 'points', 'func': s_points, 'n': (1500, 20000), 'timeout': 30},
	{'name': 'domain', 'func': s_domain, 'n': (100, 800), 'timeout': 120},
	{'name': 'shadow', 'func': s_shadow, 'n': (40, 300), 'timeout': 120},
]
