"""Lipschitz approximation: compatible data and central approximation"""
import numpy as np, scipy.optimize as so, warnings, os, tempfile, shutil
import psdr
from psdr import LipschitzApproximation
from psdr.lipschitz_approx import lipschitz_approximation_compatible_data
from ..core import Skip

RULE = ('A case draws a Lipschitz matrix (square, wide, rank deficient, zero), samples in a domain, data (compatible, noisy, constant, repeated samples with different values; any scale from 1e-2 to 1e3) and the norm (1, 2, infinity), and fits; '
	'the monitor checks every pair constraint of the compatible data, its misfit against an independent linear / quadratic program, interpolation, epsilon, the evaluation by the definition of the central approximation, its Lipschitz continuity between random points, and the written plot data. Distinct: different matrix, samples and data.')
ASSUME = ['misfits and constraints are judged to the accuracy of the conic solver (1e-5 of the range of the data)']


def setup(rng, m = None):
	m = int(rng.randint(1, 6)) if m is None else m
	kind = str(rng.choice(['square', 'wide', 'deficient', 'zero'], p = [.4, .25, .25, .1]))
	k = m if kind == 'square' else int(rng.randint(1, m + 1))
	L = rng.randn(k, m)
	if kind == 'deficient': L = np.vstack([L[:max(1, k - 1)], np.zeros((m, m))])[:m]; L = np.linalg.qr(rng.randn(len(L), len(L)))[0].dot(L)
	if kind == 'zero': L = np.zeros((m, m))
	M = int(rng.choice([1, 2, 3, 8, 20]))
	lb, ub = -rng.uniform(.5, 2, m), rng.uniform(.5, 2, m)
	X = lb + (ub - lb)*rng.rand(M, m)
	data = str(rng.choice(['compatible', 'noisy', 'noise', 'constant', 'repeated']))
	w = rng.randn(len(L)); w /= np.linalg.norm(w)
	f = np.sin(X.dot(L.T).dot(w))
	if data == 'noisy': f = f + .3*rng.randn(M)
	if data == 'noise': f = 3*rng.randn(M)
	if data == 'constant': f = np.full(M, 1.5)
	if data == 'repeated' and M > 1: X[-1] = X[0]; f[-1] = f[0] + 1
	s = 10.**rng.uniform(-8, 8) if rng.rand() < .4 else 1.
	if rng.rand() < .2: f = f + 10.**rng.uniform(0, 4)
	return m, kind, L*s, X, f*s, data, s, lb, ub


def dist(L, X): return np.linalg.norm((X[:, None] - X[None]).dot(L.T), axis = 2)


def least(D, f, norm):
	M = len(f); I, J = np.tril_indices(M, -1); d = D[I, J]
	if np.ptp(f) == 0: return 0.
	sc = np.ptp(f); g = (f - f.min())/sc; d = np.minimum(d/sc, 1e6)
	P = np.zeros((len(I), M)); P[np.arange(len(I)), I] = 1; P[np.arange(len(I)), J] = -1
	if norm in (1, np.inf):
		T = np.eye(M) if norm == 1 else np.ones((M, 1)); k = T.shape[1]
		A = np.vstack([np.hstack([P, np.zeros((len(I), k))]), np.hstack([-P, np.zeros((len(I), k))]), np.hstack([np.eye(M), -T]), np.hstack([-np.eye(M), -T])])
		r = so.linprog(np.r_[np.zeros(M), np.ones(k)], A_ub = A, b_ub = np.r_[d, d, g, -g], bounds = [(None, None)]*(M + k))
		if r.status: raise Skip('reference')
		return r.fun*sc
	if np.all(np.abs(P.dot(g)) <= d): return 0.
	import cvxpy as cp
	y = cp.Variable(M); pr = cp.Problem(cp.Minimize(cp.sum_squares(y - g)), [y.__rmatmul__(P) <= d, y.__rmatmul__(-P) <= d] if len(I) else [])
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		for kw in ({'solver': 'CVXOPT', 'abstol': 1e-10, 'reltol': 1e-10, 'feastol': 1e-10}, {'solver': 'CVXOPT'}, {'solver': 'OSQP', 'eps_abs': 1e-9, 'eps_rel': 1e-9, 'max_iter': 100000}):
			try: pr.solve(**kw)
			except Exception: continue
			if pr.status == 'optimal': return np.sqrt(max(pr.value, 0))*sc
	raise Skip('reference')


def s_compatible(ctx):
	rng = ctx.rng
	m, kind, L, X, f, data, s, lb, ub = setup(rng)
	norm = [1, 2, np.inf][rng.randint(3)]
	ctx.info(m = m, kind = kind, M = len(X), data = data, norm = str(norm), scale = s); ctx.mix(L, X, f, norm)
	X0, f0, L0 = X.copy(), f.copy(), L.copy()
	a = (L.tolist(), X.tolist(), f.tolist()) if rng.rand() < .2 else (L, X, f)
	y = lipschitz_approximation_compatible_data(*a, norm = norm)
	if not ctx.ok(np.shape(y) == f.shape and np.all(np.isfinite(y)), 'shape', y = y): return
	sc = max(np.ptp(f), s)
	D = dist(L, X); v = np.max(np.abs(y[:, None] - y[None]) - D)
	ctx.ok(v <= 2e-5*sc, 'compatible', 'violated by %g' % v)
	best = least(D, f, norm); got = np.linalg.norm(y - f, norm)
	ctx.ok(got <= best*(1 + 1e-4) + 3e-5*sc*max(1, len(f)**.5), 'least-misfit', 'misfit %.10g, least %.10g' % (got, best))
	ctx.ok(got >= best*(1 - 1e-3) - 1e-4*sc*len(f), 'reference-sane', 'misfit %.10g, least %.10g' % (got, best))
	ctx.ok(np.array_equal(X, X0) and np.array_equal(f, f0) and np.array_equal(L, L0), 'inputs-kept')


def s_fit(ctx):
	rng = ctx.rng
	m, kind, L, X, f, data, s, lb, ub = setup(rng)
	norm = [1, 2, np.inf][rng.randint(3)]
	dom = psdr.BoxDomain(lb, ub)
	ctx.info(m = m, kind = kind, M = len(X), data = data, norm = str(norm), scale = s); ctx.mix(L, X, f, norm)
	la = LipschitzApproximation(L, dom, norm = norm)
	if rng.rand() < .3: la.fit(lb + (ub - lb)*rng.rand(4, m), rng.randn(4)); la(X)
	B, fb = X.copy(), f.copy()
	la.fit(B, fb); B[:] = 0; fb[:] = -7
	sc = max(np.ptp(f), s)
	D = dist(L, X)
	g = np.asarray(la(X)).ravel()
	ctx.ok(np.max(np.abs(g[:, None] - g[None]) - D) <= 3e-5*sc, 'compatible')
	got = np.linalg.norm(g - f, norm); best = least(D, f, norm)
	ctx.ok(abs(got - best) <= 1e-3*best + 1e-4*sc*len(f), 'best-at-samples', 'misfit %.10g, least %.10g' % (got, best))
	ctx.ok(abs(la.epsilon - np.max(np.abs(g - f))) <= 1e-4*sc, 'epsilon', got = la.epsilon, expected = np.max(np.abs(g - f)))
	T = lb + (ub - lb)*rng.rand(int(rng.choice([1, 12])), m)*1.3
	v = np.asarray(la(T)); Dt = np.linalg.norm((T[:, None] - X[None]).dot(L.T), axis = 2)
	want = .5*((g - Dt).max(axis = 1) + (g + Dt).min(axis = 1))
	ctx.ok(v.shape == (len(T),) and np.max(np.abs(v - want)) <= 2e-4*sc, 'central', got = v, expected = want)
	one = np.asarray(la(T[0])); ctx.ok(one.size == 1 and abs(one.ravel()[0] - v[0]) <= 1e-9*sc, 'single-point')
	DT = dist(L, T); ctx.ok(np.max(np.abs(v[:, None] - v[None]) - DT) <= 1e-9*sc, 'lipschitz')
	l, u = la.uncertainty(X, g, T)
	ctx.ok(np.all(l <= v + 1e-5*sc) and np.all(v <= u + 1e-5*sc), 'between-bounds')
	U = np.asarray(la.U)
	k = np.linalg.matrix_rank(L) if kind != 'zero' else 0
	ctx.ok(U.shape[0] == m and np.allclose(U.T.dot(U), np.eye(U.shape[1])), 'orthonormal')
	if k: 
		sv = np.linalg.norm(L.dot(U), axis = 0); ctx.ok(np.all(np.diff(sv) <= 1e-9*sv[0]) and np.linalg.norm(L - L.dot(U).dot(U.T)) <= 1e-9*np.linalg.norm(L), 'important-directions')
	N = rng.randn(m, m); Q = np.eye(m) - np.linalg.pinv(L).dot(L)
	ctx.ok(np.allclose(np.asarray(la(T + 2*rng.randn(len(T), m).dot(Q))), v, atol = 1e-7*sc), 'ridge-constant')
	ctx.ok(len(la) == m and np.array_equal(np.asarray(la.L), L), 'L-kept')


def s_plot(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4])); m, kind, L, X, f, data, s, lb, ub = setup(rng, m)
	a = rng.randn(m); L = a.reshape(1, -1)*s
	dom = psdr.BoxDomain(lb, ub); n = int(rng.choice([5, 20]))
	ctx.info(m = m, M = len(X), data = data, n = n, scale = s); ctx.mix(L, X, f)
	la = LipschitzApproximation(L, dom, norm = [1, 2, np.inf][rng.randint(3)]); la.fit(X, f)
	u = a/np.linalg.norm(a)*rng.choice([-1, 1])
	d = tempfile.mkdtemp()
	try:
		b = os.path.join(d, 'p')
		kw = {} if rng.rand() < .5 else {'U': u.reshape(-1, 1)}
		la.shadow_plot(ax = None, pgfname = b, nsamp = n, **kw)
		r = lambda fn: (lambda R: (R[0].split(), np.array([[float(v) for v in x.split()] for x in R[1:] if x.strip()])))(open(fn).read().split('\n'))
		h1, C = r(b + '_curves.dat'); h2, P = r(b + '_points.dat')
	finally: shutil.rmtree(d)
	if not kw: u = np.asarray(la.U)[:, 0]
	sc = max(np.ptp(f), s)
	ctx.ok(h1 == ['x', 'lb', 'c', 'ub'] and h2 == ['x', 'y'] and C.shape == (n, 4) and P.shape == (len(X), 2), 'tables', got = (h1, h2, C.shape, P.shape))
	ctx.ok(np.allclose(P, np.c_[X.dot(u), f], rtol = 1e-5, atol = 1e-5*sc), 'points')
	e1, e2 = np.sum(np.minimum(u*lb, u*ub)), np.sum(np.maximum(u*lb, u*ub))
	x = np.sort(C[:, 0])
	ctx.ok(abs(x[0] - e1) < 1e-4*(e2 - e1) and abs(x[-1] - e2) < 1e-4*(e2 - e1), 'extent', got = (x[0], x[-1]), expected = (e1, e2))
	k = abs(a.dot(u))*s; g = np.asarray(la(X)).ravel()
	Dt = k*np.abs(C[:, :1] - X.dot(u)[None]); eps = la.epsilon
	lo, hi = (g - Dt).max(axis = 1), (g + Dt).min(axis = 1)
	tol = 1e-4*sc + 1e-4*k
	ctx.ok(np.allclose(C[:, 2], .5*(lo + hi), atol = tol), 'central-curve', got = C[:, 2], expected = .5*(lo + hi))
	ctx.ok(np.allclose(C[:, 1], lo - eps, atol = tol) and np.allclose(C[:, 3], hi + eps, atol = tol), 'bounds-curve', got = C[:, [1, 3]], expected = (lo - eps, hi + eps))


def s_errors(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 4)); dom = psdr.BoxDomain(-np.ones(m), np.ones(m)); X = rng.uniform(-1, 1, (5, m)); f = rng.randn(5); L = rng.randn(m, m)
	k = str(rng.choice(['outside', 'length', 'dimension', 'vector'])); ctx.info(kind = k); ctx.mix(X, k)
	try:
		if k == 'outside': X[2] = 2.; LipschitzApproximation(L, dom).fit(X, f)
		elif k == 'length': lipschitz_approximation_compatible_data(L, X, f[:-1])
		elif k == 'dimension': lipschitz_approximation_compatible_data(rng.randn(m, m + 1), X, f)
		else: lipschitz_approximation_compatible_data(L, X, f.reshape(-1, 1))
		ctx.violation('error-' + k, 'no error raised')
	except AssertionError: ctx.ok(True, 'error-' + k)


SCENARIOS = [
	{'name': 'compatible', 'func': s_compatible, 'n': (600, 8000), 'timeout': 60},
	{'name': 'fit', 'func': s_fit, 'n': (600, 8000), 'timeout': 60},
	{'name': 'plot', 'func': s_plot, 'n': (60, 500), 'timeout': 60},
	{'name': 'errors', 'func': s_errors, 'n': (40, 300), 'timeout': 60},
]
