"""Gaussian process models"""
import numpy as np, scipy.linalg as sl, warnings
import psdr
from psdr import GaussianProcess
from ..core import Skip
from .c10 import indices, leg

RULE = ('A case draws samples, data (smooth, polynomial, noisy), the structure of the distance matrix (const, scalar_mult, diag, tril), polynomial degree (none, 0-2) and nugget, evaluates the likelihood and its gradient at random parameters, or fits and evaluates; '
	'the monitor rebuilds kernel, saddle point system and likelihood by their formulas (Cholesky / least squares instead of eigendecompositions, matrix exponential derivative by differences) and checks weights, interpolation, polynomial reproduction, variance, structure, descent of the objective and invariances. Distinct: different data and options.')
ASSUME = ['models are judged up to the conditioning of the kernel matrix; kernels with condition number above 1e11 are only checked for finite values']


def data(rng, m = None):
	m = int(rng.randint(1, 5)) if m is None else m
	M = int(rng.choice([3, 8, 20, 40])) if m > 1 else int(rng.choice([2, 5, 9]))
	X = rng.uniform(-1, 1, (M, m))
	kind = str(rng.choice(['smooth', 'poly', 'noise']))
	a, b = rng.randn(m), rng.randn(m)
	if kind == 'smooth': f = lambda X: np.sin(X.dot(a)) + .3*(X.dot(b))**2
	elif kind == 'poly': f = lambda X: 1 + X.dot(a)
	else:
		z = rng.randn(M); f = lambda X: z[:len(X)]
	return m, M, X, kind, f


def model(rng, m, M):
	s = str(rng.choice(['const', 'scalar_mult', 'diag', 'tril']))
	deg = [None, 0, 1, 2][rng.randint(4)]
	if deg is not None and len(indices(m, deg)) >= M: deg = None
	nug = None if rng.rand() < .6 else float(10.**rng.uniform(-8, -1))
	kw = {'structure': s, 'degree': deg}
	if nug is not None: kw['nugget'] = nug
	L0 = None
	if s == 'scalar_mult': L0 = np.tril(rng.randn(m, m)) + 2*np.eye(m); kw['Lfixed'] = L0
	return s, deg, nug, L0, GaussianProcess(**kw)


def ell_of(rng, s, m): return {'const': 1, 'scalar_mult': 1, 'diag': m, 'tril': m*(m + 1)//2}[s]


def make_L(s, ell, m, L0):
	if s == 'const': return np.exp(ell[0])*np.eye(m)
	if s == 'scalar_mult': return np.exp(ell[0])*L0
	if s == 'diag': return np.diag(np.exp(ell))
	T = np.zeros((m, m)); T[np.tril_indices(m)] = ell
	return sl.expm(T)


def kern(L, A, B):
	return np.exp(-.5*np.sum(((A[:, None] - B[None]).dot(L.T))**2, axis = 2))


def vand(X, Xn, deg, idx = None):
	if deg is None: return np.zeros((len(Xn), 0))
	lo, hi = X.min(axis = 0), X.max(axis = 0)
	w = np.where(hi > lo, (hi - lo)/2, 1.)
	return leg(indices(X.shape[1], deg) if idx is None else [tuple(i) for i in idx], Xn, (lo + hi)/2, w)


def weights(K, V, y):
	n = V.shape[1]
	# range-space solution through Cholesky
	c = sl.cho_factor(K)
	Ky = sl.cho_solve(c, y)
	if n == 0: return Ky, np.zeros(0)
	KV = sl.cho_solve(c, V)
	b = np.linalg.lstsq(V.T.dot(KV), V.T.dot(Ky), rcond = None)[0]
	return Ky - KV.dot(b), b


def lml(K, V, y):
	a, _ = weights(K, V, y)
	return .5*y.dot(a) + .5*np.linalg.slogdet(K)[1]


def s_likelihood(ctx):
	rng = ctx.rng
	m, M, X, kind, f = data(rng)
	s, deg, nug, L0, gp = model(rng, m, M); y = f(X)
	ell = rng.uniform(0, 2, ell_of(rng, s, m)) if s != 'tril' else rng.uniform(-1, 1, ell_of(rng, s, m))
	ctx.info(m = m, M = M, kind = kind, structure = s, degree = deg, nugget = nug); ctx.mix(X, y, ell)
	if not all(hasattr(gp, n) for n in ('_fit_init', '_make_L', '_obj', '_grad', '_log_marginal_likelihood')): raise Skip('no access to the likelihood')
	tau = 5*np.finfo(float).eps if nug is None else nug
	gp._fit_init(X, y)
	L = make_L(s, ell, m, L0)
	ctx.ok(np.allclose(gp._make_L(ell), L, rtol = 1e-9, atol = 1e-12), 'matrix', got = gp._make_L(ell), expected = L)
	K = kern(L, X, X) + tau*np.eye(M); V = vand(X, X, deg)
	cond = np.linalg.cond(K)
	if cond > 1e7: raise Skip('ill conditioned')
	ref = lml(K, V, y); obj = gp._obj(ell)
	ctx.ok(abs(obj - ref) <= 1e-12*cond*(1 + abs(ref) + y.dot(y)) + 1e-8, 'likelihood', got = obj, expected = ref)
	g = np.asarray(gp._grad(ell)); fd = np.zeros(len(ell)); h = 1e-5
	for i in range(len(ell)):
		e = np.zeros(len(ell)); e[i] = h
		o = lambda t: lml(kern(make_L(s, ell + t, m, L0), X, X) + tau*np.eye(M), V, y)
		fd[i] = (8*(o(e) - o(-e)) - (o(2*e) - o(-2*e)))/12/h
	sc = np.max(np.abs(fd)) + abs(ref) + 1
	ctx.ok(g.shape == (len(ell),) and np.max(np.abs(g - fd)) <= 1e-4*sc, 'gradient', got = g, expected = fd)
	a, b = gp._log_marginal_likelihood(ell, return_alpha_beta = True)
	wa, wb = weights(K, V, y)
	V2 = V if deg is None else vand(X, X, deg, np.asarray(gp.basis.indices))
	big = np.max(np.abs(wa)) + np.max(np.abs(y))
	ctx.ok(np.allclose(a, wa, atol = 1e-12*cond*big + 1e-9*big) and np.allclose(V2.dot(b), V.dot(wb), atol = 1e-12*cond*big + 1e-9*big), 'weights', got = (a, b), expected = (wa, wb))


def s_fit(ctx):
	rng = ctx.rng
	m, M, X, kind, f = data(rng)
	s, deg, nug, L0, gp = model(rng, m, M); y = f(X)
	ctx.info(m = m, M = M, kind = kind, structure = s, degree = deg, nugget = nug); ctx.mix(X, y)
	tau = 5*np.finfo(float).eps if nug is None else nug
	if rng.rand() < .3: n0 = 6 if rng.rand() < .5 else M; gp.fit(rng.randn(n0, m), rng.randn(n0)); gp(X)
	start = {} 
	ell0 = None
	if s in ('const', 'scalar_mult') and rng.rand() < .4: l = float(rng.uniform(0, 1.5)); start = {'L0': l*np.eye(m)}; ell0 = np.array([l])
	elif s == 'diag' and rng.rand() < .4: ell0 = rng.uniform(0, 1.5, m); start = {'L0': np.diag(ell0) if rng.rand() < .5 else ell0.copy()}
	elif s == 'tril' and rng.rand() < .4: T = np.tril(rng.uniform(-1, 1, (m, m))); start = {'L0': T}; ell0 = T[np.tril_indices(m)]
	else: ell0 = {'const': np.ones(1), 'scalar_mult': np.ones(1), 'diag': np.ones(m), 'tril': np.eye(m)[np.tril_indices(m)]}[s]
	B, yb = X.copy(), (y.copy() if rng.rand() < .6 else y.reshape(-1, 1).copy())
	gp.fit(B.tolist() if rng.rand() < .2 else B, yb, **start)
	B[:] = np.nan; yb[:] = np.nan
	L = np.asarray(gp.L, dtype = float)
	if not ctx.ok(L.shape == (m, m) and np.all(np.isfinite(L)) and np.all(np.isfinite(gp.alpha)) and np.all(np.isfinite(gp.beta)), 'finite', L = L): return
	off = {'const': L - L[0, 0]*np.eye(m), 'diag': L - np.diag(np.diag(L)), 'tril': np.triu(L, 1)}.get(s)
	if s == 'scalar_mult': off = L - L0*(L[0, 0]/L0[0, 0])
	ctx.ok(np.max(np.abs(off)) <= 1e-9*np.max(np.abs(L)), 'structure', L = L)
	T = rng.uniform(-1.2, 1.2, (int(rng.choice([1, 9])), m))
	al, be = np.asarray(gp.alpha).ravel(), np.asarray(gp.beta).ravel()
	idx = None
	if deg is not None:
		# the order of the basis is psdr's
		idx = np.asarray(gp.basis.indices); ctx.ok(sorted(map(tuple, idx)) == sorted(indices(m, deg)), 'basis')
	Vt, V = vand(X, T, deg, idx), vand(X, X, deg, idx)
	v = np.asarray(gp(T)); want = kern(L, T, X).dot(al) + Vt.dot(be)
	big = kern(L, T, X).dot(np.abs(al)) + np.abs(Vt).dot(np.abs(be)) + 1e-300
	ctx.ok(v.shape == (len(T),) and np.all(np.abs(v - want) <= 1e-8*big), 'eval', got = v, expected = want)
	ctx.ok(np.all(np.abs(np.asarray(gp.eval(T)) - want) <= 1e-8*big), 'eval')
	one = np.asarray(gp(T[0])); ctx.ok(one.size == 1 and abs(one.ravel()[0] - v[0]) <= 1e-9*big[0], 'single-point')
	ctx.ok(np.allclose(np.asarray(gp(T.tolist())), v, atol = 1e-9*np.max(big)), 'lists')
	K = kern(L, X, X); cond = np.linalg.cond(K + tau*np.eye(M)); ys = np.max(np.abs(y)) + 1e-300
	fit, cov = gp.eval(T, return_cov = True); cov = np.asarray(cov)
	ctx.ok(np.allclose(fit, v, atol = 1e-9*np.max(big)) and cov.shape == (len(T),) and np.all(cov >= 0) and np.all(cov <= 1 + 1e-6), 'variance-range', got = cov)
	_, c0 = gp.eval(X, return_cov = True); ctx.ok(np.all(np.asarray(c0) < 1e-3), 'variance-at-samples', got = c0)
	far = X[:1] + 40*np.linalg.solve(L, np.ones(m)) if np.linalg.cond(L) < 1e6 else None
	if far is not None and np.max(kern(L, far, X)) < 1e-8: ctx.ok(abs(np.asarray(gp.eval(far, return_cov = True)[1])[0] - 1) < 1e-6, 'variance-far')
	condK = np.linalg.cond(K)
	if condK < 1e9:
		Kt = kern(L, T, X); w = 1 - np.einsum('ij,ij->i', Kt, np.linalg.solve(K, Kt.T).T)
		ctx.ok(np.allclose(cov, w, atol = 1e-14*condK**1.5 + 1e-6), 'variance', got = cov, expected = w)
	if cond < 1e10:
		r = (K + tau*np.eye(M)).dot(al) + V.dot(be) - y
		ctx.ok(np.max(np.abs(r)) <= 1e-5*ys, 'system', 'residual %g of %g' % (np.max(np.abs(r)), ys))
		ctx.ok(len(be) == 0 or np.max(np.abs(V.T.dot(al))) <= 1e-5*max(np.sum(np.abs(al)), ys), 'orthogonal-to-polynomials')
		if nug is None: ctx.ok(np.max(np.abs(np.asarray(gp(X)) - y)) <= 1e-5*ys, 'interpolates')
		else: ctx.ok(np.max(np.abs(y - np.asarray(gp(X)) - tau*al)) <= 1e-5*ys, 'nugget-residual')
		if kind == 'poly' and deg in (1, 2): ctx.ok(np.max(np.abs(v - f(T))) <= 1e-5*(ys + np.max(np.abs(f(T)))), 'polynomial-reproduced', got = v, expected = f(T))
	# descent
	Ks = kern(make_L(s, ell0, m, L0), X, X) + tau*np.eye(M)
	if max(cond, np.linalg.cond(Ks)) < 1e8:
		o0, o1 = lml(Ks, V, y), lml(K + tau*np.eye(M), V, y)
		ctx.ok(o1 <= o0 + 1e-6*(1 + abs(o0)), 'descent', 'objective %.10g from %.10g' % (o1, o0))


def s_stationary(ctx):
	"""in a well conditioned setting (large nugget) the fit ends at a stationary point of the likelihood"""
	rng = ctx.rng
	m = int(rng.randint(1, 4)); M = int(rng.choice([8, 15, 25])); X = rng.uniform(-1, 1, (M, m)); a = rng.randn(m)*2
	y = np.sin(X.dot(a)) + .1*rng.randn(M)
	s = str(rng.choice(['const', 'scalar_mult', 'diag', 'tril'])); deg = [None, 0][rng.randint(2)]; tau = float(10.**rng.uniform(-3, -1))
	L0 = np.tril(rng.randn(m, m)) + 2*np.eye(m)
	kw = {'Lfixed': L0} if s == 'scalar_mult' else {}
	ctx.info(m = m, M = M, structure = s, degree = deg, nugget = tau); ctx.mix(X, y)
	gp = GaussianProcess(structure = s, degree = deg, nugget = tau, **kw); gp.fit(X, y)
	if not hasattr(gp, '_ell'): raise Skip('no access to the parameters')
	V = vand(X, X, deg); ell = np.atleast_1d(gp._ell)
	o = lambda e: lml(kern(make_L(s, e, m, L0), X, X) + tau*np.eye(M), V, y)
	o1 = o(ell)
	ctx.ok(np.allclose(make_L(s, ell, m, L0), gp.L, rtol = 1e-8), 'matrix')
	# no first order gain left: compare with small steps along every parameter
	h = 1e-3; gain = 0.
	for i in range(len(ell)):
		e = np.zeros(len(ell)); e[i] = h; gain = max(gain, o1 - o(ell + e), o1 - o(ell - e))
	ctx.ok(gain <= 1e-4*(1 + abs(o1)), 'stationary', 'a step of 0.001 gains %g of %g' % (gain, o1))
	# reordering the samples gives the same model
	p = rng.permutation(M); g2 = GaussianProcess(structure = s, degree = deg, nugget = tau, **kw); g2.fit(X[p], y[p])
	T = rng.uniform(-1, 1, (5, m))
	if abs(o(np.atleast_1d(g2._ell)) - o1) < 1e-8*(1 + abs(o1)): ctx.ok(np.allclose(gp(T), g2(T), atol = 1e-2*np.max(np.abs(y))), 'order-of-samples', got = gp(T), expected = g2(T))


SCENARIOS = [
	{'name': 'likelihood', 'func': s_likelihood, 'n': (500, 6000), 'timeout': 60},
	{'name': 'fit', 'func': s_fit, 'n': (400, 4000), 'timeout': 120},
	{'name': 'stationary', 'func': s_stationary, 'n': (120, 1200), 'timeout': 120},
]
