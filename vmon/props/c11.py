"""PolynomialApproximation: best approximation in the stated norm, subject to the stated bound"""
import numpy as np
from math import comb
from scipy.optimize import linprog, nnls
import psdr
from ..core import Skip
from .c10 import indices, leg

RULE = ('A case draws samples (1-3 dimensions, degree 0-5), a basis (Arnoldi, Legendre, monomial, Chebyshev, Laguerre, Hermite), a norm (1, 2, inf) and a bound (none, lower, upper), fits and evaluates; '
	'the monitor compares the attained misfit with the optimum of an independently solved linear program / least squares problem, checks the bound at every sample, exact reproduction of polynomials and derivatives against '
	'an independent expansion. Distinct: different data and configuration.')
ASSUME = ['misfits are judged to 1e-4 relative plus 1e-6 of the data, the accuracy asked of the conic solver', 'a solver failure (SolverError) is no verdict']
BASES = ['arnoldi', 'legendre', 'monomial', 'chebyshev', 'laguerre', 'hermite']


def optimum(A, b, norm, bound):
	"""least value of ||A c - b|| subject to A c <= b (lower) or A c >= b (upper), and the vector A c if unique"""
	M, N = A.shape
	fs = np.max(np.abs(b))
	if fs > 0 and not .5 < fs < 2:
		# the reference solvers have absolute tolerances
		o, y = optimum(A, b/fs, norm, bound)
		return (None if o is None else fs*o), (None if y is None else fs*y)
	if norm == 2 and bound is None:
		c = np.linalg.lstsq(A, b, rcond = None)[0]
		return np.linalg.norm(A.dot(c) - b), A.dot(c)
	if norm == 2:
		# dual of min .5||A c - b||^2 s.t. s(A c - b) <= 0: multipliers lam >= 0 with A^T(A c - b + s lam) = 0
		s = 1. if bound == 'lower' else -1.
		q, _ = np.linalg.qr(A)
		bp = b - q.dot(q.T.dot(b))
		# minimise .5||P lam||^2 + s bp^T lam  over lam >= 0, P the projector on range A, as a nonnegative least squares problem:
		# ||P lam||^2 = ||q^T lam||^2; the linear term lies outside the range of q, so solve the primal as a least distance problem instead (Lawson and Hanson)
		# with y = q^T A c: min ||y - q^T b||, s(q y - b) <= 0;  z = y - q^T b:  -s q z >= s(q q^T b - b)
		G = -s*q; h = s*(q.dot(q.T.dot(b)) - b)
		E = np.vstack([G.T, h[None, :]]); f = np.zeros(E.shape[0]); f[-1] = 1.
		u, rn = nnls(E, f, maxiter = 50*E.shape[1])
		r = E.dot(u) - f
		if np.linalg.norm(r) < 1e-10:
			return None, None
		z = -r[:-1]/r[-1]
		y = q.dot(z + q.T.dot(b))
		return np.linalg.norm(y - b), y
	bnd = {None: (None, None), 'lower': (None, 0), 'upper': (0, None)}[bound]
	if norm == 1:
		cost = np.r_[np.zeros(N), np.ones(M)]
		Au = np.vstack([np.c_[A, -np.eye(M)], np.c_[-A, -np.eye(M)]]); bu = np.r_[b, -b]
		bounds = [(None, None)]*N + [(0, None)]*M
	else:
		cost = np.r_[np.zeros(N), 1.]
		Au = np.vstack([np.c_[A, -np.ones(M)], np.c_[-A, -np.ones(M)]]); bu = np.r_[b, -b]
		bounds = [(None, None)]*N + [(0, None)]
	if bound == 'lower':
		Au = np.vstack([Au, np.c_[A, np.zeros((M, Au.shape[1] - N))]]); bu = np.r_[bu, b]
	if bound == 'upper':
		Au = np.vstack([Au, np.c_[-A, np.zeros((M, Au.shape[1] - N))]]); bu = np.r_[bu, -b]
	r = linprog(cost, Au, bu, bounds = bounds, method = 'highs')
	if r.status != 0:
		return None, None
	return r.fun, None


def s_fit(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 1, 2, 3])); p = int(rng.randint(0, {1: 6, 2: 5, 3: 3}[m]))
	N = comb(m + p, p); M = int(np.ceil(rng.uniform(1.1, 3)*N)) + 2
	s = np.exp(rng.uniform(-2, 2, m)); sh = rng.choice([0., 1.])*s*rng.uniform(-1, 1, m)
	X = sh + s*rng.uniform(-1, 1, size = (M, m))
	basis = str(rng.choice(BASES)); norm = [1, 2, 2, np.inf][rng.randint(4)]; bound = [None, 'lower', 'upper'][rng.randint(3)]
	if basis == 'laguerre' and p > 3 and (norm != 2 or bound is not None): basis = 'legendre'		# the conic solver loses accuracy on this badly conditioned basis
	lo, hi = X.min(axis = 0), X.max(axis = 0); c0, w = (lo + hi)/2, (hi - lo)/2
	idx = indices(m, p); A = leg(idx, X, c0, w)
	if np.linalg.cond(A) > 1e4:
		ctx.trivial = True; return
	kind = rng.choice(['exact', 'noise', 'smooth', 'shift'])
	ct = rng.randn(N); scale = float(np.exp(rng.uniform(-3, 4)) if rng.rand() < .6 else 10.**rng.uniform(-9, 8)); fX = A.dot(ct)
	if kind == 'noise': fX = fX + rng.randn(M)
	if kind == 'smooth': fX = np.sin(2*((X - c0)/w).sum(axis = 1)) + .1*fX
	if kind == 'shift': fX = fX + 30 + .5*rng.randn(M)
	fX = scale*fX
	ctx.info(m = m, degree = p, M = M, basis = basis, norm = str(norm), bound = bound, kind = kind); ctx.mix(X, fX)
	X0, f0 = X.copy(), fX.copy()
	pa = psdr.PolynomialApproximation(p, basis = basis, norm = norm, bound = bound)
	pa.fit(X, fX)
	fs = np.max(np.abs(fX)) + 1e-300
	got = np.asarray(pa(X))
	if not ctx.ok(got.shape == (M,) and np.all(np.isfinite(got)), 'shape', '%s' % (got.shape,)): return
	# it is a polynomial of the degree
	c = np.linalg.lstsq(A, got, rcond = None)[0]
	ctx.ok(np.max(np.abs(A.dot(c) - got)) < 1e-6*fs, 'polynomial')
	ord_ = np.inf if norm == np.inf else norm
	mis = np.linalg.norm(got - fX, ord_)
	opt, y = optimum(A, fX, norm, bound)
	if opt is None:
		ctx.count('reference-solver-failure')
	else:
		ref = np.linalg.norm(fX, ord_)
		ctx.ok(mis <= opt*(1 + 1e-4) + 2e-6*ref, 'optimal-%s' % norm, 'misfit %g, optimum %g (data %g)' % (mis, opt, ref))
		if y is not None: ctx.ok(np.linalg.norm(got - y) <= 2e-3*opt + 1e-4*ref, 'best-fit-unique')
	tol = 1e-5*fs
	if bound == 'lower': ctx.ok(np.all(got <= fX + tol), 'lower-bound', 'exceeds samples by %g of %g' % (np.max(got - fX), fs))
	if bound == 'upper': ctx.ok(np.all(got >= fX - tol), 'upper-bound', 'below samples by %g of %g' % (np.max(fX - got), fs))
	Y = c0 + w*rng.uniform(-1, 1, size = (7, m))
	want = leg(idx, Y, c0, w).dot(c); ws = fs + np.max(np.abs(want))
	g = np.asarray(pa(Y))
	ctx.ok(g.shape == (7,) and np.max(np.abs(g - want)) < 1e-4*ws, 'evaluation', got = g, expected = want)
	ctx.ok(abs(float(np.ravel(pa(Y[0]))[0]) - want[0]) < 1e-4*ws and np.shape(pa(Y[0])) == (1,), 'evaluation-single')
	ctx.ok(np.max(np.abs(pa.predict(Y) - want)) < 1e-4*ws, 'predict')
	if kind == 'exact':
		t = leg(idx, Y, c0, w).dot(ct)*scale
		ctx.ok(np.max(np.abs(g - t)) < (1e-6 if norm == 2 and bound is None else 1e-3)*ws, 'reproduces', 'polynomial data is not reproduced', got = g, expected = t)
	D = np.stack([leg(idx, Y, c0, w, [int(k == q) for q in range(m)]).dot(c)/w[k] for k in range(m)], axis = 1)
	G = np.asarray(pa.grad(Y))
	ctx.ok(G.shape == D.shape and np.all(np.abs(G - D)*w < 1e-3*ws), 'grad', got = G, expected = D)
	ctx.ok(np.shape(pa.grad(Y[1])) == (m,) and np.all(np.abs(pa.grad(Y[1]) - D[1])*w < 1e-3*ws), 'grad-single')
	v, gg = pa(Y, return_grad = True)
	ctx.ok(np.allclose(v, g, rtol = 1e-9, atol = 1e-9*ws) and np.allclose(gg, G, rtol = 1e-9), 'return-grad')
	if basis != 'arnoldi':
		HH = np.zeros((7, m, m))
		for k in range(m):
			for l in range(m):
				HH[:, k, l] = leg(idx, Y, c0, w, [int(k == q) + int(l == q) for q in range(m)]).dot(c)/w[k]/w[l]
		Hs = np.asarray(pa.hessian(Y))
		ctx.ok(Hs.shape == HH.shape and np.all(np.abs(Hs - HH)*np.outer(w, w) < 1e-2*ws), 'hessian', got = Hs, expected = HH)
		ctx.ok(np.shape(pa.hessian(Y[1])) == (m, m) and np.all(np.abs(pa.hessian(Y[1]) - HH[1])*np.outer(w, w) < 1e-2*ws), 'hessian-single')
		if m == 1 and p >= 1 and abs(c[idx.index((p,))]) > 1e-2*np.max(np.abs(c)):
			r = np.asarray(pa.roots()); sc_ = np.max(np.abs(c))
			# every root of the fitted polynomial near the data, and a small value of the polynomial at each root
			from numpy.polynomial import legendre as L
			e = L.Legendre(c[[idx.index((k,)) for k in range(p + 1)]])
			val = np.abs(e((r - c0[0])/w[0]))/sc_
			big = np.maximum(1., np.abs((r - c0[0])/w[0]))**p
			ctx.ok(len(r) == p and np.all(val <= 1e-3*big*10), 'roots', 'polynomial at the roots %s' % val)
	ctx.ok(np.all(X == X0) and np.all(fX == f0), 'inputs-kept')
	# refit with other data forgets the first
	pa.fit(X, -2*fX)
	if bound is None and norm == 2:
		ctx.ok(np.max(np.abs(pa(Y) + 2*g)) < 1e-5*ws, 'refit')


SCENARIOS = [{'name': 'fit', 'func': s_fit, 'n': (900, 9000), 'timeout': 60}]
