"""Vandermonde with Arnoldi: a discrete orthonormal polynomial basis for arbitrary points"""
import numpy as np
from math import comb
from psdr.basis import ArnoldiPolynomialBasis
from psdr import PolynomialFunction
from psdr.vandermonde import vandermonde_arnoldi, polyfitA, polyvalA
from .c09 import value

RULE = ('A case draws points (1-5 dimensions, clustered or spread, shifted up to a few widths) and a degree, builds the Arnoldi basis or the Arnoldi fit on them, and evaluates it at other points; '
	'the monitor expands each basis element in an independently evaluated Legendre basis and compares values, gradients, orthogonality and the nesting of degrees, and fits with independent least squares. '
	'Distinct: different points and degree.')
ASSUME = ['points are in general position with at least as many points as the basis has elements, so that the basis is determined']


def indices(m, p):
	out = []
	def rec(pre, left, k):
		if k == 0: out.append(tuple(pre)); return
		for a in range(left + 1): rec(pre + [a], left - a, k - 1)
	rec([], p, m)
	return sorted(out, key = lambda a: (sum(a), a))


def leg(idx, X, sh, sc, ders = None):
	return value('legendre', idx, (X - sh)/sc, ders or [0]*X.shape[1])


def make(rng, extra = (1.05, 3.)):
	m = int(rng.choice([1, 2, 2, 3, 4, 5]))
	p = int(rng.randint(0, {1: 9, 2: 6, 3: 5, 4: 4, 5: 3}[m]))
	N = comb(m + p, p)
	M = int(np.ceil(rng.uniform(*extra)*N)) + 3
	s = np.exp(rng.uniform(-1.5, 1.5, m)); sh = rng.choice([0., .5, 1.5 if p <= 4 else .3])*s*rng.uniform(-1.5, 1.5, m)
	kind = rng.choice(['uniform', 'normal', 'sphere', 'mixed'])
	Z = rng.uniform(-1, 1, size = (M, m))
	if kind == 'normal': Z = .5*rng.randn(M, m)
	if kind == 'mixed': Z[::2] *= .3
	if kind == 'sphere' and m > 1 and p == 1: Z /= np.linalg.norm(Z, axis = 1)[:, None]
	X = sh + s*Z
	Y = sh + s*rng.uniform(-1.1, 1.1, size = (int(rng.choice([1, 4, 9])), m))
	return m, p, N, X, Y, kind


def s_basis(ctx):
	rng = ctx.rng
	m, p, N, X, Y, kind = make(rng)
	ctx.info(m = m, degree = p, M = len(X), kind = kind); ctx.mix(X, Y)
	X0 = X.copy()
	b = ArnoldiPolynomialBasis(p, X)
	lo, hi = X.min(axis = 0), X.max(axis = 0); sh, sc = (lo + hi)/2, (hi - lo)/2
	idx = indices(m, p)
	A = leg(idx, X, sh, sc)
	if np.linalg.cond(A) > 1e5:
		ctx.trivial = True; return
	ctx.ok(len(b) == N, 'dimension')
	V = b.V()
	ctx.ok(V.shape == (len(X), N) and np.max(np.abs(V.T.dot(V) - np.eye(N))) < 1e-5, 'orthonormal', 'columns are not orthonormal at the points')
	C = np.linalg.lstsq(A, V, rcond = None)[0]
	ctx.ok(np.max(np.abs(A.dot(C) - V)) < 1e-7, 'polynomials-of-degree', 'basis elements are not polynomials of the degree')
	ctx.ok(np.linalg.matrix_rank(C, tol = 1e-8*np.max(np.abs(C))) == N, 'spans')
	# nested: the first dim(P_q) elements span the polynomials of degree q
	for q in range(p):
		n = comb(m + q, q)
		hi_ = [i for i, a in enumerate(idx) if sum(a) > q]
		ctx.ok(np.max(np.abs(C[hi_, :n])) < 1e-6*np.max(np.abs(C)), 'graded', 'the first %d elements do not have degree %d' % (n, q))
	ctx.close(b.V(X), V, 'V-same-points', rtol = 1e-7, atol = 1e-8)
	want = leg(idx, Y, sh, sc).dot(C); s = 1 + np.max(np.abs(want)) if want.size else 1
	W = b.V(Y)
	ctx.ok(W.shape == want.shape and np.max(np.abs(W - want)) < 1e-6*s, 'V', 'values at other points', got = W, expected = want)
	# evaluation in any subset of the points: must not depend on which points are asked for together
	sub = rng.permutation(len(X))[:max(1, len(X)//2)]
	ctx.ok(np.max(np.abs(b.V(X[sub]) - V[sub])) < 1e-6, 'V-subset')
	perm = rng.permutation(len(X))
	ctx.ok(np.max(np.abs(b.V(X[perm]) - V[perm])) < 1e-6, 'V-permuted')
	if len(Y) > 1: ctx.ok(np.max(np.abs(b.V(Y[:1]) - W[:1])) < 1e-7*s, 'V-single')
	for P_, nm in ((Y, 'DV'), (X, 'DV-same-points'), (X[sub], 'DV-subset')):
		D = np.stack([leg(idx, P_, sh, sc, [int(k == q) for q in range(m)]).dot(C)/sc[k] for k in range(m)], axis = 2)
		sD = 1e-6*(1 + np.max(np.abs(D), axis = (0, 1)))
		G = b.DV(P_)
		ctx.ok(G.shape == D.shape and np.all(np.max(np.abs(G - D), axis = (0, 1)) < sD), nm, 'derivatives', got = G, expected = D)
	G = b.DV()
	D = np.stack([leg(idx, X, sh, sc, [int(k == q) for q in range(m)]).dot(C)/sc[k] for k in range(m)], axis = 2)
	ctx.ok(G.shape == D.shape and np.all(np.max(np.abs(G - D), axis = (0, 1)) < 1e-6*(1 + np.max(np.abs(D), axis = (0, 1)))), 'DV-default')
	# as many points as the basis was built on, each close to (but not on) one of them
	Xn = X + rng.choice([1e-3, 1e-5])*(1 + rng.rand())*sc*rng.choice([-1., 1.], size = X.shape)
	wn = leg(idx, Xn, sh, sc).dot(C)
	ctx.ok(np.max(np.abs(b.V(Xn) - wn)) < 1e-6*(1 + np.max(np.abs(wn))), 'V-near-samples', 'values at points next to the sample points')
	c = rng.randn(N)
	f = PolynomialFunction(b, c)
	ctx.ok(np.max(np.abs(f(Y) - want.dot(c))) < 1e-5*s*np.linalg.norm(c), 'function')
	D = np.stack([leg(idx, Y, sh, sc, [int(k == q) for q in range(m)]).dot(C).dot(c)/sc[k] for k in range(m)], axis = 1)
	ctx.ok(np.all(np.abs(f.grad(Y) - D) < 1e-5*(1 + np.max(np.abs(D), axis = 0))), 'function-grad')
	ctx.ok(np.all(np.abs(f.grad(Y[0]) - D[0]) < 1e-5*(1 + np.max(np.abs(D), axis = 0))), 'function-grad')
	ctx.ok(np.all(X == X0), 'inputs-kept')


def s_far(ctx):
	"""A low degree on a cloud far from the origin compared with its width"""
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3])); p = int(rng.choice([1, 1, 2])); N = comb(m + p, p); M = 2*N + 4
	s = np.exp(rng.uniform(-1.5, 1.5, m)); sh0 = s*10.**rng.uniform(1, 2.5 if p == 1 else 1.5, m)*rng.choice([-1, 1], m)
	X = sh0 + s*rng.uniform(-1, 1, size = (M, m))
	ctx.info(m = m, degree = p, M = M); ctx.mix(X)
	b = ArnoldiPolynomialBasis(p, X)
	lo, hi = X.min(axis = 0), X.max(axis = 0); sh, sc = (lo + hi)/2, (hi - lo)/2
	idx = indices(m, p)
	A = leg(idx, X, sh, sc)
	if np.linalg.cond(A) > 1e3:
		ctx.trivial = True; return
	V = b.V()
	ctx.ok(np.max(np.abs(V.T.dot(V) - np.eye(N))) < 1e-5, 'orthonormal', 'columns are not orthonormal at the points')
	C = np.linalg.lstsq(A, V, rcond = None)[0]
	ctx.ok(np.max(np.abs(A.dot(C) - V)) < 1e-6, 'polynomials-of-degree')
	for Y in (sh + sc*rng.uniform(-1, 1, size = (M, m)), X + 10.**rng.uniform(-4, -1.5)*sc*rng.uniform(-1, 1, size = (M, m)), X[::-1]):
		want = leg(idx, Y, sh, sc).dot(C)
		ctx.ok(np.max(np.abs(b.V(Y) - want)) < 2e-6*(1 + np.max(np.abs(want))), 'far-V', 'values far from the origin')
		D = np.stack([leg(idx, Y, sh, sc, [int(k == q) for q in range(m)]).dot(C)/sc[k] for k in range(m)], axis = 2)
		ctx.ok(np.all(np.max(np.abs(b.DV(Y) - D), axis = (0, 1)) < 1e-5*(1 + np.max(np.abs(D), axis = (0, 1)))), 'far-DV', 'derivatives far from the origin')


def s_fit(ctx):
	rng = ctx.rng
	m, p, N, X, Y, kind = make(rng)
	ctx.info(m = m, degree = p, M = len(X), kind = kind); ctx.mix(X, Y)
	lo, hi = X.min(axis = 0), X.max(axis = 0); sh, sc = (lo + hi)/2, (hi - lo)/2
	idx = indices(m, p)
	A = leg(idx, X, sh, sc)
	if np.linalg.cond(A) > 1e5:
		ctx.trivial = True; return
	c = rng.randn(N); exact = rng.rand() < .5
	fX = A.dot(c) + (0 if exact else rng.randn(len(X)))
	X0, f0 = X.copy(), fX.copy()
	Q, H = vandermonde_arnoldi(X, p)
	M = len(X)
	ctx.ok(Q.shape == (M, N) and H.shape == (N + 1, N), 'shapes')
	ctx.ok(np.max(np.abs(Q.T.dot(Q)/M - np.eye(N))) < 1e-5, 'orthogonal', 'columns of the Vandermonde matrix are not orthogonal')
	C = np.linalg.lstsq(A, Q, rcond = None)[0]
	ctx.ok(np.max(np.abs(A.dot(C) - Q)) < 1e-6, 'polynomials-of-degree')
	ctx.ok(np.max(np.abs(np.tril(H, -2))) == 0 if N > 1 else True, 'hessenberg', 'second output not upper Hessenberg')
	d, H2 = polyfitA(X, fX, p)
	ctx.ok(np.asarray(d).shape == (N,), 'shapes')
	best = np.linalg.lstsq(A, fX, rcond = None)[0]
	want = leg(idx, Y, sh, sc).dot(best); s = 1 + np.max(np.abs(want)) + np.max(np.abs(fX))
	got = polyvalA(d, H2, Y)
	ctx.ok(np.shape(got) == (len(Y),) and np.max(np.abs(got - want)) < 1e-5*s, 'least-squares-fit', got = got, expected = want)
	ctx.ok(np.max(np.abs(polyvalA(d, H2, X) - A.dot(best))) < 1e-6*s, 'least-squares-fit')
	if exact:
		ctx.ok(np.max(np.abs(polyvalA(d, H2, X) - fX)) < 1e-6*s, 'reproduces')
	ctx.ok(np.max(np.abs(polyvalA(d.tolist(), H2.tolist(), Y[0].tolist()) - want[:1])) < 1e-5*s, 'single-list')
	ctx.ok(np.all(X == X0) and np.all(fX == f0), 'inputs-kept')


SCENARIOS = [
	{'name': 'basis', 'func': s_basis, 'n': (500, 6000), 'timeout': 30},
	{'name': 'far', 'func': s_far, 'n': (200, 3000), 'timeout': 30},
	{'name': 'fit', 'func': s_fit, 'n': (400, 4000), 'timeout': 30},
]
