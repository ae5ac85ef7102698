"""polynomial ridge functions: value, gradient, Hessian and profile"""
import numpy as np
import psdr
from psdr import PolynomialRidgeFunction
from .c09 import value, make

RULE = ('A case builds a polynomial ridge function from one of the five bases (1-4 ridge directions, degree 0-8, scaled or not), random coefficients and directions (orthonormal or not, 1-8 inputs) and evaluates it at batches and single points; '
	'the monitor expands the profile and its derivatives independently as products of one-dimensional polynomials, and applies the chain rule. Distinct: different basis, coefficients, directions and points.')
ASSUME = []


def same(ctx, got, want, clause, msg = ''):
	got = np.asarray(got, dtype = float)
	if got.size == want.size: got = got.reshape(want.shape)
	s = np.max(np.abs(want)) + 1e-300
	return ctx.ok(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-8*s), clause, msg, got = got, expected = want)


def s_values(ctx):
	rng = ctx.rng
	name, n, p, how, b, Xb, sh, sc, Y = make(rng)
	m = n + int(rng.randint(0, 5))
	U = np.linalg.qr(rng.randn(m, n))[0]
	orthonormal = rng.rand() < .7
	if not orthonormal: U = rng.randn(m, n)*np.exp(rng.uniform(-1, 1, n))
	# points whose ridge coordinates are the ones wanted
	X = Y.dot(np.linalg.pinv(U)) + rng.randn(len(Y), m).dot(np.eye(m) - U.dot(np.linalg.pinv(U)))
	Y = X.dot(U)
	idx = np.asarray(b.indices)
	Z = (Y - sh)/sc
	c = rng.randn(len(b))*10.**rng.uniform(-2, 2)
	if rng.rand() < .3: c[rng.rand(len(b)) < .5] = 0
	if not np.any(c): c[0] = 1.
	ctx.info(basis = name, n = n, m = m, degree = p, how = how, orthonormal = orthonormal); ctx.mix(X, U, c)
	V = value(name, idx, Z, [0]*n)
	D = np.stack([value(name, idx, Z, [int(q == k) for q in range(n)])/sc[k] for k in range(n)], axis = 2)
	DD = np.zeros((len(Y), len(b), n, n))
	for k in range(n):
		for l in range(n): DD[:, :, k, l] = value(name, idx, Z, [int(q == k) + int(q == l) for q in range(n)])/sc[k]/sc[l]
	val = V.dot(c)
	gr = np.einsum('ijk,j,mk->im', D, c, U)
	he = np.einsum('ijkl,j,mk,nl->imn', DD, c, U, U)
	cin, Uin, X0 = c.copy(), U.copy(), X.copy()
	f = PolynomialRidgeFunction(b, cin, Uin)
	if rng.rand() < .5: cin[:] = np.nan; Uin[:] = np.nan
	# a scale below which a polynomial sum is lost to cancellation
	big = np.max(np.abs(V).dot(np.abs(c)))
	sv = val + 0*big
	def close(got, want, ref, clause):
		got = np.asarray(got, dtype = float)
		if got.size == want.size: got = got.reshape(want.shape)
		ctx.ok(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-9*ref), clause, got = got, expected = want)
	bg = np.max(np.einsum('ijk,j,mk->im', np.abs(D), np.abs(c), np.abs(U))) + 1e-300
	bh = np.max(np.einsum('ijkl,j,mk,nl->imn', np.abs(DD), np.abs(c), np.abs(U), np.abs(U))) + 1e-300
	k = rng.permutation(7)
	for q in k:
		if q == 0: close(f.eval(X), sv, big, 'eval'); close(f(X), sv, big, 'call'); close(f.predict(X), sv, big, 'predict')
		if q == 1: close(f.grad(X), gr, bg, 'grad')
		if q == 2: close(f.hessian(X), he, bh, 'hessian')
		if q == 3:
			i = rng.randint(len(X))
			close(f.eval(X[i]), sv[i:i + 1], big, 'eval-single'); close(f.grad(X[i]), gr[i], bg, 'grad-single'); close(f.hessian(X[i]), he[i], bh, 'hessian-single')
			ctx.ok(np.shape(f.grad(X[i])) == (m,) and np.shape(f.hessian(X[i])) == (m, m) and np.shape(f.grad(X)) == X.shape and np.shape(f.hessian(X)) == (len(X), m, m) and np.shape(f.eval(X)) == (len(X),), 'shapes')
		if q == 4:
			a, g = f(X, return_grad = True)
			close(a, sv, big, 'call-grad'); close(g, gr, bg, 'call-grad')
			close(f.eval(X.tolist()), sv, big, 'lists'); close(f.grad(X.tolist()), gr, bg, 'lists'); close(f.hessian(X[:2].tolist()), he[:2], bh, 'lists')
		if q == 6:
			# the caller's array filled again: answers depend on its present contents
			B = np.array(X[::-1]); f.eval(B); f.grad(B); f.hessian(B); f(B); B[:] = X
			close(f.eval(B), sv, big, 'buffer-reused'); close(f.grad(B), gr, bg, 'buffer-reused'); close(f.hessian(B), he, bh, 'buffer-reused'); close(f(B), sv, big, 'buffer-reused')
			c0 = np.array(f.coef); f.coef = 2*c0; close(f.eval(B), 2*sv, 2*big, 'coefficients-changed'); f.coef = c0
		if q == 5:
			close(f.profile(Y), sv, big, 'profile')
			close(f.profile.grad(Y), np.einsum('ijk,j->ik', D, c), np.max(np.einsum('ijk,j->ik', np.abs(D), np.abs(c))) + 1e-300, 'profile-grad')
			bv = np.max(np.abs(V)); close(f.V(X), V, bv, 'V'); close(f.DV(X), D, np.max(np.abs(D)) + 1e-300, 'DV'); close(f.DDV(X), DD, np.max(np.abs(DD)) + 1e-300, 'DDV')
			W = np.linalg.qr(rng.randn(m, n))[0]
			X2 = Y.dot(W.T)
			close(f.V(X2, W), V, bv, 'V-other-subspace')
	if orthonormal:
		# constant across the orthogonal complement
		P = X + 3*rng.randn(*X.shape).dot(np.eye(m) - U.dot(U.T))
		close(f.eval(P), sv, big, 'ridge-constant')
	ctx.ok(np.all(f.U == U) and np.all(X == X0), 'state-kept')


SCENARIOS = [
	{'name': 'values', 'func': s_values, 'n': (600, 10000), 'timeout': 30},
]
