"""tensor product polynomial bases: values, products, derivatives, roots"""
import numpy as np
import psdr
from math import comb
from numpy.polynomial import polynomial as P, legendre as L, chebyshev as C, laguerre as G, hermite as H
from psdr.basis import MonomialTensorBasis, LegendreTensorBasis, ChebyshevTensorBasis, LaguerreTensorBasis, HermiteTensorBasis

RULE = ('A case builds one of the five tensor bases (dimension 1-4, total degree 0-8, unscaled or scaled to random, possibly degenerate, data) and evaluates it at random points; the '
	'monitor evaluates every basis element independently as a product of one-dimensional polynomials and their exact derivatives. Distinct: different basis, degree and data.')
ASSUME = ['points are real floating point arrays']
BASES = {'monomial': (MonomialTensorBasis, P.polyval, P.polyder), 'legendre': (LegendreTensorBasis, L.legval, L.legder), 'chebyshev': (ChebyshevTensorBasis, C.chebval, C.chebder),
	'laguerre': (LaguerreTensorBasis, G.lagval, G.lagder), 'hermite': (HermiteTensorBasis, H.hermval, H.hermder)}


def make(rng):
	name = rng.choice(list(BASES))
	m = int(rng.choice([1, 2, 2, 3, 4]))
	p = int(rng.randint(0, {1: 9, 2: 6, 3: 5, 4: 4}[m]))
	c = rng.choice([0., 1, 30])*rng.randn(m); s = np.exp(rng.uniform(-2, 2, m))
	how = rng.choice(['dim', 'X', 'X', 'flat', 'set_scale'])
	X = c + s*rng.randn(int(rng.choice([2, 5, 30])), m)
	if how == 'flat': X[:, rng.randint(m)] = c[0]
	cls = BASES[name][0]
	if how == 'dim':
		b = cls(p, dim = m); sh, sc = np.zeros(m), np.ones(m); Y = rng.uniform(-1.5, 1.5, size = (9, m))
	else:
		if how == 'set_scale':
			b = cls(p, dim = m); b.set_scale(X)
		else: b = cls(p, X = X)
		if name == 'hermite':
			sh, sc = X.mean(axis = 0), X.std(axis = 0); sc = np.where(X.min(axis = 0) == X.max(axis = 0), 1., sc)*np.sqrt(2)
		else:
			lo, hi = X.min(axis = 0), X.max(axis = 0)
			sh, sc = 0.5*(lo + hi), np.where(hi > lo, 0.5*(hi - lo), 1.)
		Y = sh + sc*rng.uniform(-1.3, 1.3, size = (9, m))
	return name, m, p, how, b, X, sh, sc, Y


def value(name, idx, Z, der):
	"""product over coordinates of the der[q]-th derivative of the alpha_q-th polynomial"""
	_, val, dv = BASES[name]
	out = np.ones((len(Z), len(idx)))
	for j, al in enumerate(idx):
		for q, a in enumerate(al):
			e = np.zeros(int(a) + 1); e[-1] = 1.
			for _ in range(der[q]): e = dv(e) if len(e) > 1 else np.zeros(1)
			out[:, j] *= val(Z[:, q], e)
	return out


def same(ctx, got, want, clause, msg = ''):
	got = np.asarray(got)
	s = 1 + np.max(np.abs(want)) if want.size else 1.
	return ctx.ok(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-9*np.abs(want) + 1e-10*s), clause, msg, got = got, expected = want)


def s_values(ctx):
	rng = ctx.rng
	name, m, p, how, b, X, sh, sc, Y = make(rng)
	ctx.info(basis = name, m = m, degree = p, how = how); ctx.mix(X, Y)
	idx = np.asarray(b.indices)
	ctx.ok(len(b) == comb(m + p, p) and idx.shape == (len(b), m), 'dimension', 'len %d, dimension of the polynomials of degree %d in %d variables is %d' % (len(b), p, m, comb(m + p, p)))
	ctx.ok(len({tuple(i) for i in idx}) == len(idx) and np.all(idx >= 0) and np.all(idx.sum(axis = 1) <= p), 'indices', 'multi-indices %s' % idx)
	Z = (Y - sh)/sc
	want = value(name, idx, Z, [0]*m)
	Y0 = Y.copy()
	V = b.V(Y)
	same(ctx, V, want, 'V', 'values of the basis')
	c = rng.randn(len(b)); c[rng.rand(len(b)) < .2] = 0
	same(ctx, b.VC(Y, c), want.dot(c), 'VC', 'product with coefficients')
	C2 = rng.randn(len(b), 3)
	if rng.rand() < .5: C2[:, rng.randint(3)] = 0
	else: C2[rng.rand(*C2.shape) < .4] = 0
	same(ctx, b.VC(Y, C2), want.dot(C2), 'VC-matrix', 'product with coefficients')
	same(ctx, b.V(Y[0]), want[:1], 'V-single')
	if how in ('X', 'flat'):
		same(ctx, b.V(), value(name, idx, (X - sh)/sc, [0]*m), 'V-default', 'values at the points which defined the basis')
	D = np.stack([value(name, idx, Z, [int(q == k) for q in range(m)])/sc[k] for k in range(m)], axis = 2)
	same(ctx, b.DV(Y), D, 'DV', 'first derivatives')
	DD = np.zeros((len(Y), len(b), m, m))
	for k in range(m):
		for l in range(m):
			DD[:, :, k, l] = value(name, idx, Z, [int(q == k) + int(q == l) for q in range(m)])/sc[k]/sc[l]
	same(ctx, b.DDV(Y), DD, 'DDV', 'second derivatives')
	ctx.ok(np.all(Y == Y0), 'inputs-kept')
	f = psdr.PolynomialFunction(b, c)
	same(ctx, f(Y), want.dot(c), 'function')
	same(ctx, f.grad(Y), np.einsum('ijk,j->ik', D, c), 'function-grad')
	same(ctx, f.grad(Y[1]), np.einsum('ijk,j->ik', D, c)[1], 'function-grad')
	same(ctx, f.hessian(Y), np.einsum('ijkl,j->ikl', DD, c), 'function-hessian')
	same(ctx, f.hessian(Y[1]), np.einsum('ijkl,j->ikl', DD, c)[1], 'function-hessian')
	same(ctx, np.asarray(f.eval(Y[2])).reshape(1), want.dot(c)[2:3], 'function')


def s_roots(ctx):
	rng = ctx.rng
	name = rng.choice(list(BASES))
	p = int(rng.randint(1, 7))
	cls = BASES[name][0]
	how = rng.choice(['dim', 'X', 'flat'])
	c, s = rng.randn()*rng.choice([0, 1., 5]), np.exp(rng.uniform(-1, 1))
	if how == 'dim': b = cls(p, dim = 1); c, s = 0., 1.
	elif how == 'X': b = cls(p, X = c + s*rng.randn(12, 1))
	else: b = cls(p, X = c*np.ones((4, 1)))
	r = np.sort(c + s*np.cumsum(rng.uniform(.25, .8, p)) - .5*s*p*.5)
	ctx.info(basis = name, degree = p, how = how, roots = r)
	T = np.linspace(r[0] - s, r[-1] + s, 4*p + 5).reshape(-1, 1)
	y = np.prod((T - r)/s, axis = 1)
	coef = np.linalg.lstsq(b.V(T), y, rcond = None)[0]
	got = np.asarray(b.roots(coef))
	ctx.ok(got.shape == (p,), 'root-count', '%s' % (got.shape,))
	ctx.ok(np.max(np.abs(np.sort_complex(got.astype(complex)) - r)) <= 1e-3*s, 'roots', 'roots %s, expected %s' % (got, r))
	f = psdr.PolynomialFunction(b, coef)
	ctx.ok(np.max(np.abs(np.sort_complex(np.asarray(f.roots()).astype(complex)) - r)) <= 1e-3*s, 'roots')
	ctx.raises(NotImplementedError, 'multivariate-roots', cls(p, dim = 2).roots, np.ones(3))


SCENARIOS = [
	{'name': 'values', 'func': s_values, 'n': (500, 8000), 'timeout': 30},
	{'name': 'roots', 'func': s_roots, 'n': (200, 2000), 'timeout': 30},
]
