"""quadrature rules and volumes"""
import numpy as np
import psdr
from math import gamma
from psdr.quadrature import gauss
from .. import gen

RULE = ('A case builds a Gauss rule on a random interval, or a box, polytope, ellipsoid, hull or product domain of known volume in dimension 1-4, and constructs tensor Gauss and '
	'Monte Carlo rules with random budgets; the monitor checks exactness on random polynomials against closed-form integrals, budgets, node placement, positivity and volumes '
	'(statistically at 6 sigma). Distinct: different rule.')
ASSUME = ['tensor Gauss rules restricted to a non-box domain are judged as a volume estimate to 25% (2-d, 20 nodes per axis) or 35% (3-d, 8 nodes per axis)']


def s_gauss(ctx):
	rng = ctx.rng
	N = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 30, 64]))
	a = rng.randn()*rng.choice([0., 1, 10]); b = a + np.exp(rng.uniform(-2, 3))
	kw = {} if rng.rand() < .1 else {'a': a, 'b': b}
	if not kw: a, b = 0., 1.
	ctx.info(N = N, a = a, b = b)
	x, w = gauss(N, **kw)
	ctx.ok(np.shape(x) == (N,) and np.shape(w) == (N,), 'shape')
	ctx.ok(np.all(np.diff(x) > 0) and np.all(x > a) and np.all(x < b), 'nodes-inside')
	ctx.ok(np.all(w > 0), 'weights-positive')
	ctx.close(np.sum(w), b - a, 'weights-sum', rtol = 1e-11)
	ref, wr = np.polynomial.legendre.leggauss(N)
	ctx.close(x, a + (b - a)*(ref + 1)/2, 'legendre-nodes', rtol = 1e-10, atol = 1e-10*(abs(a) + abs(b)))
	# exact up to degree 2N-1 (Legendre coefficients keep this well conditioned)
	c = rng.randn(2*N)
	t = 2*(x - a)/(b - a) - 1
	I = np.sum(w*np.polynomial.legendre.legval(t, c))
	ctx.close(I, c[0]*(b - a), 'exact-degree', rtol = 1e-9, atol = 1e-9*(b - a)*np.sum(np.abs(c)))
	c2 = np.zeros(2*N + 1); c2[-1] = 1
	if N <= 13: ctx.ok(abs(np.sum(w*np.polynomial.legendre.legval(t, c2))) > 1e-6*(b - a)*1e-2, 'not-degenerate')


def s_box(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4]))
	c, d = gen.affine(rng, m)
	lb, ub = c - d, c + d*rng.uniform(.4, 1.5, m)
	prod = m > 1 and rng.rand() < .3
	k = 1
	dom = psdr.BoxDomain(lb[:k], ub[:k])*psdr.BoxDomain(lb[k:], ub[k:]) if prod else psdr.BoxDomain(lb, ub)
	q0 = int(rng.choice([1, 2, 3, 4, 5]))
	N = int(q0**m + rng.randint(0, max(1, (q0 + 1)**m - q0**m)))
	method = rng.choice(['auto', 'gauss', 'gauss', 'montecarlo'])
	ctx.info(m = m, N = N, method = method, lb = lb, ub = ub, product = prod)
	X, w = dom.quadrature_rule(N, method = method) if method != 'auto' or rng.rand() < .5 else dom.quadrature_rule(N)
	X, w = np.asarray(X), np.asarray(w)
	vol = np.prod(ub - lb)
	ctx.ok(X.ndim == 2 and X.shape[1] == m and w.shape == (len(X),), 'shape', '%s %s' % (X.shape, w.shape))
	ctx.ok(1 <= len(X) <= N, 'budget', '%d nodes, at most %d allowed' % (len(X), N))
	ctx.ok(np.all(X >= lb - 1e-9*d) and np.all(X <= ub + 1e-9*d), 'nodes-inside')
	ctx.close(np.sum(w), vol, 'weights-sum', rtol = 1e-9)
	ctx.ok(np.all(w > 0), 'weights-positive')
	ctx.close(dom.volume(), vol, 'volume', rtol = 1e-9)
	q = 1
	while (q + 1)**m <= N: q += 1
	if q**m == N or (q + 1)**m == N: pass		# the exact root of N is decided by rounding
	gaussian = method == 'gauss' or (method == 'auto' and q > 1)
	if gaussian:
		n1 = int(round(len(X)**(1./m)))
		ctx.ok(n1**m == len(X) and n1 >= q - 1 and (n1 == q or any(abs(N**(1./m) - k) < 1e-9 for k in (q, q + 1))), 'uses-budget', '%d nodes per axis where %d are allowed' % (n1, q))
		t = 2*(X - lb)/(ub - lb) - 1
		for _ in range(3):
			cs = [rng.randn(2*n1) for _ in range(m)]
			f = np.prod([np.polynomial.legendre.legval(t[:, j], cs[j]) for j in range(m)], axis = 0)
			I = vol*np.prod([cc[0] for cc in cs])
			sc = vol*np.prod([np.sum(np.abs(cc)) for cc in cs])
			ctx.ok(abs(np.sum(w*f) - I) <= 1e-9*sc, 'exact-polynomial', 'rule %.12g, integral %.12g' % (np.sum(w*f), I))
	else:
		ctx.ok(len(X) == N, 'montecarlo-size')
		ctx.close(w, np.ones(len(w))*vol/N, 'montecarlo-weights', rtol = 1e-9)


def known_volume(rng):
	m = int(rng.choice([2, 2, 3]))
	c, d = gen.affine(rng, m)
	kind = rng.choice(['simplex', 'halfbox', 'ellipsoid', 'hull', 'product', 'ball-box'])
	if kind == 'simplex':
		A = np.vstack([-np.diag(1/d), 1/d]); b = np.hstack([-c/d, 1 + np.sum(c/d)])
		dom = psdr.LinIneqDomain(A = A, b = b, lb = c, ub = c + d)
		vol = np.prod(d)/{2: 2., 3: 6.}[m]
	elif kind == 'halfbox':
		a = rng.randn(m)/d
		dom = psdr.LinIneqDomain(lb = c - d, ub = c + d, A = [a], b = [a.dot(c)])
		vol = np.prod(2*d)/2
	elif kind == 'ellipsoid':
		L = np.linalg.qr(rng.randn(m, m))[0]/d*rng.uniform(.5, 2)
		dom = psdr.LinQuadDomain(Ls = [L], ys = [c], rhos = [1.])
		vol = {2: np.pi, 3: 4*np.pi/3}[m]/abs(np.linalg.det(L))
	elif kind == 'hull':
		V = c + np.vstack([np.zeros(m), np.diag(d)])
		dom = psdr.ConvexHullDomain(V)
		vol = np.prod(d)/{2: 2., 3: 6.}[m]
	elif kind == 'product':
		a = rng.randn(m)/d
		dom = psdr.LinIneqDomain(lb = c - d, ub = c + d, A = [a], b = [a.dot(c)])*psdr.BoxDomain([1.], [3.])
		vol = np.prod(2*d); m += 1
	else:
		dom = psdr.LinQuadDomain(lb = c - 2*d, ub = c + 2*d, Ls = [np.diag(1/d)], ys = [c], rhos = [1.])
		vol = {2: np.pi, 3: 4*np.pi/3}[m]*np.prod(d)
	return kind, m, dom, vol


def s_volume(ctx):
	rng = ctx.rng
	kind, m, dom, vol = known_volume(rng)
	ctx.info(kind = kind, m = m, vol = vol)
	box = np.prod(np.asarray(dom.norm_ub) - np.asarray(dom.norm_lb))
	p = vol/box
	v = dom.volume()
	n = 1e4
	ctx.ok(abs(v - vol) <= 6.5*box*np.sqrt(p*(1 - p)/n) + 1e-3*vol, 'volume-estimate', 'volume %.6g, exact %.6g' % (v, vol))
	N = int(rng.choice([1, 30]))
	if kind != 'hull' or m < 3:
		X, w = dom.quadrature_rule(N, method = 'montecarlo')
		ctx.ok(len(X) == N and np.all(dom.isinside(X)), 'montecarlo-inside')
		ctx.close(np.sum(w), v, 'montecarlo-sum', rtol = 1e-9)
	q = 20 if m == 2 else 8
	X, w = dom.quadrature_rule(q**m + 1, method = 'gauss')
	ctx.ok(len(X) <= q**m + 1, 'budget', '%d nodes' % len(X))
	ctx.ok(np.all(dom.isinside(X)) and np.all(w > 0), 'gauss-inside')
	ctx.ok(abs(np.sum(w) - vol) <= (.25 if m == 2 else .35)*vol, 'gauss-volume', 'weights sum to %.6g, volume %.6g' % (np.sum(w), vol))


def s_point(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 4]))
	x = rng.randn(m)
	ctx.info(x = x)
	X, w = psdr.PointDomain(x).quadrature_rule(int(rng.choice([1, 10])))
	ctx.ok(np.shape(X) == (1, m) and np.allclose(X, x) and np.shape(w) == (1,) and w[0] == 1, 'point-rule')
	ctx.raises(NotImplementedError, 'truncated-normal', psdr.NormalDomain(x, truncate = .1).quadrature_rule, 10)


SCENARIOS = [
	{'name': 'gauss', 'func': s_gauss, 'n': (200, 1500), 'timeout': 30},
	{'name': 'box', 'func': s_box, 'n': (300, 3000), 'timeout': 60},
	{'name': 'volume', 'func': s_volume, 'n': (60, 500), 'timeout': 120},
	{'name': 'point', 'func': s_point, 'n': (10, 50), 'timeout': 30},
]
