"""points drawn from a domain: always inside, right shape, spread over the whole domain"""
import itertools
import numpy as np
import psdr
from scipy.stats import kstest
from .. import gen
from ..core import Skip
from .c01 import verdict
from .c02 import feas_tol

RULE = ('A case builds a random domain (all kinds, products, intersections, dimension 1-6) and draws samples, grids, boundary points and feasible directions; the monitor checks '
	'shape, membership, that grids are exactly the grid points inside, that boundary points are extreme, and (statistically, at level 1e-7) spread and uniformity. '
	'Distinct: different generated domain.')
ASSUME = ['statistical verdicts use thresholds which a correct sampler fails with probability below 1e-7 per case']


def s_sample(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	B = gen.null_basis(d.ref)
	draw = int(rng.choice([1, 2, 5, 40]))
	ctx.info(kind = d.kind, m = d.m, x = d.x, draw = draw)
	e = np.asarray(d.dom.sample(0))
	ctx.ok(e.shape == (0, d.m), 'shape-0', '%s' % (e.shape,))
	x = np.asarray(d.dom.sample())
	ctx.ok(x.shape == (d.m,), 'shape-1', '%s' % (x.shape,))
	X = np.asarray(d.dom.sample(draw))
	ctx.ok(X.shape == ((d.m,) if draw == 1 else (draw, d.m)), 'shape', '%s' % (X.shape,))
	X = np.vstack([x, X.reshape(-1, d.m)])
	for x in X:
		ctx.ok(d.ref.viol(x) <= feas_tol(d, x), 'sample-inside', 'sample violates the constraints by %.3g' % d.ref.viol(x), x = x)
	if B.shape[1] and draw >= 5:
		D = np.max(np.abs(X[:, None] - X[None]), axis = 2)
		k = np.sum(np.triu(D < 1e-9*d.span, 1))
		ctx.ok(k == 0, 'samples-distinct', '%d pairs of %d samples coincide' % (k, len(X)))


def s_spread(ctx):
	"""the samples reach over the domain in every direction it extends to"""
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3, 4]))
	d = gen.any_domain(rng, m)
	B = gen.null_basis(d.ref)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	if B.shape[1] == 0:
		ctx.trivial = True
		return
	n = 90
	X = np.asarray(d.dom.sample(n))
	for k in range(3):
		p = B.dot(rng.randn(B.shape[1])); p /= np.linalg.norm(p)
		a, b = d.ref.support(p), d.ref.support(-p)
		if a is None or b is None: continue
		w = p.dot(a - b)
		if w < 1e-3*d.span: continue
		v = X.dot(p)
		if 'normal' in d.kind: w = min(w, 8*np.std(v) + 1e-2*w)
		ctx.ok(v.max() - v.min() >= 0.15*w, 'spread', '%d samples extend over %.3g of the width %.3g of the domain' % (n, v.max() - v.min(), w), p = p)
		# around both sides of the sample-independent center
		c = 0.5*p.dot(a + b)
		ctx.count('widths')


def s_uniform(ctx):
	rng = ctx.rng
	kind = rng.choice(['box', 'uniform', 'segment', 'product', 'simplex', 'random-sampler'])
	n = 1500
	m = int(rng.choice([1, 2, 3]))
	ctx.info(kind = kind, m = m)
	c, dd = gen.affine(rng, m)
	lb, ub = c - dd, c + dd*rng.uniform(.5, 2, m)
	if kind in ('box', 'uniform'):
		X = (psdr.BoxDomain if kind == 'box' else psdr.UniformDomain)(lb, ub).sample(n)
	elif kind == 'product':
		X = (psdr.BoxDomain(lb[:1], ub[:1])*psdr.BoxDomain(lb, ub)).sample(n)
		lb, ub = np.hstack([lb[:1], lb]), np.hstack([ub[:1], ub])
	elif kind == 'segment':
		X = psdr.ConvexHullDomain([lb, ub]).sample(n)
		t = (X - lb).dot(ub - lb)/np.sum((ub - lb)**2)
		ctx.ok(kstest(t, 'uniform').pvalue > 1e-8, 'uniform-segment')
		return
	elif kind == 'simplex':
		from psdr.geometry import sample_simplex
		X = np.asarray(sample_simplex(m, n))
		ctx.ok(X.shape == (n, m) and np.all(X >= 0) and np.allclose(X.sum(axis = 1), 1), 'simplex-weights')
		for j in range(m if m > 1 else 0):
			# marginals of the uniform distribution on the simplex are Beta(1,m-1)
			ctx.ok(kstest(X[:, j], 'beta', args = (1, m - 1)).pvalue > 1e-8, 'uniform-simplex')
		return
	else:
		dom = psdr.BoxDomain(lb, ub)
		X = np.asarray(psdr.random_sample(dom, n))
		ctx.ok(X.shape == (n, m), 'shape')
	X = np.asarray(X).reshape(n, -1)
	U = (X - lb)/(ub - lb)
	for j in range(U.shape[1]):
		ctx.ok(kstest(U[:, j], 'uniform').pvalue > 1e-8, 'uniform', 'coordinate %d is not uniformly distributed' % j)
	for j in range(U.shape[1] - 1):
		r = np.corrcoef(U[:, j], U[:, j + 1])[0, 1]
		ctx.ok(abs(r) < 6/np.sqrt(n), 'independent', 'coordinates %d and %d have correlation %.3g' % (j, j + 1, r))


def s_grid(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3]))
	base = [gen.box, lambda r, k: gen.linineq(r, k, eq = False, bounded_by = 'box'), lambda r, k: gen.linquad(r, k, box_ = True, eq = False)][rng.randint(3)](rng, m)
	if rng.rand() < .3:
		b2 = gen.box(rng, 1)
		base = gen.D('tensor', base.dom*b2.dom, base.ref.prod(b2.ref), np.hstack([base.x, b2.x]), max(base.span, b2.span))
	d = base
	n = int(rng.choice([2, 3, 5]))
	ctx.info(kind = d.kind, m = d.m, n = n, x = d.x)
	X = np.asarray(d.dom.sample_grid(n))
	ctx.ok(X.ndim == 2 and X.shape[1] == d.m, 'shape')
	G = np.array(list(itertools.product(*[np.linspace(l, u, n) for l, u in zip(d.ref.lb, d.ref.ub)])))
	used = np.zeros(len(X), dtype = bool)
	for g in G:
		j = [i for i in range(len(X)) if np.max(np.abs(X[i] - g)) < 1e-9*(d.span + np.max(np.abs(g)))]
		v = verdict(d.ref, g)
		if v is True: ctx.ok(len(j) == 1, 'grid-complete', 'a grid point inside the domain appears %d times' % len(j), g = g)
		elif v is False: ctx.ok(len(j) == 0, 'grid-inside', 'a grid point outside the domain is included', g = g)
		used[j] = True
	ctx.ok(np.all(used), 'grid-only', 'points which are not on the grid: %s' % X[~used][:3])


def s_boundary(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng, int(rng.choice([1, 2, 3, 4])))
	n = int(rng.choice([1, 2, 6]))
	ctx.info(kind = d.kind, m = d.m, n = n, x = d.x)
	B = gen.null_basis(d.ref)
	if B.shape[1] == 0:
		ctx.trivial = True
		return
	X = np.asarray(d.dom.sample_boundary(n))
	ctx.ok(X.shape == ((d.m,) if n == 1 else (n, d.m)), 'shape', '%s' % (X.shape,))
	for x in X.reshape(-1, d.m):
		ctx.ok(d.ref.viol(x) <= feas_tol(d, x), 'boundary-inside', 'violates the constraints by %.3g' % d.ref.viol(x), x = x)
		q = B.dot(B.T.dot(x - d.x))
		if np.linalg.norm(q) < 1e-3*d.span: continue
		e = d.ref.extent(d.x, q)
		if e is not None:
			ctx.ok(e <= 1 + 1e-3, 'on-boundary', 'the domain extends beyond the point by a factor of %.5g' % e, x = x)


def s_direction(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	B = gen.null_basis(d.ref)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	if B.shape[1] == 0:
		ctx.trivial = True
		return
	X = gen.feasible_points(rng, d, 2)
	for k, x in enumerate(X):
		p = np.asarray(d.dom.random_direction(x))
		ctx.ok(p.shape == (d.m,) and np.linalg.norm(p) > 0, 'shape', '%s' % p)
		q = p - B.dot(B.T.dot(p))
		ctx.ok(np.linalg.norm(q) <= 1e-6*np.linalg.norm(p), 'tangential', 'the direction leaves the affine hull of the domain', p = p)
		e = d.ref.extent(x, B.dot(B.T.dot(p)))
		if e is not None: ctx.ok(e > 0, 'feasible-direction', 'one cannot move in the direction', x = x, p = p)


def s_vertex(ctx):
	"""directions from vertices and faces, where few directions stay inside"""
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4, 5])); c = rng.randn(m)*rng.choice([0., 1., 100.]); w = 10.**rng.uniform(-2, 2, m)
	lb, ub = c - w, c + w
	kind = str(rng.choice(['box', 'lin', 'quad', 'tensor', 'eq', 'flat', 'fixed'])) if m > 1 else str(rng.choice(['box', 'lin']))
	x = np.where(rng.rand(m) < .7, np.where(rng.rand(m) < .5, lb, ub), c)
	A = np.zeros((0, m)); E = np.zeros((0, m))
	if kind == 'box': dom = psdr.BoxDomain(lb, ub)
	elif kind == 'lin':
		A = rng.randn(2, m)/w; dom = psdr.LinIneqDomain(A = A, b = A.dot(x), lb = lb, ub = ub)		# active at x
		if not np.all(A.dot(x) <= dom.b): raise Skip('rounding')
		# some direction must stay inside
		on = np.vstack([A, (np.eye(m)[x == ub]).reshape(-1, m), (-np.eye(m)[x == lb]).reshape(-1, m)])
		if np.mean(np.all(np.random.RandomState(m).randn(4000, m).dot(on.T) < 0, axis = 1)) < .01: raise Skip('narrow cone')
	elif kind == 'quad': dom = psdr.LinQuadDomain(lb = lb, ub = ub, Ls = [np.diag(1/w)], ys = [c], rhos = [2.*np.sqrt(m)])
	elif kind == 'tensor': k = int(rng.randint(1, m)); dom = psdr.TensorProductDomain([psdr.BoxDomain(lb[:k], ub[:k]), psdr.BoxDomain(lb[k:], ub[k:])])
	elif kind == 'flat':
		# points on a line, next to a box: the hull is flat although there is no equality constraint
		v = rng.randn(2)*w[:2]; lb, ub = np.r_[c[:2] - 100*w[:2], lb[2:]], np.r_[c[:2] + 100*w[:2], ub[2:]]
		x[:2] = c[:2]; E = np.zeros((1, m)); E[0, :2] = -v[1]*w[0], v[0]*w[0]
		hull = psdr.ConvexHullDomain([c[:2] - v, c[:2] + .3*v, c[:2] + v])
		dom = hull if m == 2 else psdr.TensorProductDomain([hull, psdr.BoxDomain(lb[2:], ub[2:])])
	elif kind == 'fixed':
		# a bound leaves a single value for a coordinate
		x = c.copy(); l, u = lb.copy(), ub.copy(); l[0] = u[0] = c[0]; E = np.zeros((1, m)); E[0, 0] = 1.
		dom = psdr.ConvexHullDomain(c + w*np.array(list(itertools.product([-1.5, 1.5], repeat = m)))).add_constraints(lb = l, ub = u)
	else:
		E = np.zeros((1, m)); E[0, :2] = 1/w[:2]; x[:2] = [lb[0], ub[1]]; dom = psdr.BoxDomain(lb, ub).add_constraints(A_eq = E, b_eq = E.dot(x))
	ctx.info(kind = kind, m = m, vertex = int(np.sum((x == lb) | (x == ub)))); ctx.mix(lb, ub, x, A)
	if not dom.isinside(x): raise Skip('rounding')
	for i in range(12):
		p = np.asarray(dom.random_direction(x if rng.rand() < .7 else list(x)))
		if not ctx.ok(p.shape == (m,) and np.linalg.norm(p) > 0, 'shape'): return
		t = 1e-9*np.linalg.norm(p)
		ctx.ok(np.all(p[x == lb] >= -t) and np.all(p[x == ub] <= t) and np.all(A.dot(p) <= t*np.max(np.abs(A), initial = 0)*m), 'feasible-direction', 'one cannot move in the direction', x = x, p = p)
		if len(E): ctx.ok(abs(E.dot(p)[0]) <= 1e-9*np.linalg.norm(E)*np.linalg.norm(p), 'tangential', p = p)


SCENARIOS = [
	{'name': 'vertex', 'func': s_vertex, 'n': (200, 2500), 'timeout': 60},
	{'name': 'sample', 'func': s_sample, 'n': (160, 2400), 'timeout': 120},
	{'name': 'spread', 'func': s_spread, 'n': (24, 240), 'timeout': 240},
	{'name': 'uniform', 'func': s_uniform, 'n': (60, 400), 'timeout': 60},
	{'name': 'grid', 'func': s_grid, 'n': (80, 800), 'timeout': 60},
	{'name': 'boundary', 'func': s_boundary, 'n': (80, 1000), 'timeout': 60},
	{'name': 'direction', 'func': s_direction, 'n': (160, 2000), 'timeout': 60},
]
