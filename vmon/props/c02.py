"""closest_point and constrained_least_squares are minimisers over the domain"""
import numpy as np
import psdr
from psdr.exceptions import EmptyDomainException, UnboundedDomainException
from .. import gen
from ..core import Skip

RULE = ('A case builds a random domain (all kinds, products, intersections, dimension 1-6) and projects random points inside, near and far with no or a random '
	'weight, or solves random over-/under-determined least squares problems over it; the monitor checks feasibility against the constraints, and optimality '
	'against an independent conic solve and random feasible competitors. Distinct: different generated domain and data.')
ASSUME = ['feasibility is demanded up to 1e-5 times the size of the domain, optimality up to 2e-4 relative', 'a solver failure (SolverError) is no verdict; a scenario with mostly solver failures is a violation']
FEAS, OPT = 2e-5, 2e-4


def feas_tol(d, x):
	"""violation allowed, per constraint's own units"""
	g = [1.]
	if len(d.ref.A): g.append(np.max(np.linalg.norm(d.ref.A, axis = 1)))
	if len(d.ref.Aeq): g.append(np.max(np.linalg.norm(d.ref.Aeq, axis = 1)))
	for L, _, _ in d.ref.quads: g.append(np.linalg.norm(L, 2))
	return FEAS*max(1., d.span)*max(g) + 1e-9*np.max(np.abs(x))


def judge(ctx, d, f, x, xs, scale, what):
	"""x: psdr's answer, xs: competitor points"""
	if not ctx.ok(np.asarray(x).shape == (d.m,) and np.all(np.isfinite(x)), 'shape', 'answer %s' % (x,)): return
	v = d.ref.viol(x)
	ctx.ok(v <= feas_tol(d, x), what + '-feasible', 'answer violates the constraints by %.3g' % v, x = x)
	fx = f(x)
	for y in xs:
		if y is None or d.ref.viol(y) > 1e-7*max(1, d.span): continue
		ctx.ok(fx <= f(y) + OPT*scale, what + '-optimal', 'objective %.10g, but a point of the domain has %.10g' % (fx, f(y)), x = x, better = y)


def s_closest(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng) if rng.rand() < .85 else gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	X = gen.feasible_points(rng, d, 6)
	dist = d.span*rng.choice([0.1, 1., 1., 10.])
	p = rng.randn(d.m)
	x0 = d.x + dist*p/np.linalg.norm(p)
	how = rng.choice(['none', 'none', 'square', 'tall', 'wide', 'diag'])
	L = {'none': None, 'square': rng.randn(d.m, d.m) + np.eye(d.m), 'tall': rng.randn(d.m + 2, d.m), 'wide': rng.randn(rng.randint(1, d.m + 1), d.m), 'diag': np.diag(np.exp(rng.uniform(-2, 2, d.m)))}[how]
	ctx.info(kind = d.kind, m = d.m, L = how, x0 = x0)
	ctx.trivial = d.ref.viol(x0) <= 0
	kw = {} if L is None else {'L': L}
	x = d.dom.closest_point(x0, **kw)
	M = np.eye(d.m) if L is None else L
	f = lambda y: np.linalg.norm(M.dot(y - x0))
	scale = np.linalg.norm(M, 2)*(d.span + dist)*0.5
	judge(ctx, d, f, x, list(X) + [d.ref.closest(x0, L)], scale, 'closest')
	# a point inside is its own closest point
	y = d.dom.closest_point(X[0], **kw)
	ctx.ok(np.linalg.norm(M.dot(y - X[0])) <= OPT*scale, 'inside-fixed', 'a point of the domain was moved', x = X[0], got = y)
	if L is None:
		ctx.close(y, X[0], 'inside-fixed', rtol = 1e-6, atol = 1e-5*d.span)
		# projections do not increase distances
		x02 = x0 + 0.3*d.span*rng.randn(d.m)
		x2 = d.dom.closest_point(x02)
		ctx.ok(np.linalg.norm(x2 - x) <= np.linalg.norm(x02 - x0) + 3e-3*d.span, 'nonexpansive', 'projections %.6g apart, points %.6g' % (np.linalg.norm(x2 - x), np.linalg.norm(x02 - x0)))
	# data in list form gives the same answer
	if rng.rand() < .3:
		x3 = d.dom.closest_point(list(x0), **({} if L is None else {'L': L.tolist()}))
		ctx.ok(abs(f(x3) - f(x)) <= OPT*scale, 'list-form')


def s_lstsq(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng) if rng.rand() < .85 else gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	n = int(rng.choice([1, max(1, d.m - 1), d.m, d.m + 1, 3*d.m]))
	A = rng.randn(n, d.m)*np.exp(rng.uniform(-2, 2))
	if rng.rand() < .2: A[:, rng.randint(d.m)] = 0
	xt = d.x + d.span*rng.choice([0.05, 1., 5.])*rng.randn(d.m)
	b = A.dot(xt) + rng.choice([0, 1.])*rng.randn(n)*np.linalg.norm(A)*d.span*0.3
	ctx.info(kind = d.kind, m = d.m, n = n, b = b)
	x = d.dom.constrained_least_squares(A, b)
	f = lambda y: np.linalg.norm(A.dot(y) - b)
	X = gen.feasible_points(rng, d, 6)
	scale = np.linalg.norm(A, 2)*d.span + np.linalg.norm(A.dot(d.x) - b)*0.5
	judge(ctx, d, f, x, list(X) + [d.ref.lstsq(A, b)], scale, 'lstsq')


def s_light(ctx):
	"""rows of very different weight: the heavy ones can be met exactly, so that the light ones decide"""
	rng = ctx.rng
	d = gen.any_domain(rng, int(rng.choice([2, 3, 4])))
	m = d.m; k = int(rng.randint(1, m)); Q = np.linalg.qr(rng.randn(m, m))[0] if rng.rand() < .6 else np.eye(m)[rng.permutation(m)]
	w = np.concatenate([np.exp(rng.uniform(-.5, .5, k)), 10.**rng.uniform(-3, -.5, m - k)]); I = rng.permutation(m)
	L = (w[:, None]*Q)[I]
	xi = gen.feasible_points(rng, d, 3)[0]
	x0 = xi + Q[k:].T.dot(rng.randn(m - k))*d.span*rng.choice([1., 5.])
	ctx.info(kind = d.kind, m = m, heavy = k, w = w); ctx.mix(L, x0); ctx.trivial = d.ref.viol(x0) <= 0
	xs = d.ref.closest(x0, L) if rng.rand() < .5 else None
	f = lambda y: np.linalg.norm(L.dot(y - x0))
	if rng.rand() < .5: x = d.dom.closest_point(x0, L = L); what = 'closest'
	else: x = d.dom.constrained_least_squares(L, L.dot(x0)); what = 'lstsq'
	if not ctx.ok(np.shape(x) == (m,) and np.all(np.isfinite(x)), 'shape', 'answer %s' % (x,)): return
	ctx.ok(d.ref.viol(x) <= feas_tol(d, x), what + '-feasible', x = x)
	for y in (xi, xs):
		if y is None or d.ref.viol(y) > 1e-7*max(1, d.span): continue
		ctx.ok(f(x) <= 1.02*f(y) + 3e-5*d.span*np.max(w), what + '-light-optimal', 'objective %.8g, but a point of the domain has %.8g' % (f(x), f(y)), x = x, better = y)


def s_errors(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4]))
	d = gen.any_domain(rng, m, combos = False)
	ctx.info(kind = d.kind, m = m, x = d.x)
	ctx.raises(ValueError, 'dimension-error', d.dom.closest_point, np.zeros(m + 1))
	ctx.raises(ValueError, 'dimension-error', d.dom.closest_point, d.x, L = np.ones((1, m*2 + 1))) if m > 1 else None
	ctx.raises(ValueError, 'dimension-error', d.dom.constrained_least_squares, np.ones((2, m)), np.ones(3))
	# infeasible constraints are reported
	a = rng.randn(m)
	s = np.linalg.norm(a)
	c = a.dot(d.x)
	gap = s*d.span*rng.choice([0.5, 3.])
	lb, ub = d.x - d.span, d.x + d.span
	kind = rng.choice(['ineq', 'eq', 'quad', 'mixed'])
	if kind == 'ineq':
		e = psdr.LinIneqDomain(lb = lb, ub = ub, A = [a, -a], b = [c - gap, -c - gap])
	elif kind == 'eq':
		e = psdr.LinIneqDomain(lb = lb, ub = ub, A = [a], b = [c - gap], A_eq = [a], b_eq = [c + gap])
	elif kind == 'quad':
		e = psdr.LinQuadDomain(Ls = [np.eye(m), np.eye(m)], ys = [d.x + gap/s*a/s, d.x - gap/s*a/s], rhos = [gap/s*0.6, gap/s*0.7])
	else:
		e = psdr.LinQuadDomain(A = [a], b = [c - gap*1.2], Ls = [np.eye(m)], ys = [d.x], rhos = [gap/s])
	ctx.info(empty = kind)
	from psdr.exceptions import SolverError
	try:
		x = e.closest_point(d.x)
		ctx.ok(False, 'empty-reported', 'closest point %s in an empty domain' % x)
	except EmptyDomainException: ctx.ok(True, 'empty-reported')
	except SolverError: pass
	try:
		x = e.constrained_least_squares(np.eye(m), d.x)
		ctx.ok(False, 'empty-reported', 'least squares solution %s in an empty domain' % x)
	except EmptyDomainException: ctx.ok(True, 'empty-reported')
	except SolverError: pass
	# whole space
	u = psdr.UnboundedDomain(m)
	ctx.close(u.closest_point(d.x), d.x, 'whole-space')
	A = rng.randn(m + 1, m)
	ctx.close(u.constrained_least_squares(A, A.dot(d.x)), d.x, 'whole-space', rtol = 1e-3, atol = 1e-4*(1 + np.max(np.abs(d.x)))*np.linalg.cond(A))


SCENARIOS = [
	{'name': 'closest', 'func': s_closest, 'n': (420, 6000), 'timeout': 60},
	{'name': 'lstsq', 'func': s_lstsq, 'n': (360, 5000), 'timeout': 60},
	{'name': 'light', 'func': s_light, 'n': (300, 4000), 'timeout': 60},
	{'name': 'errors', 'func': s_errors, 'n': (60, 600), 'timeout': 60},
]
