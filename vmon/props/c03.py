"""corner, centers, and the emptiness / single point / boundedness classification"""
import numpy as np
import psdr
from scipy.optimize import linprog
from psdr.exceptions import EmptyDomainException, UnboundedDomainException, SolverError
from .. import gen
from ..oracle import RefSet
from .c02 import feas_tol

RULE = ('A case builds a random bounded, unbounded, empty or single-point domain (all kinds, products, intersections, dimension 1-6), asks for extreme points in random and '
	'coordinate directions, centers, and the classification flags in a random order interleaved with other queries; the monitor compares with LP / conic solves '
	'done independently and with how the domain was built. Distinct: different generated domain.')
ASSUME = ['empty and single-point domains are separated from their complement by a margin of the size of the domain', 'a solver failure (SolverError) is no verdict']
OPT = 1e-5


def s_corner(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	X = gen.feasible_points(rng, d, 8)
	for k in range(4):
		p = rng.randn(d.m)
		if k == 1:
			p = np.zeros(d.m); p[rng.randint(d.m)] = rng.choice([-1., 1.])
		if k == 2: p *= 10.**rng.uniform(-2, 3)
		x = d.dom.corner(p)
		if not ctx.ok(np.asarray(x).shape == (d.m,) and np.all(np.isfinite(x)), 'shape', '%s' % (x,)): continue
		v = d.ref.viol(x)
		ctx.ok(v <= feas_tol(d, x), 'corner-feasible', 'corner violates the constraints by %.3g' % v, p = p, x = x)
		s = np.linalg.norm(p)*d.span
		for y in list(X) + [d.ref.support(p)]:
			if y is None or d.ref.viol(y) > 1e-8*max(1., d.span): continue
			ctx.ok(p.dot(x) >= p.dot(y) - OPT*s, 'corner-optimal', 'p.x = %.12g but a point of the domain has %.12g' % (p.dot(x), p.dot(y)), p = p, x = x, better = y)
	ctx.raises(ValueError, 'dimension-error', d.dom.corner, np.ones(d.m + 1))


def s_cheb(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4, 6]))
	d = [gen.box, gen.linineq, lambda r, k: gen.added(r, k, gen.linineq(r, k))][rng.choice(3, p = [.2, .5, .3])](rng, m)
	if d.ref.quads: d = gen.linineq(rng, m)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	c, r = d.dom.chebyshev_center()
	I = np.eye(m)
	A = np.vstack([d.ref.A, I[np.isfinite(d.ref.ub)], -I[np.isfinite(d.ref.lb)]])
	b = np.hstack([d.ref.b, d.ref.ub[np.isfinite(d.ref.ub)], -d.ref.lb[np.isfinite(d.ref.lb)]])
	nA = np.linalg.norm(A, axis = 1)
	tol = 1e-5*d.span
	ctx.ok(np.max((A.dot(c) + r*nA - b)/nA) <= tol, 'ball-inside', 'the ball of radius %g about the center leaves the domain by %.3g' % (r, np.max((A.dot(c) + r*nA - b)/nA)), center = c)
	if len(d.ref.Aeq): ctx.ok(np.max(np.abs(d.ref.Aeq.dot(c) - d.ref.beq)/np.linalg.norm(d.ref.Aeq, axis = 1)) <= tol, 'center-feasible')
	res = linprog(np.hstack([np.zeros(m), -1]), A_ub = np.hstack([A/nA[:, None], np.ones((len(A), 1))]), b_ub = b/nA, A_eq = np.hstack([d.ref.Aeq, np.zeros((len(d.ref.Aeq), 1))]) if len(d.ref.Aeq) else None,
		b_eq = d.ref.beq if len(d.ref.Aeq) else None, bounds = [(None, None)]*(m + 1), method = 'highs')
	if res.status == 0:
		ctx.ok(r >= res.x[-1] - tol, 'radius-maximal', 'radius %.10g, but a ball of radius %.10g fits' % (r, res.x[-1]), center = res.x[:m])
	ctx.close(d.dom.radius, r, 'radius-property', rtol = 1e-5, atol = tol)
	x = d.dom.center
	r2 = np.min((b - A.dot(x))/nA)
	ctx.ok(r2 >= r - 10*tol, 'center-property', 'center is only %g from the boundary, the Chebyshev radius is %g' % (r2, r), center = x)


def s_center(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	x = np.asarray(d.dom.center)
	ctx.ok(x.shape == (d.m,) and d.ref.viol(x) <= feas_tol(d, x), 'center-inside', 'center %s violates the constraints by %.3g' % (x, d.ref.viol(x)))
	ctx.ok(d.dom.intrinsic_dimension == d.m - len(d.dom.A_eq), 'intrinsic-dimension')


def queries(ctx, d, dom, truth, feasible):
	"""ask for the flags, several times, in a random order, interleaved with other queries"""
	rng = ctx.rng
	names = list(truth)
	seq = [names[i] for i in rng.permutation(len(names))] + list(rng.choice(names + ['corner', 'isinside', 'closest', 'extent', 'normalize', 'sample'], size = 5))
	if rng.rand() < .4: seq = list(rng.permutation(np.array(seq, dtype = object)))
	hist = []
	for q in seq:
		if q in truth:
			try: got = getattr(dom, q)
			except SolverError:
				ctx.count('solver-failure'); continue
			ctx.ok(bool(got) == truth[q], q, '%s is %s (expected %s) after the queries %s' % (q, got, truth[q], hist))
		else:
			try:
				x = d.x
				if q == 'corner': dom.corner(rng.randn(d.m))
				elif q == 'isinside': dom.isinside(x)
				elif q == 'closest': dom.closest_point(x + d.span*rng.randn(d.m))
				elif q == 'extent' and feasible: dom.extent(x, rng.randn(d.m))
				elif q == 'normalize': dom.normalize(x)
				elif q == 'sample' and feasible and not truth.get('is_unbounded'): dom.sample(2)
			except (EmptyDomainException, UnboundedDomainException, SolverError):
				pass
		hist.append(str(q))


def s_flags(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	point = gen.null_basis(d.ref).shape[1] == 0
	ctx.info(kind = d.kind, m = d.m, x = d.x, point = point)
	queries(ctx, d, d.dom, {'is_empty': False, 'is_point': point, 'is_unbounded': False}, True)


def s_flat(ctx):
	"""some coordinates are fixed, the others are not"""
	rng = ctx.rng
	m = int(rng.choice([2, 3, 4, 5]))
	c, dd = gen.affine(rng, m)
	k = int(rng.randint(1, m)); fix = np.zeros(m, dtype = bool); fix[rng.permutation(m)[:k]] = True
	lb, ub = c - dd, c + dd
	kind = rng.choice(['box', 'bounds', 'equations', 'hull', 'product', 'quad', 'ineq'])
	flb, fub = np.where(fix, c, lb), np.where(fix, c, ub)
	a = rng.randn(m)/dd
	if kind == 'box': dom = psdr.BoxDomain(flb, fub)
	elif kind == 'bounds': dom = psdr.LinIneqDomain(lb = flb, ub = fub, A = [a], b = [a.dot(c) + .5])
	elif kind == 'equations': dom = psdr.LinIneqDomain(lb = lb, ub = ub, A_eq = np.eye(m)[fix], b_eq = c[fix])
	elif kind == 'hull': dom = psdr.ConvexHullDomain(np.where(fix, c, c + np.vstack([t*dd for t in (lambda R: [*R, *-R])(rng.uniform(-1, 1, size = (m + 1, m)))])))
	elif kind == 'product':
		dom = psdr.PointDomain(c[fix])*psdr.BoxDomain(lb[~fix], ub[~fix]); c = np.hstack([c[fix], c[~fix]])
	elif kind == 'quad': dom = psdr.LinQuadDomain(lb = flb, ub = fub, Ls = [np.diag(1/dd)], ys = [c], rhos = [.8])
	else:
		dom = psdr.LinIneqDomain(lb = lb, ub = ub, A = np.vstack([np.eye(m)[fix], -np.eye(m)[fix]]), b = np.hstack([c[fix], -c[fix]]))
	ctx.info(kind = kind, m = m, x = c, fixed = k)
	class Z: pass
	d = Z(); d.x = c; d.span = np.max(dd)*4; d.m = len(dom)
	if kind == 'ineq':
		# (sampling needs implied equalities to be stated as such)
		for q in rng.permutation(['is_empty', 'is_point', 'is_unbounded', 'is_point']): ctx.ok(not getattr(dom, q), str(q), '%s of a flat domain' % q)
		return
	queries(ctx, d, dom, {'is_empty': False, 'is_point': False, 'is_unbounded': False}, True)


def s_unbounded(ctx):
	rng = ctx.rng
	d = gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	queries(ctx, d, d.dom, {'is_empty': False, 'is_point': False, 'is_unbounded': True}, True)
	if d.kind != 'unb-box' and d.ref.linear:
		I = np.eye(d.m)
		rows = np.vstack([d.ref.A, d.ref.Aeq, I[np.isfinite(d.ref.lb) | np.isfinite(d.ref.ub)]])
		deficient = len(rows) > 0 and np.linalg.matrix_rank(rows) < d.m
		for k in range(3):
			p = rng.randn(d.m)
			y = d.ref.support(p)
			if d.ref.lp_status not in (0, 3): continue
			try:
				x = d.dom.corner(p)
				ok = d.ref.lp_status == 0
				ctx.ok(ok, 'underdetermined-unbounded-reported' if deficient else 'unbounded-reported', 'corner %s of a domain unbounded in this direction' % x, p = p)
				if ok: ctx.ok(p.dot(x) >= p.dot(y) - OPT*d.span*np.linalg.norm(p), 'corner-optimal', '', p = p, x = x, better = y)
			except UnboundedDomainException:
				ctx.ok(d.ref.lp_status == 3, 'unbounded-reported', 'reported as unbounded, but it is bounded in this direction', p = p)
			except SolverError:
				ctx.count('solver-failure')


def empty_domain(rng, m):
	c, dd = gen.affine(rng, m)
	x = c
	a = rng.randn(m)/dd
	s = np.linalg.norm(a*dd)
	lb, ub = x - dd, x + dd
	g = s*rng.uniform(.3, 1.5)
	kind = rng.choice(['box', 'ineq', 'eq', 'quads', 'quad-ineq', 'outside', 'and', 'product', 'hull', 'bounds'])
	if kind == 'box':
		i = rng.randint(m); lb = lb.copy(); lb[i] = ub[i] + dd[i]*rng.uniform(.1, 2)
		dom = psdr.BoxDomain(lb, ub)
	elif kind == 'bounds':
		i = rng.randint(m); lb = lb.copy(); lb[i] = ub[i] + dd[i]*rng.uniform(.1, 2)
		dom = psdr.LinIneqDomain(lb = lb, ub = ub, A = [a], b = [a.dot(x) + 3*s])
	elif kind == 'ineq':
		dom = psdr.LinIneqDomain(lb = lb, ub = ub, A = [a, -a], b = [a.dot(x) - g, -a.dot(x) - g])
	elif kind == 'eq':
		dom = psdr.LinIneqDomain(lb = lb, ub = ub, A = [a], b = [a.dot(x) - g], A_eq = [a], b_eq = [a.dot(x) + g])
	elif kind == 'quads':
		t = rng.randn(m); t /= np.linalg.norm(t)
		dom = psdr.LinQuadDomain(Ls = [np.diag(1/dd)]*2, ys = [x + dd*t, x - dd*t], rhos = [.4, .9])
	elif kind == 'quad-ineq':
		dom = psdr.LinQuadDomain(A = [a], b = [a.dot(x) - 1.5*s], Ls = [np.diag(1/dd)], ys = [x], rhos = [1.])
	elif kind == 'outside':
		w = np.abs(a).dot(dd)
		dom = psdr.LinIneqDomain(lb = lb, ub = ub, A = [a], b = [a.dot(x) - w*rng.uniform(1.2, 2)])
	elif kind == 'and':
		dom = psdr.BoxDomain(lb, ub) & psdr.BoxDomain(lb + 3*dd, ub + 3*dd)
	elif kind == 'product':
		dom = psdr.BoxDomain(lb, ub) * psdr.LinIneqDomain(lb = [0.], ub = [1.], A = [[1.]], b = [-1.])
		x = np.hstack([x, .5])
	else:
		V = x + dd*rng.uniform(-1, 1, size = (m + 3, m))
		dom = psdr.ConvexHullDomain(V, A = [a], b = [np.min(V.dot(a)) - g])
	return kind, dom, x, np.max(dd)*4


def s_empty(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4]))
	kind, dom, x, span = empty_domain(rng, m)
	ctx.info(kind = kind, m = m, x = x)
	class Z: pass
	d = Z(); d.x = x; d.span = span; d.m = len(dom)
	queries(ctx, d, dom, {'is_empty': True, 'is_point': False, 'is_unbounded': False}, False)
	try:
		y = dom.corner(rng.randn(d.m))
		ctx.ok(False, 'empty-reported', 'corner %s of an empty domain' % y)
	except EmptyDomainException: ctx.ok(True, 'empty-reported')
	except SolverError: ctx.count('solver-failure')


def s_point(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4]))
	c, dd = gen.affine(rng, m)
	kind = rng.choice(['point', 'box', 'bounds', 'equations', 'hull', 'product', 'pinch'])
	x = c
	if kind == 'point': dom = psdr.PointDomain(x)
	elif kind == 'box': dom = psdr.BoxDomain(x, x)
	elif kind == 'bounds': dom = psdr.LinIneqDomain(lb = x, ub = x, A = [np.ones(m)], b = [np.sum(x) + 1.])
	elif kind == 'equations':
		A = rng.randn(m, m) + 2*np.eye(m)
		dom = psdr.LinIneqDomain(lb = x - dd, ub = x + dd, A_eq = A, b_eq = A.dot(x))
	elif kind == 'hull': dom = psdr.ConvexHullDomain([x, x])
	elif kind == 'product': dom = psdr.PointDomain(x) * psdr.BoxDomain([1.], [1.]); x = np.hstack([x, 1.])
	else:
		dom = psdr.BoxDomain(x - dd, x + dd).add_constraints(A_eq = np.eye(m), b_eq = x)
	ctx.info(kind = kind, m = m, x = x)
	class Z: pass
	d = Z(); d.x = x; d.span = np.max(dd)*4; d.m = len(dom)
	queries(ctx, d, dom, {'is_empty': False, 'is_point': True, 'is_unbounded': False}, True)
	for y, what in ((dom.closest_point(x + dd[0]*rng.randn(d.m)), 'closest'), (dom.corner(rng.randn(d.m)), 'corner'), (dom.sample(), 'sample')):
		ctx.close(y, x, 'point-' + what, rtol = 1e-5, atol = 1e-4*(1 + d.span))


SCENARIOS = [
	{'name': 'corner', 'func': s_corner, 'n': (300, 5000), 'timeout': 60},
	{'name': 'cheb', 'func': s_cheb, 'n': (160, 2000), 'timeout': 60},
	{'name': 'center', 'func': s_center, 'n': (100, 1500), 'timeout': 60},
	{'name': 'flags', 'func': s_flags, 'n': (120, 1500), 'timeout': 60},
	{'name': 'flat', 'func': s_flat, 'n': (100, 1000), 'timeout': 60},
	{'name': 'unbounded', 'func': s_unbounded, 'n': (140, 1500), 'timeout': 60},
	{'name': 'empty', 'func': s_empty, 'n': (140, 1500), 'timeout': 60},
	{'name': 'point', 'func': s_point, 'n': (80, 800), 'timeout': 60},
]
