"""extent: distance to the boundary along a ray; sweep: a line of points through the domain"""
import numpy as np
import psdr
from .. import gen
from .c02 import feas_tol
from ..core import Skip

RULE = ('A case builds a random domain (all kinds, products, intersections, dimension 1-6) and shoots rays from interior points, boundary points, corners and '
	'returned samples in random, tangential and coordinate directions, or sweeps lines through it; the monitor compares with exact ray / constraint '
	'intersections (LP for hulls). Distinct: different generated domain.')
ASSUME = ['starting points violating a constraint by less than the membership tolerance are judged up to that tolerance', 'directions are not judged within 1e-3 of tangential at a boundary point', 'domains with equality constraints test the direction against them with an absolute tolerance; long directions are not judged there']


def margins(ref, x, p):
	"""how quickly the tightest constraint grows along the ray, per unit alpha (for tolerances)"""
	return None


def s_extent(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	B = gen.null_basis(d.ref)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	if B.shape[1] == 0:
		ctx.trivial = True
		return
	X = gen.feasible_points(rng, d, 6)
	hull = len(d.ref.hulls) > 0
	for x in X:
		p = B.dot(rng.randn(B.shape[1]))
		if rng.rand() < .25 and B.shape[1] == d.m:
			p = np.zeros(d.m); p[rng.randint(d.m)] = rng.choice([-1., 1.])
		p *= rng.choice([1., 1., 1e-2, 50., 1e-9, 1e8 if B.shape[1] == d.m else 1e-6])
		e = d.ref.extent(x, p)
		if e is None: continue
		a = d.dom.extent(x, p)
		n = np.linalg.norm(p)
		tol = (1e-5 if hull else 1e-7)*d.span/n + (2e-5 if hull else 1e-7)*e
		ctx.ok(abs(a - e) <= tol, 'extent', 'extent %.12g, the boundary is at %.12g' % (a, e), x = x, p = p)
		# scaling the direction scales the extent
		s = float(np.exp(rng.uniform(-2, 2))) if rng.rand() < .6 else 10.**rng.uniform(-9, 6 if B.shape[1] == d.m else 1)
		ctx.ok((lambda t: t == a or abs(t - a) <= 3*tol)(d.dom.extent(x, s*p)*s), 'homogeneous', 'direction scaled by %g' % s, x = x, p = p)
		# directions out of the subspace of the domain cannot be moved in
		if B.shape[1] < d.m:
			q = rng.randn(d.m)
			q -= B.dot(B.T.dot(q))
			q = q/np.linalg.norm(q)*rng.choice([1., 10.])
			if rng.rand() < .5: q = q + p/n
			a = d.dom.extent(x, q)
			ctx.ok(0 <= a*np.linalg.norm(q) + 1e-9 and d.ref.viol(x + a*q) <= 3*feas_tol(d, x) + 1e-4*d.span, 'leaving-subspace', 'extent %g along a direction leaving the domain at once' % a, x = x, p = q)


def s_boundary(ctx):
	"""rays from points on the boundary"""
	rng = ctx.rng
	d = gen.any_domain(rng)
	B = gen.null_basis(d.ref)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	if B.shape[1] == 0:
		ctx.trivial = True
		return
	hull = len(d.ref.hulls) > 0
	starts = []
	for x in gen.feasible_points(rng, d, 3):
		p = B.dot(rng.randn(B.shape[1])); p /= np.linalg.norm(p)
		e = d.ref.extent(x, p)
		if e is None or not np.isfinite(e): continue
		starts.append(('hit', x + e*p, p))
	p = B.dot(rng.randn(B.shape[1])); p /= np.linalg.norm(p)
	starts.append(('corner', d.dom.corner(p), p))
	starts.append(('projected', d.dom.closest_point(d.x + 3*d.span*p), p))
	for how, x, p in starts:
		if not np.all(d.dom.isinside(x)):
			ctx.count('start-not-inside')
			continue
		# towards the interior point: at least the distance to it
		q = d.x - x
		if np.linalg.norm(q) > 1e-2*d.span:
			q = B.dot(B.T.dot(q))
			a = d.dom.extent(x, q)
			ctx.ok(a >= 1 - 1e-3 - (1e-2 if hull else 0), 'inwards', 'extent %.8g towards an interior point at distance 1 (%s)' % (a, how), x = x, p = q)
			e = d.ref.extent(x, q) if not hull else None
			if e is not None: ctx.ok(a <= max(e, 1.)*1.05 + 1e-2, 'inwards-not-beyond', 'extent %.8g, the boundary is at %.8g (%s)' % (a, e, how), x = x, p = q)
		# outwards: the end point stays inside
		a = d.dom.extent(x, p)
		v = d.ref.viol(x + a*p)
		ctx.ok(v <= 5*feas_tol(d, x) + 1e-4, 'outwards', 'after moving the extent %.6g the constraints are violated by %.3g (%s)' % (a, v, how), x = x, p = p)
		ctx.ok(a >= -1e-9 - (1e-4*d.span if hull else 0), 'nonnegative', 'extent %g (%s)' % (a, how), x = x, p = p)


def s_unbounded(ctx):
	rng = ctx.rng
	d = gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	B = gen.null_basis(d.ref)
	for x in [d.x] + list(gen.feasible_points(rng, d, 3)):
		for k in range(2):
			p = B.dot(rng.randn(B.shape[1]))
			e = d.ref.extent(x, p)
			a = d.dom.extent(x, p)
			ctx.ok((np.isinf(e) and np.isinf(a)) or abs(a - e) <= 1e-7*(d.span + e), 'extent', 'extent %.12g, the boundary is at %.12g' % (a, e), x = x, p = p)


def s_sweep(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	B = gen.null_basis(d.ref)
	if B.shape[1] == 0:
		ctx.trivial = True
		ctx.count('point')
		return
	n = int(rng.choice([2, 3, 7, 20]))
	corner = rng.rand() < .3
	how = rng.choice(['both', 'x', 'p', 'none'])
	x = gen.feasible_points(rng, d, 1)[0]
	p = B.dot(rng.randn(B.shape[1])) if rng.rand() < .6 else rng.randn(d.m)
	kw = {}
	if how in ('both', 'x'): kw['x'] = x
	if how in ('both', 'p'): kw['p'] = p
	ctx.info(kind = d.kind, m = d.m, n = n, corner = corner, how = how, x = x)
	x0, p0 = x.copy(), p.copy()
	X, y = d.dom.sweep(n = n, corner = corner, **kw)
	hull = len(d.ref.hulls) > 0
	X, y = np.asarray(X), np.asarray(y)
	if not ctx.ok(X.shape == (n, d.m) and y.shape == (n,), 'shape', '%s %s' % (X.shape, y.shape)): return
	ctx.ok(np.all(x == x0) and np.all(p == p0), 'inputs-kept')
	L = np.linalg.norm(X[-1] - X[0])
	for z in X:
		ctx.ok(d.ref.viol(z) <= 3*feas_tol(d, z), 'sweep-inside', 'a point of the sweep violates the constraints by %.3g' % d.ref.viol(z), z = z)
	if L < 1e-6*d.span: return
	ctx.ok(np.allclose(X, X[0] + np.linspace(0, 1, n)[:, None]*(X[-1] - X[0]), atol = 1e-9*(L + np.max(np.abs(X)))), 'equally-spaced')
	ctx.ok(np.allclose(np.abs(np.diff(y)), L/(n - 1), rtol = 1e-6, atol = 1e-9*(1 + np.max(np.abs(y)))) and (np.all(np.diff(y) > 0) or np.all(np.diff(y) < 0)), 'arclength', 'y is not the length along the sweep', y = y, L = L)
	u = (X[-1] - X[0])/L
	if corner:
		if 'p' in kw:
			s = np.linalg.norm(p)*d.span
			for z in list(gen.feasible_points(rng, d, 4)) + [d.ref.support(p), d.ref.support(-p)]:
				if z is None or d.ref.viol(z) > 1e-8*max(1, d.span): continue
				v = X.dot(p)
				ctx.ok(v.max() >= p.dot(z) - 1e-5*s and v.min() <= p.dot(z) + 1e-5*s, 'corner-ends', 'a point of the domain lies beyond the ends of the sweep', z = z)
		return
	if 'p' in kw:
		pb = B.dot(B.T.dot(p))
		if np.linalg.norm(pb) > 1e-6*np.linalg.norm(p):
			ctx.ok(abs(u.dot(pb)) >= (1 - 1e-5)*np.linalg.norm(pb), 'direction', 'the sweep does not follow the given direction', u = u, p = pb)
	if 'x' in kw:
		r = (x - X[0]) - u*u.dot(x - X[0])
		t = u.dot(x - X[0])
		ctx.ok(np.linalg.norm(r) <= 1e-6*d.span and -1e-6*d.span <= t <= L + 1e-6*d.span, 'through-x', 'the sweep does not pass through x', x = x)
	# the ends are on the boundary
	for z, s in ((X[0], -1), (X[-1], 1)):
		e = d.ref.extent(0.999*z + 0.001*(X[0] + X[-1])/2, s*u)
		if e is not None:
			ctx.ok(e <= 0.0006*L + 1e-4*d.span, 'ends-on-boundary', 'the sweep could be continued by %.4g (its length: %.4g)' % (e, L), z = z)


def s_errors(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	p = rng.randn(d.m)
	far = d.x + 5*d.span*p/np.linalg.norm(p)
	if d.ref.viol(far) > 1e-2:
		ctx.raises((AssertionError, ValueError), 'outside-start', d.dom.extent, far, p)
		ctx.raises((AssertionError, ValueError), 'outside-start', d.dom.sweep, x = far, p = p)
	ctx.raises((ValueError, AssertionError), 'dimension-error', d.dom.extent, np.zeros(d.m + 1), p)
	ctx.raises((ValueError, AssertionError), 'dimension-error', d.dom.sweep, x = d.x, p = np.ones(d.m + 1))


def s_near(ctx):
	"""starts close to the boundary, far from the origin; exact formulas"""
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 5])); off = float(rng.choice([0., 1., 1e2, 1e3, 1e4, 1e6])); w = 10.**rng.uniform(-1, 2, m) if rng.rand() < .5 else np.ones(m)
	c = off*np.sign(rng.randn(m))*rng.uniform(.5, 1, m) + rng.randn(m); lb, ub = c - w*rng.uniform(.3, 1, m), c + w*rng.uniform(.3, 1, m)
	kind = str(rng.choice(['box', 'lin', 'quad', 'tensor'])) if m > 1 else str(rng.choice(['box', 'lin', 'quad']))
	A = np.zeros((0, m)); b = np.zeros(0); S = None
	if kind == 'box': dom = psdr.BoxDomain(lb, ub)
	elif kind == 'tensor': dom = psdr.TensorProductDomain([psdr.BoxDomain(lb[:1], ub[:1]), psdr.BoxDomain(lb[1:], ub[1:])])
	elif kind == 'lin':
		A = rng.randn(3, m)/w; b = A.dot(c) + rng.uniform(.1, .5, 3)*np.linalg.norm(A*w, axis = 1); dom = psdr.LinIneqDomain(A = A, b = b, lb = lb, ub = ub)
	else:
		S = [(np.diag(1/w), c, .8), (rng.randn(m, m)/w, c + .05*w*rng.randn(m), .9)]; dom = psdr.LinQuadDomain(Ls = [s[0] for s in S], ys = [s[1] for s in S], rhos = [s[2] for s in S], **({'lb': lb, 'ub': ub} if rng.rand() < .5 else {}))
		lb, ub = (dom.lb, dom.ub)
	ctx.info(kind = kind, m = m, offset = off); ctx.mix(lb, ub, A, c)
	def exact(x, p):
		e = [np.inf]
		with np.errstate(all = 'ignore'): e += list(((ub - x)/p)[p > 0]) + list(((lb - x)/p)[p < 0])
		for a, r in zip(A.dot(p), b - A.dot(x)):
			if a > 0: e.append(r/a)
		for L, y, rho in S or []:
			u, v = L.dot(p), L.dot(x - y); qa, qb, qc = u.dot(u), u.dot(v), v.dot(v) - rho**2; D = np.sqrt(max(qb**2 - qa*qc, 0))
			e.append(-qc/(qb + D) if qb > 0 else (D - qb)/qa)
		return min(e)
	x0 = c + .02*w*rng.randn(m)
	if not exact(x0, np.ones(m)) > 0 or not dom.isinside(x0): raise Skip('center')
	for k in range(6):
		p = rng.randn(m)*w; e = exact(x0, p)
		if not np.isfinite(e): continue
		x = x0 + (1 - 10.**rng.uniform(-8, -1))*e*p
		if not exact(x, p) > 0: continue
		for q in (p, -p, rng.randn(m)*w):
			e = exact(x, q); a = dom.extent(x, q)
			# rounding of the slack of the constraints, amplified where the ray is nearly tangential
			g = 1e-14*(off + np.max(w))*max([1./max(np.min(np.abs(q/w)), 1e-300)/np.min(w)] + [1e2*np.linalg.norm(r)/max(abs(r.dot(q)), 1e-300) for r in A])
			if S: g = max(g, 1e-13*(off + np.max(w))/np.min(w)/max(e, 1e-6))
			ctx.ok(abs(a - e) <= 1e-9*e + 1e2*g, 'near-boundary', 'extent %.12g, the boundary is at %.12g' % (a, e), x = x, p = q)


SCENARIOS = [
	{'name': 'near', 'func': s_near, 'n': (500, 6000), 'timeout': 60},
	{'name': 'extent', 'func': s_extent, 'n': (400, 6000), 'timeout': 60},
	{'name': 'boundary', 'func': s_boundary, 'n': (240, 4000), 'timeout': 60},
	{'name': 'unbounded', 'func': s_unbounded, 'n': (100, 1000), 'timeout': 60},
	{'name': 'sweep', 'func': s_sweep, 'n': (300, 4000), 'timeout': 60},
	{'name': 'errors', 'func': s_errors, 'n': (60, 400), 'timeout': 60},
]
