"""Membership and set algebra of domains"""
import numpy as np
from .. import gen
from ..oracle import RefSet
TOL = 1e-5		# psdr's documented default tolerance of isinside

RULE = ('A case builds a random domain (box, uniform, (in)equality-, quadratically constrained, convex hull, (log-)normal with truncation, point, '
	'tensor product, constraints added, intersections; dimension 1-7, shifted and scaled) and queries membership at points inside, at, near and far from '
	'the boundary; the monitor compares every verdict with an independent constraint-by-constraint evaluation. Distinct: different generated domain; '
	'trivial: no point with a decided verdict.')
ASSUME = ['points whose largest constraint violation lies between 0.4 and 2.5 times the tolerance (hulls: 1e-4 and 1.5) are not judged']


def verdict(ref, x, tol = TOL):
	"""True/False/None"""
	p = ref.parts(x, with_hull = False)
	h = [gen_hull(x[c], V) for c, V in ref.hulls]
	v = np.max(p) if len(p) else -np.inf
	hv = max(h) if h else -np.inf
	big = max(np.max(np.abs(x)), 1.)
	slack = 1e-12*big*(1 + max([np.max(np.abs(ref.A))] if len(ref.A) else [0]))
	if v <= 0.4*tol - slack and hv <= 1e-4*tol: return True
	if v > 2.5*tol + slack or hv > 1.5*tol + slack: return False
	return None


from ..oracle import hull_dist as gen_hull


def check_points(ctx, dom, ref, X, clause = 'member', tol = None):
	kw = {} if tol is None else {'tol': tol}
	got = np.asarray(dom.isinside(X, **kw))
	if not ctx.ok(got.shape == (len(X),), 'shape', 'isinside of %d points has shape %s' % (len(X), got.shape)): return
	n = [0, 0]
	for i, x in enumerate(X):
		v = verdict(ref, x, TOL if tol is None else tol)
		if v is None: continue
		n[int(v)] += 1
		ctx.ok(bool(got[i]) == v, clause + ('-in' if v else '-out'), 'isinside says %s, constraints say %s (violation %.3g)' % (got[i], v, ref.viol(x)), x = x)
	for i in ctx.rng.choice(len(X), size = min(4, len(X)), replace = False):
		one = np.asarray(dom.isinside(X[i], **kw))
		ctx.ok(one.size == 1 and bool(one.reshape(-1)[0]) == bool(got[i]), 'batch=pointwise', 'batch %s single %s' % (got[i], one), x = X[i])
	return n


def from_attributes(dom, m):
	fin = lambda a: np.array(a, dtype = float).reshape(m)
	return RefSet(m, fin(dom.lb), fin(dom.ub), dom.A, dom.b, dom.A_eq, dom.b_eq, list(zip(dom.Ls, dom.ys, dom.rhos)))


def s_member(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng) if rng.rand() < .9 else gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	ctx.ok(len(d.dom) == d.m, 'dimension')
	X = gen.probe_points(rng, d, 40)
	n = check_points(ctx, d.dom, d.ref, X)
	ctx.trivial = not n or sum(n) == 0
	# points exactly specified to be inside by construction
	ctx.ok(np.all(d.dom.isinside(d.x)), 'member-in', 'the constructed interior point is not inside', x = d.x)
	if len(d.ref.hulls) == 0 or d.kind in ('hull', 'hull-flat'):
		for c, V in d.ref.hulls:
			ctx.ok(np.all(d.dom.isinside(V)), 'hull-vertices', 'a point generating the hull is not inside')
	# other dimensions are never inside
	bad = rng.randn(3, d.m + 1)
	ctx.ok(not np.any(d.dom.isinside(bad)) and len(np.atleast_1d(d.dom.isinside(bad))) == 3, 'wrong-dimension')
	# exposed constraints describe the same set
	if not d.ref.hulls:
		r2 = from_attributes(d.dom, d.m)
		for x in X:
			a, b = d.ref.viol(x), r2.viol(x)
			ctx.ok(abs(max(a, 0) - max(b, 0)) <= 1e-7*(1 + abs(a)), 'attributes', 'lb,ub,A,b,A_eq,b_eq,Ls,ys,rhos describe a different set: violation %.6g vs %.6g' % (b, a), x = x)
		A, b = d.dom.A_aug, d.dom.b_aug
		r3 = RefSet(d.m, A = A, b = b, Aeq = d.dom.A_eq, beq = d.dom.b_eq, quads = d.ref.quads)
		for x in X[:10]:
			ctx.ok(abs(max(d.ref.viol(x), 0) - max(r3.viol(x), 0)) <= 1e-7*(1 + abs(d.ref.viol(x))), 'augmented', 'A_aug x <= b_aug describes a different set', x = x)


def s_tolerance(ctx):
	"""the tolerance argument is honoured"""
	rng = ctx.rng
	d = gen.any_domain(rng, combos = False)
	tol = float(rng.choice([1e-3, 1e-2, 1e-4, 1e-1]))
	ctx.info(kind = d.kind, m = d.m, tol = tol, x = d.x)
	X = gen.probe_points(rng, d, 10)
	B = gen.null_basis(d.ref)
	E = []
	base = gen.feasible_points(rng, d, 6)
	for x in base:
		for s in (0.1, 0.5, 5., 20.):
			p = rng.randn(d.m); p /= np.linalg.norm(p)
			if B.shape[1] and rng.rand() < .7:
				p = B.dot(rng.randn(B.shape[1])); p /= np.linalg.norm(p)
			a = d.ref.extent(x, p)
			if a is None or not np.isfinite(a): a = 0
			E.append(x + a*p + p*s*tol)
	X = np.vstack([X] + [np.array(E)])
	n = check_points(ctx, d.dom, d.ref, X, 'member-tol', tol)
	a = np.asarray(d.dom.isinside(X, tol = tol)); b = np.asarray(d.dom.isinside(X, tol = 10*tol))
	ctx.ok(np.all(~a | b), 'monotone', 'a point inside for a tolerance is outside for a larger one')


def s_algebra(ctx):
	"""intersection and product laws, against the operands' own verdicts"""
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4]))
	f = lambda m: gen.KINDS[rng.choice(list(gen.KINDS))](rng, m)
	a = f(m)
	how = rng.choice(['and', 'mul', 'add', 'chain'])
	X = gen.probe_points(rng, a, 24)
	if how == 'and':
		b = f(m)
		b2 = gen.translate(b, a.x - b.x + 0.2*a.span*rng.randn(m))
		b = b2 or b
		ctx.info(how = how, a = a.kind, b = b.kind, m = m, x = a.x)
		X = np.vstack([X, gen.probe_points(rng, b, 16)])
		if 'tensor' in a.kind and 'tensor' in b.kind:
			b = gen.box(rng, m)		# the intersection of two tensor products is not offered
		ab, ba = a.dom & b.dom, b.dom & a.dom
		check_points(ctx, ab, a.ref & b.ref, X, 'and')
		check_points(ctx, ba, a.ref & b.ref, X, 'and')
		if 'tensor' not in a.kind:
			check_points(ctx, a.dom & a.dom, a.ref, X, 'idempotent')
		for dom, r in ((a.dom, a.ref), (b.dom, b.ref)):
			check_points(ctx, dom, r, X, 'operand-unchanged')
	elif how == 'mul':
		b = f(int(rng.choice([1, 2, 3])))
		c = f(1)
		ctx.info(how = how, a = a.kind, b = b.kind, c = c.kind, m = m, x = a.x)
		import psdr
		Xb = gen.probe_points(rng, b, len(X)); Xc = gen.probe_points(rng, c, len(X))
		check_points(ctx, a.dom * b.dom, a.ref.prod(b.ref), np.hstack([X, Xb]), 'product')
		check_points(ctx, (a.dom * b.dom) * c.dom, a.ref.prod(b.ref).prod(c.ref), np.hstack([X, Xb, Xc]), 'product')
		check_points(ctx, a.dom * (b.dom * c.dom), a.ref.prod(b.ref).prod(c.ref), np.hstack([X, Xb, Xc]), 'product')
		check_points(ctx, psdr.TensorProductDomain([a.dom, b.dom, c.dom]), a.ref.prod(b.ref).prod(c.ref), np.hstack([X, Xb, Xc]), 'product')
		p = a.dom * b.dom
		ctx.ok(list(p.names) == list(a.dom.names) + list(b.dom.names) and len(p) == len(a.dom) + len(b.dom), 'product-names')
	else:
		d = a
		n = 1 if how == 'add' else rng.randint(2, 4)
		for _ in range(n):
			d = gen.added(rng, m, d)
		ctx.info(how = how, kind = d.kind, m = m, x = a.x)
		check_points(ctx, d.dom, d.ref, np.vstack([X, gen.probe_points(rng, d, 20)]), 'added')
		check_points(ctx, a.dom, a.ref, X, 'operand-unchanged')
		check_points(ctx, d.dom.add_constraints(), d.ref, X, 'add-nothing')


def s_construct(ctx):
	"""forms of the constructor arguments, names, dimension mismatches"""
	import psdr
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3]))
	lb, ub = rng.randn(m) - 2, rng.randn(m) + 2
	X = rng.uniform(-4, 4, size = (20, m))
	ref = RefSet(m, lb, ub)
	ctx.info(m = m, lb = lb, ub = ub)
	check_points(ctx, psdr.BoxDomain(list(lb), list(ub)), ref, X, 'list-args')
	if m == 1:
		check_points(ctx, psdr.BoxDomain(float(lb[0]), float(ub[0])), ref, X, 'scalar-args')
		s = abs(rng.randn()) + .1
		nd = psdr.NormalDomain(float(lb[0]), s, truncate = 1e-2)
		from scipy.stats import norm
		check_points(ctx, nd, RefSet(1, [lb[0] - norm.isf(5e-3)*np.sqrt(s)], [lb[0] + norm.isf(5e-3)*np.sqrt(s)]), lb[0] + np.sqrt(s)*rng.uniform(-4, 4, size = (20, 1)), 'scalar-normal')
	a = rng.randn(m)
	dom = psdr.LinIneqDomain(A = a.reshape(1, -1), b = [a.dot(lb) + .5], lb = lb)
	check_points(ctx, dom, RefSet(m, lb = lb, A = [a], b = [a.dot(lb) + .5]), X, 'one-sided')
	check_points(ctx, psdr.LinIneqDomain(lb = lb, ub = ub), ref, X, 'bounds-only')
	check_points(ctx, psdr.LinQuadDomain(lb = lb, ub = ub), ref, X, 'bounds-only')
	check_points(ctx, psdr.UnboundedDomain(m), RefSet(m), 1e3*X, 'unbounded')
	check_points(ctx, psdr.UnboundedDomain(m) * psdr.BoxDomain(lb, ub), RefSet(m).prod(ref), np.hstack([1e3*X, X]), 'unbounded')
	check_points(ctx, psdr.PointDomain(lb), RefSet(m, lb, lb), np.vstack([X, lb, lb + 1e-3, lb + 1e-7]), 'point')
	check_points(ctx, psdr.NormalDomain(lb), RefSet(m), 1e3*X, 'normal-unbounded')
	nm = ['n%d' % i for i in range(m)]
	for dom in (psdr.BoxDomain(lb, ub, names = nm), psdr.LinIneqDomain(lb = lb, ub = ub, names = nm), psdr.NormalDomain(lb, names = nm), psdr.PointDomain(lb, names = nm), psdr.UnboundedDomain(m, names = nm)):
		ctx.ok(list(dom.names) == nm, 'names', '%s' % dom.names)
	ctx.ok(len(psdr.BoxDomain(lb, ub).names) == m and len(set(psdr.BoxDomain(lb, ub).names)) == m, 'default-names')
	ctx.ok(len(psdr.BoxDomain(lb, ub, names = 'q').names) == m, 'string-name')
	ctx.ok(list(psdr.BoxDomain(lb, ub, names = nm).add_constraints(lb = lb).names) == nm, 'names-kept')
	ctx.raises(Exception, 'mismatch-raises', psdr.BoxDomain, lb, np.hstack([ub, 1.]))
	ctx.raises(Exception, 'mismatch-raises', psdr.LinIneqDomain, A = np.ones((2, m)), b = np.ones(3))
	ctx.raises(Exception, 'mismatch-raises', psdr.LinIneqDomain, A = np.ones((2, m)))
	ctx.raises(Exception, 'mismatch-raises', psdr.LinQuadDomain, lb = lb, ub = ub, Ls = [np.eye(m)], ys = [lb], rhos = [-1.])
	ctx.raises(Exception, 'mismatch-raises', psdr.LinQuadDomain, lb = lb, ub = ub, Ls = [np.eye(m + 1)], ys = [np.zeros(m + 1)], rhos = [1.])


SCENARIOS = [
	{'name': 'member', 'func': s_member, 'n': (600, 8000), 'timeout': 30},
	{'name': 'tolerance', 'func': s_tolerance, 'n': (300,4000), 'timeout': 30},
	{'name': 'algebra', 'func': s_algebra, 'n': (500, 6000), 'timeout': 30},
	{'name': 'construct', 'func': s_construct, 'n': (40, 300), 'timeout': 30},
]
