"""normalization is an invertible affine map onto the normalized domain"""
import numpy as np
import psdr
from .. import gen
from ..oracle import RefSet
from .c01 import check_points, from_attributes

RULE = ('A case builds a random domain (all kinds incl. unbounded, (log-)normal, products, intersections; dimension 1-7; random order of the first queries), reads the affine map off '
	'the values of unnormalize at the unit vectors, transforms the reference constraints by it, and the monitor compares round trips, batches, the image of '
	'the bounds, membership in normalized_domain and its exposed constraints. Distinct: different generated domain.')
ASSUME = ['extents which the library determines through a solver are judged up to 1e-5 relative']


def affine_map(dom, m):
	c = np.asarray(dom.unnormalize(np.zeros(m)))
	return c, np.array([np.asarray(dom.unnormalize(e)) - c for e in np.eye(m)]).T


def transform(ref, c, D):
	"""the reference set in normalized coordinates x = D z + c, D diagonal"""
	d = np.diag(D)
	return RefSet(ref.m, (ref.lb - c)/d, (ref.ub - c)/d, ref.A.dot(D), ref.b - ref.A.dot(c), ref.Aeq.dot(D), ref.beq - ref.Aeq.dot(c),
		[(L.dot(D), (y - c)/d, r) for L, y, r in ref.quads], [(k, (V - c[k])/d[k]) for k, V in ref.hulls])


def s_map(ctx):
	rng = ctx.rng
	u = rng.rand()
	if u < .75: d = gen.any_domain(rng)
	elif u < .9: d = gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	else: d = gen.lognormal(rng)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	X = gen.probe_points(rng, d, 24)
	q = rng.randint(4)
	if q == 0: d.dom.isinside(X)
	elif q == 1: d.dom.closest_point(d.x + d.span)
	elif q == 2 and not d.kind.startswith(('unb', 'whole')): d.dom.corner(np.ones(d.m))
	Z = np.asarray(d.dom.normalize(X))
	ctx.ok(Z.shape == X.shape, 'shape')
	c, D = affine_map(d.dom, d.m)
	s = np.max(np.abs(X)) + np.max(np.abs(c))
	ctx.ok(np.allclose(D, np.diag(np.diag(D)), atol = 1e-12*(s + np.max(np.abs(D)))) and np.all(np.diag(D) > 0) and np.all(np.isfinite(D)), 'axis-aligned', 'unnormalization matrix %s' % D)
	ctx.close(d.dom.unnormalize(Z), X, 'round-trip', rtol = 1e-9, atol = 1e-11*s)
	ctx.close(d.dom.normalize(d.dom.unnormalize(X)), X, 'round-trip-2', rtol = 1e-9, atol = 1e-10*(s/np.min(np.diag(D)) + s))
	ctx.close(Z.dot(D.T) + c, X, 'affine', rtol = 1e-9, atol = 1e-10*s)
	i = rng.randint(len(X))
	ctx.close(d.dom.normalize(X[i]), Z[i], 'batch=single', rtol = 1e-12, atol = 1e-12*(1 + np.max(np.abs(Z))))
	ctx.close(d.dom.unnormalize(Z[i]), X[i], 'batch=single', rtol = 1e-9, atol = 1e-11*s)
	ctx.close(d.dom.normalize([list(r) for r in X]), Z, 'list-form', rtol = 1e-12, atol = 1e-12)
	# explicit two-sided bounds go to -1 and 1
	fin = np.isfinite(d.ref.lb) & np.isfinite(d.ref.ub) & (d.ref.lb < d.ref.ub)
	ishull = np.zeros(d.m, dtype = bool)
	for k, _ in d.ref.hulls: ishull[k] = True
	fin &= ~ishull if 'added' not in d.kind and '&' not in d.kind or True else fin
	if np.any(fin) and not (('added' in d.kind or '&' in d.kind) and d.ref.hulls):
		a = d.dom.normalize(np.where(np.isfinite(d.ref.lb), d.ref.lb, 0.)); b = d.dom.normalize(np.where(np.isfinite(d.ref.ub), d.ref.ub, 0.))
		ctx.close(a[fin], -np.ones(np.sum(fin)), 'bounds-to-unit', rtol = 1e-8, atol = 1e-8*(1 + s/np.min(np.diag(D))))
		ctx.close(b[fin], np.ones(np.sum(fin)), 'bounds-to-unit', rtol = 1e-8, atol = 1e-8*(1 + s/np.min(np.diag(D))))
	# the domain lies inside [-1,1]^m and touches it where the extent is only implied
	if not d.kind.startswith(('unb', 'whole')):
		for x in gen.feasible_points(rng, d, 4):
			ctx.ok(np.max(np.abs(d.dom.normalize(x))) <= 1 + 1e-4, 'inside-unit-box', 'a point of the domain normalizes to %s' % d.dom.normalize(x), x = x)
		for k in rng.choice(d.m, size = min(2, d.m), replace = False):
			for sg in (1., -1.):
				e = np.zeros(d.m); e[k] = sg
				y = d.ref.support(e)
				if y is None or d.ref.viol(y) > 1e-8*max(1, d.span): continue
				z = sg*d.dom.normalize(y)[k]
				ctx.ok(z <= 1 + 1e-4, 'inside-unit-box', 'an extreme point normalizes to %g' % z, x = y)
				if not np.isfinite(d.ref.lb[k]) and not np.isfinite(d.ref.ub[k]) and not d.ref.hulls:
					w = d.ref.support(-e)
					if w is not None and sg*(y[k] - w[k]) > 1e-2*d.span*0.1:
						ctx.ok(z >= 1 - 1e-3, 'tight-unit-box', 'the extreme point in a coordinate normalizes to %g, not 1' % z, x = y)


def s_domain(ctx):
	rng = ctx.rng
	u = rng.rand()
	if u < .75: d = gen.any_domain(rng)
	elif u < .9: d = gen.unbounded(rng, int(rng.choice([1, 2, 3, 4])))
	else: d = gen.lognormal(rng)
	ctx.info(kind = d.kind, m = d.m, x = d.x)
	X = gen.probe_points(rng, d, 30)
	c, D = affine_map(d.dom, d.m)
	nd = d.dom.normalized_domain()
	r = transform(d.ref, c, D)
	Z = (X - c)/np.diag(D)
	ctx.ok(len(nd) == d.m and len(nd.names) == d.m, 'dimension')
	check_points(ctx, nd, r, Z, 'normalized-member')
	if not d.ref.hulls:
		r2 = from_attributes(nd, d.m)
		for z in Z:
			a, b = r.viol(z), r2.viol(z)
			ctx.ok(abs(max(a, 0) - max(b, 0)) <= 1e-6*(1 + abs(a)), 'normalized-attributes', 'constraints of the normalized domain describe a different set: violation %.6g vs %.6g' % (b, a), z = z)
		if 'lognormal' not in d.kind and 'normal' not in d.kind:
			r3 = RefSet(d.m, d.dom.lb_norm, d.dom.ub_norm, d.dom.A_norm, d.dom.b_norm, d.dom.A_eq_norm, d.dom.b_eq_norm, list(zip(d.dom.Ls_norm, d.dom.ys_norm, d.dom.rhos_norm)))
			for z in Z[:12]:
				a, b = r.viol(z), r3.viol(z)
				ctx.ok(abs(max(a, 0) - max(b, 0)) <= 1e-6*(1 + abs(a)), 'norm-attributes', '*_norm attributes describe a different set: violation %.6g vs %.6g' % (b, a), z = z)
	# optimizing over either gives equivalent answers
	if not d.kind.startswith(('unb', 'whole')):
		p = rng.randn(d.m)
		x1 = d.dom.corner(p)
		x2 = np.asarray(d.dom.unnormalize(nd.corner(np.diag(D)*p)))
		ctx.ok(abs(p.dot(x1) - p.dot(x2)) <= 1e-4*d.span*np.linalg.norm(p), 'same-corner', 'p.x: %.10g and %.10g' % (p.dot(x1), p.dot(x2)), p = p)


def s_scales(ctx):
	"""coordinates of very different widths and positions"""
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 6]))
	w = 10.**rng.uniform(-9, 9, m); c = rng.choice([0., 1., -3.], size = m)*w*10.**rng.uniform(-1, 2, m)
	lb, ub = c - w/2, c + w/2
	kind = rng.choice(['box', 'linineq', 'quad', 'tensor'])
	if kind in ('box', 'tensor') and rng.rand() < .3: ub[rng.randint(m)] = np.inf
	if kind == 'box' or m == 1: dom = psdr.BoxDomain(lb, ub)
	elif kind == 'linineq': dom = psdr.LinIneqDomain(lb = lb, ub = ub, A = [1/w], b = [np.sum(np.abs(c)/w) + m])
	elif kind == 'quad': dom = psdr.LinQuadDomain(lb = lb, ub = ub, Ls = [np.diag(1/w)], ys = [c], rhos = [2*m])
	else: dom = psdr.BoxDomain(lb[:1], ub[:1])*psdr.BoxDomain(lb[1:], ub[1:])
	ctx.info(kind = kind, m = m, c = c, w = w)
	fin = np.isfinite(ub)
	T = rng.uniform(-1, 1, size = (5, m))
	X = c + .5*w*T
	Z = np.asarray(dom.normalize(X))
	s = 1e-9*(1 + np.abs(c)/w)
	ctx.ok(np.all(np.abs(Z - T)[:, fin] <= s[fin]), 'bounds-to-unit', 'interior points do not map affinely to [-1, 1]', got = Z, expected = T)
	Y = np.asarray(dom.unnormalize(Z))
	ctx.ok(np.all(np.abs(Y - X) <= s*w), 'round-trip', got = Y, expected = X)
	ctx.ok(np.all(np.abs(np.asarray(dom.unnormalize(T)) - X)[:, fin] <= (s*w)[fin]), 'unnormalize', got = Y, expected = X)
	nd = dom.normalized_domain()
	ctx.ok(np.allclose(np.asarray(nd.lb)[fin], -1, atol = 1e-6) and np.allclose(np.asarray(nd.ub)[fin], 1, atol = 1e-6) and np.all(np.isinf(np.asarray(nd.ub)[~fin])), 'normalized-bounds', got = (nd.lb, nd.ub))
	ctx.ok(np.all(nd.isinside(.9*Z)) == np.all(nd.isinside(Z)) or not np.all(fin), 'normalized-member')


SCENARIOS = [
	{'name': 'scales', 'func': s_scales, 'n': (200, 3000), 'timeout': 60},
	{'name': 'map', 'func': s_map, 'n': (320, 5000), 'timeout': 60},
	{'name': 'domain', 'func': s_domain, 'n': (320, 5000), 'timeout': 60},
]
