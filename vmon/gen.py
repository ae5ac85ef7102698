"""Generators of psdr domains together with the reference model of the same set."""
import numpy as np
from .oracle import RefSet


def affine(rng, m, wild = True):
	"""a location and a scale, so that domains are not always centred unit boxes"""
	c = rng.choice([0., 1., 1., 10.]) * rng.randn(m)
	s = np.exp(rng.uniform(np.log(0.3), np.log(20.))) if wild and rng.rand() < 0.5 else 1.
	d = s * (np.exp(rng.uniform(-1, 1, size = m)) if rng.rand() < 0.6 else np.ones(m))
	return c, d


class D:
	"""a psdr domain, its reference set, and a point well inside"""
	def __init__(self, kind, dom, ref, x, span):
		self.kind, self.dom, self.ref, self.x, self.span = kind, dom, ref, np.array(x, dtype = float), float(span)
		self.m = ref.m


def box(rng, m, fixed = False):
	import psdr
	c, d = affine(rng, m)
	lb, ub = c - d*rng.uniform(0.4, 1.6, m), c + d*rng.uniform(0.4, 1.6, m)
	if fixed and m > 1:
		i = rng.randint(m)
		ub[i] = lb[i]
	x = 0.5*(lb + ub)
	if rng.rand() < 0.15:
		return D('uniform', psdr.UniformDomain(lb, ub), RefSet(m, lb, ub), x, np.max(ub - lb))
	return D('box', psdr.BoxDomain(lb, ub), RefSet(m, lb, ub), x, np.max(ub - lb))


def _rows(rng, m, x, d, k):
	A = rng.randn(k, m)/d
	A *= np.exp(rng.uniform(-1, 1, size = (k, 1)))
	b = A.dot(x) + rng.uniform(0.15, 1.0, size = k)*np.linalg.norm(A*d, axis = 1)
	return A, b


def _eqs(rng, m, x, d, k):
	A = rng.randn(k, m)/d
	A /= np.linalg.norm(A, axis = 1).reshape(-1, 1)
	A *= np.exp(rng.uniform(-0.5, 0.5, size = (k, 1)))
	return A, A.dot(x)


def linineq(rng, m, eq = None, bounded_by = None):
	import psdr
	c, d = affine(rng, m)
	bounded_by = bounded_by or rng.choice(['box', 'box', 'rows', 'half', 'oneside'])
	lb, ub = c - d*rng.uniform(0.4, 1.6, m), c + d*rng.uniform(0.4, 1.6, m)
	x = lb + (ub - lb)*rng.uniform(0.25, 0.75, m)
	A, b = _rows(rng, m, x, d, rng.randint(1, m + 4))
	if bounded_by == 'rows':
		# bounded by inequalities alone: a simplex-like or rotated box part
		Q, _ = np.linalg.qr(rng.randn(m, m))
		A2 = np.vstack([Q, -Q])/d
		b2 = A2.dot(x) + rng.uniform(0.4, 1.4, size = 2*m)
		A, b = np.vstack([A, A2]), np.hstack([b, b2])
		lb = ub = None
	elif bounded_by == 'half':
		# some bounds given explicitly, others implied by inequalities
		I = rng.rand(m) < 0.5
		A2 = np.vstack([np.eye(m)[I], -np.eye(m)[I]])
		b2 = np.hstack([ub[I], -lb[I]])
		A, b = np.vstack([A, A2]), np.hstack([b, b2])
		lb, ub = np.where(I, -np.inf, lb), np.where(I, np.inf, ub)
	elif bounded_by == 'oneside':
		# every coordinate bounded on one side only; the other side is implied (a skewed simplex)
		up = rng.rand(m) < 0.5
		sg = np.where(up, -1., 1.)
		w = sg*np.exp(rng.uniform(-0.5, 0.5, m))/d
		A, b = np.vstack([A, w]), np.hstack([b, w.dot(x) + rng.uniform(0.5, 1.5)])
		lb, ub = np.where(up, -np.inf, lb), np.where(up, ub, np.inf)
	eq = (rng.rand() < 0.35) if eq is None else eq
	Aeq = beq = None
	if eq and m > 1:
		Aeq, beq = _eqs(rng, m, x, d, rng.randint(1, max(2, m - 1)))
	kw = {}
	if lb is not None: kw.update(lb = lb, ub = ub)
	dom = psdr.LinIneqDomain(A = A, b = b, A_eq = Aeq, b_eq = beq, **kw)
	return D('linineq%s/%s' % ('-eq' if Aeq is not None else '', bounded_by), dom, RefSet(m, lb, ub, A, b, Aeq, beq), x, 4*np.max(d))


def unbounded(rng, m):
	"""a domain with at least one unbounded direction (known to the reference)"""
	import psdr
	c, d = affine(rng, m)
	kind = rng.choice(['bounds', 'halfspace', 'cone', 'cylinder', 'product', 'free'])
	x = c
	if kind == 'free' :
		return D('whole-space', psdr.UnboundedDomain(m), RefSet(m), x, 4*np.max(d))
	lb = np.where(rng.rand(m) < 0.7, x - d, -np.inf); ub = np.where(rng.rand(m) < 0.7, x + d, np.inf)
	i = rng.randint(m)
	if rng.rand() < .5: ub[i] = np.inf
	else: lb[i] = -np.inf
	if kind == 'bounds':
		if rng.rand() < .5: return D('unb-box', psdr.BoxDomain(lb, ub), RefSet(m, lb, ub), x, 4*np.max(d))
		return D('unb-bounds', psdr.LinIneqDomain(lb = lb, ub = ub), RefSet(m, lb, ub), x, 4*np.max(d))
	if kind in ('halfspace', 'cone'):
		A, b = _rows(rng, m, x, d, 1 if kind == 'halfspace' else m)
		if kind == 'cone':
			# all rows decrease along a common direction
			w = rng.randn(m)*d
			A[A.dot(w) > 0] *= -1
			b = A.dot(x) + rng.uniform(0.15, 1.0, size = len(A))*np.linalg.norm(A*d, axis = 1)
		return D('unb-' + kind, psdr.LinIneqDomain(A = A, b = b), RefSet(m, A = A, b = b), x, 4*np.max(d))
	if kind == 'cylinder' and m > 1:
		L = rng.randn(rng.randint(1, m), m)/d
		q = (L, x + 0.2*d*rng.randn(m), None)
		q = (q[0], q[1], np.linalg.norm(L.dot(x - q[1])) + 0.5)
		return D('unb-cylinder', psdr.LinQuadDomain(Ls = [q[0]], ys = [q[1]], rhos = [q[2]]), RefSet(m, quads = [q]), x, 4*np.max(d))
	e = box(rng, 1) if m == 1 else KINDS[rng.choice(['box', 'linineq', 'linquad'])](rng, m - 1)
	if m == 1:
		return D('unb-bounds', psdr.LinIneqDomain(lb = lb, ub = ub), RefSet(m, lb, ub), x, 4*np.max(d))
	f = psdr.UnboundedDomain(1) if rng.rand() < .5 else psdr.LinIneqDomain(lb = [0.])
	rf = RefSet(1) if f.__class__.__name__ == 'UnboundedDomain' else RefSet(1, lb = [0.])
	return D('unb-product', e.dom * f, e.ref.prod(rf), np.hstack([e.x, 1.]), e.span)


def _quad(rng, m, x, d, full = True):
	k = m if full else rng.randint(1, m + 1)
	L = rng.randn(k, m)/d
	if full:
		L = (np.linalg.qr(rng.randn(m, m))[0] * np.exp(rng.uniform(-0.7, 0.7, size = m))) / d
	y = x + d*rng.uniform(-0.6, 0.6, size = m)
	rho = np.linalg.norm(L.dot(x - y)) + rng.uniform(0.2, 1.2)
	return L, y, rho


def linquad(rng, m, box_ = None, eq = None):
	import psdr
	c, d = affine(rng, m)
	lb, ub = c - d*rng.uniform(0.4, 1.6, m), c + d*rng.uniform(0.4, 1.6, m)
	x = lb + (ub - lb)*rng.uniform(0.25, 0.75, m)
	box_ = (rng.rand() < 0.6) if box_ is None else box_
	quads = [_quad(rng, m, x, d, full = (not box_ or rng.rand() < 0.6))]
	if rng.rand() < 0.4:
		quads.append(_quad(rng, m, x, d, full = rng.rand() < 0.5))
	A = b = Aeq = beq = None
	if rng.rand() < 0.4:
		A, b = _rows(rng, m, x, d, rng.randint(1, 3))
	eq = (rng.rand() < 0.25) if eq is None else eq
	if eq and m > 1:
		Aeq, beq = _eqs(rng, m, x, d, 1)
	kw = {}
	if box_: kw.update(lb = lb, ub = ub)
	else: lb = ub = None
	dom = psdr.LinQuadDomain(A = A, b = b, A_eq = Aeq, b_eq = beq, Ls = [q[0] for q in quads], ys = [q[1] for q in quads], rhos = [q[2] for q in quads], **kw)
	return D('linquad%s%s' % ('-box' if box_ else '', '-eq' if Aeq is not None else ''), dom, RefSet(m, lb, ub, A, b, Aeq, beq, quads), x, 4*np.max(d))


def hull(rng, m, flat = None, extra = None):
	import psdr
	c, d = affine(rng, m)
	n = m + 1 + rng.randint(0, 6)
	V = c + d*rng.randn(n, m)
	flat = (m > 1 and rng.rand() < 0.25) if flat is None else flat
	if flat:
		Q, _ = np.linalg.qr(rng.randn(m, m - 1))
		V = c + (d*rng.randn(n, m)).dot(Q).dot(Q.T)
	x = V.mean(axis = 0)
	extra = rng.choice(['', '', 'ub', 'A', 'quad']) if extra is None else extra
	kw, ref = {}, RefSet(m, hulls = [(np.arange(m), V)])
	if extra == 'ub':
		lb, ub = x - d*rng.uniform(0.3, 1, m), x + d*rng.uniform(0.3, 1, m)
		kw = dict(lb = lb, ub = ub); ref = ref & RefSet(m, lb, ub)
	elif extra == 'A':
		A, b = _rows(rng, m, x, d, 1)
		kw = dict(A = A, b = b); ref = ref & RefSet(m, A = A, b = b)
	elif extra == 'quad':
		q = _quad(rng, m, x, d)
		kw = dict(Ls = [q[0]], ys = [q[1]], rhos = [q[2]]); ref = ref & RefSet(m, quads = [q])
	return D('hull%s%s' % ('-flat' if flat else '', '-' + extra if extra else ''), psdr.ConvexHullDomain(V, **kw), ref, x, 4*np.max(d))


def normal(rng, m):
	import psdr
	from scipy.stats import chi2
	c, d = affine(rng, m)
	B = rng.randn(m, m) + np.eye(m)
	cov = (B.dot(B.T) + 0.2*np.eye(m))*d.reshape(-1, 1)*d.reshape(1, -1)*0.2
	tr = float(rng.choice([1e-1, 1e-2, 1e-3]))
	dom = psdr.NormalDomain(c, cov, truncate = tr)
	Linv = np.linalg.inv(np.linalg.cholesky(cov))
	r = np.sqrt(chi2.isf(tr, m))
	return D('normal', dom, RefSet(m, quads = [(Linv, c, r)]), c, 2*r*np.sqrt(np.max(np.linalg.eigvalsh(cov))))


def lognormal(rng, m = 1):
	import psdr
	from scipy.stats import norm
	mu, cov = rng.uniform(-0.5, 0.5), rng.uniform(0.05, 0.6)
	off = rng.choice([0., rng.randn()]); sc = rng.choice([1., rng.uniform(0.5, 3)])
	tr = float(rng.choice([1e-1, 1e-2]))
	q = norm.isf(tr/2)*np.sqrt(cov)
	lb, ub = off + sc*np.exp(mu - q), off + sc*np.exp(mu + q)
	return D('lognormal', psdr.LogNormalDomain(mu, cov, offset = off, scaling = sc, truncate = tr), RefSet(1, [lb], [ub]), [0.5*(lb + ub)], ub - lb)


def point(rng, m):
	import psdr
	x = rng.randn(m)*rng.choice([1., 10.])
	return D('point', psdr.PointDomain(x), RefSet(m, x, x), x, 1.)


def tensor(rng, m, parts = None):
	import psdr
	import operator
	parts = parts or split(rng, m)
	ds = []
	for k in parts:
		f = [box, linineq, linquad, hull, normal, point][rng.choice(6, p = [.25, .2, .2, .2, .1, .05])]
		if k == 1 and rng.rand() < 0.15: f = lognormal
		ds.append(f(rng, k))
	ref = ds[0].ref
	for e in ds[1:]: ref = ref.prod(e.ref)
	if rng.rand() < 0.5:
		dom = psdr.TensorProductDomain([e.dom for e in ds])
	else:
		dom = ds[0].dom
		for e in ds[1:]: dom = dom * e.dom
		if len(ds) == 1: dom = psdr.TensorProductDomain([dom])
	return D('tensor(%s)' % ','.join(e.kind for e in ds), dom, ref, np.hstack([e.x for e in ds]), max(e.span for e in ds))


def split(rng, m):
	parts = []
	while m > 0:
		k = rng.randint(1, m + 1)
		parts.append(int(k)); m -= k
	return parts


KINDS = {'box': box, 'linineq': linineq, 'linquad': linquad, 'hull': hull, 'normal': normal, 'tensor': tensor}


def added(rng, m, base = None):
	"""a domain with constraints added through add_constraints / &"""
	import psdr
	base = base or KINDS[rng.choice(['box', 'linineq', 'linquad', 'hull', 'tensor'])](rng, m)
	x, d = base.x, np.ones(m)*base.span/4.
	kw, ref = {}, RefSet(m)
	what = rng.choice(['b', 'A', 'q', 'e', 'Ab'])
	if 'b' in what:
		lb, ub = x - d*rng.uniform(.2, 1, m), x + d*rng.uniform(.2, 1, m)
		kw.update(lb = lb, ub = ub); ref = ref & RefSet(m, lb, ub)
	if 'A' in what:
		A, b = _rows(rng, m, x, d, rng.randint(1, 3))
		kw.update(A = A, b = b); ref = ref & RefSet(m, A = A, b = b)
	if 'q' in what:
		q = _quad(rng, m, x, d, full = rng.rand() < .6)
		kw.update(Ls = [q[0]], ys = [q[1]], rhos = [q[2]]); ref = ref & RefSet(m, quads = [q])
	if 'e' in what and m > 1 and len(base.ref.Aeq) == 0:
		A, b = _eqs(rng, m, x, d, 1)
		kw.update(A_eq = A, b_eq = b); ref = ref & RefSet(m, Aeq = A, beq = b)
	return D('added-%s(%s)' % (what, base.kind), base.dom.add_constraints(**kw), base.ref & ref, x, base.span)


def meet(rng, m):
	"""the intersection of two domains sharing an interior point"""
	a = KINDS[rng.choice(['box', 'linineq', 'linquad', 'hull', 'tensor'])](rng, m)
	b = KINDS[rng.choice(['box', 'linineq', 'linquad', 'hull', 'tensor'])](rng, m)
	# move b onto a's interior point: rebuild b by translation
	b = translate(b, a.x - b.x)
	if b is None or ('tensor' in a.kind and 'tensor' in b.kind):
		return added(rng, m, a)
	if len(a.ref.Aeq) + len(b.ref.Aeq) >= m: return added(rng, m, a)
	if any_flat(a) and any_flat(b): return added(rng, m, a)
	dom = (a.dom & b.dom)
	return D('(%s)&(%s)' % (a.kind, b.kind), dom, a.ref & b.ref, a.x, min(a.span, b.span))


def any_flat(d):
	return 'flat' in d.kind or '-eq' in d.kind or 'point' in d.kind


def translate(d, t):
	import psdr
	r = d.ref
	if 'tensor' in d.kind or 'normal' in d.kind:
		return None
	ref = RefSet(r.m, r.lb + t, r.ub + t, r.A, r.b + r.A.dot(t), r.Aeq, r.beq + r.Aeq.dot(t), [(L, y + t, q) for L, y, q in r.quads], [(c, V + t) for c, V in r.hulls])
	lb = ref.lb if np.any(np.isfinite(ref.lb)) else None
	ub = ref.ub if np.any(np.isfinite(ref.ub)) else None
	kw = {}
	if len(ref.A): kw.update(A = ref.A, b = ref.b)
	if len(ref.Aeq): kw.update(A_eq = ref.Aeq, b_eq = ref.beq)
	if lb is not None: kw.update(lb = lb)
	if ub is not None: kw.update(ub = ub)
	if ref.quads: kw.update(Ls = [q[0] for q in ref.quads], ys = [q[1] for q in ref.quads], rhos = [q[2] for q in ref.quads])
	if d.kind in ('box', 'uniform'): dom = psdr.BoxDomain(ref.lb, ref.ub)
	elif d.kind.startswith('hull'): dom = psdr.ConvexHullDomain(ref.hulls[0][1], **kw)
	elif d.kind.startswith('linquad'): dom = psdr.LinQuadDomain(**kw)
	else: dom = psdr.LinIneqDomain(**kw)
	return D(d.kind, dom, ref, d.x + t, d.span)


def any_domain(rng, m = None, combos = True):
	m = m or int(rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))
	names = ['box', 'linineq', 'linquad', 'hull', 'normal', 'tensor'] + (['added', 'meet'] if combos else [])
	k = rng.choice(names)
	if k == 'added': return added(rng, m)
	if k == 'meet': return meet(rng, m)
	return KINDS[k](rng, m)


def feasible_points(rng, d, n, spread = 1.):
	"""points of the reference set, found without psdr: random walks from the interior point"""
	ref = d.ref
	X = []
	x = d.x.copy()
	basis = null_basis(ref)
	for _ in range(n):
		for _ in range(3):
			if basis.shape[1] == 0: break
			p = basis.dot(rng.randn(basis.shape[1]))
			n_ = np.linalg.norm(p)
			if n_ == 0: continue
			p /= n_
			a = ref.extent(x, p); b = ref.extent(x, -p)
			if a is None or b is None: continue
			a, b = min(a, 10*d.span), min(b, 10*d.span)
			t = rng.uniform(-b, a)*0.999*spread
			y = x + t*p
			if ref.viol(y) < 1e-9: x = y
		X.append(x.copy())
	return np.array(X)


def null_basis(ref):
	"""directions which can be moved in"""
	rows = [ref.Aeq]
	fixed = ref.lb == ref.ub
	rows.append(np.eye(ref.m)[fixed])
	for c, V in ref.hulls:
		Vc = V - V.mean(axis = 0)
		U, s, VT = np.linalg.svd(Vc, full_matrices = True)
		s = np.hstack([s, np.zeros(VT.shape[0] - len(s))]) if len(s) < VT.shape[0] else s
		N = VT[s[:VT.shape[0]] < 1e-9*max(1., s[0])]
		if len(N):
			Z = np.zeros((len(N), ref.m)); Z[:, c] = N
			rows.append(Z)
	A = np.vstack(rows)
	if len(A) == 0: return np.eye(ref.m)
	U, s, VT = np.linalg.svd(A)
	r = int(np.sum(s > 1e-9*max(1., s[0])))
	return VT[r:].T


def probe_points(rng, d, n):
	"""points inside, just inside/outside the boundary, nearby, and far away"""
	ref = d.ref
	X = list(feasible_points(rng, d, max(2, n//4)))
	base = np.array(X)
	while len(X) < n:
		x = base[rng.randint(len(base))]
		p = rng.randn(ref.m)
		p /= np.linalg.norm(p)
		k = rng.randint(5)
		if k == 0:
			X.append(x + p*d.span*rng.choice([0.03, 0.3, 1., 3.]))
		elif k == 1:
			X.append(x + p*d.span*10.**rng.uniform(-5, 3))
		elif k == 2:
			# a coordinate direction from a feasible point
			e = np.zeros(ref.m); e[rng.randint(ref.m)] = rng.choice([-1, 1])
			X.append(x + e*d.span*rng.choice([0.01, 0.1, 1.]))
		else:
			B = null_basis(ref)
			if B.shape[1] == 0:
				X.append(x + p*1e-3*d.span); continue
			p = B.dot(rng.randn(B.shape[1])); p /= np.linalg.norm(p)
			a = ref.extent(x, p)
			if a is None or not np.isfinite(a):
				X.append(x + p*d.span); continue
			X.append(x + a*p + p*d.span*rng.choice([-1e-3, -1e-6, 0, 1e-6, 1e-3, 1e-2, 0.1]))
	return np.array(X)
