"""Voronoi vertices, fill distance and geometric helpers"""
import numpy as np, itertools
import psdr
from psdr import voronoi_vertex, voronoi_vertex_sample, fill_distance, fill_distance_estimate
from psdr import geometry as geo
from ..core import Skip

RULE = ('A case draws a domain (interval, box, polytope, equality constrained, product; dimension 1-3, shifted and scaled), distinct, repeated or boundary points and a metric (identity, square, wide, rank deficient), and asks for the Voronoi vertices, samples of them and the fill distance; '
	'the monitor enumerates all vertices of all cells by solving every subset of constraints, and compares sets, distances and the constraints active at each returned point; helpers (unique points, weighted distances, points on spheres and simplices, smallest enclosing ball) are checked against their definitions. Distinct: different domain, points and metric.')
ASSUME = ['vertices are matched up to 1e-6 of the size of the domain']


def domain(rng, m):
	"""domain, inequality rows (A, b), equality rows, starting points inside"""
	c = rng.randn(m)*rng.choice([0, 5.]); w = np.exp(rng.uniform(-1.5, 1.5, m)) if rng.rand() < .3 else rng.uniform(.5, 2, m)
	lb, ub = c - w*rng.uniform(.5, 1, m), c + w*rng.uniform(.5, 1, m)
	A = np.vstack([np.eye(m), -np.eye(m)]); b = np.r_[ub, -lb]; Ae = np.zeros((0, m)); be = np.zeros(0)
	k = str(rng.choice(['box', 'lin', 'eq', 'prod', 'flat'] if m > 1 else ['box']))
	if k == 'box': d = psdr.BoxDomain(lb, ub)
	elif k == 'prod': d = psdr.TensorProductDomain([psdr.BoxDomain(lb[:1], ub[:1]), psdr.BoxDomain(lb[1:], ub[1:])])
	elif k == 'lin':
		N = rng.randn(int(rng.randint(1, 3)), m); r = N.dot(c) + rng.uniform(.1, .5, len(N))*np.linalg.norm(N*w, axis = 1)
		d = psdr.LinIneqDomain(A = N, b = r, lb = lb, ub = ub); A = np.vstack([A, N]); b = np.r_[b, r]
	elif k == 'eq':
		a = rng.randn(m); Ae = a[None]; be = np.array([a.dot(c)]); d = psdr.BoxDomain(lb, ub).add_constraints(A_eq = Ae, b_eq = be)
	else:
		i = rng.randint(m); lb[i] = ub[i] = c[i]; d = psdr.BoxDomain(lb, ub); b = np.r_[ub, -lb]; Ae = np.eye(m)[i:i + 1]; be = c[i:i + 1]
		keep = np.arange(2*m) % m != i; A, b = A[keep], b[keep]
	return k, d, A, b, Ae, be, w


def setup(rng, big = False):
	m = int(rng.choice([1, 2, 2, 3]))
	k, d, A, b, Ae, be, w = domain(rng, m)
	M = int(rng.choice({1: [1, 2, 6], 2: [1, 2, 3, 7], 3: [1, 2, 4]}[m]))
	np.random.seed(rng.randint(2**31))
	X = np.array(d.sample(M)).reshape(M, m)
	where = str(rng.choice(['inside', 'corner', 'repeated'], p = [.7, .2, .1]))
	if where == 'corner': X[0] = d.corner(rng.randn(m))
	if where == 'repeated' and M > 1: X[-1] = X[0]
	kind = str(rng.choice(['none', 'square', 'wide', 'deficient'], p = [.3, .35, .2, .15]))
	L = None if kind == 'none' else rng.randn(m, m)*10.**(rng.uniform(-5, 5) if rng.rand() < .3 else 0)
	if kind == 'wide': L = L[:max(1, m - 1)]
	if kind == 'deficient': L[-1] = L[0]*.5; 
	return m, k, d, A, b, Ae, be, w, M, X, where, kind, L


def vertices(A, b, Ae, be, X, L):
	"""all vertices of all cells (brute force), in coordinates of the affine subspace"""
	m = X.shape[1]; L = np.eye(m) if L is None else L; G = L.T.dot(L)
	if len(Ae):
		Q = np.linalg.svd(Ae)[2][len(Ae):].T
	else: Q = np.eye(m)
	x0 = X[0]; n = Q.shape[1]; out = []
	s = max(np.ptp(X.dot(L.T)), 1e-300)
	for k in range(len(X)):
		C, e = [A.dot(Q)], [b - A.dot(x0)]
		for j in range(len(X)):
			g = G.dot(X[j] - X[k])
			if np.linalg.norm(L.dot(X[j] - X[k])) <= 1e-12*s: continue
			C.append(g.dot(Q)[None]); e.append([g.dot(.5*(X[j] + X[k]) - x0)])
		C, e = np.vstack(C), np.concatenate(e)
		nr = np.linalg.norm(C, axis = 1); keep = nr > 1e-12*nr.max(); C, e = C[keep]/nr[keep, None], e[keep]/nr[keep]
		for I in itertools.combinations(range(len(C)), n):
			M_ = C[list(I)]
			if abs(np.linalg.det(M_)) < 1e-9: continue
			z = np.linalg.solve(M_, e[list(I)])
			if np.all(C.dot(z) <= e + 1e-9*(1 + np.abs(z).max())): out.append(x0 + Q.dot(z))
	return np.array(out).reshape(-1, m)


def dmin(V, X, L):
	L = np.eye(X.shape[1]) if L is None else L
	return np.linalg.norm((V[:, None] - X[None]).dot(L.T), axis = 2).min(axis = 1)


def s_vertices(ctx):
	rng = ctx.rng
	m, k, d, A, b, Ae, be, w, M, X, where, kind, L = setup(rng)
	ctx.info(m = m, domain = k, M = M, points = where, metric = kind); ctx.mix(A, b, X, np.zeros(1) if L is None else L)
	X0, L0 = X.copy(), None if L is None else L.copy()
	V = np.asarray(voronoi_vertex(d, X, L = L))
	if not ctx.ok(V.ndim == 2 and V.shape[1] == m and np.all(np.isfinite(V)), 'shape', V = V): return
	ctx.ok(np.array_equal(X, X0) and (L is None or np.array_equal(L, L0)), 'inputs-kept')
	s = np.max(w); tol = 1e-6*s
	ctx.ok(np.all(A.dot(V.T).T <= b + tol*np.linalg.norm(A, axis = 1)) and (len(Ae) == 0 or np.all(np.abs(V.dot(Ae.T) - be) <= tol*np.linalg.norm(Ae))), 'inside')
	R = vertices(A, b, Ae, be, X, L)
	if len(R) == 0: raise Skip('reference')
	far = max(np.min(np.linalg.norm(V - r, axis = 1)) for r in R) if len(V) else np.inf
	ill = kind != 'none' and L.shape[0] == m and np.linalg.cond(L) > 1e3
	ctx.ok(far <= (1e-3 if ill else 1e-5)*s, 'complete', 'a vertex is %g from every returned one' % far)
	if not ill and kind in ('none', 'square'):
		if m == 1 and where == 'repeated': R = np.vstack([R, X])  # one dimensional: repeated points are midpoints of themselves
		far = max(np.min(np.linalg.norm(R - v, axis = 1)) for v in V)
		ctx.ok(far <= 1e-5*s, 'only-vertices', 'a returned point is %g from every vertex' % far)
	want = dmin(R, X, L).max(); nl = 1. if L is None else np.linalg.norm(L, 2)
	got = fill_distance(d, X, L = L)
	ctx.ok(abs(got - want) <= 1e-5*nl*s, 'fill-distance', 'got %.10g, expected %.10g' % (got, want))
	P = np.array(d.sample(200)); ctx.ok(np.all(dmin(P, X, L) <= got + 1e-6*nl*s), 'fill-distance-bounds', 'a sample is %g away, fill distance %g' % (dmin(P, X, L).max(), got))
	np.random.seed(rng.randint(2**31))
	if L is None or not (kind == 'deficient' and m == 1 and abs(L[0, 0]) < 1e-300):
		est = fill_distance_estimate(d, X, L = L, Nsamp = 60)
		ctx.ok(0 <= est <= want + 1e-6*nl*s, 'estimate-lower-bound', 'estimate %g, fill distance %g' % (est, want))
		if kind == 'none' and where == 'inside': ctx.ok(est >= .4*want, 'estimate-close', 'estimate %g, fill distance %g' % (est, want))


def s_sample(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 7)); k, d, A, b, Ae, be, w = domain(rng, m)
	M = int(rng.choice([1, 2, 5, 20])); N = int(rng.choice([1, 10]))
	np.random.seed(rng.randint(2**31))
	X, Z = np.array(d.sample(M)).reshape(M, m), np.array(d.sample(N)).reshape(N, m)
	kind = str(rng.choice(['none', 'square', 'wide']))
	L = None if kind == 'none' else rng.randn(m, m)*10.**(rng.uniform(-5, 5) if rng.rand() < .3 else 0)
	if kind == 'wide': L = L[:int(rng.randint(1, m + 1))]
	r = bool(rng.rand() < .6)
	ctx.info(m = m, domain = k, M = M, N = N, metric = kind, randomize = r); ctx.mix(A, b, X, Z, np.zeros(1) if L is None else L)
	X0, Z0 = X.copy(), Z.copy()
	a = (X.tolist(), Z.tolist()) if rng.rand() < .2 else (X, Z)
	V = np.asarray(voronoi_vertex_sample(d, *a, L = L, randomize = r))
	ctx.ok(np.array_equal(X, X0) and np.array_equal(Z, Z0), 'inputs-kept')
	if not ctx.ok(V.shape == (N, m) and np.all(np.isfinite(V)), 'shape', V = V): return
	s = np.max(w); tol = 1e-6*s
	ctx.ok(np.all(A.dot(V.T).T <= b + tol*np.linalg.norm(A, axis = 1)) and (len(Ae) == 0 or np.all(np.abs(V.dot(Ae.T) - be) <= tol*np.linalg.norm(Ae))), 'inside')
	nl = 1. if L is None else np.linalg.norm(L, 2)
	d0, d1 = dmin(Z, X, L), dmin(V, X, L)
	ctx.ok(np.all(d1 >= d0 - 1e-6*nl*s), 'distance-grows', 'a distance shrank by %g' % np.max(d0 - d1))
	if (r or kind != 'wide') and (kind != 'square' or np.linalg.cond(L) < 100):
		LL = np.eye(m) if L is None else L; G = LL.T.dot(LL); full = 0
		for v in V:
			D = np.linalg.norm((X - v).dot(LL.T), axis = 1); i = int(np.argmin(D))
			rows = [Ae] + [A[np.abs(A.dot(v) - b) <= 1e-5*s*np.linalg.norm(A, axis = 1)]] + [G.dot(X[j] - X[i])[None]/np.linalg.norm(G.dot(X[j] - X[i])) for j in range(M) if j != i and D[j] - D[i] <= 1e-5*nl*s]
			full += np.linalg.matrix_rank(np.vstack(rows), tol = 1e-6) >= m
		if N >= 10: ctx.ok(full >= .6*N, 'vertices', '%d of %d points satisfy m constraints' % (full, N))


def s_helpers(ctx):
	rng = ctx.rng
	k = str(rng.choice(['unique', 'cdist', 'sphere', 'simplex', 'miniball'])); m = int(rng.randint(1, 6)); ctx.info(kind = k, m = m)
	np.random.seed(rng.randint(2**31))
	s = 10.**rng.uniform(-6, 6)
	if k == 'unique':
		M = int(rng.randint(1, 12)); X = s*(rng.randn(M, m) if rng.rand() < .5 else rng.randint(3, size = (M, m))); X = X[rng.randint(M, size = int(rng.randint(1, 20)))]; ctx.mix(X)
		I = np.asarray(geo.unique_points(X))
		ctx.ok(I.dtype == bool and I.shape == (len(X),), 'unique-mask')
		ctx.ok(sorted(map(tuple, X[I])) == sorted(set(map(tuple, X))), 'unique', got = X[I], expected = X)
	elif k == 'cdist':
		A, B = s*rng.randn(4, m), s*rng.randn(3, m); L = rng.randn(int(rng.randint(1, m + 2)), m) if rng.rand() < .6 else None; ctx.mix(A, B)
		W = np.array([[np.linalg.norm((np.eye(m) if L is None else L).dot(a - b)) for b in B] for a in A])
		ctx.ok(np.allclose(geo.cdist(A, B, L), W, rtol = 1e-9, atol = 1e-9*s), 'distances')
		ctx.ok(np.allclose(geo.cdist(A[0], B[1], L), W[0, 1], rtol = 1e-9, atol = 1e-9*s), 'distances-single')
	elif k == 'sphere':
		n = int(rng.randint(1, 30)); X = geo.sample_sphere(m, n); ctx.mix(X)
		ctx.ok(X.shape == (n, m) and np.allclose(np.linalg.norm(X, axis = 1), 1), 'on-sphere')
		if m == 1 and n > 1: ctx.ok(len(set(np.sign(X[:, 0]))) == 2, 'both-ends')
		if m == 2 and n >= 8:
			a = np.sort(np.arctan2(X[:, 1], X[:, 0])); g = np.max(np.diff(np.r_[a, a[0] + 2*np.pi])); ctx.ok(g <= 6*2*np.pi/n, 'spread', 'gap %g with %d points' % (g, n))
	elif k == 'simplex':
		n = int(rng.randint(1, 40)); X = geo.sample_simplex(m, n); ctx.mix(X)
		ctx.ok(X.shape == (n, m + 1) or X.shape == (n, m), 'shape', got = X.shape)
		ctx.ok(np.all(X >= 0) and np.allclose(X.sum(axis = 1), 1), 'on-simplex')
		P = geo.sample_simplex(m, 4000); q = P.shape[1]
		# uniform on the simplex: Dirichlet(1): mean 1/q, variance (q-1)/(q^2 (q+1))
		sd = np.sqrt((q - 1)/q**2/(q + 1)/4000) + 1e-300
		ctx.ok(np.all(np.abs(P.mean(axis = 0) - 1/q) <= 6*sd) and np.all(np.abs((P**2).mean(axis = 0) - 2/q/(q + 1)) <= 8*sd), 'uniform', got = P.mean(axis = 0))
	else:
		from psdr.geometry.miniball import miniball
		M = int(rng.randint(1, 9)); X = s**.3*rng.randn(M, m); L = rng.randn(m, m) if rng.rand() < .5 else None; ctx.mix(X)
		x, r = miniball(X, L = L); LL = np.eye(m) if L is None else L
		Y = X.dot(LL.T); sc = max(np.max(np.linalg.norm(Y - Y[0], axis = 1)), 1e-300)
		dd = np.linalg.norm((X - x).dot(LL.T), axis = 1)
		ctx.ok(abs(dd.max() - r) <= 1e-4*sc + 1e-6*s**.3, 'ball-encloses', 'radius %g, furthest point %g' % (r, dd.max()))
		# at the optimum the center is in the hull of the furthest points; a subgradient descent from the mean gives an upper bound
		c = Y.mean(axis = 0)
		for it in range(1, 3000): j = np.argmax(np.linalg.norm(Y - c, axis = 1)); c = c + (Y[j] - c)/(it + 1)
		best = np.linalg.norm(Y - c, axis = 1).max()
		ctx.ok(r <= best*(1 + 1e-3) + 1e-6*s**.3, 'ball-smallest', 'radius %g, a ball of radius %g encloses them' % (r, best))


SCENARIOS = [
	{'name': 'vertices', 'func': s_vertices, 'n': (500, 6000), 'timeout': 60},
	{'name': 'sample', 'func': s_sample, 'n': (500, 6000), 'timeout': 60},
	{'name': 'helpers', 'func': s_helpers, 'n': (400, 4000), 'timeout': 60},
]
