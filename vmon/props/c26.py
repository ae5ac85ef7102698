"""space filling designs"""
import numpy as np, scipy.optimize as so, scipy.stats as st
import psdr
from ..core import Skip
from .c25 import vertices, dmin

RULE = ('A case draws a domain (box, polytope, product, equality constrained; dimension 1-4, shifted and scaled), a metric and a number of points and builds a design: Latin hypercube (plain, maximin, generalized to polytopes), maximin by block descent or along one direction, coffee house, Poisson disk, Sobol, initial samples for low rank metrics, stretch sampling; '
	'the monitor checks membership and counts and the defining property of each (strata, local optimality, greedy distances against brute force Voronoi vertices, separation and coverage, dyadic balance, uniform projections, vertices along each metric). Distinct: different domain, metric and random state.')
ASSUME = ['coverage of Poisson disk samples and the uniformity of projections are judged statistically, with false alarm probabilities below 1e-6']


def domain(rng, m, kinds = ('box', 'lin', 'prod', 'eq')):
	c = rng.randn(m)*rng.choice([0, 5.]); w = rng.uniform(.5, 2, m)*(10.**rng.uniform(-2, 2) if rng.rand() < .3 else 1)
	lb, ub = c - w*rng.uniform(.5, 1, m), c + w*rng.uniform(.5, 1, m)
	A = np.vstack([np.eye(m), -np.eye(m)]); b = np.r_[ub, -lb]; Ae = np.zeros((0, m)); be = np.zeros(0)
	k = str(rng.choice(kinds)) if m > 1 else 'box'
	if k == 'box': d = psdr.BoxDomain(lb, ub)
	elif k == 'prod': d = psdr.TensorProductDomain([psdr.BoxDomain(lb[:1], ub[:1]), psdr.BoxDomain(lb[1:], ub[1:])])
	elif k == 'lin':
		N = rng.randn(int(rng.randint(1, 3)), m)/w; r = N.dot(c) + rng.uniform(.1, .5, len(N))*np.linalg.norm(N*w, axis = 1)
		d = psdr.LinIneqDomain(A = N, b = r, lb = lb, ub = ub); A = np.vstack([A, N]); b = np.r_[b, r]
	else:
		a = rng.randn(m)/w; Ae = a[None]; be = np.array([a.dot(c)]); d = psdr.BoxDomain(lb, ub).add_constraints(A_eq = Ae, b_eq = be)
	return k, d, A, b, Ae, be, w, lb, ub


def inside(X, A, b, Ae, be, w, tol = 1e-6):
	s = np.max(w)
	return np.all(A.dot(X.T).T <= b + tol*s*np.linalg.norm(A, axis = 1)) and (len(Ae) == 0 or np.all(np.abs(X.dot(Ae.T) - be) <= tol*s*np.linalg.norm(Ae)))


def extent(a, A, b, Ae, be):
	"""range of a^T x over the polytope"""
	kw = {'A_eq': Ae, 'b_eq': be} if len(Ae) else {}
	sc = np.linalg.norm(a)
	r = [so.linprog(t*a/sc, A_ub = A, b_ub = b, bounds = [(None, None)]*len(a), **kw) for t in (1, -1)]
	if any(q.status for q in r): raise Skip('reference')
	return r[0].fun*sc, -r[1].fun*sc


def mind(X, L = None):
	Y = X if L is None else X.dot(L.T); D = np.linalg.norm(Y[:, None] - Y[None], axis = 2); D[np.arange(len(X)), np.arange(len(X))] = np.inf
	return D.min(axis = 1)


def s_latin(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); f = str(rng.choice(['sample', 'maximin']))
	k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'box', 'prod', 'lin', 'eq'))
	N = int(rng.choice([1, 2, 3, 5])) if k in ('lin', 'eq') else int(rng.choice([1, 2, 3, 7, 20, 60]))
	it = int(rng.choice([0, 1, 50])) if k not in ('lin', 'eq') else int(rng.choice([1, 5]))
	ctx.info(m = m, domain = k, N = N, design = f, maxiter = it); ctx.mix(lb, ub, A, N)
	np.random.seed(rng.randint(2**31))
	if f == 'sample': X = psdr.latin_hypercube_sample(d, float(N) if rng.rand() < .2 else N)
	else: X = psdr.latin_hypercube_maximin(d, N, maxiter = it)
	if X is None and k in ('lin', 'eq'): raise Skip('no design')
	X = np.asarray(X)
	if not ctx.ok(X.shape == (N, m) and np.all(np.isfinite(X)), 'shape', got = X): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside', got = X)
	ctx.ok(np.all(d.isinside(X)), 'inside-psdr')
	for i in range(m):
		e = np.eye(m)[i]
		lo, hi = (lb[i], ub[i]) if k in ('box', 'prod') else extent(e, A, b, Ae, be)
		h = (hi - lo)/N; x = np.sort(X[:, i])
		if k in ('box', 'prod'): ctx.ok(np.max(np.abs(x - (lo + h*(np.arange(N) + .5)))) <= 1e-9*(hi - lo) + 1e-12*abs(lo), 'midpoints', got = x, expected = (lo, hi))
		else: ctx.ok(np.all(x >= lo + h*np.arange(N) - 1e-4*h - 1e-6*np.max(w)) and np.all(x <= lo + h*np.arange(1, N + 1) + 1e-4*h + 1e-6*np.max(w)), 'strata', got = x, expected = (lo, hi))


def s_latin_random(ctx):
	"""the permutations are uniform and independent; the maximin design separates better"""
	rng = ctx.rng
	N = int(rng.choice([3, 4])); d = psdr.BoxDomain([0, 0.], [float(N), float(N)]); ctx.info(N = N); ctx.mix(N, rng.rand())
	np.random.seed(rng.randint(2**31)); cnt = {}; R = 600
	for t in range(R):
		X = psdr.latin_hypercube_sample(d, N); p = tuple(int(np.floor(v)) for v in X[np.argsort(X[:, 0]), 1]); cnt[p] = cnt.get(p, 0) + 1
	n = 6 if N == 3 else 24
	c = np.zeros(n); c[:len(cnt)] = list(cnt.values())
	ctx.ok(len(cnt) == n and st.chisquare(c).pvalue > 1e-8, 'uniform-permutations', got = sorted(cnt.values()))
	m = int(rng.choice([2, 3])); M = 10; D = psdr.BoxDomain(np.zeros(m), np.ones(m))
	a = mind(np.asarray(psdr.latin_hypercube_maximin(D, M, maxiter = 400))).min(); B = np.median([mind(psdr.latin_hypercube_sample(D, M)).min() for t in range(9)])
	ctx.ok(a >= B, 'maximin-better', got = a, expected = B)


def metric(rng, m, kinds = ('none', 'square', 'wide', 'one')):
	k = str(rng.choice(kinds))
	L = None if k == 'none' else rng.randn({'square': m, 'wide': max(1, m - 1), 'one': 1, 'deficient': m}[k], m)
	if k == 'deficient': L[-1] = L[0]
	if L is not None and rng.rand() < .3: L = L*10.**rng.uniform(-4, 4)
	return k, L


def s_block(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m)
	kind, L = metric(rng, m, ('none', 'square', 'wide', 'one', 'deficient')); N = int(rng.choice([1, 2, 3, 6])); it = int(rng.choice([1, 3, 200]))
	np.random.seed(rng.randint(2**31))
	X0 = np.array(d.sample(N)).reshape(N, m) if rng.rand() < .5 else None
	ctx.info(m = m, domain = k, metric = kind, N = N, maxiter = it, start = X0 is not None); ctx.mix(A, b, np.zeros(1) if L is None else L)
	B = None if X0 is None else X0.copy()
	X = np.asarray(psdr.maximin_block(d, N, L = L if L is None or rng.rand() < .8 else L.tolist(), maxiter = it, X0 = X0))
	if not ctx.ok(X.shape == (N, m) and np.all(np.isfinite(X)), 'shape', got = X): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside', got = X)
	if B is not None: ctx.ok(np.array_equal(X0, B), 'inputs-kept')
	LL = np.eye(m) if L is None else L; nl = np.linalg.norm(LL, 2)*np.max(w); rank = np.linalg.matrix_rank(LL)
	if N == 1: return
	got = mind(X, LL)
	if rank == 1:
		a = np.linalg.svd(LL)[2][0]; lo, hi = extent(a, A, b, Ae, be); h = (hi - lo)/(N - 1)*np.linalg.norm(LL.dot(a))
		ctx.ok(np.all(np.abs(got - h) <= 1e-5*nl), 'equispaced', got = got, expected = h)
		return
	if B is not None: ctx.ok(got.min() >= mind(B, LL).min() - 1e-6*nl, 'no-worse-than-start', got = got.min(), expected = mind(B, LL).min())
	if it == 200 and kind in ('none', 'square') and nl > 1e-2:
		# stationary: no direction along the active constraints moves a point away from its nearest neighbours
		AA, bb = A/np.linalg.norm(A, axis = 1)[:, None], b/np.linalg.norm(A, axis = 1)
		for i in range(N):
			R = np.delete(X, i, axis = 0); D = np.linalg.norm((R - X[i]).dot(LL.T), axis = 1); j = int(np.argmin(D)); G = LL.T.dot(LL)
			C = [a for a, r in zip(AA, bb) if r - a.dot(X[i]) <= max(1e-4*np.max(w), 1.2e-5*abs(r))] + list(Ae) + [G.dot(R[q] - R[j]) for q in range(N - 1) if q != j and D[q] - D[j] <= 1e-4*nl]
			h = G.dot(X[i] - R[j]); h = h/max(np.linalg.norm(h), 1e-300)
			if C:
				C = np.array(C); C = C/np.maximum(np.linalg.norm(C, axis = 1), 1e-300)[:, None]; U, s, V = np.linalg.svd(C); V = V[:np.sum(s > 1e-6)]; h = h - V.T.dot(V.dot(h))
			if np.linalg.norm(h) > 2e-3 and N > 3 and np.max(np.abs(np.asarray(psdr.maximin_block(d, N, L = L, maxiter = 1, X0 = X)) - X)) > 1e-7*np.max(w): return # slow convergence
			if not ctx.ok(np.linalg.norm(h) <= 2e-3, 'stationary', 'point %d can move by a direction of norm %g' % (i, np.linalg.norm(h))): return


def s_line(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m); N = int(rng.choice([1, 2, 5, 30]))
	L = rng.randn(1, m)*10.**rng.uniform(-3, 3); none = m == 1 and rng.rand() < .5
	ctx.info(m = m, domain = k, N = N); ctx.mix(A, b, L)
	X = np.asarray(psdr.maximin_design_1d(d, N, L = None if none else (L.ravel() if rng.rand() < .3 else L)))
	if not ctx.ok(X.shape == (N, m), 'shape', got = X.shape): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside')
	a = np.ones(1) if none else L[0]; lo, hi = extent(a, A, b, Ae, be); y = np.sort(X.dot(a))
	if N > 1: ctx.ok(np.max(np.abs(y - np.linspace(lo, hi, N))) <= 1e-5*(hi - lo) + 1e-6*np.linalg.norm(a)*np.max(w), 'equispaced', got = y, expected = (lo, hi))
	else: ctx.ok(min(abs(y[0] - lo), abs(y[0] - hi)) <= 1e-5*(hi - lo) + 1e-6*np.linalg.norm(a)*np.max(w), 'endpoint')


def s_coffee(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m)
	kind, L = metric(rng, m, ('none', 'square', 'wide')); N = int({1: 8, 2: 6, 3: 4}[m])if rng.rand() < .8 else int(rng.choice([1, 2])); full = [None, True, False][rng.randint(3)]
	if kind == 'wide' and full is False: full = True
	ctx.info(m = m, domain = k, metric = kind, N = N, full = full); ctx.mix(A, b, np.zeros(1) if L is None else L)
	np.random.seed(rng.randint(2**31))
	X = np.asarray(psdr.maximin_coffeehouse(d, N, L = L, verbose = bool(rng.rand() < .3), full = full, N0 = None if rng.rand() < .5 else 40))
	if not ctx.ok(X.shape == (N, m) and np.all(np.isfinite(X)), 'shape', got = X): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside', got = X)
	nl = np.max(w)*(1. if L is None else np.linalg.norm(L, 2))
	if L is not None and kind == 'square' and np.linalg.cond(L) > 300: return
	for j in range(1, N):
		got = dmin(X[j:j + 1], X[:j], L)[0]
		R = vertices(A, b, Ae, be, X[:j], L)
		if len(R) == 0: return
		want = dmin(R, X[:j], L).max()
		ctx.ok(got <= want + 1e-5*nl, 'at-most-fill-distance', got = got, expected = want)
		if full is not False:
			if not ctx.ok(got >= want - 1e-5*nl, 'furthest-point', 'point %d has distance %g, fill distance %g' % (j, got, want)): return
		elif m <= 2: ctx.ok(got >= .3*want, 'far-point', 'point %d has distance %g, fill distance %g' % (j, got, want))


def s_poisson(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'prod'))
	kind, L = metric(rng, m, ('none', 'square')); grid = bool(rng.rand() < .5)
	LL = np.eye(m) if L is None else L
	if np.linalg.cond(LL) > 20: raise Skip('metric')
	e = np.array([extent(a, A, b, Ae, be) for a in LL]); size = np.max(e[:, 1] - e[:, 0])
	r = size*float({1: rng.choice([.03, .2, .6]), 2: rng.choice([.15, .3, .9]), 3: rng.choice([.4, .8])}[m])
	if rng.rand() < .1: r = 4*size*m
	ctx.info(m = m, domain = k, metric = kind, grid = grid, r = r/size); ctx.mix(A, b, LL, r)
	np.random.seed(rng.randint(2**31))
	X = np.asarray((psdr.poisson_disk_sample_grid if grid else psdr.poisson_disk_sample)(d, r, L = L))
	if not ctx.ok(X.ndim == 2 and X.shape[1] == m and len(X) >= 1 and np.all(np.isfinite(X)), 'shape', got = X.shape): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside', got = X)
	if len(X) > 1: ctx.ok(mind(X, LL).min() > r*(1 - 1e-12), 'separated', got = mind(X, LL).min(), expected = r)
	else: ctx.info(single = True)
	P = np.array(d.sample(400)).reshape(400, m); dd = dmin(P, X, LL)
	# every point closer than 2r to a sample, and further than r from all, was a candidate of the last round with positive probability
	ctx.ok(np.mean(dd > 2*r) <= .02, 'covered', '%g of the domain is further than 2r from the samples' % np.mean(dd > 2*r))
	if m <= 2 or r <= .41*size: ctx.ok(np.mean(dd > r) <= .25, 'dense', '%g of the domain is further than r from the samples' % np.mean(dd > r))
	if r > size*m: ctx.ok(len(X) == 1, 'only-one')


def s_sobol(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 7)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'box', 'lin', 'prod'))
	n = int(rng.choice([1, 2, 7, 15, 31, 63, 100])); ctx.info(m = m, domain = k, n = n); ctx.mix(A, b, n)
	X = np.asarray(psdr.sobol_sequence(d, n))
	if not ctx.ok(X.shape == (n, m) and np.all(np.isfinite(X)), 'shape', got = X.shape): return
	ctx.ok(inside(X, A, b, Ae, be, w), 'inside'); ctx.ok(len(set(map(tuple, X))) == n, 'distinct')
	n2 = int(rng.randint(1, 2*n + 1)); Y = np.asarray(psdr.sobol_sequence(d, n2)); q = min(n, n2)
	ctx.ok(np.array_equal(X[:q], Y[:q]), 'prefix', 'the first %d of %d and %d points differ' % (q, n, n2))
	box = psdr.BoxDomain(np.zeros(m), np.ones(m))
	if k in ('box', 'prod'):
		U = (X - lb)/(ub - lb)
		ctx.ok(np.allclose(U, psdr.sobol_sequence(box, n), atol = 1e-9), 'affine-image')
		e = int(np.log2(n + 2)); Q = np.vstack([np.zeros(m), .5*np.ones(m), U[:2**e - 2]]) # psdr skips these
		ctx.ok(all(np.array_equal(np.sort(np.floor(Q[:, i]*2**e + 1e-9).astype(int)), np.arange(2**e)) for i in range(m)), 'dyadic', got = U)
		if m >= 2:
			for a in range(e + 1):
				c = np.floor(Q[:, 0]*2**a + 1e-9)*2**(e - a) + np.floor(Q[:, 1]*2**(e - a) + 1e-9)
				ctx.ok(len(set(c)) == 2**e, 'net', 'boxes of side 2^-%d by 2^-%d do not hold one point each' % (a, e - a))
	else:
		lo, hi = np.array(d.norm_lb), np.array(d.norm_ub)
		Z = lo + (hi - lo)*np.asarray(psdr.sobol_sequence(box, 4000)); s = (A.dot(Z.T).T - b)/np.linalg.norm(A, axis = 1)/np.max(w)
		s = s.max(axis = 1); Zi = Z[s <= 0]
		if np.any(np.abs(s) < 1e-5): return
		q = min(n, len(Zi)); ctx.ok(np.allclose(X[:q], Zi[:q], atol = 1e-9*np.max(np.abs(Zi))), 'rejection')


def s_initial(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 7)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m)
	kind = str(rng.choice(['one', 'two', 'identity', 'square', 'deficient'])); N = int(rng.choice([1, 2, 30]))
	L = {'one': rng.randn(1, m), 'two': rng.randn(min(2, m), m), 'identity': np.eye(m)*rng.uniform(.1, 9), 'square': rng.randn(m, m), 'deficient': np.outer(rng.randn(m), rng.randn(m))}[kind]
	if rng.rand() < .3: L = L*10.**rng.uniform(-6, 6)
	if kind in ('one', 'deficient') and rng.rand() < .4: N = 250
	ctx.info(m = m, domain = k, metric = kind, N = N); ctx.mix(A, b, L)
	np.random.seed(rng.randint(2**31))
	B = L.copy(); X = np.asarray(psdr.initial_sample(d, L, N)); ctx.ok(np.array_equal(L, B), 'inputs-kept')
	if not ctx.ok(X.shape == (N, m) and np.all(np.isfinite(X)), 'shape', got = X.shape): return
	ctx.ok(inside(X, A, b, Ae, be, w, 1e-5), 'inside')
	if N == 250 and m > 1:
		a = np.linalg.svd(L)[2][0]; lo, hi = extent(a, A, b, Ae, be); p = st.kstest((X.dot(a) - lo)/(hi - lo), 'uniform').pvalue
		ctx.ok(p > 1e-8, 'uniform-projection', 'Kolmogorov-Smirnov p-value %g' % p)


def s_lowrank(ctx):
	rng = ctx.rng
	from psdr.sample.util import low_rank_L
	m = int(rng.randint(1, 7)); k = int(rng.randint(1, m + 3)); r = int(rng.randint(1, min(k, m) + 1)); L = rng.randn(k, r).dot(rng.randn(r, m))*10.**rng.uniform(-9, 9)
	ctx.info(m = m, rows = k, rank = r); ctx.mix(L)
	B = L.copy(); J = np.asarray(low_rank_L(L)); G = L.T.dot(L)
	ctx.ok(J.shape == (r, m), 'rank', got = J.shape, expected = (r, m)); ctx.ok(np.max(np.abs(J.T.dot(J) - G)) <= 1e-10*np.max(np.abs(G)), 'same-metric'); ctx.ok(np.array_equal(B, L), 'inputs-kept')


def far(y, Y, lo, hi):
	"""y is as far from Y as the best of several samples of [lo, hi]"""
	return np.min(np.abs(Y - y)) >= .98*np.quantile(np.min(np.abs(np.linspace(lo, hi, 2000)[:, None] - Y), axis = 1), .25)


def s_stretch(ctx):
	rng = ctx.rng
	m = int(rng.randint(2, 6)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin', 'prod'))
	n = int(rng.randint(1, 4)); n = min(n, m); M = int(rng.choice([1, 2, 8, 12]))
	Ls = [rng.randn(1, m)/w for i in range(n)]; np.random.seed(rng.randint(2**31)); X = np.array(d.sample(M)).reshape(M, m)
	ctx.info(m = m, domain = k, metrics = n, M = M); ctx.mix(A, b, X, *Ls)
	B = X.copy()
	try: x = np.asarray(psdr.stretch_sample(d, X, Ls))
	except psdr.UnboundedDomainException: raise Skip('solver on a slice')
	ctx.ok(np.array_equal(B, X) and len(Ls) == n, 'inputs-kept')
	if not ctx.ok(x.shape == (m,) and np.all(np.isfinite(x)), 'shape', got = x): return
	ctx.ok(inside(x[None], A, b, Ae, be, w, 1e-5), 'inside', got = x)
	if n < m:
		# what the metrics leave free is used to get away from the samples
		try: S = np.array(d.add_constraints(A_eq = np.vstack(Ls), b_eq = np.hstack([L.dot(x) for L in Ls])).sample(30)).reshape(30, m)
		except Exception: S = None		# slices of almost no volume
		if S is not None and np.max(np.std(S, axis = 0)/w) > 1e-3:
			near = lambda P: np.min(np.linalg.norm(P[:, None] - X[None], axis = 2), axis = 1)
			q = np.quantile(near(S), .8); ctx.ok(near(x[None])[0] >= .99*q, 'far-in-the-slice', 'the point is closer to the samples (%.4g) than a fifth of its slice (%.4g)' % (near(x[None])[0], q))
	if M < 8: return
	# candidates start from 2M initial samples and only move away from X, false alarms below .25^16
	ok = [far(x.dot(L[0]), X.dot(L[0]), *extent(L[0], A, b, Ae, be)) for L in Ls]
	ctx.ok(any(ok), 'far-in-a-metric', 'the point is close to the samples in all metrics')
	if n > 1 and any(ok):
		# the other metrics are stretched on the slices fixed so far
		found = False
		for i in [i for i in range(n) if ok[i]]:
			for j in range(n):
				if j == i: continue
				try: lo, hi = extent(Ls[j][0], A, b, Ls[i], np.array([Ls[i][0].dot(x)]))
				except Skip: found = True; continue
				if hi - lo < 1e-3 or far(x.dot(Ls[j][0]), X.dot(Ls[j][0]), lo, hi): found = True
		ctx.ok(found, 'second-metric', 'no second metric was stretched')


SCENARIOS = [
	{'name': 'latin', 'func': s_latin, 'n': (300, 4000), 'timeout': 60},
	{'name': 'latin_random', 'func': s_latin_random, 'n': (20, 100), 'timeout': 60},
	{'name': 'block', 'func': s_block, 'n': (200, 2500), 'timeout': 120},
	{'name': 'line', 'func': s_line, 'n': (100, 1500), 'timeout': 60},
	{'name': 'coffee', 'func': s_coffee, 'n': (150, 2500), 'timeout': 60},
	{'name': 'poisson', 'func': s_poisson, 'n': (120, 1500), 'timeout': 120},
	{'name': 'sobol', 'func': s_sobol, 'n': (200, 2500), 'timeout': 60},
	{'name': 'initial', 'func': s_initial, 'n': (200, 2500), 'timeout': 60},
	{'name': 'lowrank', 'func': s_lowrank, 'n': (200, 2000), 'timeout': 60},
	{'name': 'stretch', 'func': s_stretch, 'n': (100, 1500), 'timeout': 60},
]
