"""designs for several metrics, sequential samples, samplers"""
import itertools, sys
import numpy as np, scipy.optimize as so, scipy.stats as st
import psdr
from ..core import Skip
from .c25 import vertices, dmin
from .c26 import domain, inside, extent, mind
from .c27 import radius

RULE = ('A case draws a domain (box, polytope, product, equality constrained; dimension 1-5), several metrics (one or more rows, shifted and scaled) and a number of points, and builds projection samples or designs (one point of the design in each Voronoi cell of the targets of each metric), sequential maximin samples, or drives a sampler through a history of draws; '
	'the monitor checks the cells, the assignment, the distance to the targets and, for few points, enumerates all assignments; distances of sequential samples are compared with the largest possible ones. Distinct: different domain, metrics, points and random state.')
ASSUME = ['how well sequential samples do for several metrics is judged against random samples of the domain']


def cells(ctx, X, L, Y, tol):
	"""each sample is closest to its own target in this metric; returns the assignment"""
	D = np.linalg.norm((X.dot(L.T))[:, None] - Y[None], axis = 2); r, c = so.linear_sum_assignment(D)
	ok = np.all(D[r, c] <= D.min(axis = 1) + tol)
	ctx.ok(ok, 'cells', 'sample %d is %g from its target and %g from the nearest' % (int(np.argmax(D[r, c] - D.min(axis = 1))), D[r, c][np.argmax(D[r, c] - D.min(axis = 1))], D.min(axis = 1)[np.argmax(D[r, c] - D.min(axis = 1))]), got = D)
	if not ok: return None
	t = np.sort(D, axis = 1) # -1 on the boundary of a cell
	return np.where((t[:, 1] - t[:, 0] if len(Y) > 1 else np.full(len(X), np.inf)) > 10*tol, c, -1)


def score(X): return np.sort(mind(X))


def nearest(A, b, Ae, be, Ls, Ys, c, w):
	"""point of the cells c whose images are closest to the targets; None for empty cells"""
	m = A.shape[1]; C, r = [A], [b]
	for L, Y, j in zip(Ls, Ys, c):
		for k in range(len(Y)):
			if k != j: n = Y[k] - Y[j]; C.append(n.dot(L)[None]); r.append([n.dot(Y[k] + Y[j])/2])
	C = np.vstack(C); r = np.hstack(r); s = np.linalg.norm(C, axis = 1); I = s > 1e-12*s.max(); C, r = C[I]/s[I, None], r[I]/s[I]
	kw = {'A_eq': np.c_[Ae, np.zeros(len(Ae))], 'b_eq': be} if len(Ae) else {}
	q = so.linprog(np.r_[np.zeros(m), 1], A_ub = np.c_[C, -np.ones(len(C))], b_ub = r, bounds = [(None, None)]*(m + 1), **kw)
	if q.status != 0: raise Skip('reference')
	if q.fun > 1e-7*np.max(w): return None, q.fun
	G = np.vstack(Ls); t = np.hstack([Y[j] for Y, j in zip(Ys, c)]); f = np.linalg.norm(G, 2)
	if q.fun > -1e-6*np.max(w): return 'thin', q.fun
	return so.minimize(lambda x: .5*np.sum((G.dot(x) - t)**2)/f**2, q.x[:m], jac = lambda x: G.T.dot(G.dot(x) - t)/f**2, method = 'SLSQP', options = {'ftol': 1e-15, 'maxiter': 300},
		constraints = [{'type': 'ineq', 'fun': lambda x: r - C.dot(x), 'jac': lambda x: -C}] + ([{'type': 'eq', 'fun': lambda x: Ae.dot(x) - be, 'jac': lambda x: Ae}] if len(Ae) else [])).x, q.fun


def setup(ctx, mmax = 4):
	rng = ctx.rng
	m = int(rng.randint(2, mmax + 1)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'box', 'lin', 'prod'))
	n = int(rng.randint(1, m + 1)); wide = rng.rand() < .25 and m >= 2; left, Ls = m, []
	for i in range(n):
		p = min(left, 2 if wide and i == 0 else 1)
		if p == 0: break
		Ls.append(rng.randn(p, m)/w if rng.rand() < .7 else np.eye(m)[i:i + p] if i + p <= m else rng.randn(p, m)/w); left -= p
	if rng.rand() < .2: Ls = [L*10.**rng.uniform(-3, 3) for L in Ls]
	return m, k, d, A, b, Ae, be, w, lb, ub, Ls


def s_sample(ctx):
	rng = ctx.rng
	m, k, d, A, b, Ae, be, w, lb, ub, Ls = setup(ctx); N = int(rng.choice([1, 2, 3, 4, 6])); it = int(rng.choice([1, 5, 15]))
	if N > 4: it = min(it, 5)
	ctx.info(m = m, domain = k, metrics = [len(L) for L in Ls], N = N, maxiter = it); ctx.mix(A, b, *Ls)
	seed = int(rng.randint(2**31)); B = [L.copy() for L in Ls]
	P = sys.modules['psdr.sample.projection']; got = []; orig = getattr(P, 'maximin_block', None)
	if orig is None: raise Skip('hook')
	def hook(*a, **kw): X = orig(*a, **kw); got.append((np.array(a[2] if len(a) > 2 else kw.get('L')), np.array(X))); return X
	P.maximin_block = hook
	try: np.random.seed(seed); X = psdr.projection_sample(d, N, Ls, maxiter = it)
	finally: P.maximin_block = orig
	ctx.ok(all(np.array_equal(a, c) for a, c in zip(Ls, B)), 'inputs-kept')
	if X is None: raise Skip('no design')
	X = np.asarray(X)
	if not ctx.ok(X.shape == (N, m) and np.all(np.isfinite(X)), 'shape'): return
	ctx.ok(inside(X, A, b, Ae, be, w, 1e-5), 'inside', got = X)
	perms = []
	for i, L in enumerate(Ls):
		if len(L) == 1: lo, hi = extent(L[0], A, b, Ae, be); Y = np.linspace(lo, hi, N)[:, None] if N > 1 else X.dot(L.T); J = L
		elif i < len(got) and len(got) == len(Ls): J = got[i][0]; Y = got[i][1].dot(J.T)
		else: continue
		c = cells(ctx, X, J, Y, 1e-5*np.linalg.norm(J, 2)*np.max(w))
		if c is None: return
		perms.append((J, Y, c))
	if N > 1 and len(perms) == len(Ls) and (sum(len(L) for L in Ls) == m or True):
		R = 0
		for i in range(N):
			G = [p[0] for p in perms]; Ys = [p[1] for p in perms]; c = [p[2][i] for p in perms]
			if min(c) < 0: continue
			x, s = nearest(A, b, Ae, be, G, Ys, c, w)
			if x is None or isinstance(x, str): continue
			f = lambda z: np.linalg.norm(np.hstack([(L.dot(z) - Y[j])  for L, Y, j in zip(G, Ys, c)]))
			g = np.linalg.norm(np.vstack(G), 2)*np.max(w); ctx.ok(f(X[i]) <= f(x) + 1e-4*g, 'close-to-targets', got = f(X[i])/g, expected = f(x)/g)
	if N > 1 and it > 1 and rng.rand() < .5:
		np.random.seed(seed); X1 = psdr.projection_sample(d, N, Ls, maxiter = 1)
		if X1 is not None: ctx.ok(tuple(score(X)) >= tuple(score(np.asarray(X1)) - 1e-9*np.max(w)), 'improves', got = score(X), expected = score(np.asarray(X1)))


def s_design(ctx):
	rng = ctx.rng
	m, k, d, A, b, Ae, be, w, lb, ub, Ls = setup(ctx); M = int(rng.choice([1, 2, 3, 3, 5])); full = sum(len(L) for L in Ls) == m; wide = max(len(L) for L in Ls) > 1
	given = wide or bool(rng.rand() < .6); it = int(rng.choice([1, 5, 200])) if M <= 3 else int(rng.choice([1, 8])); np.random.seed(rng.randint(2**31))
	Ys = None
	if given:
		Ys = [np.array(d.sample(M)).reshape(M, m).dot(L.T) for L in Ls]
		if min(np.min(mind(Y)) if M > 1 else 1. for Y in Ys) <= 1e-9: raise Skip('targets')
	ctx.info(m = m, domain = k, metrics = [len(L) for L in Ls], M = M, maxiter = it, given = given); ctx.mix(A, b, *Ls)
	B = [L.copy() for L in Ls] + [Y.copy() for Y in Ys or []]
	X = psdr.projection_design(d, M, Ls, ys = Ys, maxiter = it, verbose = bool(rng.rand() < .3), use_assumptions = bool(rng.rand() < .7))
	ctx.ok(all(np.array_equal(a, c) for a, c in zip(list(Ls) + list(Ys or []), B)), 'inputs-kept')
	T = Ys
	if T is None:
		T = []
		for L in Ls: lo, hi = extent(L[0], A, b, Ae, be); T.append((lo + (hi - lo)/M*(.5 + np.arange(M)))[:, None])
	best = None
	if M <= 3 and len(Ls) <= 3:
		# all designs
		pts, thin = {}, False
		for c in itertools.product(range(M), repeat = len(Ls)):
			x, s = nearest(A, b, Ae, be, Ls, T, c, w); pts[c] = x
			if isinstance(x, str) or (x is None and s < 1e-4*np.max(w)): thin = True
		best = []
		for p in itertools.product(itertools.permutations(range(M)), repeat = len(Ls) - 1):
			Z = [pts[tuple([i] + [q[i] for q in p])] for i in range(M)]
			if all(z is not None and not isinstance(z, str) for z in Z): best.append(np.array(Z))
		if thin: best = None
		elif X is None: ctx.ok(len(best) == 0, 'finds-a-design', '%d designs exist, none was found' % len(best)); return
	if X is None:
		if best is None: raise Skip('no design')
		return
	X = np.asarray(X)
	if not ctx.ok(X.shape == (M, m) and np.all(np.isfinite(X)), 'shape'): return
	ctx.ok(inside(X, A, b, Ae, be, w, 1e-5), 'inside', got = X)
	P = []
	for L, Y in zip(Ls, T):
		c = cells(ctx, X, L, Y, 1e-5*np.linalg.norm(L, 2)*np.max(w)); P.append(c)
		if c is None: return
	for i in range(M):
		if min(c[i] for c in P) < 0: continue
		x, s = nearest(A, b, Ae, be, Ls, T, [c[i] for c in P], w)
		if x is None or isinstance(x, str): continue
		f = lambda z: np.linalg.norm(np.hstack([L.dot(z) - Y[c[i]] for L, Y, c in zip(Ls, T, P)])); g = np.linalg.norm(np.vstack(Ls), 2)*np.max(w); ctx.ok(f(X[i]) <= f(x) + 1e-4*g, 'closest-to-targets', got = f(X[i])/g, expected = f(x)/g)
	if best and full and it == 200 and M > 1:
		if np.linalg.cond(np.vstack([L/np.linalg.norm(L) for L in Ls])) > 20 or max(np.linalg.norm(L) for L in Ls) > 20*min(np.linalg.norm(L) for L in Ls): return
		s = max(score(Z)[0] for Z in best); ctx.ok(score(X)[0] >= s - 1e-3*np.max(w), 'best-design', got = score(X), expected = s)


def s_refuse(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 4)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m, ('box', 'lin')); Ls = [rng.randn(1, m) for i in range(m + 1)]; ctx.info(m = m); ctx.mix(A, b, *Ls)
	try: psdr.projection_sample(d, 2, Ls, maxiter = 1); ctx.ok(False, 'too-many-metrics', 'accepted')
	except ValueError: ctx.ok(True, 'too-many-metrics')
	# dependent rows do not count
	if m > 1:
		L = np.outer(rng.randn(m + 1), rng.randn(m)); np.random.seed(1); X = psdr.projection_sample(d, 2, [L], maxiter = 1); X = np.asarray(X); a = L[0]; lo, hi = extent(a, A, b, Ae, be)
		ctx.ok(X.shape == (2, m) and inside(X, A, b, Ae, be, w, 1e-5) and np.max(np.abs(np.sort(X.dot(a)) - [lo, hi])) <= 1e-4*(hi - lo), 'dependent-rows', got = X)


def s_seq(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3])); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m); M = int(rng.choice([0, 1, 2, 5, 9])); kind = str(rng.choice(['none', 'square', 'one', 'wide', 'two']))
	if m == 1 and kind in ('wide', 'two'): kind = 'one'
	Ls = {'none': None, 'square': [rng.randn(m, m)/w], 'one': [rng.randn(1, m)/w], 'wide': [rng.randn(max(1, m - 1), m)/w], 'two': [rng.randn(1, m)/w, rng.randn(1, m)/w]}[kind]
	if Ls is not None and rng.rand() < .3: Ls = [L*10.**rng.uniform(-3, 3) for L in Ls]
	np.random.seed(rng.randint(2**31)); X = np.array(d.sample(M)).reshape(M, m) if M else np.zeros((0, m)); C = np.array(d.sample(300)).reshape(300, m)
	slack = float(rng.choice([.5, .9, .9, 1.])); start = bool(rng.rand() < .3); kw = {'X0': C[:60].copy()} if start else {}
	ctx.info(m = m, domain = k, metrics = kind, M = M, slack = slack, start = start); ctx.mix(A, b, X, *(Ls or []))
	B = X.copy(); G = [np.eye(m)] if Ls is None else Ls; BL = [L.copy() for L in G]
	try: x = np.asarray(psdr.seq_maximin_sample(d, X.tolist() if rng.rand() < .2 else X, Ls = Ls, slack = slack, Nsamp = int(rng.choice([400, 1000])), **kw))
	except psdr.UnboundedDomainException: raise Skip('solver on a slice')
	ctx.ok(np.array_equal(B, X) and all(np.array_equal(a, c) for a, c in zip(G, BL)) and (not start or np.array_equal(kw['X0'], C[:60])), 'inputs-kept')
	if not ctx.ok(x.shape == (m,) and np.all(np.isfinite(x)), 'shape', got = x): return
	ctx.ok(inside(x[None], A, b, Ae, be, w, 1e-5), 'inside', got = x)
	if M == 0:
		V, s, W = np.linalg.svd(np.vstack(G)); s0 = np.sum(s > s[0]*(1 - 1e-4)); U = W[:s0]
		# the point is a corner in a dominant direction
		if s0 == 1: lo, hi = extent(U[0], A, b, Ae, be); t = U[0].dot(x); ctx.ok(min(abs(t - lo), abs(t - hi)) <= 1e-5*(hi - lo), 'first-is-corner', got = t, expected = (lo, hi))
		else: ctx.ok(np.max(np.min(np.c_[b - A.dot(x)]/np.linalg.norm(A, axis = 1)[:, None])) <= 1e-5*np.max(w) + 1e-8 or np.min((b - A.dot(x))/np.linalg.norm(A, axis = 1)) <= 1e-5*np.max(w), 'first-on-boundary')
		return
	if len(G) == 1:
		L = G[0]; nl = np.linalg.norm(L, 2)*np.max(w); got = dmin(x[None], X, L)[0]
		if len(L) == 1:
			y = np.sort(X.dot(L[0])); lo, hi = extent(L[0], A, b, Ae, be); c = np.r_[y[0] - lo, hi - y[-1], .5*np.diff(y)]; want = c.max()
			f = .9*slack if not start else .5*slack; ctx.ok(got >= f*want - 1e-6*nl, 'far', got = got, expected = want); ctx.ok(got <= want + 1e-5*nl, 'at-most-largest', got = got, expected = want)
		else:
			want = np.max(dmin(C, X, L)); ctx.ok(got >= slack*.85*want - 1e-6*nl, 'farther-than-samples', got = got, expected = want)
			if m <= 3 and np.linalg.matrix_rank(L) == m and np.linalg.cond(L/np.max(np.abs(L))*w) < 100:
				R = vertices(A, b, Ae, be, X, L)
				if len(R): want = radius(R, X, L); ctx.ok(got <= want + 1e-5*nl, 'at-most-largest', got = got, expected = want); ctx.ok(got >= slack*(.8 if m < 3 else .7)*want, 'nearly-furthest', got = got, expected = want)
	else:
		g = np.prod([dmin(x[None], X, L)[0] for L in G]); P = np.prod([dmin(C, X, L) for L in G], axis = 0); ctx.ok(g >= slack*.25*np.quantile(P, .5), 'product-of-distances', got = g, expected = np.quantile(P, .5))


def s_sampler(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 2, 3])); c = rng.randn(m)*3; w = 10.**rng.uniform(-1, 2, m); dom = psdr.BoxDomain(c - w, c + w); nf = int(rng.choice([1, 3])); T = rng.randn(nf, m)
	calls = []
	def f(x): calls.append(np.array(x, dtype = float).copy()); return T.dot((np.asarray(x) - c)/w) + np.sum(((np.asarray(x) - c)/w)**2)
	fun = psdr.Function(f, dom); L = None if rng.rand() < .6 or m == 3 else rng.randn(int(rng.choice([1, 1, m])), m); mode = str(rng.choice(['empty', 'X', 'XfX']))
	np.random.seed(rng.randint(2**31)); M = int(rng.choice([1, 4])); X = np.array(fun.domain.sample(M)).reshape(M, m)
	F = np.array([f(dom.unnormalize(x)) for x in X]); kw = {} if mode == 'empty' else {'X': X} if mode == 'X' else {'X': X, 'fX': F}
	del calls[:]
	S = psdr.SequentialMaximinSampler(fun, L = L, **kw); n0 = 0 if mode == 'empty' else M; n = n0; ctx.info(m = m, nf = nf, mode = mode, metric = None if L is None else len(L)); ctx.mix(c, w, T, X)
	ctx.ok(S.X.shape == (n0, m), 'initial'); prev = S.X
	if n0: X0 = X.copy(); X[:] = 99.; F0 = F.copy(); F[:] = 99.; ctx.ok(np.array_equal(S.X, X0), 'independent-of-argument'); X = X0; F = F0
	for t in range(int(rng.randint(1, 3))):
		draw = int(rng.choice([1, 1, 2])); S.sample(draw) if draw > 1 or rng.rand() < .5 else S.sample(); n += draw
		Y, G = S.X, S.fX
		if not ctx.ok(Y.shape == (n, m) and G is not None and len(G) == n, 'counts', '%d samples, %d values, %d expected' % (len(Y), -1 if G is None else len(G), n)): return
		ctx.ok(np.array_equal(Y[:len(prev)], prev), 'history-kept'); prev = Y.copy()
		ctx.ok(np.all(np.abs(Y) <= 1 + 1e-6), 'inside')
		R = np.array([T.dot(y) + np.sum(y**2) for y in Y]); ctx.ok(np.allclose(np.asarray(G).reshape(n, nf), R, rtol = 1e-8, atol = 1e-8), 'values-of-samples', got = G, expected = R)
		if m > 1 or n <= 4: ctx.ok(n == 1 or mind(Y[n0:] if n > n0 + 1 else Y).min() > 1e-6 or L is not None, 'new-points-distinct')
		Y[:] = 7.; G[:] = 7.; ctx.ok(np.array_equal(S.X, prev), 'copies')
	evals = n - (n0 if mode == 'XfX' else 0); ctx.ok(len(calls) == evals, 'each-evaluated-once', got = len(calls), expected = evals)
	K = np.eye(m) if L is None else L
	for j in range(max(n0, 1), n):
		# greedy: each sample is far from its predecessors
		C = np.array(fun.domain.sample(150)).reshape(150, m); want = np.max(dmin(C, prev[:j], K)); got = dmin(prev[j:j + 1], prev[:j], K)[0]
		if not ctx.ok(got >= .7*want, 'sequence-far', got = got, expected = want): return


def s_random(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 4)); k, d, A, b, Ae, be, w, lb, ub = domain(rng, m); N = int(rng.choice([1, 2, 50])); seed = int(rng.randint(2**31)); ctx.info(m = m, domain = k, N = N); ctx.mix(A, b, N)
	d2 = d.copy() if hasattr(d, 'copy') else d; np.random.seed(seed); X = np.asarray(psdr.random_sample(d, N)); np.random.seed(seed); Y = np.asarray(d2.sample(N))
	ctx.ok(X.shape == Y.shape and np.all(np.isfinite(X)), 'shape', got = X.shape, expected = Y.shape); ctx.ok(inside(X.reshape(N, m), A, b, Ae, be, w, 1e-5), 'inside')
	if N == 50 and k == 'box': ctx.ok(np.all(np.abs(X.mean(axis = 0) - (lb + ub)/2) <= 6*(ub - lb)/np.sqrt(12*N)), 'uniform')


SCENARIOS = [
	{'name': 'sample', 'func': s_sample, 'n': (80, 1000), 'timeout': 120},
	{'name': 'design', 'func': s_design, 'n': (120, 1500), 'timeout': 120},
	{'name': 'refuse', 'func': s_refuse, 'n': (30, 200), 'timeout': 60},
	{'name': 'seq', 'func': s_seq, 'n': (90, 2000), 'timeout': 120},
	{'name': 'sampler', 'func': s_sampler, 'n': (24, 1000), 'timeout': 120},
	{'name': 'random', 'func': s_random, 'n': (60, 500), 'timeout': 60},
]
