"""Active subspace from gradients, from quadrature, its convergence study and the shadow envelope"""
import numpy as np, scipy.linalg
import psdr
from psdr import ActiveSubspace, BoxDomain, Function
from psdr.demos import QuadraticFunction
from .. import gen
from scipy.optimize import linprog

RULE = ('A case draws gradients (fewer, as many or more than the dimension; deficient rank; zero mean along some direction), weights, or a function with a known gradient covariance and calls the real ActiveSubspace; '
	'the monitor recomputes the (weighted) outer product directly and checks the eigenpairs, orthonormality, ordering and orientation. Convergence studies are replayed from recorded sampler, function and fit calls. '
	'Distinct: different gradients, weights or function.')
ASSUME = ['the shadow envelope is only bounded to plotting accuracy (its solver is run to 3 digits by design)']


def check(ctx, act, G, w, tag = ''):
	G = np.asarray(G, dtype = float); N, m = G.shape
	w = np.ones(N)/N if w is None else np.asarray(w, dtype = float)
	C = np.einsum('i,ij,ik->jk', w, G, G); sc = np.trace(C) + 1e-300
	U, s = act.U, np.asarray(act.singvals)
	ctx.ok(len(act) == m, tag + 'dimension')
	ctx.ok(U.shape == (m, m) and np.max(np.abs(U.T.dot(U) - np.eye(m))) < 1e-9, tag + 'orthonormal', got = U)
	ctx.ok(s.shape == (m,) and np.all(s >= 0) and np.all(np.diff(s) <= 1e-12*(s[0] + 1)), tag + 'ordered', got = s)
	ctx.ok(act.C.shape == (m, m) and np.max(np.abs(act.C - C)) < 1e-9*sc, tag + 'C', 'C is not the average outer product', got = act.C, expected = C)
	ctx.ok(np.max(np.abs(s**2 - np.sort(np.linalg.eigvalsh(C))[::-1])) < 1e-9*sc, tag + 'eigenvalues', got = s**2)
	ctx.ok(np.max(np.abs(C.dot(U) - U*s**2)) < 1e-9*sc, tag + 'eigenvectors')
	sl = np.mean(G.dot(U), axis = 0)
	ctx.ok(np.all(sl >= -1e-12*np.max(np.abs(G))), tag + 'orientation', 'average slope negative along a direction', got = sl)


def draw(rng):
	m = int(rng.choice([1, 2, 3, 5, 9])); N = int(rng.choice([1, 2, m, m + 1, 4*m, 60]))
	kind = rng.choice(['full', 'lowrank', 'zero-slope', 'scaled', 'zero', 'repeated'], p = [.3, .2, .2, .15, .05, .1])
	G = rng.randn(N, m)
	if kind == 'lowrank': G = rng.randn(N, 1 + m//3).dot(rng.randn(1 + m//3, m))
	if kind == 'scaled': G = G*10.**rng.uniform(-3, 3, m)*10.**rng.randint(-5, 6)
	if kind == 'zero': G[:] = 0
	if kind == 'repeated': G[:] = G[0]
	if kind == 'zero-slope': G = np.vstack([G, -G]); N *= 2
	return m, N, kind, G


def s_fit(ctx):
	rng = ctx.rng
	m, N, kind, G = draw(rng)
	w = None if rng.rand() < .4 else 0
	if w is not None:
		k = rng.randint(3)
		w = [rng.rand(N) + 1e-3, 10.**rng.uniform(-4, 2, N), np.r_[np.zeros(N//3), np.ones(N - N//3)]][k]
	ctx.info(m = m, N = N, kind = kind, weighted = w is not None); ctx.mix(G, [] if w is None else w)
	G0 = G.copy(); w0 = None if w is None else w.copy()
	act = ActiveSubspace()
	lists = rng.rand() < .3
	act.fit(G.tolist() if lists else G, weights = (None if w is None else (w.tolist() if lists else w)))
	check(ctx, act, G, w)
	U = act.U; U[:] = 7
	ctx.ok(np.max(np.abs(act.U)) <= 1 + 1e-9, 'U-is-a-copy')
	ctx.ok(np.all(G == G0) and (w is None or np.all(w == w0)), 'inputs-kept')
	# the result of a fit depends on that fit only
	m2, N2, _, G2 = draw(rng)
	act.fit(G2)
	check(ctx, act, G2, None, 'refit-')
	# order of samples does not matter; duplicating with half the weight does not either
	perm = rng.permutation(N)
	b = ActiveSubspace(); b.fit(G[perm], weights = None if w is None else w[perm])
	a = ActiveSubspace(); a.fit(np.vstack([G, G]), weights = None if w is None else np.r_[w, w]/2)
	act.fit(G, w)
	sc = np.trace(act.C) + 1e-300
	ctx.ok(np.max(np.abs(b.C - act.C)) < 1e-9*sc and np.max(np.abs(a.C - act.C)) < 1e-9*sc, 'sample-order')


def s_function(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 4])); q = int(rng.randint(2, 4)); N = q**m + int(rng.randint(0, 2))
	lb = rng.uniform(-2, 1, m); ub = lb + np.exp(rng.uniform(-1, 1, m))
	dom = BoxDomain(lb, ub)
	r = int(rng.randint(1, m + 1)); B = rng.randn(m, r); A = B.dot(B.T)*rng.choice([-1, 1]); b = rng.randn(m)
	ctx.info(m = m, N = N, rank = r); ctx.mix(lb, ub, A, b)
	calls = []
	def grad(x):
		calls.append(1)
		return A.dot(x) + b
	k = rng.randint(3)
	if k == 0: fun = QuadraticFunction(quad = A/1., linear = b, domain = dom); mul = None
	else: fun = Function(lambda x: .5*x.dot(A).dot(x) + b.dot(x), dom, grads = grad)
	act = ActiveSubspace()
	act.fit_function(fun, N)
	if k: ctx.ok(len(calls) <= N, 'gradient-budget', 'more gradients than allowed', got = len(calls))
	# which quadratic convention: read the gradient off the function itself at exact points
	g0 = np.asarray(fun.grad(np.zeros((1, m)))).reshape(m)
	H = np.stack([np.asarray(fun.grad(np.eye(m)[i:i+1])).reshape(m) - g0 for i in range(m)], axis = 0)
	# functions are evaluated in normalized coordinates of their domain
	D = fun.domain
	l, u = np.asarray(D.lb), np.asarray(D.ub)
	mu, var, vol = (l + u)/2, (u - l)**2/12, np.prod(u - l)
	gm = g0 + mu.dot(H)
	C = vol*(np.outer(gm, gm) + H.T.dot(np.diag(var)).dot(H))
	ctx.ok(np.max(np.abs(act.C - C)) < 1e-8*(np.trace(C) + 1e-12), 'integral', 'not the integral of the outer products', got = act.C, expected = C)
	U, s = act.U, act.singvals
	ctx.ok(np.max(np.abs(C.dot(U) - U*s**2)) < 1e-7*(np.trace(C) + 1e-12), 'eigenvectors')
	ctx.ok(np.max(np.abs(U.T.dot(U) - np.eye(m))) < 1e-9, 'orthonormal')


def s_convergence(ctx):
	rng = ctx.rng
	m = int(rng.randint(2, 6)); d = int(rng.randint(1, m + 1))
	A = rng.randn(m, m); A = A + A.T; b = 3*rng.randn(m)
	fun = QuadraticFunction(quad = A, linear = b)
	dom = fun.domain; other = BoxDomain(-.5*np.ones(m), .3*np.ones(m))
	use = rng.rand() < .4
	Ns = [int(n) for n in np.cumsum(rng.randint(1, 7, size = rng.randint(2, 6)))]
	data = rng.choice(['grad', 'eval'])
	ctx.info(m = m, dim = d, Ns = Ns, data = data, domain = use); ctx.mix(A, b)
	log = []
	def sampler(domain, N):
		log.append(('sample', domain, N))
		X = domain.sample(N + 1)
		log.append(('X', X.copy()))
		return X
	class Rec(ActiveSubspace):
		def fit(self, grads = None, X = None, fX = None):
			if grads is None:
				# estimates from values: an affine fit per half, monitored only through the recorded call
				log.append(('fit', X.copy(), np.array(fX)))
				Y = np.hstack([np.ones((len(X), 1)), X])
				grads = np.vstack([np.linalg.lstsq(Y, fX, rcond = None)[0][1:].T, np.eye(X.shape[1])[: ]*1e-3*len(X)])
			else:
				log.append(('fit', np.array(grads)))
			ActiveSubspace.fit(self, grads)
			log.append(('U', self.U))
	ang, Ms = psdr.subspace_convergence(Rec(), fun, sampler, Ns, data = data, subspace_dimension = d, **({'domain': other} if use else {}))
	samp = [e for e in log if e[0] == 'sample']; Xs = [e[1] for e in log if e[0] == 'X']; fits = [e for e in log if e[0] == 'fit']; Us = [e[1] for e in log if e[0] == 'U']
	ctx.ok([e[2] for e in samp] == Ns and all(e[1] is (other if use else dom) for e in samp), 'samples', 'sampler called with the wrong numbers or domain')
	ctx.ok(len(fits) == len(Ns), 'fits')
	for X, f in zip(Xs, fits):
		X = X.reshape(-1, m)
		if data == 'eval':
			ctx.close(f[1], X, 'fit-data'); ctx.close(f[2].flatten(), np.asarray(fun(X)).flatten(), 'fit-data')
		else:
			ctx.close(f[1], np.asarray(fun.grad(X)), 'fit-data')
	ctx.ok(list(Ms) == [n + 1 for n in Ns], 'counts', got = Ms)
	want = [np.pi/2]
	for U, V in zip(Us, Us[1:]):
		s = np.linalg.svd(U[:, :d].T.dot(V[:, :d]))[1]
		R = V[:, :d] - U[:, :d].dot(U[:, :d].T.dot(V[:, :d]))
		want.append(np.arctan2(np.linalg.norm(R, 2), s.min()))
	ctx.ok(np.shape(ang) == (len(Ns),) and np.max(np.abs(np.asarray(ang) - want)) < 1e-6, 'angles', got = ang, expected = np.array(want))


def s_envelope(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); N = int(rng.choice([20, 45, 120, 400]))
	X = rng.rand(N, m); a = rng.randn(m); fX = (X.dot(a) + rng.uniform(0, 1)*rng.randn(N))*rng.choice([1., 3.]) + rng.choice([0., 2.])
	if rng.rand() < .4: fX = fX*10.**rng.uniform(-8, 6)
	ctx.info(m = m, N = N); ctx.mix(X, fX)
	act = ActiveSubspace(); act.fit(rng.randn(m + 2, m))
	u = act.U[:, 0]; kw = {}
	k = rng.randint(3)
	if k == 1: kw['U'] = a/np.linalg.norm(a); u = kw['U']
	if k == 2: Q = np.linalg.qr(rng.randn(m, min(2, m)))[0]; kw['U'] = Q; u = Q[:, 0]
	ff = fX if rng.rand() < .5 else fX.reshape(-1, 1)
	y, lb, ub = act.shadow_envelope(X.tolist() if rng.rand() < .3 else X, ff, verbose = False, **kw)
	ctx.close(y, X.dot(u), 'projection')
	if lb is None or ub is None:
		ctx.trivial = True; return
	n = len(lb); r = np.ptp(fX)
	ctx.ok(len(ub) == n and 3 <= n <= 25, 'grid')
	yy = np.linspace(y.min(), y.max(), n)
	ctx.ok(np.all(np.interp(y, yy, ub) >= fX - .12*r), 'upper', 'samples above the upper envelope', got = np.max(fX - np.interp(y, yy, ub))/r)
	ctx.ok(np.all(np.interp(y, yy, lb) <= fX + .12*r), 'lower', 'samples below the lower envelope', got = np.max(np.interp(y, yy, lb) - fX)/r)
	# tight: the sum over the grid is (nearly) the least possible
	A = np.stack([np.interp(y, yy, np.eye(n)[i]) for i in range(n)], axis = 1)
	best = linprog(np.ones(n), A_ub = -A, b_ub = -(fX - fX[0])/r, bounds = (None, None), method = 'highs')
	low = linprog(-np.ones(n), A_ub = A, b_ub = (fX - fX[0])/r, bounds = (None, None), method = 'highs')
	if best.status == 0 and low.status == 0:
		su, sl = np.sum((ub - fX[0])/r), np.sum((lb - fX[0])/r)
		ctx.ok(su <= best.fun + .15*n, 'upper-tight', got = su, expected = best.fun)
		ctx.ok(sl >= -low.fun - .15*n, 'lower-tight', got = sl, expected = -low.fun)


SCENARIOS = [
	{'name': 'fit', 'func': s_fit, 'n': (1500, 20000), 'timeout': 20},
	{'name': 'function', 'func': s_function, 'n': (300, 3000), 'timeout': 20},
	{'name': 'convergence', 'func': s_convergence, 'n': (200, 2000), 'timeout': 30},
	{'name': 'envelope', 'func': s_envelope, 'n': (200, 1500), 'timeout': 40},
]
