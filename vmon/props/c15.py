"""Local linear models, perplexity bandwidths, outer product of gradients and subspace initialization"""
import numpy as np
import psdr
from psdr import perplexity_bandwidth, local_linear, local_linear_grads, OuterProductGradient
from psdr.initialization import initialize_subspace

RULE = ('A case draws samples (uniform, normal, clustered, widely different scales), function values and bandwidth options; the monitor solves each weighted least squares problem and each bandwidth equation itself (bisection) '
	'and compares every local model, and for the outer product of gradients the leading subspaces in the original coordinates. Distinct: different data or options.')
ASSUME = ['whether the user bandwidth includes the factor 1/2 is documented in two ways; either reading is accepted, but it must be the same everywhere', 'weighted problems that are numerically rank deficient are not compared']


def entropy(beta, d):
	d = d - d.min()
	p = np.exp(-beta*d); S = p.sum(); p = p/S
	return np.exp(beta*np.sum(p*d) + np.log(S))


def solve_beta(d, perp):
	"""the bandwidth by bisection in the logarithm"""
	sc = 1/(np.max(d) - np.min(d))
	lo, hi = 1e-12*sc, 1e-12*sc
	while entropy(hi, d) > perp:
		hi *= 4
		if hi > 1e40*sc: return None
	for _ in range(300):
		mid = np.sqrt(lo*hi)
		if entropy(mid, d) > perp: lo = mid
		else: hi = mid
	return np.sqrt(lo*hi)


def cloud(rng, m, M):
	kind = rng.choice(['uniform', 'normal', 'clustered', 'scaled', 'shifted'])
	X = rng.rand(M, m)
	if kind == 'normal': X = rng.randn(M, m)
	if kind == 'clustered': X = X*.05 + rng.randint(0, 2, size = (M, 1))
	if kind == 'scaled': X = X*10.**rng.uniform(-2, 2)
	if kind == 'shifted': X = X + rng.uniform(-3, 3, m)
	return kind, X


def s_bandwidth(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); M = int(rng.choice([4, 6, 12, 40, 150]))
	kind, X = cloud(rng, m, M)
	x = X[rng.randint(M)] if rng.rand() < .6 else X.mean(axis = 0) + np.std(X)*rng.randn(m)
	d = np.sum((X - x)**2, axis = 1)
	d0 = d.copy()
	perp = float(rng.choice([2., rng.uniform(2, M - .1), min(m + 1., M - 1.) if m > 0 else 2., rng.uniform(2, 2 + .2*(M - 2))]))
	perp = max(perp, 2.)
	ctx.info(m = m, M = M, kind = kind, perplexity = perp); ctx.mix(d)
	beta = perplexity_bandwidth(d, perp)
	ctx.ok(np.ndim(beta) == 0 and np.isfinite(beta) and beta > 0, 'positive', got = beta)
	H = entropy(beta, d)
	ctx.ok(abs(H - perp) < 1e-4*perp, 'perplexity', 'kernel weights do not have the target perplexity', got = H, expected = perp)
	want = solve_beta(d, perp)
	if want is not None:
		Hs = [entropy(want*(1 + e), d) for e in (-1e-3, 1e-3)]
		if abs(Hs[0] - Hs[1]) > 1e-5*perp:
			ctx.ok(abs(beta - want) < 1e-2*want, 'bandwidth', got = beta, expected = want)
	ctx.ok(np.all(d == d0), 'inputs-kept')


def wls(X, f, x, beta):
	d = np.sum((X - x)**2, axis = 1)
	w = np.exp(-beta*d/2)
	Y = np.hstack([np.ones((len(X), 1)), X])
	A = w[:, None]*Y
	sv = np.linalg.svd(A)[1]
	return np.linalg.lstsq(A, w*f, rcond = 1e-14)[0], (sv[0]/sv[-1] if len(sv) == X.shape[1] + 1 and sv[-1] > 0 else np.inf)


def models(X, f, Xt, kw):
	"""the reference models for each reading of the bandwidth"""
	M, m = X.shape
	perp, bw = kw.get('perplexity'), kw.get('bandwidth')
	outs = []
	if perp is None and bw is None:
		# the default perplexity is m + 1: all of m + 1 samples have equal weight
		if M > m + 1: perp = m + 1
		else: bw = 0.
	if perp is None:
		if isinstance(bw, str): bw = 2.34*M**(-1./(max(m, 3) + 6))
		opts = [.5*bw, bw]
	else: opts = [None]
	for o in opts:
		res = []
		for x in Xt:
			b = solve_beta(np.sum((X - x)**2, axis = 1), perp) if o is None else o
			if b is None: res.append((None, np.inf)); continue
			res.append(wls(X, f, x, b))
		outs.append(res)
	return outs


def options(rng, m, M):
	k = rng.randint(5)
	if k == 0: return {}
	if k == 1: return {'perplexity': float(rng.uniform(m + 1 if m + 1 < M - .5 else 2, M - .3))}
	if k == 2: return {'perplexity': int(max(2, min(M - 1, rng.randint(m + 1, 2*m + 4))))}
	if k == 3: return {'bandwidth': float(np.exp(rng.uniform(-3, 2)))}
	return {'bandwidth': 'xia'}


def s_models(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); M = int(rng.choice([m + 1, m + 3, 2*m + 6, 30, 60]))
	kind, X = cloud(rng, m, M)
	kw = options(rng, m, M) if M > m + 1 else {}
	sc = np.std(X) + 1e-300
	a, a0 = rng.randn(m), rng.randn()
	linear = rng.rand() < .3
	f = X.dot(a) + a0
	if not linear: f = f + np.sin((X/sc).dot(rng.randn(m))) + .1*rng.randn(M)
	Xt = None
	if rng.rand() < .6:
		K = int(rng.choice([1, 2, M + 3])); Xt = X[rng.randint(M, size = K)] + .1*sc*rng.randn(K, m)*(rng.rand() < .5)
	ctx.info(m = m, M = M, kind = kind, options = kw, Xt = Xt is not None, linear = linear); ctx.mix(X, f)
	X0, f0 = X.copy(), f.copy()
	ff = f if rng.rand() < .5 else f.reshape(-1, 1)
	args = dict(kw) if Xt is None else dict(kw, Xt = Xt)
	A = local_linear(X, ff, **args)
	T = X if Xt is None else Xt
	if not ctx.ok(np.shape(A) == (len(T), m + 1), 'shape', got = np.shape(A), expected = (len(T), m + 1)): return
	G = local_linear_grads(X, ff, **args)
	ctx.ok(np.shape(G) == (len(T), m) and np.all(np.asarray(G) == np.asarray(A)[:, 1:]), 'gradients', 'gradients are not the linear coefficients')
	best = None
	for res in models(X, f, T, kw):
		bad = []; n = 0
		for i, (c, cond) in enumerate(res):
			if cond > 1e5: continue
			n += 1
			sl = np.abs(c).max() + np.max(np.abs(f))
			# compare values near the target and gradients
			tol = 1e-11*cond**2*sl + 1e-6*sl
			if abs(A[i, 0] + A[i, 1:].dot(T[i]) - c[0] - c[1:].dot(T[i])) > tol or np.max(np.abs(A[i, 1:] - c[1:]))*max(sc, 1e-2) > tol: bad.append((i, A[i], c, cond))
		if best is None or len(bad) < len(best[0]): best = (bad, n)
	ctx.count('models-compared', best[1])
	ctx.ok(not best[0], 'weighted-least-squares', 'local model is not the weighted least squares solution', first = best[0][:1])
	if linear:
		for i, (c, cond) in enumerate(models(X, f, T, kw)[0]):
			if cond < 1e4: ctx.ok(np.max(np.abs(A[i, 1:] - a)) < 1e-5*(1 + np.max(np.abs(f))/sc), 'exact-for-affine', got = A[i], expected = a)
	ctx.ok(np.all(X == X0) and np.all(f == f0), 'inputs-kept')


def spans(U, V, k):
	return np.linalg.norm(V[:, :k] - U[:, :k].dot(U[:, :k].T.dot(V[:, :k])), 2)


def s_opg(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); M = int(rng.choice([3*m + 6, 40, 80]))
	kind, X = cloud(rng, m, M)
	if rng.rand() < .6: X = X*10.**rng.uniform(-1, 1, m)
	kw = options(rng, m, M); std = bool(rng.rand() < .6)
	Z = (X - X.mean(axis = 0))/X.std(axis = 0)
	kindf = rng.choice(['affine', 'ridge', 'general'])
	a = rng.randn(m)
	f = Z.dot(a)
	if kindf == 'ridge': f = np.tanh(f)
	if kindf == 'general': f = f + np.sum(Z**2*np.arange(1, m + 1), axis = 1)*.3
	ctx.info(m = m, M = M, kind = kind, options = kw, standardize = std, f = kindf); ctx.mix(X, f)
	X0, f0 = X.copy(), f.copy()
	o = OuterProductGradient(standardize = std, **kw)
	o.fit(X.tolist() if rng.rand() < .2 else X, f.reshape(-1, 1) if rng.rand() < .3 else f)
	U = o.U
	ctx.ok(len(o) == m and U.shape == (m, m) and np.max(np.abs(U.T.dot(U) - np.eye(m))) < 1e-8, 'orthonormal')
	W = Z if std else X
	D = X.std(axis = 0) if std else np.ones(m)
	good = False; decided = False; info = None
	for res in models(W, f, W, kw):
		if max(c for _, c in res) > 1e5:
			continue
		G = np.array([c[1:] for c, _ in res])
		V, s, _ = np.linalg.svd(G.T)
		s = np.r_[s, np.zeros(m - len(s))]
		q = np.linalg.qr(V/D[:, None])[0]
		err = [(k, spans(U, q, k)) for k in range(1, m) if s[k - 1] > 1.05*s[k] + 1e-9*s[0]]
		decided = True
		amp = (D.max()/D.min())
		tol = 1e-4*amp
		# orientation: the average slope along each direction is not negative
		sl = (G/D).mean(axis = 0).dot(U); st = np.linalg.norm(G/D, 2)/np.sqrt(M)
		if all(e < tol for _, e in err) and np.all(sl > -1e-6*st): good = True
		info = (err, sl)
	if decided: ctx.ok(good, 'subspaces', 'not the leading eigenspaces of the outer product of local gradients in the original coordinates', got = info, U = U)
	else: ctx.trivial = kindf != 'affine'
	if kindf == 'affine' and decided:
		g = a/X.std(axis = 0); g = g/np.linalg.norm(g)
		ctx.ok(abs(U[:, 0].dot(g) - 1) < 1e-6, 'affine-direction', 'gradient direction of an affine function not recovered', got = U[:, 0], expected = g)
	ctx.ok(np.all(X == X0) and np.all(f == f0), 'inputs-kept')


def s_initialize(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); kind = rng.choice(['grads', 'samples', 'mixed', 'few'])
	M = int(rng.choice([m + 1, m + 2, 30, 60])); n_grads = int(rng.choice([100, 100, 5, 40]))
	X = rng.uniform(-1, 1, size = (M, m)); r = int(rng.randint(1, m + 1)); B = np.linalg.qr(rng.randn(m, r))[0]
	f = X.dot(B).dot(np.arange(r, 0, -1.))
	lin = B.dot(np.arange(r, 0, -1.))
	quad = kind in ('grads', 'few')
	G = B.dot(np.diag(np.arange(1., r + 1))).dot(rng.randn(r, int(rng.choice([n_grads, n_grads + 7, 2*m]))) + .5).T if quad else np.tile(lin, (int(rng.randint(1, 5)), 1))
	ctx.info(m = m, M = M, kind = kind, n_grads = n_grads, rank = r); ctx.mix(X, f, G)
	if kind == 'few': X, f = X[:m], f[:m]
	if kind == 'grads': U = initialize_subspace(grads = G, n_grads = n_grads)
	elif kind == 'few': U = initialize_subspace(X = X, fX = f, grads = G, n_grads = n_grads)
	elif kind == 'samples': U = initialize_subspace(X = X, fX = f, n_grads = n_grads)
	else: U = initialize_subspace(X = X, fX = f.reshape(-1, 1), grads = G, n_grads = n_grads)
	ctx.ok(U.ndim == 2 and U.shape[0] == m and U.shape[1] >= 1 and np.max(np.abs(U.T.dot(U) - np.eye(U.shape[1]))) < 1e-8, 'orthonormal')
	if quad:
		V, s, _ = np.linalg.svd(G.T, full_matrices = False)
		for k in range(1, min(m, len(s))):
			if s[k - 1] > 1.02*s[k] and s[k - 1] > 1e-8*s[0]: ctx.ok(spans(U, V, k) < 1e-5, 'gradient-subspace', got = U, expected = V)
	elif M > m + 2:
		g = lin/np.linalg.norm(lin)
		ctx.ok(abs(abs(U[:, 0].dot(g)) - 1) < 1e-4, 'affine-direction', got = U[:, 0], expected = g)


SCENARIOS = [
	{'name': 'bandwidth', 'func': s_bandwidth, 'n': (1500, 20000), 'timeout': 20},
	{'name': 'models', 'func': s_models, 'n': (500, 6000), 'timeout': 60},
	{'name': 'opg', 'func': s_opg, 'n': (300, 3000), 'timeout': 60},
	{'name': 'initialize', 'func': s_initialize, 'n': (300, 3000), 'timeout': 60},
]
