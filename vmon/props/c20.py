"""Lipschitz matrix, diagonal Lipschitz matrix and Lipschitz constant"""
import numpy as np, scipy.optimize as so, warnings
import psdr
from psdr import LipschitzMatrix, DiagonalLipschitzMatrix, LipschitzConstant
from ..core import Skip

RULE = ('A case draws samples and/or gradients of a function (affine, ridge, smooth, noisy, constant; repeated samples; any scale from 1e-4 to 1e5), epsilon (or none) and estimator (full by any of its three formulations, diagonal, constant), fits, possibly after another fit; '
	'the monitor checks every pair and gradient constraint, the semidefiniteness, L^T L = H, and minimality of the trace against an independent optimum (LP for diagonal, direct maximum for the constant, an independent semidefinite program for the full matrix), '
	'the eigenvectors and their orientation, and equivariance under rotation, scaling and permutation of the data. Distinct: different data and options.')
ASSUME = ['constraints are satisfied up to the accuracy of the conic solver (1e-6 of the scale of the data)', 'gradients together with epsilon are documented not to constrain the matrix and are not combined']


def data(rng, m = None):
	m = int(rng.randint(1, 6)) if m is None else m
	N = int(rng.choice([0, 2, 3, 6, 12, 20])); K = int(rng.choice([0, 0, 1, 4, 10])) if N else int(rng.choice([1, 2, 6, 12]))
	X = rng.randn(N, m)*np.exp(rng.uniform(-1, 1, m)); Z = rng.randn(K, m)
	kind = str(rng.choice(['affine', 'ridge', 'smooth', 'noise', 'constant'], p = [.2, .2, .35, .15, .1]))
	a, b = rng.randn(m), rng.randn(m)
	if kind == 'affine': f, g = (lambda X: X.dot(a) + 3.), lambda Z: np.tile(a, (len(Z), 1))
	elif kind == 'ridge': f, g = (lambda X: np.sin(X.dot(a))), lambda Z: np.cos(Z.dot(a))[:, None]*a
	elif kind == 'constant': f, g = (lambda X: np.full(len(X), 2.5)), lambda Z: np.zeros((len(Z), m))
	else: f, g = (lambda X: np.sin(X.dot(a)) + .5*(X.dot(b))**2), lambda Z: np.cos(Z.dot(a))[:, None]*a + Z.dot(b)[:, None]*b
	fX, G = f(X), g(Z)
	if kind == 'noise': fX = fX + .3*rng.randn(N)
	if N > 3 and rng.rand() < .15:
		X = np.vstack([X, X[:2]]); fX = np.r_[fX, fX[:2]]
	if K > 1 and kind in ('ridge', 'smooth') and rng.rand() < .25:
		# sensitivities of very different size, each seen by gradients of its own
		G = np.zeros((K, m)); G[np.arange(K), rng.randint(m, size = K)] = 10.**-rng.uniform(0, 2.3, K); G[0] *= 0; G[0, 0] = 1.
		if len(X): fX = fX*0
	s = 10.**rng.uniform(-4, 5) if rng.rand() < .4 else 1.
	return m, kind, X, s*fX, s*G, s


def size(X, fX, G):
	"""the typical size of gradients in the data"""
	v = [np.linalg.norm(g) for g in G]
	for i in range(len(X)):
		for j in range(i):
			d = np.linalg.norm(X[i] - X[j])
			if d > 0: v.append(abs(fX[i] - fX[j])/d)
	return max(v + [0.])


def pairs(X, fX, eps):
	P, d = [], []
	for i in range(len(X)):
		for j in range(i):
			if abs(fX[i] - fX[j]) > eps: P.append(X[i] - X[j]); d.append(abs(fX[i] - fX[j]) - eps)
	return np.array(P).reshape(-1, X.shape[1]), np.array(d)


def feasible(ctx, H, X, fX, G, eps, scale, tol = 3e-6, clause = 'constraints'):
	P, d = pairs(X, fX, eps)
	# the scaled data has range one: that is what the solver's accuracy refers to
	if len(P):
		v = d**2 - np.einsum('ij,jk,ik->i', P, H, P)
		ctx.ok(np.all(v <= tol*scale**2*np.maximum(1e-3, np.sum(P**2, axis = 1)) + tol*d**2), clause + '-samples', 'violated by %g of %g' % (np.max(v), scale**2))
	for g in G:
		e = np.linalg.eigvalsh(H - np.outer(g, g))[0]
		ctx.ok(e >= -tol*max(scale**2, g.dot(g)), clause + '-gradients', 'violated by %g of %g' % (-e, g.dot(g)))


def best_full(X, fX, G, eps, m):
	import cvxpy as cp
	H = cp.Variable((m, m), PSD = True)
	P, d = pairs(X, fX, eps)
	cons = []
	if len(P):
		n = np.linalg.norm(P, axis = 1); Q = np.einsum('ij,ik->ijk', P, P)/n[:, None, None]**2
		cons.append(cp.vec(H).__rmatmul__(Q.reshape(len(P), -1)) >= d**2/n**2)
	for g in G: cons.append(H - np.outer(g, g) >> 0)
	pr = cp.Problem(cp.Minimize(cp.trace(H)), cons)
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		for kw in ({'solver': 'CVXOPT', 'abstol': 1e-9, 'reltol': 1e-9, 'feastol': 1e-9, 'kktsolver': 'robust'}, {'solver': 'CVXOPT', 'kktsolver': 'robust'}, {'solver': 'SCS', 'eps': 1e-6, 'max_iters': 20000}):
			try: pr.solve(**kw)
			except Exception: continue
			if pr.status == 'optimal': return float(pr.value), np.array(H.value)
	raise Skip('reference')


def fit(lip, X, fX, G, rng = None):
	kw = {}
	if len(X): kw['X'], kw['fX'] = X, fX
	if len(G): kw['grads'] = G
	if rng is not None:
		if 'fX' in kw and rng.rand() < .3: kw['fX'] = fX.reshape(-1, 1)
		if rng.rand() < .2: kw = {k: v.tolist() for k, v in kw.items()}
	lip.fit(**kw)


def quiet(f, *a, **k):
	import io, contextlib
	with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)


def s_fit(ctx):
	rng = ctx.rng
	m, kind, X, fX, G, s = data(rng)
	which = str(rng.choice(['cvxopt', 'cvxopt', 'param', 'cvxpy', 'diag', 'constant']))
	rngf = np.ptp(fX) if len(fX) else 0.
	eps = None
	if rng.rand() < .4 and len(X): eps = float(rng.choice([0, .05, .5, 2.])*rngf); G = G[:0]
	ctx.info(m = m, kind = kind, N = len(X), gradients = len(G), method = which, epsilon = eps, scale = s); ctx.mix(X, fX, G)
	cls = {'diag': DiagonalLipschitzMatrix, 'constant': LipschitzConstant}.get(which, LipschitzMatrix)
	kw = {} if eps is None else {'epsilon': eps}
	if which in ('param', 'cvxpy') or (which == 'cvxopt' and rng.rand() < .5): kw['method'] = which
	lip = cls(**kw)
	if rng.rand() < .3:
		# a history: fitted to other data before, and looked at
		m2, _, X2, f2, G2, _ = data(rng, m)
		if eps is not None and len(X2): G2 = G2[:0]
		if size(X2, f2, G2) > 0: quiet(fit, lip, X2, f2, G2); lip.U, lip.H, lip.L
	quiet(fit, lip, X, fX, G, rng)
	H, L, U = np.asarray(lip.H), np.asarray(lip.L), np.asarray(lip.U)
	e = eps or 0.
	sc = max(rngf, max([np.linalg.norm(g) for g in G] + [0.])) or 1.
	if not ctx.ok(H.shape == (m, m) and L.shape == (m, m) and len(lip) == m and np.all(np.isfinite(H)) and np.all(np.isfinite(L)), 'shape', H = H, L = L): return
	hs = max(np.trace(H), 1e-300)
	ctx.ok(np.max(np.abs(H - H.T)) <= 1e-9*hs and np.linalg.eigvalsh(H)[0] >= -1e-9*hs, 'semidefinite')
	ctx.ok(np.max(np.abs(L.T.dot(L) - H)) <= 1e-7*hs or which in ('cvxopt', 'param', 'cvxpy') and np.max(np.abs(np.sort(np.linalg.eigvalsh(L.T.dot(L))) - np.sort(np.linalg.eigvalsh(H)))) <= 1e-7*hs and np.max(np.abs((L.T.dot(L)) - H)) <= 1e-7*hs, 'L^T L = H', got = L.T.dot(L), expected = H)
	feasible(ctx, H, X, fX, G, e, sc)
	P, d = pairs(X, fX, e)
	# minimality
	if which == 'constant':
		best = max([np.linalg.norm(g) for g in G] + [0.] + list(d/np.maximum(np.linalg.norm(P, axis = 1), 1e-300)))
		ctx.ok(abs(np.sqrt(H[0, 0]) - best) <= 1e-10*best and np.allclose(H, H[0, 0]*np.eye(m)), 'minimal-constant', 'constant %.12g, expected %.12g' % (np.sqrt(H[0, 0]), best))
	elif which == 'diag':
		ctx.ok(np.max(np.abs(H - np.diag(np.diag(H)))) == 0, 'diagonal')
		if len(G) == 0:
			n = np.sum(P**2, axis = 1) if len(P) else np.zeros(0)
			r = so.linprog(np.ones(m), A_ub = -(P**2)/n[:, None] if len(P) else None, b_ub = -(d/sc)**2/n if len(P) else None)
			if r.status == 0: ctx.ok(abs(np.trace(H)/sc**2 - r.fun) <= 1e-5*r.fun + 1e-7, 'minimal-diagonal', 'trace %.10g, minimum %.10g' % (np.trace(H)/sc**2, r.fun))
		else:
			# a diagonal matrix D dominates g g^T exactly if sum g_i^2/D_i <= 1; the trace is at least the largest 1-norm squared
			lowb = max(np.sum(np.abs(g))**2 for g in G)
			ctx.ok(np.trace(H) >= lowb*(1 - 1e-5), 'diagonal-lower-bound')
			if len(P) == 0 and (len(G) == 1 or kind == 'affine'): ctx.ok(np.trace(H) <= lowb*(1 + 1e-4) + 1e-9*sc**2, 'minimal-diagonal', 'trace %.10g, minimum %.10g' % (np.trace(H), lowb))
		S = np.asarray(lip.score); ctx.ok(np.allclose(S, np.sqrt(np.diag(H)), rtol = 1e-6, atol = 1e-9*sc), 'score')
		ctx.ok(U.shape == (m, m) and np.all(np.sort(U, axis = 0)[-1] == 1) and np.all(np.sum(U, axis = 0) == 1) and np.all(np.sum(U, axis = 1) == 1), 'coordinate-directions')
		o = S[np.argmax(U, axis = 0)]; ctx.ok(np.all(np.diff(o) <= 0), 'order', 'scores in the order of the directions: %s' % o)
	else:
		best, _ = best_full(X, fX/sc, G/sc, e/sc, m)
		ctx.ok(np.trace(H)/sc**2 <= best*(1 + 1e-4) + 3e-6, 'minimal-trace', 'trace %.10g, minimum %.10g' % (np.trace(H)/sc**2, best))
		ctx.ok(np.trace(H)/sc**2 >= best*(1 - 1e-3) - 1e-5, 'reference-sane', 'trace %.10g, minimum %.10g' % (np.trace(H)/sc**2, best))
		ctx.ok(np.max(np.abs(U.T.dot(U) - np.eye(m))) < 1e-9, 'orthonormal')
		ew = np.diag(U.T.dot(H).dot(U)); R = U.T.dot(H).dot(U) - np.diag(ew)
		ctx.ok(np.max(np.abs(R)) <= 1e-8*hs and np.all(np.diff(ew) <= 1e-9*hs), 'eigenvectors', 'directions are not the ordered eigenvectors', got = ew)
		if len(G):
			sl = G.dot(U).mean(axis = 0); ctx.ok(np.all(sl >= -1e-12*np.max(np.abs(G)) - 1e-300), 'orientation', got = sl)
	if kind == 'affine' and e == 0 and which in ('cvxopt', 'param', 'cvxpy') and len(G):
		a = G[0]; ctx.ok(np.max(np.abs(H - np.outer(a, a))) <= 1e-4*a.dot(a), 'affine-exact', got = H, expected = np.outer(a, a))
	ctx.ok(np.shape(lip.X) == X.shape and np.array_equal(np.asarray(lip.X), X) and np.array_equal(np.asarray(lip.fX), fX) and np.array_equal(np.asarray(lip.grads), G), 'data-kept')


def s_equivariant(ctx):
	"""trace-minimal matrices follow rotations, scalings and permutations of the data"""
	rng = ctx.rng
	m, kind, X, fX, G, s = data(rng)
	if size(X, fX, G) == 0: raise Skip('constant')
	ctx.info(m = m, kind = kind, N = len(X), gradients = len(G), scale = s); ctx.mix(X, fX, G)
	base = LipschitzMatrix(); fit(base, X, fX, G); H = base.H
	t0 = np.trace(H)
	def same(lip, t, clause): ctx.ok(abs(np.trace(lip.H) - t) <= 1e-4*abs(t), clause, 'trace %.10g, expected %.10g' % (np.trace(lip.H), t))
	Q = np.linalg.qr(rng.randn(m, m))[0]
	a = LipschitzMatrix(); fit(a, X.dot(Q.T), fX, G.dot(Q.T)); same(a, t0, 'rotation')
	c = 10.**rng.uniform(-4, 4)
	a = LipschitzMatrix(); fit(a, X, c*fX, c*G); same(a, c**2*t0, 'scaling')
	if len(X):
		p = rng.permutation(len(X)); a = LipschitzMatrix(); fit(a, X[p] + 7., fX[p] - 10.**rng.uniform(0, 4)*np.max(np.abs(fX)), G); same(a, t0, 'permuted-shifted')
		# more data can only increase the trace, and a linear term is absorbed
		k = len(X)//2 + 1
		if size(X[:k], fX[:k], G) > 0: a = LipschitzMatrix(); fit(a, X[:k], fX[:k], G); ctx.ok(np.trace(a.H) <= t0*(1 + 1e-5) + 1e-8*max(np.ptp(fX), 1e-300)**2, 'monotone', 'trace %g with part of the data, %g with all' % (np.trace(a.H), t0))
		for e in (.1, .5):
			a = LipschitzMatrix(epsilon = e*np.ptp(fX)); fit(a, X, fX, G[:0]); full = LipschitzMatrix(); fit(full, X, fX, G[:0])
			ctx.ok(np.trace(a.H) <= (1 - e)**2*np.trace(full.H)*(1 + 1e-4) + 1e-6*np.ptp(fX)**2, 'epsilon-shrinks', 'trace %g, without epsilon %g' % (np.trace(a.H), np.trace(full.H)))
	# the estimators are nested
	cst, dia = LipschitzConstant(), DiagonalLipschitzMatrix(); fit(cst, X, fX, G); fit(dia, X, fX, G)
	ctx.ok(t0 <= np.trace(dia.H)*(1 + 1e-5) + 1e-8*t0 and np.trace(dia.H) <= m*cst.H[0, 0]*(1 + 1e-5), 'nested', 'traces %g, %g, %g' % (t0, np.trace(dia.H), m*cst.H[0, 0]))


def s_degenerate(ctx):
	"""constant data, a single sample, mismatched arguments"""
	rng = ctx.rng
	m = int(rng.randint(1, 5)); X = rng.randn(int(rng.choice([1, 2, 5])), m)
	ctx.info(m = m, N = len(X)); ctx.mix(X)
	for cls in (LipschitzMatrix, DiagonalLipschitzMatrix, LipschitzConstant):
		for kw in (dict(X = X, fX = np.full(len(X), 3.)), dict(grads = np.zeros((2, m))), dict(X = X[:1], fX = [2.])):
			lip = cls(); lip.fit(**kw)
			ctx.ok(np.max(np.abs(lip.H)) < 1e-6 and np.max(np.abs(lip.L)) < 1e-3, 'constant-zero', '%s not zero' % cls.__name__, got = lip.H)
		lip = cls()
		ctx.raises((AssertionError, ValueError), 'length', lip.fit, X, np.zeros(len(X) + 1))
		ctx.raises((AssertionError, ValueError), 'values-missing', lip.fit, X = X)
		ctx.raises((Exception,), 'nothing', lip.fit)
		ctx.raises((AssertionError, ValueError), 'epsilon', cls, epsilon = -1.)
	ctx.raises((AssertionError, ValueError), 'method', LipschitzMatrix, method = 'newton')
	c = LipschitzConstant(L = 2.5); ctx.ok(np.all(np.asarray(c.L)[0, 0] == 2.5), 'given-constant')
	A = rng.randn(m, m); ctx.ok(np.array_equal(LipschitzMatrix(L = A).L, A), 'given-matrix')
	ctx.ok(np.array_equal(DiagonalLipschitzMatrix(L = A).L, np.diag(np.diag(A))), 'given-diagonal')


SCENARIOS = [
	{'name': 'fit', 'func': s_fit, 'n': (900, 10000), 'timeout': 60},
	{'name': 'equivariant', 'func': s_equivariant, 'n': (200, 2000), 'timeout': 60},
	{'name': 'degenerate', 'func': s_degenerate, 'n': (40, 300), 'timeout': 60},
]
