"""Nonlinearity measure and the projections onto the Lipschitz constraints"""
import numpy as np, scipy.optimize as so, scipy.linalg
import psdr
from psdr import lipschitz_utils as lu
from ..core import Skip

RULE = ('A case measures the nonlinearity of random samples (affine, rough, repeated, badly scaled) or projects a random positive semidefinite matrix onto the constraints of random evaluations and gradients; '
	'the monitor solves the linear program of the slopes independently, recomputes eigenvalues and quadratic forms, and compares transformed data. Distinct: different samples, scales, matrices.')
ASSUME = ['the linear program is solved by HiGHS; agreement to 1e-5 relative']


def reference(X, f):
	"""min_a max |slope + Q a| over pairs, all slopes divided by the largest"""
	i, j = np.triu_indices(len(X), 1); P = X[i] - X[j]; d = f[i] - f[j]; pn = np.linalg.norm(P, axis = 1); K = pn > 0
	P, d, pn = P[K], d[K], pn[K]
	L0 = np.max(np.abs(d)/pn, initial = 0)
	if L0 == 0: return 0., 0., P, d, pn
	Q = P/pn[:, None]; g = d/pn/L0; m = X.shape[1]
	A = np.vstack([np.hstack([Q, -np.ones((len(Q), 1))]), np.hstack([-Q, -np.ones((len(Q), 1))])])
	r = so.linprog(np.eye(m + 1)[-1], A_ub = A, b_ub = np.hstack([-g, g]), bounds = [(None, None)]*m + [(0, None)], method = 'highs')
	if r.status != 0: raise Skip('reference LP: %s' % r.message)
	return r.fun, L0, P, d, pn


def samples(rng):
	m = int(rng.choice([1, 2, 3, 5])); M = int(rng.choice([2, m + 1, m + 2, 8, 20, 40])); kind = str(rng.choice(['rough', 'affine', 'smooth', 'bent', 'steps']))
	X = rng.randn(M, m)
	if rng.rand() < .2: X = np.round(X*2)/2
	if rng.rand() < .2: X[:, rng.randint(m)] = X[0, 0]    # a coordinate that does not vary
	b = rng.randn(m)
	f = {'rough': lambda: rng.randn(M), 'affine': lambda: X.dot(b) + rng.randn(), 'smooth': lambda: X.dot(b) + .3*np.sin(2*X[:, 0]), 'bent': lambda: np.abs(X.dot(b)), 'steps': lambda: np.floor(X.dot(b))}[kind]()
	# equal points have equal values
	_, u, inv = np.unique(X, axis = 0, return_index = True, return_inverse = True); f = f[u][inv.ravel()]
	if rng.rand() < .4 and M > 1: 
		k = rng.randint(M, size = int(rng.randint(1, 4))); X = np.vstack([X, X[k]]); f = np.append(f, f[k])
	return kind, X, f


def s_nonlinear(ctx):
	rng = ctx.rng; kind, X, f = samples(rng); sx, sf = 10.**rng.choice([-6, -3, 0, 0, 0, 4]), 10.**rng.choice([-8, -3, 0, 0, 0, 3, 8]); t = rng.randn(X.shape[1])*rng.choice([0, 0, 5]); c = rng.randn()*rng.choice([0, 0, 3])
	N0, L0, P, d, pn = reference(X, f)
	X1, f1 = sx*(X + t), sf*(f + c)
	ctx.info(kind = kind, M = len(X), m = X.shape[1], sx = sx, sf = sf); ctx.mix(X1, f1)
	Xi = X1.tolist() if rng.rand() < .2 else X1.copy(); fi = f1.reshape(-1, 1) if rng.rand() < .15 else f1.tolist() if rng.rand() < .2 else f1.copy()
	try: N, a = psdr.measure_nonlinearity(Xi, fi)
	except psdr.SolverError as e: raise Skip(repr(e))
	except Exception as e:
		if type(e).__name__ == 'SolverError': raise Skip(repr(e))
		raise
	ctx.ok(np.ndim(N) == 0 and np.shape(a) == (X.shape[1],), 'shape', got = [np.shape(N), np.shape(a)])
	a = np.asarray(a, dtype = float)
	ctx.ok(np.array_equal(np.asarray(Xi), X1) and np.array_equal(np.ravel(fi), f1), 'inputs-kept')
	# rounding of the differences of the shifted values
	eps = 1e-5 + (1e-14*(abs(c) + np.max(np.abs(f)))/np.min(pn)/L0 + 1e-14*(np.max(np.abs(X + t)))/np.min(pn)*2 if L0 > 0 and len(pn) else 0)
	if L0 == 0:
		ctx.ok(abs(N) <= 1e-12 and np.max(np.abs(a)) <= 1e-9*sf/sx, 'constant', got = [N, a]); return
	ctx.ok(abs(N - N0) <= eps, 'value', got = N, expected = N0)
	ctx.ok(-eps <= N <= 1 + eps, 'range', got = N)
	s = np.max(np.abs(d + P.dot(a*sx/sf))/pn)/L0
	ctx.ok(s <= N0 + 3*eps, 'attained', 'removing the linear part leaves %.8g, the least is %.8g' % (s, N0), got = s, expected = N0)
	if kind == 'affine': ctx.ok(N <= eps, 'affine', got = N)
	# order of the samples, adding a linear function
	k = rng.permutation(len(X1)); N2, a2 = psdr.measure_nonlinearity(X1[k], f1[k]); ctx.ok(abs(N2 - N) <= 2*eps, 'order', got = N2, expected = N)
	b = rng.randn(X.shape[1])*L0*rng.choice([.1, 1]); g = f + X.dot(b); NN, LL = reference(X, g)[:2]
	if LL > 1e-3*L0:
		N3, a3 = psdr.measure_nonlinearity(X, g)
		ctx.ok(abs(N3*LL - N0*L0) <= 1e-4*max(L0, LL), 'linear-part', 'slopes left change by adding a linear function', got = N3*LL, expected = N0*L0)
	if len(X) > 3:
		# samples only add nonlinear slopes
		k = rng.permutation(len(X))[:len(X) - 1]; Nk, Lk = reference(X[k], f[k])[:2]
		if Lk > 0: ctx.ok(psdr.measure_nonlinearity(X[k], f[k])[0]*Lk <= N0*L0 + 1e-4*L0, 'fewer')


# ------------------------------------------------------------------------------------- matrices
def psd(rng, m):
	k = str(rng.choice(['full', 'low', 'zero', 'eye', 'scaled', 'repeated']))
	A = rng.randn(m, m)
	if k == 'low': A[:, rng.randint(m):] = 0
	if k == 'zero': A[:] = 0
	if k == 'eye': A = np.eye(m)
	if k == 'scaled': A = A*10.**rng.randint(-3, 4)
	if k == 'repeated': A = scipy.linalg.orth(A).dot(np.diag(rng.choice([1., 2.], size = m)))
	return k, A.dot(A.T)


def least(H, g): return np.linalg.eigvalsh(H - np.outer(g, g))[0]


def grads(rng, m, H):
	N = int(rng.choice([1, 2, 4, 8])); g = rng.randn(N, m)*10.**rng.randint(-2, 3, size = (N, 1) if rng.rand() < .5 else (1, 1))
	if rng.rand() < .2: g[rng.randint(N)] = 0
	if rng.rand() < .2: g[rng.randint(N)] = g[rng.randint(N)]
	if rng.rand() < .2: g[rng.randint(N)] = np.linalg.eigh(H)[1][:, rng.randint(m)]*rng.rand()*2
	if rng.rand() < .2: g = g*(rng.rand(m) < .5)
	return g


def s_grads(ctx):
	rng = ctx.rng; m = int(rng.choice([1, 2, 3, 5, 8])); k, H = psd(rng, m); g = grads(rng, m, H); H0, g0 = H.copy(), g.copy()
	ctx.info(m = m, H = k, N = len(g)); ctx.mix(H, g)
	sc = np.linalg.norm(H) + np.sum(g**2, axis = 1)
	for name in ('dist_grad_constraints', 'dist_grad_constraints_slow'):
		d = np.asarray(getattr(lu, name)(H, g)); e = np.array([least(H, x) for x in g])
		ctx.ok(d.shape == (len(g),) and np.all(np.abs(d - e) <= 1e-9*sc + 1e-300), 'distance', name, got = d, expected = e)
	P = lu.project_grads(H, g)
	s = np.linalg.norm(P) + np.max(np.sum(g**2, axis = 1)) + 1e-300
	ctx.ok(np.array_equal(H, H0) and np.array_equal(g, g0), 'inputs-kept')
	ctx.ok(np.shape(P) == (m, m) and np.allclose(P, np.transpose(P), atol = 1e-10*s), 'symmetric', got = P)
	ctx.ok(min(least(P, x) for x in g) >= -1e-9*s, 'feasible', got = min(least(P, x) for x in g), expected = s)
	ctx.ok(np.linalg.eigvalsh(P - H)[0] >= -1e-9*s, 'above', got = np.linalg.eigvalsh(P - H)[0])
	if min(least(H, x) for x in g) >= 1e-9*s: ctx.ok(np.allclose(P, H, rtol = 0, atol = 1e-9*s), 'feasible-kept', got = P, expected = H)
	if len(g) == 1:
		# a single constraint: the nearest matrix keeps the part of H - g g' that is positive
		w, V = np.linalg.eigh(H - np.outer(g[0], g[0])); N = np.outer(g[0], g[0]) + V.dot(np.diag(np.maximum(w, 0))).dot(V.T)
		ctx.ok(np.allclose(P, N, rtol = 0, atol = 1e-8*s), 'nearest', got = P, expected = N)
	ctx.ok(np.allclose(lu.project_grads(P, g), P, rtol = 0, atol = 1e-8*s), 'idempotent')
	ctx.ok(np.array_equal(lu.project_grads(H, np.zeros((0, m))), H), 'none')


def s_evals(ctx):
	rng = ctx.rng; m = int(rng.choice([1, 2, 3, 5])); k, H = psd(rng, m); M = int(rng.choice([1, 2, 3, 6])); X = rng.randn(M, m)*10.**rng.randint(-2, 3); f = rng.randn(M)*10.**rng.randint(-3, 4)
	if rng.rand() < .3 and M > 1: X[-1] = X[0]; f[-1] = f[0]
	if rng.rand() < .2: f[:] = f[0]
	H0, X0, f0 = H.copy(), X.copy(), f.copy()
	ctx.info(m = m, H = k, M = M); ctx.mix(H, X, f)
	i, j = np.triu_indices(M, 1); D = X[i] - X[j]; pp = np.sum(D**2, axis = 1); q = np.einsum('ij,jk,ik->i', D, H, D); l = (f[i] - f[j])**2; K = pp > 0
	if hasattr(lu, '_quad_form') and hasattr(lu, '_vec_norm'):
		ctx.ok(np.allclose(lu._quad_form(H, D), q, rtol = 1e-10, atol = 1e-12*np.max(np.abs(q), initial = 0)), 'quad-form'); ctx.ok(np.allclose(lu._vec_norm(D), pp, rtol = 1e-12), 'vec-norm')
	with np.errstate(all = 'ignore'): d = np.asarray(lu.dist_eval_constraints(H, X, f))
	e = (q - l)[K]/pp[K]; tol = 1e-9*(np.linalg.norm(H) + l[K]/pp[K]) + 1e-300
	ctx.ok(d.shape == (len(i),) and np.all(np.abs(d[K] - e) <= tol), 'distance', got = d[K] if d.shape == K.shape else d.shape, expected = e)
	P = lu.project_evals(H, X, f)
	ctx.ok(np.array_equal(H, H0) and np.array_equal(X, X0) and np.array_equal(f, f0), 'inputs-kept')
	s = np.linalg.norm(P) + 1e-300
	ctx.ok(np.shape(P) == (m, m) and np.allclose(P, np.transpose(P), atol = 1e-10*s), 'symmetric')
	qp = np.einsum('ij,jk,ik->i', D, P, D)
	ctx.ok(np.all(qp[K] - l[K] >= -1e-9*(l[K] + s*pp[K])), 'feasible', got = np.min((qp[K] - l[K])/(l[K] + s*pp[K]), initial = 0))
	ctx.ok(np.linalg.eigvalsh(P - H)[0] >= -1e-9*s, 'above')
	if np.all(q[K] >= l[K]*(1 + 1e-9)): ctx.ok(np.array_equal(P, H), 'feasible-kept')
	if np.sum(K) == 1:
		p = D[K][0]; N = H + max(l[K][0] - q[K][0], 0)/pp[K][0]**2*np.outer(p, p)
		ctx.ok(np.allclose(P, N, rtol = 0, atol = 1e-8*s), 'nearest', got = P, expected = N)
	ctx.ok(np.allclose(lu.project_evals(P, X, f), P, rtol = 0, atol = 1e-8*s), 'idempotent')
	# the trace constraint of Lipschitz matrices of these evaluations cannot be beaten by much less than the projection of zero
	Z = lu.project_evals(np.zeros((m, m)), X, f); ctx.ok(np.linalg.eigvalsh(Z)[0] >= -1e-9*(np.linalg.norm(Z) + 1e-300), 'semidefinite')


SCENARIOS = [
	{'name': 'nonlinear', 'func': s_nonlinear, 'n': (600, 6000), 'timeout': 60},
	{'name': 'grads', 'func': s_grads, 'n': (1500, 20000), 'timeout': 30},
	{'name': 'evals', 'func': s_evals, 'n': (1500, 20000), 'timeout': 30},
]
