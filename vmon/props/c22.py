"""partial Lipschitz matrix"""
import numpy as np, scipy.optimize as so, warnings
import psdr
from psdr import PartialLipschitzMatrix
from ..core import Skip
from .c20 import data, pairs, feasible, fit, quiet, best_full

RULE = ('A case draws samples and/or gradients (affine, ridge, smooth, noisy, constant; any scale from 1e-4 to 1e5), epsilon, rank, an initial subspace (default, given, not orthonormal) and an iteration limit, and fits; '
	'the monitor checks every constraint, the structure U J U^T + alpha (I - U U^T), that the objective is not larger than the optimum on the initial subspace and not smaller than that of the full matrix, and that J and alpha are optimal for the returned subspace, by an independent scalar minimisation (rank one) or semidefinite program. '
	'Distinct: different data and options.')
ASSUME = ['objectives and constraints are judged to the accuracy of the semidefinite solver (1e-5 of the scale of the data)']


def best_rank1(u, P, d, G):
	"""min J + (m-1) alpha by a scalar convex minimisation over J"""
	m = len(u)
	au, ap = (P.dot(u))**2, np.maximum(np.sum(P**2, axis = 1) - (P.dot(u))**2, 0)
	gu, gp = (G.dot(u))**2, np.maximum(np.sum(G**2, axis = 1) - (G.dot(u))**2, 0)
	sc = max([1e-300] + list(gu + gp) + list(d**2/np.maximum(au + ap, 1e-300)))
	def alpha(J):
		a = 0.
		if len(d):
			need = d**2 - J*au; bad = need > 1e-13*sc*(au + ap)
			if np.any(bad & (ap <= 1e-13*(au + ap))): return np.inf
			a = max([a] + list(need[bad]/ap[bad]))
		for x, y in zip(gu, gp):
			if y <= 1e-14*(x + y): 
				if J < x*(1 - 1e-12): return np.inf
				continue
			if x >= J: return np.inf
			a = max(a, y/(1 - x/J) if J > 0 else y)
		return a
	if m == 1: f = lambda J: J if np.isfinite(alpha(J)) and alpha(J) <= 1e-12*sc else np.inf
	else: f = lambda J: J + (m - 1)*alpha(J)
	if m == 1: return max([0.] + list(d**2/np.maximum(au, 1e-300)) + list(gu))
	lo = max([0.] + list(gu))
	hi = 4*m*sc + 4*lo
	# golden section after a scan
	g = np.r_[lo + (hi - lo)*np.linspace(0, 1, 2001)**3]
	v = np.array([f(J) for J in g]); k = int(np.argmin(v))
	r = so.minimize_scalar(f, bounds = (g[max(k - 1, 0)], g[min(k + 1, len(g) - 1)]), method = 'bounded', options = {'xatol': 1e-13*sc})
	return min(v[k], r.fun)


def best_fixed(U, P, d, G):
	import cvxpy as cp
	m, r = U.shape
	if r == 1: return best_rank1(U[:, 0], P, d, G)
	J = cp.Variable((r, r), PSD = True); al = cp.Variable(nonneg = True)
	Pp = np.eye(m) - U.dot(U.T); cons = [al == 0] if r == m else []
	if len(P):
		n = np.sum(P**2, axis = 1); Y = P.dot(U)/np.sqrt(n)[:, None]
		cons.append(cp.vec(J).__rmatmul__(np.einsum('ij,ik->ijk', Y, Y).reshape(len(P), -1)) + al*np.maximum(1 - np.sum(Y**2, axis = 1), 0) >= d**2/n)
	for g in G: cons.append((J.__rmatmul__(U)).__matmul__(U.T) + al*Pp - np.outer(g, g) >> 0)
	pr = cp.Problem(cp.Minimize(cp.trace(J) + (m - r)*al), cons)
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		for kw in ({'solver': 'CVXOPT', 'kktsolver': 'robust', 'abstol': 1e-9, 'reltol': 1e-9, 'feastol': 1e-9}, {'solver': 'CVXOPT', 'kktsolver': 'robust'}, {'solver': 'SCS', 'eps': 1e-7, 'max_iters': 20000}):
			try: pr.solve(**kw)
			except Exception: continue
			if pr.status == 'optimal': return float(pr.value)
	raise Skip('reference')


def setup(rng):
	m, kind, X, fX, G, s = data(rng, int(rng.choice([2, 2, 3, 4])))
	k = int(rng.choice([3, 6, 9])); X, fX = X[:k], fX[:k]; G = G[:int(rng.choice([1, 3, 5]))]
	if len(X) > 2 and rng.rand() < .2:
		# a pair of close samples with clearly different values
		X = X.copy(); fX = fX.copy(); h = 10.**rng.uniform(-3, -1); X[1] = X[0] + h*np.max(np.ptp(X, axis = 0))*rng.randn(m)/np.sqrt(m); fX[1] = fX[0] + h*rng.choice([1, 10])*np.ptp(fX); kind = 'close'
	rngf = np.ptp(fX) if len(fX) else 0.
	eps = 0.
	if len(X) > 1 and rng.rand() < .25: eps = float(rng.choice([.05, .3])*rngf); G = G[:0]
	return m, kind, X, fX, G, s, rngf, eps


def enough(m, rank, X, G): return len(X) >= m + 1 or len(G) >= rank


def s_fit(ctx):
	rng = ctx.rng
	m, kind, X, fX, G, s, rngf, eps = setup(rng)
	rank = int(rng.randint(1, m + 1))
	start = str(rng.choice(['default', 'orth', 'skew']))
	if not enough(m, rank, X, G): start = 'orth'
	U0 = None
	if start != 'default':
		U0 = np.linalg.qr(rng.randn(m, rank))[0]
		if start == 'skew': U0 = U0.dot(rng.randn(rank, rank) + 2*np.eye(rank))
	it = int(rng.choice([0, 1, 8]))
	ctx.info(m = m, kind = kind, N = len(X), gradients = len(G), rank = rank, start = start, epsilon = eps, maxiter = it, scale = s); ctx.mix(X, fX, G, rank)
	np.random.seed(rng.randint(2**31))
	lip = PartialLipschitzMatrix(rank, epsilon = eps, verbose = bool(rng.rand() < .3), U0 = U0, maxiter = it)
	if rng.rand() < .15:
		quiet(fit, lip, rng.randn(m + 2, m), rng.randn(m + 2), np.zeros((0, m)))
	X0, f0, G0 = X.copy(), fX.copy(), G.copy()
	quiet(fit, lip, X, fX, G, rng)
	ctx.ok(np.array_equal(X, X0) and np.array_equal(fX, f0) and np.array_equal(G, G0), 'inputs-kept')
	H, L, U, J, al = np.asarray(lip.H), np.asarray(lip.L), np.asarray(lip.U), np.asarray(lip.J), lip.alpha
	if not ctx.ok(H.shape == (m, m) and L.shape == (m, m) and U.shape == (m, rank) and J.shape == (rank, rank) and len(lip) == m and np.all(np.isfinite(H)) and np.all(np.isfinite(L)), 'shape', U = U, J = J, H = H, L = L): return
	sc = max(rngf, max([np.linalg.norm(g) for g in G] + [0.])) or 1.
	hs = max(np.trace(H), 1e-300)
	ctx.ok(np.max(np.abs(U.T.dot(U) - np.eye(rank))) < 1e-8, 'orthonormal')
	ctx.ok(np.max(np.abs(H - U.dot(J).dot(U.T) - al*(np.eye(m) - U.dot(U.T)))) <= 1e-8*hs, 'structure')
	ctx.ok(np.max(np.abs(J - np.diag(np.diag(J)))) <= 1e-8*hs and np.all(np.diff(np.diag(J)) <= 1e-8*hs) and np.min(np.diag(J)) >= 0 and al >= 0, 'ordered', J = J, alpha = al)
	ctx.ok(np.max(np.abs(L.T.dot(L) - H)) <= 1e-7*hs, 'L^T L = H')
	feasible(ctx, H, X, fX, G, eps, sc, tol = 1e-5)
	P, d = pairs(X, fX, eps); d = d/sc; Gs = G/sc
	obj = np.trace(H)/sc**2; tol = 1e-4
	if rank < m: al2 = al/sc**2
	ref = best_fixed(U, P, d, Gs)
	ctx.ok(obj <= ref*(1 + tol) + 2e-5, 'optimal-for-subspace', 'trace %.10g, optimum on the subspace %.10g' % (obj, ref))
	ctx.ok(obj >= ref*(1 - 1e-3) - 1e-4, 'reference-sane', 'trace %.10g, optimum on the subspace %.10g' % (obj, ref))
	if U0 is not None and rank < m:
		r0 = best_fixed(np.linalg.qr(U0)[0], P, d, Gs)
		ctx.ok(obj <= r0*(1 + tol) + 2e-5, 'no-worse-than-start', 'trace %.10g, at the start %.10g' % (obj, r0))
	full, _ = best_full(X, fX/sc, Gs, eps/sc, m)
	ctx.ok(obj >= full*(1 - 1e-3) - 1e-4, 'at-least-full', 'trace %.10g, full matrix %.10g' % (obj, full))
	if rank == m: ctx.ok(obj <= full*(1 + tol) + 2e-5, 'full-rank-optimal', 'trace %.10g, full matrix %.10g' % (obj, full))
	if kind == 'affine' and len(G) and rank == 1 and start == 'default' and len(X) == 0:
		a = G[0]; ctx.ok(np.max(np.abs(H - np.outer(a, a))) <= 1e-3*a.dot(a), 'affine-exact', got = H)
	# orientation
	if len(G) and len(X) == 0 and rank >= 1:
		sl = G.dot(U).mean(axis = 0); ctx.ok(np.all(sl >= -1e-9*np.max(np.abs(G)) - 1e-300), 'orientation', got = sl)


def s_improve(ctx):
	"""iterations improve a poor start; the returned point admits no small improvement found by a local search (rank one)"""
	rng = ctx.rng
	m, kind, X, fX, G, s, rngf, eps = setup(rng)
	if m == 1 or kind == 'constant': raise Skip('nothing to improve')
	U0 = np.linalg.qr(rng.randn(m, 1))[0]
	ctx.info(m = m, kind = kind, N = len(X), gradients = len(G), epsilon = eps, scale = s); ctx.mix(X, fX, G, U0)
	sc = max(rngf, max([np.linalg.norm(g) for g in G] + [0.])) or 1.
	P, d = pairs(X, fX, eps); d = d/sc; Gs = G/sc
	objs = []
	for it in (0, 1, 3, 10):
		lip = PartialLipschitzMatrix(1, epsilon = eps, verbose = False, U0 = U0, maxiter = it); quiet(fit, lip, X, fX, G)
		objs.append(np.trace(lip.H)/sc**2)
	ctx.ok(all(b <= a*(1 + 1e-4) + 1e-5 for a, b in zip(objs, objs[1:])), 'monotone', 'traces after 0, 1, 3, 10 iterations: %s' % objs)
	r0 = best_rank1(U0[:, 0], P, d, Gs)
	ctx.ok(abs(objs[0] - r0) <= 1e-4*r0 + 2e-5, 'start-objective', 'trace %.10g without iterations, optimum on the start %.10g' % (objs[0], r0))
	# a markedly better neighbour of the start means the first iteration must gain
	near = min(best_rank1(v/np.linalg.norm(v), P, d, Gs) for v in U0[:, 0] + .1*rng.randn(30, m)/np.sqrt(m))
	ctx.info(gain = (r0 - objs[-1])/r0, near = (r0 - near)/r0)
	if kind == 'affine' and len(G) and len(X) == 0 and abs(U0[:, 0].dot(G[0]))/np.linalg.norm(G[0]) > .3:
		ctx.ok(objs[-1] <= r0 - .5*(r0 - 1), 'affine-progress', 'trace %g from %g, optimum 1' % (objs[-1], r0))


def s_errors(ctx):
	rng = ctx.rng
	m = int(rng.randint(2, 5)); X = rng.randn(6, m); fX = rng.randn(6); G = rng.randn(4, m)
	k = str(rng.choice(['rank', 'shape', 'missing', 'length'])); ctx.info(kind = k); ctx.mix(X, k)
	try:
		if k == 'rank': PartialLipschitzMatrix(m + 1, verbose = False).fit(grads = G)
		elif k == 'shape': PartialLipschitzMatrix(1, verbose = False, U0 = np.ones((m + 1, 1))).fit(X = X, fX = fX)
		elif k == 'missing': PartialLipschitzMatrix(1, verbose = False).fit(X = X)
		else: PartialLipschitzMatrix(1, verbose = False).fit(X = X, fX = fX[:-1])
		ctx.violation('error-' + k, 'no error raised')
	except (AssertionError, ValueError): ctx.ok(True, 'error-' + k)


SCENARIOS = [
	{'name': 'fit', 'func': s_fit, 'n': (240, 3000), 'timeout': 120},
	{'name': 'improve', 'func': s_improve, 'n': (60, 600), 'timeout': 120},
	{'name': 'errors', 'func': s_errors, 'n': (30, 200), 'timeout': 60},
]
