"""polynomial ridge approximation: best coefficients, descent, exact recovery, bounds"""
import numpy as np
from math import comb
import psdr
from psdr import PolynomialRidgeApproximation
from psdr.exceptions import UnderdeterminedException
from ..core import Skip
from .c10 import indices, leg
from .c11 import optimum

RULE = ('A case draws samples, data (an exact ridge polynomial, a noisy one, a general function, constant), a norm (1, 2, inf), a bound (none, lower, upper), basis, degree and number of ridge directions, fits (from a given or the default start) and evaluates; '
	'the monitor solves the fit of the profile on the returned subspace (and, for affine fits, over all directions) itself by LP / least squares / least distance programming and compares misfits, bounds, orthonormality, orientation and recovery of the exact subspace. '
	'Distinct: different data and configuration.')
ASSUME = ['misfits are judged to the accuracy of the conic solver (1e-4 relative)', 'the fit is a local optimisation: it must not be worse than the subspace it started from, and exact data must be recovered from starts close to the exact subspace']
BASES = ['legendre', 'monomial', 'chebyshev', 'hermite', 'arnoldi']


def design(X, U, d):
	Y = X.dot(U)
	lo, hi = Y.min(axis = 0), Y.max(axis = 0)
	w = np.where(hi > lo, (hi - lo)/2, 1.)
	return leg(indices(U.shape[1], d), Y, (lo + hi)/2, w)


def misfit(r, norm): return np.linalg.norm(r, norm)


def setup(rng, affine = False):
	m = int(rng.randint(1, 7)); n = int(rng.choice([1, 1, 2])); n = min(n, m)
	d = 1 if affine else int(rng.choice([2, 2, 3, 4] if n == 1 else [2, 3]))
	n_ = 1 if affine else n
	need = comb(n_ + d, d) + m*n_
	M = int(need + rng.choice([3, 10, 40]))
	s = np.exp(rng.uniform(-1, 1, m)) if rng.rand() < .4 else np.ones(m)
	X = s*rng.uniform(-1, 1, size = (M, m)) + rng.choice([0, 1.])*rng.randn(m)*.5
	return m, n, d, M, X, s


def common(ctx, p, X, fX, m, n, d, norm, bound, misfit_cap = None):
	U = np.asarray(p.U)
	ctx.ok(U.shape == (m, n) and np.max(np.abs(U.T.dot(U) - np.eye(n))) < 1e-8, 'orthonormal', got = U)
	ctx.ok(len(p) == m, 'len')
	V = np.asarray(p.eval(X)).reshape(-1)
	if not ctx.ok(V.shape == (len(X),) and np.all(np.isfinite(V)), 'values'): return None
	fs = np.max(np.abs(fX)) or 1.; rng_ = np.max(fX) - np.min(fX) + 1e-12*fs
	if bound == 'lower': ctx.ok(np.max(V - fX) <= 1e-5*rng_ + 1e-6*fs, 'lower-bound', 'exceeds a sample by %g of %g' % (np.max(V - fX), rng_))
	if bound == 'upper': ctx.ok(np.min(V - fX) >= -1e-5*rng_ - 1e-6*fs, 'upper-bound', 'below a sample by %g of %g' % (np.max(fX - V), rng_))
	A = design(X, U, d)
	got = misfit(V - fX, norm)
	if np.linalg.cond(A) < 1e5:
		best, _ = optimum(A, fX, norm, bound)
		if best is not None:
			tol = 1e-8*fs*len(X)**.5 if norm == 2 and bound is None else 1e-3*best + 1e-5*rng_*len(X)**(1/norm) + 1e-6*fs
			ctx.ok(got <= best*(1 + 1e-7) + tol, 'best-coefficients', 'misfit %.8g, least misfit on the subspace %.8g' % (got, best))
			# a function of the ridge coordinates: the fitted values lie in the polynomial space
			q = np.linalg.qr(A)[0]
			ctx.ok(np.max(np.abs(V - q.dot(q.T.dot(V)))) <= 1e-6*fs + 1e-7*np.max(np.abs(V)), 'polynomial-in-ridge')
	# orientation: the average slope along each direction is not negative
	G = np.asarray(p.grad(X)).reshape(len(X), m)
	sl = G.dot(U).mean(axis = 0)
	if p.rotate: ctx.ok(np.all(sl >= -1e-3*(np.sqrt(np.mean(np.sum(G**2, axis = 1))) + 1e-300) - 1e-7*fs/(1e-300 + np.ptp(X.dot(U), axis = 0))), 'orientation', 'average slopes %s' % sl)
	return got


def exact_data(rng, X, m, n, d, s):
	U = np.linalg.qr(rng.randn(m, n))[0]
	A = design(X, U, d); c = rng.randn(A.shape[1]); c[1:1 + n] += 2*np.sign(c[1:1 + n]) if n == 1 else 1.5
	return U, A.dot(c)


def s_affine(ctx):
	rng = ctx.rng
	m, _, d, M, X, s = setup(rng, True)
	n = int(rng.choice([1, min(2, m)]))
	norm = [1, 2, np.inf][rng.randint(3)]; bound = [None, 'lower', 'upper'][rng.randint(3)]; basis = str(rng.choice(BASES))
	kind = rng.choice(['affine', 'noise', 'smooth', 'constant', 'shift'])
	a = rng.randn(m)/s; f = X.dot(a)
	if kind == 'noise': f = f + .5*rng.randn(M)
	if kind == 'shift': f = f + 30 + .3*rng.randn(M)
	if kind == 'smooth': f = np.exp(f) + .3*np.sin(3*X[:, 0])
	if kind == 'constant': f = np.full(M, float(rng.choice([0., 1., -3.])))
	f = f*10.**rng.uniform(-1, 2)
	ctx.info(m = m, n = n, M = M, norm = str(norm), bound = bound, basis = basis, kind = kind); ctx.mix(X, f)
	X0, f0 = X.copy(), f.copy()
	p = PolynomialRidgeApproximation(1, n, norm = norm if norm != np.inf or rng.rand() < .5 else 'inf', bound = bound, basis = basis)
	p.fit(X, f if rng.rand() < .5 else f.reshape(-1, 1))
	got = common(ctx, p, X, f, m, 1, 1, norm, bound)
	if got is None: return
	A = np.hstack([np.ones((M, 1)), X]); rg = np.max(f) - np.min(f) + 1e-12*np.max(np.abs(f)) + 1e-300
	best, _ = optimum(A, f, norm, bound)
	if best is not None: ctx.ok(got <= best*(1 + 1e-3) + 1e-5*rg*M**(1/norm) + 1e-6*(np.max(np.abs(f)) or 1.), 'best-affine', 'misfit %.8g, best affine approximation %.8g' % (got, best))
	if kind == 'affine': ctx.ok(abs(abs(p.U[:, 0].dot(a))/np.linalg.norm(a) - 1) < 1e-5, 'affine-direction', got = p.U, expected = a)
	ctx.ok(np.all(X == X0) and np.all(f == f0), 'inputs-kept')


def s_fit(ctx):
	rng = ctx.rng
	m, n, d, M, X, s = setup(rng)
	u = rng.rand()
	norm, bound = (2, None) if u < .6 else ([1, 2, np.inf][rng.randint(3)], [None, 'lower', 'upper'][rng.randint(3)])
	basis = str(rng.choice(BASES)) if norm == 2 and bound is None else str(rng.choice(['legendre', 'legendre', 'chebyshev', 'arnoldi']))
	kind = rng.choice(['exact', 'exact', 'noise', 'smooth'])
	Ux, f = exact_data(rng, X, m, n, d, s)
	if kind == 'noise': f = f + .1*np.std(f)*rng.randn(M)
	if kind == 'smooth': f = np.tanh(X.dot(Ux).sum(axis = 1)/s.mean()) + .2*np.sin((X/s).sum(axis = 1))
	f = f*10.**(rng.uniform(-1, 2) if rng.rand() < .5 else rng.uniform(-8, 7))
	near = kind == 'exact' and rng.rand() < .7
	given = near or rng.rand() < .4
	U0 = None
	if near: U0 = np.linalg.qr(Ux.dot(np.linalg.qr(rng.randn(n, n))[0]) + .03*rng.randn(m, n))[0]
	elif given: U0 = rng.randn(m, n)
	rotate = bool(rng.rand() < .8)
	ctx.info(m = m, n = n, degree = d, M = M, norm = str(norm), bound = bound, basis = basis, kind = kind, near = near, start = given, rotate = rotate); ctx.mix(X, f)
	X0, f0 = X.copy(), f.copy()
	U00 = None if U0 is None else U0.copy()
	p = PolynomialRidgeApproximation(d, n, norm = norm, bound = bound, basis = basis, rotate = rotate, **({} if norm == 2 and bound is None else {'maxiter': 12}))
	if rng.rand() < .2:
		# a history: the object has been fitted to other data before
		p.fit(X[:, ::-1].copy(), f[::-1].copy(), U0 = U0)
	p.fit(X, f, **({} if U0 is None else {'U0': U0}))
	got = common(ctx, p, X, f, m, n, d, norm, bound)
	if got is None: return
	fs = np.max(np.abs(f - f.mean())) + 1e-300
	if U0 is not None:
		A = design(X, np.linalg.qr(U0)[0], d)
		if np.linalg.cond(A) < 1e4:
			start, _ = optimum(A, f, norm, bound)
			if start is not None: ctx.ok(got <= start*(1 + 1e-4) + 1e-5*fs*M**(1/norm), 'not-worse-than-start', 'misfit %.8g, on the initial subspace %.8g' % (got, start))
	if near and norm == 2 and bound is None:
		ctx.ok(got <= 1e-5*fs*np.sqrt(M), 'exact-recovery', 'misfit %.3g of data %.3g' % (got, fs))
		W = np.linalg.norm(Ux - p.U.dot(p.U.T.dot(Ux)), 2)
		if n == 1: ctx.ok(W < 1e-3, 'exact-subspace', 'distance of the subspaces %g' % W)
		Z = X[:5] + 0*X[:5]
		Y = X.dot(Ux); 
	ctx.ok(np.all(X == X0) and np.all(f == f0) and (U0 is None or np.all(U0 == U00)), 'inputs-kept')


def s_stationary(ctx):
	"""two-norm fits end where no rotation of the subspace reduces the misfit noticeably"""
	rng = ctx.rng
	m, n, d, M, X, s = setup(rng)
	Ux, f = exact_data(rng, X, m, n, d, s)
	lev = float(rng.choice([.01, .1, .3]))
	f = f + lev*np.std(f)*rng.randn(M)
	basis = str(rng.choice(['legendre', 'arnoldi', 'chebyshev']))
	ctx.info(m = m, n = n, degree = d, M = M, noise = lev, basis = basis); ctx.mix(X, f)
	p = PolynomialRidgeApproximation(d, n, basis = basis, maxiter = 400)
	p.fit(X, f, U0 = np.linalg.qr(Ux + .05*rng.randn(m, n))[0])
	got = common(ctx, p, X, f, m, n, d, 2, None)
	if got is None: return
	U = p.U
	def res(U):
		q = np.linalg.qr(design(X, U, d))[0]
		return np.linalg.norm(f - q.dot(q.T.dot(f)))
	base = res(U); best = base
	for k in range(12):
		D = rng.randn(m, n); D -= U.dot(U.T.dot(D))
		if np.linalg.norm(D) < 1e-8: break
		D /= np.linalg.norm(D)
		t = 1e-3
		# derivative of the squared misfit along the rotation, relative to its curvature scale
		fp, fm = res(np.linalg.qr(U + t*D)[0])**2, res(np.linalg.qr(U - t*D)[0])**2
		slope, curv = (fp - fm)/2, (fp - 2*base**2 + fm)
		if curv > 0: ctx.ok(slope**2/(2*curv) <= 2e-2*base**2 + 1e-10*np.sum(f**2), 'stationary', 'rotating the subspace reduces the squared misfit %.6g by %.3g' % (base**2, slope**2/(2*curv)))
	ctx.count('rotations', 12)


def s_fixed(ctx):
	rng = ctx.rng
	m, n, d, M, X, s = setup(rng)
	norm, bound = [1, 2, 2, np.inf][rng.randint(4)], [None, None, 'lower', 'upper'][rng.randint(4)]
	if n == 1 and rng.rand() < .4:
		# high degrees
		d = int(rng.randint(5, 10)); M = d + m + 1 + 3*d
		X = s*rng.uniform(-1, 1, size = (M, m)) + rng.choice([0, 1.])*rng.randn(m)*.5
		norm, bound = [(2, None), (2, None), (1, None), (np.inf, None)][rng.randint(4)]
	basis = str(rng.choice(BASES[:3] + ['arnoldi'])); rotate = bool(rng.rand() < .7)
	U, f = exact_data(rng, X, m, n, d, s)
	kind = rng.choice(['exact', 'other'])
	if kind == 'other': U = np.linalg.qr(rng.randn(m, n))[0]
	ctx.info(m = m, n = n, degree = d, M = M, norm = str(norm), bound = bound, basis = basis, rotate = rotate, kind = kind); ctx.mix(X, f, U)
	if rng.rand() < .5: f = f*10.**rng.uniform(-9, 8)
	U0 = U.copy()
	p = PolynomialRidgeApproximation(d, n, norm = norm, bound = bound, basis = basis, rotate = rotate)
	p.fit_fixed_subspace(X, f, U)
	got = common(ctx, p, X, f, m, n, d, norm, bound)
	if got is None: return
	ctx.ok(np.max(np.abs(U0 - p.U.dot(p.U.T.dot(U0)))) < 1e-7, 'same-subspace', 'the fixed subspace was changed')
	if not rotate: ctx.ok(np.all(p.U == U0), 'same-basis')
	ctx.ok(np.all(U == U0), 'inputs-kept')
	if kind == 'exact':
		fs = np.max(np.abs(f)); ctx.ok(got <= 1e-5*fs*M, 'exact', 'misfit %g of %g' % (got, fs))


def s_vec(ctx):
	"""several outputs sharing one subspace, part of which may be given"""
	rng = ctx.rng
	m = int(rng.randint(2, 7)); n = int(rng.choice([1, 2])); nf = int(rng.choice([0, 0, 1])) if n == 2 else 0; d = int(rng.choice([2, 3])); q = int(rng.choice([1, 2, 4]))
	M = comb(n + d, d) + m*n + int(rng.choice([10, 40]))
	X = rng.uniform(-1, 1, size = (M, m))
	U = np.linalg.qr(rng.randn(m, n))[0]
	A = design(X, U, d); C = rng.randn(A.shape[1], q); C[1:1 + n] += 1.5
	F = A.dot(C)
	noise = rng.rand() < .3
	if noise: F = F + .05*np.std(F)*rng.randn(M, q)
	Q = np.linalg.qr(rng.randn(n, n))[0]
	fixed = U.dot(Q[:, :nf]) if nf else None
	if nf and rng.rand() < .5: fixed = -2.*fixed
	start = rng.choice(['near', 'default'])
	U0 = np.linalg.qr(U + .03*rng.randn(m, n))[0] if start == 'near' else None
	ctx.info(m = m, n = n, degree = d, outputs = q, fixed = nf, M = M, start = start, noise = noise); ctx.mix(X, F)
	X0, F0 = X.copy(), F.copy()
	kw = {} if U0 is None else {'U0': U0}
	if nf: kw['fixed_subspace'] = fixed
	if rng.rand() < .6:
		import polyrat
		kw['Basis'] = getattr(polyrat, str(rng.choice(['Arnoldi', 'Arnoldi', 'Chebyshev', 'Monomial', 'Hermite'])) + 'PolynomialBasis'); ctx.info(basis = kw['Basis'].__name__)
	fin = F[:, 0] if q == 1 and rng.rand() < .5 else F
	W = np.asarray(psdr.polynomial_ridge_approximation(X, fin, n, d, **kw))
	if not ctx.ok(W.shape == (m, n) and np.max(np.abs(W.T.dot(W) - np.eye(n))) < 1e-7, 'orthonormal', got = W): return
	if nf: ctx.ok(np.max(np.abs(fixed - W.dot(W.T.dot(fixed)))) < 1e-8*np.max(np.abs(fixed)), 'contains-fixed', 'the given subspace is not part of the result')
	def res(U):
		q_ = np.linalg.qr(design(X, U, d))[0]
		return np.linalg.norm(F - q_.dot(q_.T.dot(F)))
	if start == 'near':
		s0 = U0
		if nf:
			# the start is projected onto the complement of the given part
			Z = np.linalg.qr(fixed)[0]; R = U0 - Z.dot(Z.T.dot(U0)); s0 = np.hstack([Z, np.linalg.svd(R, full_matrices = False)[0][:, :n - nf]])
		ctx.ok(res(W) <= res(s0)*(1 + 1e-6) + 1e-9*np.linalg.norm(F), 'not-worse-than-start', 'misfit %g, at the start %g' % (res(W), res(s0)))
		if not noise: ctx.ok(res(W) <= 1e-6*np.linalg.norm(F), 'exact-recovery', 'misfit %g of %g' % (res(W), np.linalg.norm(F)))
	ctx.ok(np.all(X == X0) and np.all(F == F0), 'inputs-kept')


def s_errors(ctx):
	rng = ctx.rng
	m = int(rng.randint(2, 7)); n = int(rng.choice([1, 2])); d = int(rng.choice([2, 3]))
	n = min(n, m - 1)
	need = comb(n + d, d) + m*n - n*(n + 1)//2
	bound = [None, 'upper'][rng.randint(2)]
	ctx.info(m = m, n = n, degree = d, bound = bound)
	X = rng.rand(need + 30, m); f = rng.rand(len(X))
	for M in (need - 1, max(1, need//2)):
		p = PolynomialRidgeApproximation(d, n, bound = bound)
		ctx.raises((UnderdeterminedException,), 'underdetermined', p.fit, X[:M], f[:M])
		ctx.raises((psdr.UnderdeterminedException,), 'underdetermined', p.fit, X[:M], f[:M])
	p = PolynomialRidgeApproximation(d, n, maxiter = 3)
	ctx.raises((AssertionError, ValueError), 'length-mismatch', p.fit, X, f[:-1])
	ctx.raises((AssertionError, ValueError), 'start-mismatch', p.fit, X, f, U0 = rng.rand(m + 1, n))
	ctx.raises((AssertionError, ValueError), 'start-mismatch', p.fit, X, f, U0 = rng.rand(m, n + 1))
	ctx.raises((AssertionError, ValueError), 'fixed-mismatch', p.fit_fixed_subspace, X, f, rng.rand(m, n + 1))
	for kw in ({'norm': 3}, {'bound': 'both'}, {'basis': 'fourier'}):
		ctx.raises((AssertionError, ValueError), 'bad-option', lambda: PolynomialRidgeApproximation(d, n, **kw))


SCENARIOS = [
	{'name': 'affine', 'func': s_affine, 'n': (300, 4000), 'timeout': 60},
	{'name': 'fit', 'func': s_fit, 'n': (240, 3000), 'timeout': 120},
	{'name': 'stationary', 'func': s_stationary, 'n': (120, 1500), 'timeout': 120},
	{'name': 'fixed', 'func': s_fixed, 'n': (200, 2500), 'timeout': 60},
	{'name': 'vec', 'func': s_vec, 'n': (160, 2000), 'timeout': 120},
	{'name': 'errors', 'func': s_errors, 'n': (40, 300), 'timeout': 60},
]
