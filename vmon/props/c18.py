"""Gauss-Newton and the backtracking line search"""
import numpy as np
from psdr import gn
from psdr.gn import gauss_newton, linesearch_armijo, trajectory_linear, BadStep
from ..core import Skip

RULE = ('A case draws a nonlinear least squares problem (linear of any rank, exponential/rational/circle/trigonometric fits, Rosenbrock; scales 1e-4 to 1e7), start, tolerances, iteration limit and possibly a curved trajectory, custom step solver, custom line search or a residual that rejects steps; '
	'residual, Jacobian, trajectory, solver and line search are wrapped by recorders, and the monitor replays the log: which points were tried, that the misfit never grew, that each accepted step met the Armijo condition, and that the returned point and info code are what the log says. '
	'Distinct: different problem, start and options.')
ASSUME = ['gradients below the absolute floor 1e-14 of the implementation count as converged']


class Log:
	def __init__(self, f, F): self.f_, self.F_ = f, F; self.X, self.V, self.J = [], [], []
	def f(self, x):
		x = np.array(x); self.X.append(x)
		try: v = self.f_(x)
		except BadStep: self.V.append(None); raise
		self.V.append(np.array(v)); return v
	def F(self, x):
		self.J.append(np.array(x)); return self.F_(x)


def problem(rng):
	kind = str(rng.choice(['linear', 'deficient', 'exp', 'rational', 'circle', 'trig', 'rosenbrock', 'tanh']))
	s = 10.**rng.uniform(-4, 7) if rng.rand() < .4 else 1.
	if kind in ('linear', 'deficient'):
		m = int(rng.randint(1, 7)); M = m + int(rng.randint(0, 10)); A = rng.randn(M, m)
		if kind == 'deficient' and m > 1: A[:, -1] = A[:, 0]*2
		b = rng.randn(M)*rng.choice([1., 10.])
		return kind, s, m, lambda x: s*(A.dot(x) - b), lambda x: s*A, rng.randn(m), None, (A, b)
	if kind == 'exp':
		t = np.linspace(0, 1, 12); xs = rng.uniform(.5, 2, 2)*np.array([1, -1]); y = xs[0]*np.exp(xs[1]*t) + rng.choice([0, .05])*rng.randn(12)
		return kind, s, 2, lambda x: s*(x[0]*np.exp(x[1]*t) - y), lambda x: s*np.c_[np.exp(x[1]*t), x[0]*t*np.exp(x[1]*t)], xs + .3*rng.randn(2), xs, None
	if kind == 'rational':
		t = np.array([0.038, 0.194, 0.425, 0.626, 1.253, 2.5, 3.74]); xs = rng.uniform(.3, 2, 2); y = xs[0]*t/(xs[1] + t)
		return kind, s, 2, lambda x: s*(x[0]*t/(x[1] + t) - y), lambda x: s*np.c_[t/(x[1] + t), -x[0]*t/(x[1] + t)**2], xs*rng.uniform(.6, 1.5, 2), xs, None
	if kind == 'circle':
		P = rng.randn(8, 2); P /= np.linalg.norm(P, axis = 1, keepdims = True); P = P*2 + rng.choice([0, .1])*rng.randn(8, 2)
		return kind, s, 3, lambda x: s*(np.linalg.norm(P - x[:2], axis = 1) - x[2]), lambda x: s*np.c_[-(P - x[:2])/np.linalg.norm(P - x[:2], axis = 1, keepdims = True), -np.ones(8)], np.array([.3, -.2, 1.]) + .2*rng.randn(3), None, None
	if kind == 'trig':
		m = int(rng.randint(1, 5)); M = m + int(rng.randint(0, 8)); A = rng.randn(M, m); xs = rng.uniform(-.5, .5, m); y = np.sin(A.dot(xs))
		return kind, s, m, lambda x: s*(np.sin(A.dot(x)) - y), lambda x: s*np.cos(A.dot(x))[:, None]*A, xs + rng.choice([.05, 2.])*rng.randn(m), None, None
	if kind == 'rosenbrock':
		return kind, s, 2, lambda x: s*np.array([10*(x[1] - x[0]**2), 1 - x[0]]), lambda x: s*np.array([[-20*x[0], 10], [-1, 0]]), rng.randn(2)*2, np.ones(2), None
	m = int(rng.randint(1, 5)); M = m + int(rng.randint(0, 8)); A = rng.randn(M, m); y = rng.randn(M)
	return kind, s, m, lambda x: s*(np.tanh(A.dot(x)) - y), lambda x: s*(1 - np.tanh(A.dot(x))**2)[:, None]*A, rng.randn(m), None, None


def judge(ctx, log, x, info, x0, tol, tol_dx, maxiter, dxs = None):
	f, F = log.f_, log.F_
	x = np.asarray(x)
	if not ctx.ok(x.shape == x0.shape and np.all(np.isfinite(x)), 'finite', got = x): return
	n0, n1 = np.linalg.norm(f(x0)), np.linalg.norm(f(x))
	ctx.ok(n1 <= n0, 'not-worse', 'misfit %.16g, at the start %.16g' % (n1, n0))
	ctx.ok(any(np.array_equal(x, z) for z in log.X) or np.array_equal(x, x0), 'point-evaluated', 'the result is none of the points tried')
	# the accepted iterates: the Jacobian is evaluated at each of them
	nf = [np.linalg.norm(f(z)) for z in log.J]
	ctx.ok(all(b <= a for a, b in zip(nf, nf[1:])), 'monotone', 'misfits %s' % nf)
	ctx.ok(np.array_equal(log.J[-1], x), 'last-iterate')
	ctx.ok(len(log.J) - 1 <= maxiter, 'maxiter', '%d iterations, limit %d' % (len(log.J) - 1, maxiter))
	g0 = np.linalg.norm(F(x0).T.dot(f(x0))); g = np.linalg.norm(F(x).T.dot(f(x)))
	thr = max(tol*g0, 1e-14)
	good = {0: g <= thr*(1 + 1e-9), 1: g > thr*(1 - 1e-9), 2: g > thr*(1 - 1e-9) and len(log.J) - 1 == maxiter, 3: g > thr*(1 - 1e-9)}
	ctx.ok(info in good and good[info], 'info-%s' % info, 'gradient %g (tolerance %g) after %d of %d iterations' % (g, thr, len(log.J) - 1, maxiter))
	if info == 1 and dxs is not None: ctx.ok(np.linalg.norm(dxs[-1]) <= tol_dx*(1 + 1e-9) or g == 0, 'info-1-step', 'last step %g' % np.linalg.norm(dxs[-1]))
	if info == 3: ctx.ok(len(nf) > 1 and nf[-1] == nf[-2], 'info-3-no-progress', 'the last step made progress')
	return n0, n1, g0, g


def s_solve(ctx):
	rng = ctx.rng
	kind, s, m, f, F, x0, xs, lin = problem(rng)
	if rng.rand() < .05 and xs is not None: x0 = xs.copy()
	tol = float(rng.choice([1e-10, 1e-6, 1e-3])); maxiter = int(rng.choice([1, 2, 5, 100, 100, 100])); tol_dx = float(rng.choice([1e-12, 1e-12, 1e-2]))
	ctx.info(kind = kind, m = m, scale = s, tol = tol, tol_normdx = tol_dx, maxiter = maxiter); ctx.mix(x0, f(x0))
	log = Log(f, F); x00 = x0.copy()
	x, info = gauss_newton(log.f, log.F, x0, tol = tol, tol_normdx = tol_dx, maxiter = maxiter)
	r = judge(ctx, log, x, info, x0, tol, tol_dx, maxiter)
	ctx.ok(np.array_equal(x0, x00), 'start-kept')
	if r is None: return
	n0, n1, g0, g = r
	if lin is not None:
		A, b = lin
		best = x0 - np.linalg.pinv(A, rcond = 1e-10).dot(A.dot(x0) - b)
		if np.linalg.cond(A) < 1e4 or kind == 'deficient': ctx.ok(np.max(np.abs(x - best)) <= 1e-6*(1 + np.max(np.abs(best)))*min(1e4, np.linalg.cond(A)), 'linear-one-step', 'linear problem not solved', got = x, expected = best)
	elif maxiter == 100 and kind in ('exp', 'rational', 'rosenbrock') and tol_dx < 1e-3 and g0 > 1e-10:
		# these are started in the region of attraction
		if kind != 'rosenbrock' or n0 > 0: ctx.ok(g <= 1e-3*g0 + 1e-10, 'converges', 'gradient %g of %g, info %d' % (g, g0, info))


def s_steps(ctx):
	"""custom trajectory, step solver, line search and rejected steps"""
	rng = ctx.rng
	kind, s, m, f, F, x0, xs, lin = problem(rng)
	curved = bool(rng.rand() < .5); reject = bool(rng.rand() < .3); own = bool(rng.rand() < .5); ls = bool(rng.rand() < .3); wild = not ls and bool(rng.rand() < .2)
	solver = str(rng.choice(['scaled', 'ascent', 'ridge', 'exact'])) if own else None
	ctx.info(kind = kind, m = m, scale = s, curved = curved, reject = reject, solver = solver, linesearch = 'wild' if wild else ls); ctx.mix(x0, f(x0))
	lim = np.linalg.norm(x0) + rng.uniform(.05, 1)
	def g(x):
		if reject and np.linalg.norm(x) > lim: raise BadStep
		return f(x)
	log = Log(g, F)
	T, D, L = [], [], []
	def traj(x, p, t):
		z = x + t*p + (t**2*np.sin(np.arange(len(x)) + 1.)*np.linalg.norm(p)*.1 if curved else 0)
		T.append((np.array(x), np.array(p), t, z.copy())); return z
	def gns(J, r):
		D.append((np.array(J), np.array(r)))
		if solver == 'exact': dx = np.linalg.lstsq(J, -r, rcond = None)[0]
		elif solver == 'scaled': dx = .7*np.linalg.lstsq(J, -r, rcond = None)[0]
		elif solver == 'ascent': dx = np.linalg.lstsq(J, r, rcond = None)[0]
		else: dx = -np.linalg.solve(J.T.dot(J) + .1*s**2*np.eye(m), J.T.dot(r))
		return dx, np.linalg.svd(J, compute_uv = False)
	def search(f, g, p, x0, trajectory = None, **kw):
		L.append((np.array(x0), np.array(g), np.array(p)))
		return linesearch_armijo(f, g, p, x0, trajectory = trajectory, bt_factor = .3)
	def careless(f, g, p, x0, trajectory = None, **kw):
		# any length, without a look at what becomes of the misfit
		L.append((np.array(x0), np.array(g), np.array(p)))
		t = float(rng.choice([.5, 1., 2., 3.]))
		while True:
			z = trajectory(x0, p, t)
			try: return z, t, f(z)
			except BadStep: t *= .5
	kw = {'gnsolver': gns} if own else {}
	if ls: kw['linesearch'] = search
	if wild: kw['linesearch'] = careless
	maxiter = 30
	x, info = gauss_newton(log.f, log.F, x0, trajectory = traj, maxiter = maxiter, **kw)
	judge(ctx, log, x, info, x0, 1e-10, 1e-12, maxiter)
	fac = .3 if ls else .5
	# every point tried lies on the trajectory from the current iterate along one descent direction
	seen = [z for _, _, _, z in T]
	ctx.ok(all(any(np.array_equal(q, z) for z in seen) or any(np.array_equal(q, z) for z in log.J) for q in log.X), 'on-trajectory', 'a point was tried that the trajectory did not give')
	for xk, p, t, z in T:
		ctx.ok(any(np.array_equal(xk, q) for q in log.J), 'from-iterate')
		k = np.log(t)/np.log(fac); wild or ctx.ok(abs(k - round(k)) < 1e-6, 'backtracking-steps', 'step length %g' % t)
		gr = F(xk).T.dot(f(xk)); ctx.ok(p.dot(gr) <= 1e-10*np.linalg.norm(p)*np.linalg.norm(gr) + 1e-300, 'descent', 'slope %g' % p.dot(gr))
	# accepted steps satisfy the Armijo condition and no longer step of the backtracking did
	for a, b in zip(log.J, log.J[1:]):
		if np.array_equal(a, b) or wild: continue
		tried = [(t, p, z) for xk, p, t, z in T if np.array_equal(xk, a)]
		n0 = np.linalg.norm(f(a)); gr = F(a).T.dot(f(a))/n0
		for t, p, z in tried:
			try: nz = np.linalg.norm(g(z))
			except BadStep: nz = np.inf
			meets = nz < n0 + t*1e-4*gr.dot(p)
			near = abs(nz - n0 - t*1e-4*gr.dot(p)) < 1e-9*n0
			if np.array_equal(z, b):
				ctx.ok(meets or near, 'armijo', 'accepted step of length %g from misfit %g to %g' % (t, n0, nz)); break
			ctx.ok(not meets or near, 'first-acceptable', 'rejected step of length %g from misfit %g to %g' % (t, n0, nz))
	if own:
		ctx.ok(len(D) >= 1 and all(any(np.array_equal(J, F(z)) and np.array_equal(r, f(z)) for z in log.J) for J, r in D), 'solver-called', 'the step solver was not given the Jacobian and residual of an iterate')
	if ls or wild: ctx.ok(len(L) >= 1, 'linesearch-called')


def s_linesearch(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); scalar = bool(rng.rand() < .4)
	A = rng.randn(m + 2, m); b = rng.randn(m + 2)
	w = float(rng.choice([0., 1., 5.]))
	fv = lambda x: A.dot(x) - b + w*np.sin(3*x).sum()
	Jv = lambda x: A + w*3*np.cos(3*x)[None, :]
	if scalar: f = lambda x: float(np.linalg.norm(fv(x)))
	else: f = fv
	x0 = rng.randn(m)
	n0 = np.linalg.norm(fv(x0)); g = Jv(x0).T.dot(fv(x0))/n0
	p = -np.diag(np.exp(rng.uniform(-1, 1, m))).dot(g)*10.**rng.uniform(-3, 3)
	bt = float(rng.choice([.5, .1, .9])); ftol = float(rng.choice([1e-4, .1, .5, .9])); maxiter = int(rng.choice([1, 3, 40]))
	cut = float(rng.choice([np.inf, .3*np.linalg.norm(p)]))
	ctx.info(m = m, scalar = scalar, bt = bt, ftol = ftol, maxiter = maxiter, cut = cut, w = w); ctx.mix(A, b, x0, p)
	calls = []
	def h(x):
		calls.append(np.array(x))
		if np.linalg.norm(x - x0) > cut: raise BadStep
		return f(x)
	give = bool(rng.rand() < .5)
	x, alpha, fx = linesearch_armijo(h, g, p, x0, bt_factor = bt, ftol = ftol, maxiter = maxiter, **({'fx0': f(x0)} if give else {}))
	dg = g.dot(p)
	# the reference backtracking
	best, a = None, 1.; tie = False
	for it in range(maxiter):
		z = x0 + a*p
		if np.linalg.norm(z - x0) <= cut:
			nz, t = np.linalg.norm(f(z)), n0 + a*ftol*dg
			if abs(nz - t) < 1e-12*n0: tie = True
			if nz < t: best = (z, a); break
		a *= bt
	if tie: raise Skip('tie')
	if best is None: ctx.ok(alpha == 0 and np.array_equal(x, x0) and np.array_equal(fx, f(x0)), 'no-step', 'alpha %g' % alpha)
	else:
		ctx.ok(alpha == best[1] and np.allclose(x, best[0], rtol = 1e-14, atol = 0), 'step', 'alpha %.16g, expected %.16g' % (alpha, best[1]))
		ctx.ok(np.array_equal(np.asarray(fx), np.asarray(f(x))), 'value')
	ctx.ok(len(calls) <= maxiter + (not give), 'evaluations')
	if abs(dg) > 1e-10: ctx.raises((AssertionError, ValueError), 'ascent-refused', linesearch_armijo, f, g, -p, x0)
	ctx.ok(np.array_equal(trajectory_linear(x0, p, .25), x0 + .25*p), 'trajectory-linear')


def s_edge(ctx):
	rng = ctx.rng
	kind, s, m, f, F, x0, xs, lin = problem(rng)
	ctx.info(kind = kind, m = m); ctx.mix(x0)
	for k in (0, -1):
		x, info = gauss_newton(f, F, x0, maxiter = k)
		ctx.ok(np.array_equal(x, x0) and info == 4, 'maxiter-0')
	import io, contextlib
	for start in (x0, gauss_newton(f, F, x0)[0]):
		a = gauss_newton(f, F, start)
		with contextlib.redirect_stdout(io.StringIO()) as out: b = gauss_newton(f, F, start, verbose = True)
		ctx.ok(np.array_equal(a[0], b[0]) and a[1] == b[1] and 'iter' in out.getvalue(), 'verbose')
	bad = lambda J, r: (np.full(m, np.nan), np.ones(m))
	ctx.raises((RuntimeError,), 'non-finite-direction', gauss_newton, f, F, x0, gnsolver = bad)
	bad = lambda J, r: (np.full(m, np.inf), np.ones(m))
	ctx.raises((RuntimeError,), 'non-finite-direction', gauss_newton, f, F, x0, gnsolver = bad)
	# already at a solution
	A = rng.randn(m + 2, m); z = rng.randn(m); b = A.dot(z)
	for x1 in (z, z + 1e-3*rng.randn(m)):
		log = Log(lambda x: A.dot(x) - b, lambda x: A)
		x, info = gauss_newton(log.f, log.F, x1)
		judge(ctx, log, x, info, x1, 1e-10, 1e-12, 100)
		ctx.ok(np.max(np.abs(x - z)) < 1e-6*np.linalg.cond(A), 'consistent-solved')
	# no residual at all: nothing to do
	x, info = gauss_newton(lambda x: np.zeros(3), lambda x: np.zeros((3, m)), x0)
	ctx.ok(np.array_equal(x, x0) and info == 0, 'zero-residual')


SCENARIOS = [
	{'name': 'solve', 'func': s_solve, 'n': (2500, 30000), 'timeout': 30},
	{'name': 'steps', 'func': s_steps, 'n': (1500, 20000), 'timeout': 30},
	{'name': 'linesearch', 'func': s_linesearch, 'n': (2000, 30000), 'timeout': 30},
	{'name': 'edge', 'func': s_edge, 'n': (200, 2000), 'timeout': 30},
]
