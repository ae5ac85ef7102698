"""minimax and sequential linear programming"""
import numpy as np, scipy.optimize as so, warnings
import psdr
from psdr import minimax
from psdr.seqlp import sequential_lp
from .. import gen, oracle
from ..core import Skip

RULE = ('A case draws objectives (affine, convex quadratic, general nonlinear; 1-8 components), a domain (none, bounds, polytope, ball, hull), norm (1, 2, inf, hinge, none), bounds on the objective, linear constraints, restrictions of the search direction or a curved trajectory, and a feasible start; '
	'function, gradient, trajectory and restriction calls are recorded. The monitor compares the value reached with the optimum of the (convex) problem from an independent LP / conic solve, and checks descent, feasibility and that every evaluated point is on the trajectory. Distinct: different problem and start.')
ASSUME = ['nonlinear problems are solved to first order only: for them descent, feasibility and, if convex and well conditioned, a gap below 1% of the initial one are demanded',
	'nonlinear side constraints of sequential_lp are only linearised by the implementation; they are judged only if linear']


class Fun:
	def __init__(self, ev, gr): self.ev, self.gr, self.X, self.G = ev, gr, [], []
	def __call__(self, x): self.X.append(np.array(x)); return self.ev(np.asarray(x))
	def grad(self, x): self.G.append(np.array(x)); return self.gr(np.asarray(x))


def domain(rng, m, need = False):
	"""domain and a reference, with a point inside it"""
	k = str(rng.choice(['none', 'box', 'lin', 'quad', 'hull'] if not need else ['box', 'lin', 'quad', 'hull']))
	z = np.zeros(m)
	c = rng.randn(m)*rng.choice([0, 1.])
	lb, ub = c - rng.uniform(.3, 3, m), c + rng.uniform(.3, 3, m)
	if k == 'none': return k, None, oracle.RefSet(m), c + .1*rng.randn(m)
	if k == 'box': return k, psdr.BoxDomain(lb, ub), oracle.RefSet(m, lb, ub), c
	if k == 'lin':
		A = rng.randn(2, m); b = A.dot(c) + rng.uniform(.05, .6, 2)
		return k, psdr.LinIneqDomain(A = A, b = b, lb = lb, ub = ub), oracle.RefSet(m, lb, ub, A, b), c
	if k == 'quad':
		L = np.diag(rng.uniform(.5, 2, m)); y = c + .1*rng.randn(m); r = rng.uniform(.6, 2)
		return k, psdr.LinQuadDomain(lb = lb, ub = ub, Ls = [L], ys = [y], rhos = [r]), oracle.RefSet(m, lb, ub, quads = [(L, y, r)]), c
	V = c + np.vstack([rng.randn(m + 3, m), -rng.randn(2, m)]); x = V.mean(axis = 0)
	return k, psdr.ConvexHullDomain(V), oracle.RefSet(m, hulls = [(np.arange(m), V)]), x


def inside(ref, x, tol = 2e-5): return ref.viol(x) <= tol*(1 + np.max(np.abs(x)))


def reference(ref, build):
	import cvxpy as cp
	val = [None]
	def obj(x):
		t, cons = build(cp, x); val[0] = (t, cons); return t, cons
	x = cp.Variable(ref.m)
	cons = []
	lb, ub = ref.lb, ref.ub
	for i in range(ref.m):
		if np.isfinite(lb[i]): cons.append(x[i] >= lb[i])
		if np.isfinite(ub[i]): cons.append(x[i] <= ub[i])
	if len(ref.b): cons.append(ref.A @ x <= ref.b) if hasattr(cp.Variable, '__rmatmul__') else cons.append(x.__rmatmul__(ref.A) <= ref.b)
	for L, y, r in ref.quads: cons.append(cp.norm(x.__rmatmul__(L) - L.dot(y)) <= r)
	for _, V in ref.hulls:
		a = cp.Variable(len(V)); cons += [a >= 0, cp.sum(a) == 1, a.__rmatmul__(V.T) == x]
	t, more = build(cp, x)
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		pr = cp.Problem(cp.Minimize(t), cons + more)
		try: pr.solve(solver = 'ECOS')
		except Exception: raise Skip('reference')
	if pr.status == 'unbounded': return -np.inf, None
	if pr.status != 'optimal': raise Skip('reference ' + pr.status)
	return pr.value, x.value


def s_minimax(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); q = int(rng.randint(1, 9))
	kind = str(rng.choice(['affine', 'affine', 'quad', 'mix']))
	tr = bool(rng.rand() < .6) or kind != 'affine'
	dk, dom, ref, x0 = domain(rng, m, need = not tr)
	G = rng.randn(q, m); c = rng.randn(q); z = x0 + rng.randn(q, m)
	curv = np.ones(q)*(kind != 'affine')
	if kind == 'mix': curv[rng.rand(q) < .5] = 0
	Q = [w*np.linalg.qr(rng.randn(m, m))[0]*rng.uniform(.7, 1.4, m)[:, None] for w in curv]
	if kind == 'mix' and dom is None and not np.any(curv): curv[0] = 1; Q[0] = np.eye(m)
	off = float(rng.choice([0, 0, -100.]))
	sc = 10.**rng.uniform(-3, 4) if rng.rand() < .4 else 1.
	ev = lambda x: sc*(off + np.array([G[i].dot(x) + c[i] + np.sum(Q[i].dot(x - z[i])**2) for i in range(q)]))
	gr = lambda x: sc*np.array([G[i] + 2*Q[i].T.dot(Q[i].dot(x - z[i])) for i in range(q)])
	ctx.info(m = m, q = q, kind = kind, domain = dk, trust_region = tr, offset = off, scale = sc); ctx.mix(G, c, x0)
	f = Fun(ev, gr)
	def build(cp, x):
		t = cp.Variable()
		return t, [x.__rmatmul__(G[i][None])[0] + c[i] + (cp.sum_squares(x.__rmatmul__(Q[i]) - Q[i].dot(z[i])) if np.any(Q[i]) else 0) <= t for i in range(q)]
	best, _ = reference(ref, build); best += off; best *= sc
	kw = {'maxiter': 40} if not np.isfinite(best) else {}
	x00 = x0.copy()
	x = np.asarray(minimax(f, list(x0) if rng.rand() < .3 else x0, domain = dom, trust_region = tr, **kw))
	ctx.ok(np.array_equal(x0, x00), 'start-kept')
	if not ctx.ok(x.shape == (m,) and np.all(np.isfinite(x)), 'finite', got = x): return
	v0, v = ev(x0).max(), ev(x).max()
	ctx.ok(inside(ref, x), 'in-domain', 'violation %g' % ref.viol(x))
	ctx.ok(v <= v0 + 1e-12*abs(v0), 'not-worse', 'max %g, at the start %g' % (v, v0))
	ctx.ok(any(np.array_equal(x, y) for y in f.X), 'evaluated')
	vals = [ev(g).max() for g in f.G]
	ctx.ok(all(b <= a + 1e-9*(sc + abs(a)) for a, b in zip(vals, vals[1:])), 'monotone')
	if np.isfinite(best):
		ctx.ok(v >= best - 1e-5*(sc + abs(v0 - best)), 'reference-sane', '%g below the optimum %g' % (v, best))
		gap = (v - best)/(v0 - best + 1e-3*sc)
		ctx.ok(gap <= (1e-5 if kind == 'affine' else 1e-2), 'optimal-%s' % ('affine' if kind == 'affine' else 'convex'), 'maximum %.10g, optimum %.10g, start %.10g' % (v, best, v0))
	elif not np.isfinite(best):
		ctx.ok(v < v0 - sc, 'unbounded-decrease', 'decreases without bound, but only %g was gained' % (v0 - v))


def s_minimax_general(ctx):
	"""nonconvex functions, curved trajectories, restricted directions"""
	rng = ctx.rng
	m = int(rng.randint(1, 6)); q = int(rng.randint(1, 6))
	W = rng.randn(q, m); s = rng.uniform(-2, 2, q); w = rng.uniform(.5, 3, q)
	ev = lambda x: np.sin(w*(W.dot(x) + s)) + .1*np.sum(x**2)
	gr = lambda x: (w*np.cos(w*(W.dot(x) + s)))[:, None]*W + .2*x[None]
	curved = bool(rng.rand() < .4); fixed = [i for i in range(m) if rng.rand() < .4] if rng.rand() < .5 else []
	dk, dom, ref, x0 = domain(rng, m) if not curved else ('none', None, oracle.RefSet(m), rng.randn(m))
	f = Fun(ev, gr); T, S = [], []
	def traj(x, p, t):
		y = x + t*p
		if curved: y = y + t**2*.2*np.linalg.norm(p)*np.sin(np.arange(m) + 1)*np.array([i not in fixed for i in range(m)])
		T.append((np.array(x), np.array(p), t, y)); return y
	def search(x, p):
		S.append(np.array(x)); return [p[i] == 0 for i in fixed]
	bt = int(rng.choice([1, 3, 30])); maxiter = int(rng.choice([1, 3, 100]))
	ctx.info(m = m, q = q, domain = dk, curved = curved, fixed = fixed, bt_maxiter = bt, maxiter = maxiter); ctx.mix(W, s, x0)
	x = np.asarray(minimax(f, x0, domain = dom, trajectory = traj, search_constraints = search, bt_maxiter = bt, maxiter = maxiter))
	v0, v = ev(x0).max(), ev(x).max()
	ctx.ok(v <= v0, 'not-worse', 'max %g, at the start %g' % (v, v0))
	ctx.ok(inside(ref, x), 'in-domain', 'violation %g' % ref.viol(x))
	if fixed: ctx.ok(np.max(np.abs(x - x0)[fixed]) <= 1e-6, 'restricted', 'moved along a forbidden direction by %g' % np.max(np.abs(x - x0)[fixed]))
	ctx.ok(len(f.G) <= maxiter and len(S) == len(f.G) and all(np.array_equal(a, b) for a, b in zip(S, f.G)), 'restriction-at-iterate')
	pts = [x0] + [t[3] for t in T]
	ctx.ok(all(any(np.array_equal(y, p) for p in pts) for y in f.X) and any(np.array_equal(x, y) for y in f.X), 'on-trajectory')
	# replay of the line searches: accepted steps decrease enough, by at least the Armijo share of the predicted decrease
	for a, b in zip(f.G, f.G[1:] + [x]):
		if np.array_equal(a, b): continue
		st = [(p, t) for y, p, t, e in T if np.array_equal(y, a) and np.array_equal(e, b)]
		if not ctx.ok(len(st) > 0, 'step-from-iterate'): continue
		p, t = st[0]
		pred = (ev(a) + gr(a).dot(p)).max() - ev(a).max()
		ctx.ok(ev(b).max() <= ev(a).max() + .01*t*pred + 1e-9, 'armijo', 'step of length %g: from %g to %g, predicted decrease %g' % (t, ev(a).max(), ev(b).max(), pred))
		k = -np.log2(t); ctx.ok(abs(k - round(k)) < 1e-9 and k < bt, 'backtracking')
	# a first order check of optimality: a converged solution without restrictions is stationary
	if dom is None and not curved and maxiter == 100 and bt == 30 and len(f.G) < 100:
		import scipy.optimize as so
		E, J = ev(x), gr(x)
		free = [i for i in range(m) if i not in fixed]
		if free:
			r = so.linprog(np.r_[np.zeros(len(free)), 1.], A_ub = np.hstack([J[:, free], -np.ones((q, 1))]), b_ub = E.max() - E, bounds = [(-.01, .01)]*len(free) + [(None, None)])
			ctx.ok(r.status != 0 or r.fun >= -1e-4, 'stationary', 'linearisation still predicts a decrease of %g within 0.01' % -r.fun)


def s_minimax_errors(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); dk, dom, ref, x0 = domain(rng, m, need = True)
	ctx.info(m = m, domain = dk); ctx.mix(x0)
	f = Fun(lambda x: np.array([x.sum()]), lambda x: np.ones((1, m)))
	ctx.raises((AssertionError, ValueError), 'start-outside', minimax, f, x0 + 1e3, domain = dom)
	ctx.ok(len(f.X) == 0, 'nothing-evaluated')
	x = minimax(f, x0, domain = dom, maxiter = 0); ctx.ok(np.array_equal(x, x0), 'maxiter-0')
	# already optimal
	x = minimax(f, x0, domain = dom); y = minimax(f, x, domain = dom)
	ctx.ok(abs(y.sum() - x.sum()) < 1e-6, 'idempotent')


def s_linear(ctx):
	"""sequential_lp on affine objectives is a convex program"""
	rng = ctx.rng
	m = int(rng.randint(1, 6)); q = int(rng.randint(1, 9))
	norm = [1, 2, np.inf, 'hinge', None][rng.randint(5)]
	if norm is None: q = 1
	dk, dom, ref, x0 = domain(rng, m, need = norm in (None, 'hinge'))
	J = rng.randn(q, m); c = rng.randn(q)*rng.choice([.3, 3])
	ev = lambda x: J.dot(x) + c
	sc = 10.**rng.uniform(-1, 2) if rng.rand() < .3 else 1.
	J, c = sc*J, sc*c
	lo = hi = None
	if rng.rand() < .3 and norm is not None: lo = ev(x0) - rng.uniform(.1, 1, q)*sc
	if rng.rand() < .3 and norm is not None: hi = ev(x0) + rng.uniform(.1, 1, q)*sc
	k = int(rng.choice([0, 0, 1, 2]))
	C = rng.randn(k, m); d = C.dot(x0)
	clo = np.where(rng.rand(k) < .5, d - rng.uniform(.05, .5, k), -np.inf); chi = np.where(rng.rand(k) < .6, d + rng.uniform(.05, .5, k), np.inf)
	lists = bool(rng.rand() < .3) and norm is not None
	ctx.info(m = m, q = q, norm = str(norm), domain = dk, lower = lo is not None, upper = hi is not None, constraints = k, lists = lists, scale = sc); ctx.mix(J, c, x0)
	X = []
	def f(x): X.append(np.array(x)); return ev(x)
	jac = lambda x: J
	if lists:
		fs = [lambda x, i = i: ev(x)[i] for i in range(q)]; js = [lambda x, i = i: J[i] for i in range(q)]
	else: fs, js = f, jac
	kw = {}
	if k: kw = dict(constraints = [lambda x, i = i: C[i].dot(x) for i in range(k)], constraint_grads = [lambda x, i = i: C[i] for i in range(k)], constraints_lb = clo, constraints_ub = chi)
	def build(cp, x):
		r = x.__rmatmul__(J) + c
		cons = []
		if lo is not None: cons.append(r >= lo)
		if hi is not None: cons.append(r <= hi)
		for i in range(k):
			if np.isfinite(clo[i]): cons.append(x.__rmatmul__(C[i:i+1]) >= clo[i])
			if np.isfinite(chi[i]): cons.append(x.__rmatmul__(C[i:i+1]) <= chi[i])
		return {1: cp.norm1(r), 2: cp.norm(r), np.inf: cp.norm_inf(r), 'hinge': cp.sum(cp.pos(r))}.get(norm, cp.sum(r)), cons
	best, _ = reference(ref, build)
	val = lambda x: {1: np.sum(np.abs(ev(x))), 2: np.linalg.norm(ev(x)), np.inf: np.max(np.abs(ev(x))), 'hinge': np.maximum(ev(x), 0).sum(), None: ev(x)[0]}[norm]
	x00 = x0.copy()
	x = np.asarray(sequential_lp(fs, x0, js, norm = norm, domain = dom, obj_lb = lo, obj_ub = hi, **({'maxiter': 15, 'bt_maxiter': 35} if lo is not None or hi is not None else {}), **kw))
	ctx.ok(np.array_equal(x0, x00), 'start-kept')
	if not ctx.ok(x.shape == (m,) and np.all(np.isfinite(x)), 'finite', got = x): return
	v0, v = val(x0), val(x)
	ctx.ok(v <= v0 + 1e-12*abs(v0), 'not-worse', 'objective %g, at the start %g' % (v, v0))
	ctx.ok(inside(ref, x), 'in-domain', 'violation %g' % ref.viol(x))
	if lo is not None: ctx.ok(np.all(ev(x) >= lo - 1e-7*sc), 'objective-lower')
	if hi is not None: ctx.ok(np.all(ev(x) <= hi + 1e-7*sc), 'objective-upper')
	if k: ctx.ok(np.all(C.dot(x) >= clo - 1e-6) and np.all(C.dot(x) <= chi + 1e-6), 'constraints', got = C.dot(x), lo = clo, hi = chi)
	ctx.ok(v >= best - 1e-5*(sc + abs(v0)), 'reference-sane', '%g below the optimum %g' % (v, best))
	bounded = lo is not None or hi is not None
	ctx.ok(v - best <= (1e-5 if not bounded else .999)*(v0 - best) + 1e-5*sc, 'progress-bounded' if bounded else 'optimal', 'objective %.10g, optimum %.10g, start %.10g' % (v, best, v0))


def s_nonlinear(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); q = int(rng.randint(1, 8))
	norm = [1, 2, np.inf, 'hinge'][rng.randint(4)]
	curved = bool(rng.rand() < .3)
	dk, dom, ref, x0 = domain(rng, m) if not curved else ('none', None, oracle.RefSet(m), rng.randn(m))
	W = rng.randn(q, m); s = rng.randn(q); y = rng.randn(q)
	ev = lambda x: np.tanh(W.dot(x) + s) - y + .3*np.sin(x.sum())
	jc = lambda x: (1 - np.tanh(W.dot(x) + s)**2)[:, None]*W + .3*np.cos(x.sum())
	lo = ev(x0) - rng.uniform(.01, 1, q) if rng.rand() < .3 else None
	hi = ev(x0) + rng.uniform(.01, 1, q) if rng.rand() < .3 else None
	fixed = [i for i in range(m) if rng.rand() < .4] if rng.rand() < .3 else []
	bt = int(rng.choice([2, 20, 50])); maxiter = int(rng.choice([1, 3, 30]))
	ctx.info(m = m, q = q, norm = str(norm), domain = dk, curved = curved, fixed = fixed, lower = lo is not None, upper = hi is not None, bt = bt, maxiter = maxiter); ctx.mix(W, s, y, x0)
	X, T, J = [], [], []
	def f(x): X.append(np.array(x)); return ev(x)
	def jac(x): J.append(np.array(x)); return jc(x)
	def traj(x, p, t):
		z = x + t*p
		if curved: z = z + t**2*.1*np.linalg.norm(p)*np.sin(np.arange(m) + 1)*np.array([i not in fixed for i in range(m)])
		T.append((np.array(x), z)); return z
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		x = np.asarray(sequential_lp(f, x0, jac, norm = norm, domain = dom, trajectory = traj, obj_lb = lo, obj_ub = hi, bt_maxiter = bt, maxiter = maxiter, search_constraints = (lambda x, p: [p[i] == 0 for i in fixed]) if fixed else None))
	val = lambda x: {1: np.sum(np.abs(ev(x))), 2: np.linalg.norm(ev(x)), np.inf: np.max(np.abs(ev(x))), 'hinge': np.maximum(ev(x), 0).sum()}[norm]
	if not ctx.ok(x.shape == (m,) and np.all(np.isfinite(x)), 'finite', got = x): return
	ctx.ok(val(x) <= val(x0), 'not-worse', 'objective %g, at the start %g' % (val(x), val(x0)))
	ctx.ok(inside(ref, x), 'in-domain', 'violation %g' % ref.viol(x))
	if lo is not None: ctx.ok(np.all(ev(x) >= lo - 1e-9), 'objective-lower', 'violated by %g' % np.max(lo - ev(x)))
	if hi is not None: ctx.ok(np.all(ev(x) <= hi + 1e-9), 'objective-upper', 'violated by %g' % np.max(ev(x) - hi))
	if fixed: ctx.ok(np.max(np.abs(x - x0)[fixed]) <= 1e-6, 'restricted')
	vs = [val(z) for z in J]
	ctx.ok(all(b <= a for a, b in zip(vs, vs[1:])), 'monotone'); ctx.ok(len(J) <= maxiter + 1, 'maxiter')
	pts = [x0] + [z for _, z in T]
	ctx.ok(all(any(np.array_equal(z, p) for p in pts) for z in X) and any(np.array_equal(x, z) for z in X), 'on-trajectory')
	ctx.ok(all(any(np.array_equal(a, z) for z in J) for a, _ in T), 'from-iterate')
	# an isolated start that can be improved along the linearisation must be improved
	if dom is None and not fixed and not curved and lo is None and hi is None and bt == 50 and norm == 2 and maxiter > 1:
		g0 = np.linalg.norm(jc(x0).T.dot(ev(x0)))
		if g0 > 1e-2: ctx.ok(val(x) < val(x0), 'progress', 'no progress from gradient %g' % g0)


def s_errors(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 5)); J = rng.randn(4, m)
	ctx.info(m = m); ctx.mix(J)
	f, jac = lambda x: J.dot(x) - 1, lambda x: J
	ctx.raises((AssertionError, ValueError), 'norm', sequential_lp, f, np.zeros(m), jac, norm = 3)
	ctx.raises((AssertionError, ValueError), 'gradients-missing', sequential_lp, f, np.zeros(m), jac, constraints = [lambda x: x[0]])
	x = sequential_lp(f, np.zeros(m), jac, maxiter = 0); ctx.ok(np.array_equal(x, np.zeros(m)), 'maxiter-0')
	# printing the history does not change the outcome
	import io, contextlib
	n = [1, 2, np.inf][rng.randint(3)]
	a = sequential_lp(f, np.zeros(m), jac, norm = n)
	with contextlib.redirect_stdout(io.StringIO()) as out: b = sequential_lp(f, np.zeros(m), jac, norm = n, verbose = True)
	ctx.ok(np.array_equal(a, b) and 'iter' in out.getvalue(), 'verbose')
	# from a solution, too
	xs = rng.randn(m); h = lambda x: J.dot(x - xs)
	a = sequential_lp(h, xs, jac, norm = n)
	with contextlib.redirect_stdout(io.StringIO()) as out: b = sequential_lp(h, xs, jac, norm = n, verbose = True)
	ctx.ok(np.array_equal(a, b) and 'iter' in out.getvalue(), 'verbose-solution')
	g = Fun(lambda x: J.dot(x) + np.sum(x**2), lambda x: J + 2*x[None])
	a = minimax(g, np.zeros(m))
	with contextlib.redirect_stdout(io.StringIO()) as out: b = minimax(g, np.zeros(m), verbose = True)
	ctx.ok(np.array_equal(a, b) and 'iter' in out.getvalue(), 'verbose')


SCENARIOS = [
	{'name': 'minimax', 'func': s_minimax, 'n': (240, 3000), 'timeout': 60},
	{'name': 'minimax_general', 'func': s_minimax_general, 'n': (240, 3000), 'timeout': 60},
	{'name': 'minimax_errors', 'func': s_minimax_errors, 'n': (40, 300), 'timeout': 60},
	{'name': 'linear', 'func': s_linear, 'n': (500, 6000), 'timeout': 60},
	{'name': 'nonlinear', 'func': s_nonlinear, 'n': (300, 4000), 'timeout': 60},
	{'name': 'errors', 'func': s_errors, 'n': (40, 300), 'timeout': 60},
]
