"""Results depend on the values of the arguments and the random state only"""
import contextlib, copy, io, pickle
import numpy as np, scipy.linalg
import psdr, psdr.demos
from psdr.seqlp import sequential_lp
from psdr.geometry import voronoi_vertex, fill_distance, unique_points, cdist
from ..core import Skip

RULE = ('A case picks an operation of the public interface (domains, bases, approximations, ridge functions, dimension reduction, Lipschitz matrices, Gaussian processes, optimisation, geometry, designs, quadrature) with random data and runs it twice: with the same arguments and random state, '
	'after other operations, with arrays overwritten in between, given as lists, transposed, strided, read only or integers, through copies and pickles, after refitting, verbosely; the monitor compares all results. Distinct: different operation, data, way of running.')
ASSUME = ['results of iterative solvers are compared to their accuracy where the memory layout changes the order of sums']


class Op:
	def __init__(self, name, args, make, query = None, fit = None, tol = 1e-9, floor = 0., used = True, scram = True, pick = True, ints = True, lists = True, same = None):
		same = same or (1e-9 if tol < 1e-3 else tol)
		self.floor = floor
		self.used, self.name, self.args, self.make, self.query, self.fit, self.tol, self.scram, self.pick, self.ints, self.lists, self.same = used, name, args, make, query, fit, tol, scram, pick, ints, lists, same


OPS = []
def op(name, args, make, query = None, **kw): OPS.append(Op(name, args, make, query, **kw))


def pts(rng, M, m): return rng.randn(M, m)
def func(X):
	X = np.atleast_2d(X)
	return np.sin(X.dot(np.arange(1, X.shape[1] + 1)/2.)) + .5*X[:, 0]**2
def dims(rng): return int(rng.choice([1, 2, 3]))


# ---- domains: query points are a separate argument
def a_box(rng):
	m = dims(rng); c = rng.randint(-3, 4, size = m).astype(float); return {'lb': c, 'ub': c + rng.randint(1, 4, size = m), 'X': c + 2*rng.rand(6, m), 'p': rng.randn(m)}
def a_lin(rng):
	m = int(rng.choice([2, 3])); A = rng.randint(-2, 3, size = (3, m)).astype(float); A[np.all(A == 0, axis = 1)] = 1
	return {'A': A, 'b': rng.randint(1, 4, size = 3).astype(float), 'lb': -2*np.ones(m), 'ub': 2*np.ones(m), 'X': rng.randn(6, m), 'p': rng.randn(m)}
def a_eq(rng):
	a = a_lin(rng); m = len(a['lb']); a['A_eq'] = rng.randint(1, 3, size = (1, m)).astype(float); a['b_eq'] = np.zeros(1); return a
def a_quad(rng):
	m = 2; return {'L': np.array([[2., 1], [0, 1]]) + rng.randint(0, 2, size = (2, 2)), 'y': np.zeros(2), 'rho': np.array([2.]), 'lb': -np.ones(m), 'ub': np.ones(m), 'X': rng.randn(6, m), 'p': rng.randn(m)}
def a_hull(rng):
	V = rng.randint(-3, 4, size = (7, 2)).astype(float); V[:3] = [[0, 0], [3, 1], [1, 3]]; return {'V': V, 'X': rng.randn(6, 2), 'p': rng.randn(2)}
def a_norm(rng):
	m = dims(rng); A = rng.randint(-1, 2, size = (m, m)); return {'mean': rng.randint(-2, 3, size = m).astype(float), 'cov': A.dot(A.T) + 2.*np.eye(m), 'X': rng.randn(6, m), 'p': rng.randn(m)}
def q_dom(d, a, exact = True):
	X, p = a['X'], a['p']
	out = [d.isinside(X), d.isinside(X[0])]
	z = d.closest_point(X[1]); out += [z]
	c = d.center; out += [c, d.extent(c, p), d.corner(p)]
	if exact: out += [d.normalize(X), d.unnormalize(X), d.norm_lb, d.norm_ub, d.lb, d.ub, len(d)]
	out += [d.sample(4), d.isinside(d.sample(3))]
	return out
op('box', a_box, lambda a: psdr.BoxDomain(a['lb'], a['ub']), q_dom)
op('uniform', a_box, lambda a: psdr.UniformDomain(a['lb'], a['ub']), lambda d, a: q_dom(d, a) + [d.pdf(a['X'])])
op('linineq', a_lin, lambda a: psdr.LinIneqDomain(a['A'], a['b'], lb = a['lb'], ub = a['ub']), q_dom, tol = 1e-6)
op('equality', a_eq, lambda a: psdr.LinIneqDomain(a['A'], a['b'], lb = a['lb'], ub = a['ub'], A_eq = a['A_eq'], b_eq = a['b_eq']), q_dom, tol = 1e-5)
op('linquad', a_quad, lambda a: psdr.LinQuadDomain(lb = a['lb'], ub = a['ub'], Ls = [a['L']], ys = [a['y']], rhos = [a['rho'][0]]), q_dom, tol = 1e-4)
op('hull', a_hull, lambda a: psdr.ConvexHullDomain(a['V']), q_dom, used = False, tol = 1e-4)
op('point', lambda rng: {'x': rng.randint(-3, 4, size = 2).astype(float), 'X': rng.randint(-3, 4, size = (6, 2)).astype(float), 'p': rng.randn(2)}, lambda a: psdr.PointDomain(a['x']), q_dom)
op('normal', a_norm, lambda a: psdr.NormalDomain(a['mean'], a['cov'], truncate = 1e-2), lambda d, a: q_dom(d, a) + [d.pdf(a['X'])], tol = 1e-4)
op('product', a_box, lambda a: psdr.BoxDomain(a['lb'], a['ub'])*psdr.NormalDomain(a['lb'], np.eye(len(a['lb'])), truncate = 1e-2), lambda d, a: q_dom(d, {'X': np.hstack([a['X'], a['X']]), 'p': np.hstack([a['p'], a['p']])}), tol = 1e-4, lists = False)
op('added', a_lin, lambda a: psdr.BoxDomain(a['lb'], a['ub']).add_constraints(A = a['A'], b = a['b']), q_dom, tol = 1e-6)
op('lsq', a_lin, lambda a: psdr.LinIneqDomain(a['A'], a['b'], lb = a['lb'], ub = a['ub']), lambda d, a: [d.constrained_least_squares(a['X'], a['X'][:, 0]), d.closest_point(a['p'], L = a['X'])], tol = 1e-4)
op('rule', a_box, lambda a: psdr.BoxDomain(a['lb'], a['ub']), lambda d, a: list(d.quadrature_rule(20, method = 'gauss')) + [d.sample_grid(3)])
op('rule-mc', a_lin, lambda a: psdr.LinIneqDomain(a['A'], a['b'], lb = a['lb'], ub = a['ub']), lambda d, a: list(d.quadrature_rule(40, method = 'montecarlo')), tol = 1e-5, used = False)
op('sweep', a_lin, lambda a: psdr.LinIneqDomain(a['A'], a['b'], lb = a['lb'], ub = a['ub']), lambda d, a: list(d.sweep(n = 5, x = d.center, p = a['p'])), tol = 1e-5)

# ---- bases and polynomials
def a_basis(rng):
	m = dims(rng); return {'X': rng.randint(-4, 5, size = (20, m)) + np.zeros((20, m)), 'Y': rng.randint(-4, 5, size = (4, m)).astype(float), 'c': rng.randn(int(scipy.special.comb(m + 2, 2)))}
def q_basis(b, a): return [b.V(a['Y']), b.V(), b.VC(a['Y'], a['c']), b.DV(a['Y']), b.DDV(a['Y'])]
for nm in ('Monomial', 'Legendre', 'Chebyshev', 'Laguerre', 'Hermite'):
	op(nm.lower(), a_basis, (lambda C: lambda a: C(2, X = a['X']))(getattr(psdr, nm + 'TensorBasis')), lambda b, a: q_basis(b, a), tol = 1e-8)
op('arnoldi', a_basis, lambda a: psdr.ArnoldiPolynomialBasis(2, X = a['X']), lambda b, a: [b.V(a['Y']), b.V(), b.DV(a['Y'])], tol = 1e-7)
def a_data(rng, M = 30):
	m = dims(rng); X = rng.randint(-8, 9, size = (M, m))/4.; X += 1e-2*rng.randn(M, m); return {'X': X, 'fX': func(X), 'Y': rng.randn(4, m)}
for nrm in (1, 2, np.inf):
	op('polyfit-%s' % nrm, a_data, (lambda nrm: lambda a: fitted(psdr.PolynomialApproximation(2, norm = nrm), a))(nrm), lambda p, a: [p(a['Y']), p.grad(a['Y']), p.coef], fit = lambda p, a: p.fit(a['X'], a['fX']), tol = 1e-4 if nrm != 2 else 1e-7, lists = False)


def fitted(o, a):
	o.fit(a['X'], a['fX']); return o
def fitting(o, a): o.fit(a['X'], a['fX'])


for nm in ('monomial', 'chebyshev', 'laguerre', 'hermite', 'arnoldi'):
	op('polybasis-' + nm, a_data, (lambda nm: lambda a: fitted(psdr.PolynomialApproximation(3, basis = nm), a))(nm), lambda p, a: [p(a['Y']), p.grad(a['Y']), p.coef], fit = lambda p, a: p.fit(a['X'], a['fX']), tol = 1e-6, lists = False)

# ---- dimension reduction
def a_grads(rng):
	m = dims(rng); M = 12; return {'g': rng.randn(M, m)*(1. + np.arange(m)), 'w': rng.rand(M) + .1}
def as_fit(o, a):
	o.fit(a['g'], a['w']); return o
op('active', a_grads, lambda a: as_fit(psdr.ActiveSubspace(), a), lambda o, a: [o.U, o.C, o.singvals], fit = as_fit, tol = 1e-8)
op('opg', a_data, lambda a: fitted(psdr.OuterProductGradient(perplexity = 8.), a), lambda o, a: [o.U, o.C], fit = fitting, tol = 1e-5, ints = False)
op('local-linear', a_data, lambda a: psdr.local_linear(a['X'], a['fX'], Xt = a['Y'], perplexity = 8.), lambda o, a: [o], tol = 1e-5, ints = False)
op('local-grads', a_data, lambda a: psdr.local_linear_grads(a['X'], a['fX'], perplexity = 8.), lambda o, a: [o], tol = 1e-5, ints = False)
op('nonlinearity', a_data, lambda a: psdr.measure_nonlinearity(a['X'], a['fX']), lambda o, a: [o[0], o[1]], tol = 1e-4, ints = False)

# ---- ridge functions
def a_ridge(rng):
	m = int(rng.choice([2, 3])); n = int(rng.choice([1, 2])) if m > 2 else 1; M = 60; X = 2*rng.rand(M, m) - 1; U = scipy.linalg.orth(rng.randn(m, n)); Y = X.dot(U)
	return {'X': X, 'fX': 1 + Y[:, 0] + 2*Y.sum(axis = 1)**2 + .01*rng.randn(M), 'U0': scipy.linalg.orth(U + .2*rng.randn(m, n)), 'Y': rng.rand(4, m)}
def pr(a): return psdr.PolynomialRidgeApproximation(2, len(a['U0'][0]))
def pr_fit(o, a):
	o.fit(a['X'], a['fX'], U0 = a['U0']); return o
op('ridge', a_ridge, lambda a: pr_fit(pr(a), a), lambda o, a: [o(a['Y']), o.grad(a['Y']), o.U.dot(o.U.T)], fit = pr_fit, tol = 1e-3, ints = False)
def pr_fix(o, a):
	o.fit_fixed_subspace(a['X'], a['fX'], a['U0']); return o
op('ridge-fixed', a_ridge, lambda a: pr_fix(pr(a), a), lambda o, a: [o(a['Y']), o.grad(a['Y'])], fit = pr_fix, tol = 1e-6, ints = False, lists = False)

# ---- Lipschitz
def lip_fit(o, a):
	o.fit(X = a['X'], fX = a['fX'], grads = a['g']); return o
def a_lip(rng):
	a = a_data(rng, 10); a['g'] = rng.randn(3, a['X'].shape[1]); return a
op('lipschitz', a_lip, lambda a: lip_fit(psdr.LipschitzMatrix(verbose = False), a), lambda o, a: [o.H, o.L, o.uncertainty(a['X'], a['fX'], a['Y'])], fit = lip_fit, tol = 1e-3, ints = False)
op('diagonal', a_lip, lambda a: lip_fit(psdr.DiagonalLipschitzMatrix(verbose = False), a), lambda o, a: [o.H, o.L, o.uncertainty(a['X'], a['fX'], a['Y'])], fit = lip_fit, tol = 1e-3, ints = False)
op('constant', a_lip, lambda a: lip_fit(psdr.LipschitzConstant(), a), lambda o, a: [o.H, o.L, o.uncertainty(a['X'], a['fX'], a['Y'])], fit = lip_fit, tol = 1e-8, ints = False)
def part(a): return psdr.PartialLipschitzMatrix(1, verbose = False, U0 = np.eye(len(a['X'][0]))[:, :1], maxiter = 3)
op('partial', a_lip, lambda a: lip_fit(part(a), a), lambda o, a: [o.H], fit = lip_fit, tol = 1e-2, ints = False)
def a_lapp(rng):
	m = dims(rng); X = 2*rng.rand(8, m) - 1; return {'X': X, 'fX': 3*func(X), 'L': np.eye(m) + np.triu(rng.randint(0, 2, size = (m, m)), 1), 'Y': 2*rng.rand(5, m) - 1, 'lb': -np.ones(m), 'ub': np.ones(m)}
op('lipschitz-approx', a_lapp, lambda a: fitted(psdr.LipschitzApproximation(a['L'], psdr.BoxDomain(a['lb'], a['ub'])), a), lambda o, a: [o(a['Y']), o.epsilon], fit = fitting, tol = 1e-4, ints = False)

# ---- Gaussian processes
def gp_fit(o, a):
	o.fit(a['X'], a['fX'], L0 = a['L0']); return o
def a_gp(rng):
	a = a_data(rng, 12); a['L0'] = np.eye(a['X'].shape[1]); return a
for st in ('const', 'diag', 'tril'):
	op('gp-' + st, a_gp, (lambda st: lambda a: gp_fit(psdr.GaussianProcess(structure = st, degree = 1, nugget = 1e-2), a))(st), lambda o, a: [o(a['Y']), o.eval(a['Y'], return_cov = True)[1], o.L], fit = gp_fit, tol = 1e-2, floor = 1., ints = False)

# ---- optimisation
def a_gn(rng):
	A = rng.randn(6, 3); return {'A': A, 'b': rng.randn(6), 'x0': rng.randint(-1, 2, size = 3).astype(float)}
op('gauss-newton', a_gn, lambda a: psdr.gauss_newton(lambda x: np.tanh(a['A'].dot(x)) - a['b'], lambda x: (1/np.cosh(a['A'].dot(x))**2)[:, None]*a['A'], a['x0'])[:2], lambda o, a: list(o), tol = 1e-3, lists = False, ints = False)
class Aff:
	def __init__(self, A, b): self.A, self.b = A, b
	def __call__(self, x): return self.A.dot(x) + self.b
	def grad(self, x): return self.A
op('minimax', a_gn, lambda a: psdr.minimax(Aff(np.vstack([a['A'], -a['A']]), np.hstack([a['b'], -a['b']])), a['x0'], domain = psdr.BoxDomain(-2*np.ones(3), 2*np.ones(3)), verbose = False), lambda o, a: [np.max(np.abs(a['A'].dot(np.asarray(o)) + a['b']))], tol = 1e-3, lists = False, ints = False)

# ---- functions
def a_fun(rng):
	a = a_box(rng); a['N'] = 2*rng.rand(5, len(a['lb'])) - 1; return a
op('function', a_fun, lambda a: psdr.Function(func, psdr.BoxDomain(a['lb'], a['ub']), vectorized = True, fd_grad = True), lambda f, a: [f(a['N']), f(a['N'][0]), f.grad(a['N']), f(a['N'], return_grad = True)[1]], tol = 1e-5, pick = False)
for nm in ('Borehole', 'OTLCircuit', 'Piston', 'WingWeight', 'RobotArm', 'GolinskiGearbox', 'Hartmann'):
	C = getattr(psdr.demos, nm, None)
	if C is not None:
		op('demo-' + nm, lambda rng: {'N': 2*rng.rand(5, 30) - 1}, (lambda C: lambda a: C())(C), lambda f, a: [f(a['N'][:, :len(f.domain)]), f(a['N'][0, :len(f.domain)]), f.domain.sample(3)], tol = 1e-9, lists = False, pick = False)

# ---- geometry and designs
def a_geo(rng):
	m = int(rng.choice([1, 2])); return {'lb': -np.ones(m), 'ub': np.ones(m), 'P': np.unique(rng.randint(-9, 10, size = (5, m))/10., axis = 0), 'L': np.eye(m) + np.triu(rng.randint(0, 2, size = (m, m)), 1)}
def gdom(a): return psdr.BoxDomain(a['lb'], a['ub'])
op('vertices', a_geo, lambda a: voronoi_vertex(gdom(a), a['P'], L = a['L']), lambda o, a: [o[np.lexsort(np.round(o, 5).T)]], tol = 1e-6)
op('fill', a_geo, lambda a: fill_distance(gdom(a), a['P'], L = a['L']), lambda o, a: [o], tol = 1e-6)
op('cdist', a_geo, lambda a: cdist(a['P'], a['P'], L = a['L']), lambda o, a: [o], lists = False)
op('unique', a_geo, lambda a: unique_points(np.vstack([a['P'], a['P']])), lambda o, a: [o])
op('seq-maximin', a_geo, lambda a: psdr.seq_maximin_sample(gdom(a), a['P'], Ls = [a['L']], Nsamp = 20), lambda o, a: [o], tol = 1e-5)
op('maximin-block', a_geo, lambda a: psdr.maximin_block(gdom(a), 4, L = a['L'], maxiter = 5), lambda o, a: [o], tol = 1e-2, lists = False)
op('coffeehouse', a_geo, lambda a: psdr.maximin_coffeehouse(gdom(a), 4, L = a['L'], verbose = False), lambda o, a: [o], tol = 1e-5)
op('cluster', a_geo, lambda a: psdr.minimax_cluster(gdom(a), 3, L = a['L'], N0 = 50, maxiter = 3, verbose = False), lambda o, a: [o], tol = 1e-3)
op('lloyd', a_geo, lambda a: psdr.minimax_lloyd(gdom(a), 3, L = a['L'], maxiter = 3, verbose = False), lambda o, a: [o.shape, fill_distance(gdom(a), o, L = a['L'])], tol = .5)
op('scale', a_geo, lambda a: psdr.minimax_scale(gdom(a), a['P'], L = a['L'], verbose = False), lambda o, a: [o], tol = 1e-3)
op('latin', a_geo, lambda a: psdr.latin_hypercube_sample(gdom(a), 5), lambda o, a: [o])
op('sobol', a_geo, lambda a: psdr.sobol_sequence(gdom(a), 7), lambda o, a: [o])
op('poisson', a_geo, lambda a: psdr.poisson_disk_sample(gdom(a), .8, L = a['L']), lambda o, a: [o], tol = 1e-6, lists = False)
op('initial', a_geo, lambda a: psdr.initial_sample(gdom(a), a['L'], 6), lambda o, a: [o], tol = 1e-5)
op('projection', a_geo, lambda a: psdr.projection_sample(gdom(a), 3, [a['L']], maxiter = 2), lambda o, a: [o], tol = 1e-4)


# ------------------------------------------------------------------------------------- running
def flat(o):
	if isinstance(o, (list, tuple)): return [y for x in o for y in flat(x)]
	if o is None: return [np.zeros(0)]
	return [np.array(o, dtype = float)]


def seeded(f, s):
	np.random.seed(s)
	return f()


def query(op, obj, a, s): return flat(seeded(lambda: op.query(obj, a), s))
def result(op, a, s): return query(op, seeded(lambda: op.make(a), s), a, s)
def clone(a): return {k: np.array(v) for k, v in a.items()}


def agree(ctx, r, q, clause, tol, floor = 0., **kw):
	if not ctx.ok(len(r) == len(q) and all(x.shape == y.shape for x, y in zip(r, q)), clause, 'shapes differ', got = [x.shape for x in r], expected = [x.shape for x in q], **kw): return
	for x, y in zip(r, q):
		with np.errstate(invalid = 'ignore'):
			sc = np.max(np.abs(y[np.isfinite(y)]), initial = floor) + 1e-12
			good = np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol*sc))
		if not ctx.ok(good, clause, got = x, expected = y, **kw): return


def pick(ctx, cond = lambda o: True):
	ops = [o for o in OPS if cond(o)]
	o = ops[ctx.idx % len(ops)]
	a = o.args(ctx.rng)
	ctx.info(op = o.name); ctx.mix(*a.values())
	return o, a, int(ctx.rng.randint(2**31))


def ref(o, a, s):
	try: return result(o, clone(a), s)
	except (psdr.EmptyDomainException, psdr.SolverError, psdr.UnboundedDomainException) as e: raise Skip(repr(e))


def s_repeat(ctx):
	"""same arguments and random state: same result, whatever ran before, even in the same arrays"""
	o, a, s = pick(ctx); r = ref(o, a, s); c = clone(a)
	q = result(o, c, s)
	agree(ctx, q, r, 'repeat', o.same, o.floor)
	ctx.ok(all(np.array_equal(c[k], a[k]) for k in a), 'inputs-kept', [k for k in a if not np.array_equal(c[k], a[k])])
	b = o.args(ctx.rng); t = int(ctx.rng.randint(2**31))
	other = OPS[ctx.rng.randint(len(OPS))]
	try: result(other, other.args(ctx.rng), s)
	except Exception: pass
	if all(b[k].shape == a[k].shape for k in a):
		rb = ref(o, b, t)
		for k in a: c[k][...] = b[k]
		agree(ctx, result(o, c, t), rb, 'overwritten', o.same, o.floor)
	agree(ctx, result(o, clone(a), s), r, 'history', o.same, o.floor)


def layout(rng, v, kind):
	if kind == 'list': return v.tolist()
	if kind == 'fortran': return np.asfortranarray(v)
	if kind == 'strided':
		w = np.full(tuple(2*n for n in v.shape), 7.); w = w[tuple(slice(None, None, 2) for n in v.shape)]; w[...] = v; return w
	if kind == 'reversed':
		w = np.array(v[::-1]); return w[::-1]
	if kind == 'readonly':
		w = np.array(v); w.flags.writeable = False; return w
	if kind == 'int': return v.astype(int)


def s_layout(ctx):
	kind = str(ctx.rng.choice(['list', 'fortran', 'strided', 'reversed', 'readonly', 'readonly', 'int']))
	o, a, s = pick(ctx, lambda o: (kind != 'list' or o.lists) and (kind != 'int' or o.ints)); ctx.info(kind = kind)
	if kind == 'int': a = {k: np.round(v) if k != 'P' else v for k, v in a.items()}
	r = ref(o, a, s)
	c = {k: v if kind == 'int' and not np.array_equal(v, np.round(v)) or kind == 'list' and k == 'L0' else layout(ctx.rng, v, kind) for k, v in a.items()}
	if kind == 'list': q = flat_list(o, c, a, s)
	else: q = result(o, c, s)
	agree(ctx, q, r, 'layout', 10*o.tol, o.floor, kind = kind)
	ctx.ok(all(np.array_equal(np.asarray(c[k]), a[k]) for k in a), 'inputs-kept')


def flat_list(o, c, a, s):
	# construct from lists, query with arrays
	return query(o, seeded(lambda: o.make(c), s), a, s)


def s_private(ctx):
	"""objects do not change when the arrays they were made from are changed"""
	o, a, s = pick(ctx, lambda o: o.scram); r = ref(o, a, s)
	c = clone(a); obj = seeded(lambda: o.make(c), s)
	for k in c: c[k][...] = 17.25 + np.arange(c[k].size).reshape(c[k].shape)
	agree(ctx, query(o, obj, clone(a), s), r, 'arguments', o.same, o.floor)


def s_refit(ctx):
	o, a, s = pick(ctx, lambda o: o.fit is not None); r = ref(o, a, s)
	# other data for the same settings
	inside = o.name == 'lipschitz-approx' # has a domain containing the samples
	how = str(ctx.rng.choice(['other', 'fewer'] if inside else ['other', 'range', 'large', 'more', 'fewer', 'dimension'])); ctx.info(how = how)
	b = {k: v[::-1]*2. + .125 if k in ('fX', 'g') else np.array(v[::-1]) if k in ('X', 'w') else v for k, v in a.items()}
	if how == 'range': b = {k: 4*v + 20 if k == 'X' else v for k, v in b.items()}
	if how == 'large': b = {k: 1e5*v if k in ('fX', 'g') else v for k, v in b.items()}
	if how == 'more': b = {k: np.concatenate([v, 1.5*v + .01]) if k in ('X', 'fX', 'g', 'w') else v for k, v in b.items()}
	if how == 'fewer': b = {k: v[:len(v)*3//4] if k in ('X', 'fX', 'g', 'w') else v for k, v in b.items()}
	if how == 'dimension' and 'U0' not in b and o.name != 'partial' and b.get('X', b.get('g')).shape[1] > 1: b = {k: v[:, :-1] if k in ('X', 'g', 'Y') else v[:-1, :-1] if k == 'L0' else v for k, v in b.items()}
	ref(o, b, s); obj = seeded(lambda: o.make(clone(b)), s)
	seeded(lambda: o.fit(obj, clone(a)), s)
	agree(ctx, query(o, obj, clone(a), s), r, 'refit', o.same, o.floor)
	seeded(lambda: o.fit(obj, clone(a)), s)
	agree(ctx, query(o, obj, clone(a), s), r, 'refit-again', o.same, o.floor)


def s_copy(ctx):
	o, a, s = pick(ctx, lambda o: o.pick); r = ref(o, a, s)
	obj = seeded(lambda: o.make(clone(a)), s)
	kind = str(ctx.rng.choice(['deepcopy', 'pickle'])); ctx.info(kind = kind)
	d = copy.deepcopy(obj) if kind == 'deepcopy' else pickle.loads(pickle.dumps(obj))
	agree(ctx, query(o, d, clone(a), s), r, 'copy', o.same, o.floor)
	agree(ctx, query(o, obj, clone(a), s), r, 'original', o.same, o.floor)
	# a copy of a used object goes on like the object
	d = copy.deepcopy(obj) if kind == 'deepcopy' else pickle.loads(pickle.dumps(obj))
	if o.used: agree(ctx, query(o, d, clone(a), s), query(o, obj, clone(a), s), 'copy-used', o.same, o.floor)


# printing what is done does not change it
VERB = [
	('lipschitz', a_lip, lambda a, v: lip_fit(psdr.LipschitzMatrix(verbose = v), a).H),
	('diagonal', a_lip, lambda a, v: lip_fit(psdr.DiagonalLipschitzMatrix(verbose = v), a).H),
	('partial', a_lip, lambda a, v: lip_fit(psdr.PartialLipschitzMatrix(1, verbose = v, U0 = np.eye(a['X'].shape[1])[:, :1], maxiter = 3), a).H),
	('ridge', a_ridge, lambda a, v: pr_fit(psdr.PolynomialRidgeApproximation(2, a['U0'].shape[1], verbose = v), a)(a['Y'])),
	('ridge-inf', a_ridge, lambda a, v: pr_fit(psdr.PolynomialRidgeApproximation(2, a['U0'].shape[1], norm = np.inf, maxiter = 3, verbose = v), a)(a['Y'])),
	('ridge-bound', a_ridge, lambda a, v: pr_fit(psdr.PolynomialRidgeApproximation(2, a['U0'].shape[1], bound = 'upper', maxiter = 3, verbose = v), a)(a['Y'])),
	('gauss-newton', a_gn, lambda a, v: psdr.gauss_newton(lambda x: np.tanh(a['A'].dot(x)) - a['b'], lambda x: (1/np.cosh(a['A'].dot(x))**2)[:, None]*a['A'], a['x0'], verbose = v)[0]),
	('minimax', a_gn, lambda a, v: psdr.minimax(Aff(a['A'], a['b']), a['x0'], domain = psdr.BoxDomain(-2*np.ones(3), 2*np.ones(3)), verbose = v)),
	('sequential-lp', a_gn, lambda a, v: sequential_lp(lambda x: np.tanh(a['A'].dot(x)) - a['b'], a['x0'], lambda x: (1/np.cosh(a['A'].dot(x))**2)[:, None]*a['A'], norm = 2, maxiter = 5, domain = psdr.BoxDomain(-2*np.ones(3), 2*np.ones(3)), verbose = v)),
	('nonlinearity', a_data, lambda a, v: psdr.measure_nonlinearity(a['X'], a['fX'], verbose = v)[0]),
	('maximin-block', a_geo, lambda a, v: psdr.maximin_block(gdom(a), 4, L = a['L'], maxiter = 3, verbose = v)),
	('coffeehouse', a_geo, lambda a, v: psdr.maximin_coffeehouse(gdom(a), 4, L = a['L'], verbose = v)),
	('cluster', a_geo, lambda a, v: psdr.minimax_cluster(gdom(a), 3, L = a['L'], N0 = 50, maxiter = 3, verbose = v)),
	('cluster-pso', a_geo, lambda a, v: psdr.minimax_cluster_pso(gdom(a), 2, L = a['L'], N0 = 30, maxiter = 2, verbose = v)),
	('lloyd', a_geo, lambda a, v: psdr.minimax_lloyd(gdom(a), 3, L = a['L'], maxiter = 3, verbose = v)),
	('scale', a_geo, lambda a, v: psdr.minimax_scale(gdom(a), a['P'], L = a['L'], verbose = v)),
	('projection', a_geo, lambda a, v: psdr.projection_sample(gdom(a), 3, [a['L']], maxiter = 2, verbose = v)),
	('projection-design', a_geo, lambda a, v: psdr.projection_design(gdom(a), 3, [a['L'][:1], np.ones((1, len(a['lb'])))], maxiter = 2, verbose = v)),
	('stretch', a_geo, lambda a, v: psdr.stretch_sample(gdom(a), a['P'], [a['L']], verbose = v)),
	('uncertainty-domain', a_lapp, lambda a, v: list(psdr.LipschitzMatrix(L = a['L']).uncertainty_domain(a['X'], a['fX'], psdr.BoxDomain(a['lb'], a['ub']), Nsamp = 10, verbose = v))),
	('sampler', a_geo, lambda a, v: sampled(psdr.SequentialMaximinSampler(psdr.Function(func, gdom(a), vectorized = True), L = a['L']), v)),
]


def sampled(o, v):
	o.sample(3, verbose = v); return o.X


def s_verbose(ctx):
	name, args, f = VERB[ctx.idx % len(VERB)]; a = args(ctx.rng); s = int(ctx.rng.randint(2**31)); ctx.info(op = name); ctx.mix(*a.values())
	q = flat(seeded(lambda: f(clone(a), False), s)); buf = io.StringIO()
	with contextlib.redirect_stdout(buf): r = flat(seeded(lambda: f(clone(a), True), s))
	agree(ctx, r, q, 'verbose', 1e-10)
	ctx.count('printed', len(buf.getvalue()) > 0)


# the numbers are multiples of the number of operations, 62 and 21
SCENARIOS = [
	{'name': 'verbose', 'func': s_verbose, 'n': (63, 420), 'timeout': 90},
	{'name': 'repeat', 'func': s_repeat, 'n': (124, 744), 'timeout': 90},
	{'name': 'layout', 'func': s_layout, 'n': (186, 1240), 'timeout': 90},
	{'name': 'private', 'func': s_private, 'n': (124, 620), 'timeout': 90},
	{'name': 'refit', 'func': s_refit, 'n': (144, 800), 'timeout': 90},
	{'name': 'copy', 'func': s_copy, 'n': (110, 550), 'timeout': 90},
]
