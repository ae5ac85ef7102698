"""Function: evaluating user functions and their gradients through the normalized domain"""
import numpy as np
import psdr
from .. import gen
from .c05 import affine_map

RULE = ('A case wraps 1-3 random user functions (scalar or vector valued, float / array / list returning, vectorized or not, with default and overriding keyword arguments) on a random domain with one of the four ways of providing '
	'gradients, and evaluates it at single points, batches, lists; the wrapped functions record every argument they receive. The monitor compares arguments, call counts, values, gradients and shapes with direct evaluation. '
	'Async cases run on a threaded dask scheduler with random delays. Distinct: different domain, functions and configuration.')
ASSUME = ['a vectorized function accepts both a single point and a batch', 'gradient functions of vectorized functions are single output']


class F:
	"""d outputs: a*(quadratic_k + shift)"""
	def __init__(self, rng, d, m, x, span, style, vec):
		self.B = rng.randn(d, m, m)/span**2; self.B = self.B + np.transpose(self.B, (0, 2, 1))
		self.g = rng.randn(d, m)/span; self.x = x; self.c = rng.randn(d)
		self.d, self.m, self.style, self.vec = d, m, style, vec
		self.seen = []; self.wrong = 0

	def val(self, x, a, shift):
		z = np.asarray(x, dtype = float) - self.x
		return a*(np.einsum('kij,i,j->k', self.B, z, z) + self.g.dot(z) + self.c + shift)

	def der(self, x, a, shift):
		z = np.asarray(x, dtype = float) - self.x
		return a*(2*self.B.dot(z) + self.g)

	def out(self, v):
		if self.style == 'float': return float(v[0])
		if self.style == 'list': return list(v)
		return v

	def __call__(self, x, a = 1., shift = 0., return_grad = False):
		self.seen.append(np.array(x, dtype = float))
		if np.ndim(x) == 1:
			v, g = self.out(self.val(x, a, shift)), self.der(x, a, shift)
			if self.style == 'list': g = list(g)
			if self.d == 1 and self.style == 'float': g = self.der(x, a, shift)[0]
			return (v, g) if return_grad else v
		if not self.vec: self.wrong += 1
		v = np.array([self.val(y, a, shift) for y in x]); g = np.array([self.der(y, a, shift) for y in x])
		if self.style == 'float': v, g = v[:, 0], g[:, 0]
		if self.style == 'list': v = v.tolist()
		return (v, g) if return_grad else v

	def plain(self):
		"""without the return_grad keyword"""
		return lambda x, a = 1., shift = 0.: self(x, a = a, shift = shift)

	def grad(self):
		def g(x, a = 1., shift = 0.):
			if np.ndim(x) == 1: return self.der(x, a, shift) if self.d > 1 or self.style != 'float' else self.der(x, a, shift)[0]
			return np.array([self.der(y, a, shift)[0] for y in x])
		return g


def s_eval(ctx):
	rng = ctx.rng
	d = gen.any_domain(rng, int(rng.choice([1, 2, 3, 4]))); m = d.m
	c, D = affine_map(d.dom, m); Dd = np.diag(D)
	vec = rng.rand() < .5; mode = str(rng.choice(['none', 'grads', 'return_grad', 'fd']))
	nf = int(rng.choice([1, 1, 2, 3]))
	dims = [int(rng.choice([1, 1, 2, 3])) for _ in range(nf)]
	if vec and mode == 'grads': dims = [1]*nf
	fs = [F(rng, k, m, d.x, d.span, str(rng.choice(['float', 'array', 'list'] if k == 1 else ['array', 'list'])), vec) for k in dims]
	tot = sum(dims)
	kw0 = {k: float(rng.randn()) for k in ('a', 'shift') if rng.rand() < .4}
	kw1 = {k: float(rng.randn()) for k in ('a', 'shift') if rng.rand() < .3}
	ctx.info(kind = d.kind, m = m, vectorized = vec, gradient = mode, outputs = dims, styles = [f.style for f in fs], init_kwargs = kw0, call_kwargs = kw1); ctx.mix(d.x)
	raw = [f if mode == 'return_grad' else f.plain() for f in fs]
	opts = {}
	if mode == 'grads': opts['grads'] = [f.grad() for f in fs]
	if mode == 'fd': opts['fd_grad'] = True
	if mode == 'return_grad': opts['return_grad'] = True
	if nf == 1 and rng.rand() < .5:
		raw = raw[0]
		if 'grads' in opts: opts['grads'] = opts['grads'][0]
	kw0c, kw1c = dict(kw0), dict(kw1)
	fun = psdr.Function(raw, d.dom, vectorized = vec, kwargs = kw0, **opts)
	kw = dict(kw0); kw.update(kw1)
	a, sh = kw.get('a', 1.), kw.get('shift', 0.)
	X = gen.feasible_points(rng, d, 5)
	Z = (X - c)/Dd
	s = 1 + np.max(np.abs(c)) + d.span
	V = np.array([np.hstack([f.val(x, a, sh) for f in fs]) for x in X])
	G = np.array([np.vstack([f.der(x, a, sh) for f in fs]) for x in X])*Dd
	tolV = 1e-8*(1 + np.max(np.abs(V)))
	ctx.ok(all(fun.domain.isinside(z) for z in Z), 'normalized-domain', 'normalized feasible points are not in the domain of the function')
	ctx.ok(fun.domain_app is d.dom, 'application-domain')
	def near(A, B, tol): A = np.asarray(A); return A.shape == B.shape and bool(np.all(np.abs(A - B) <= tol))
	def watch(call, pts, what):
		for f in fs: f.seen, f.wrong = [], 0
		r = call()
		for f in fs:
			seen = np.vstack([np.atleast_2d(x) for x in f.seen]) if f.seen else np.zeros((0, m))
			ctx.ok(f.wrong == 0, 'batch-only-if-vectorized')
			ctx.ok(seen.shape == pts.shape and np.all(np.abs(seen - pts) <= 1e-9*s), what, 'the function was called at other points than asked for', got = seen, expected = pts)
		return r
	i = rng.randint(5)
	ctx.ok(near(watch(lambda: fun(Z, **kw1), X, 'points-evaluated'), V, tolV), 'values', got = fun(Z, **kw1), expected = V)
	ctx.ok(near(watch(lambda: fun(Z[i], **kw1), X[i:i+1], 'points-evaluated'), V[i], tolV), 'values-single', got = fun(Z[i], **kw1), expected = V[i])
	ctx.ok(near(fun.eval(Z, **kw1), V, tolV) and near(fun.eval(Z[i], **kw1), V[i], tolV), 'values-eval')
	ctx.ok(near(fun(Z[i].tolist(), **kw1), V[i], tolV) and near(fun(Z.tolist(), **kw1), V, tolV), 'values-list')
	ctx.ok(near(fun(Z[i:i+1], **kw1), V[i:i+1], tolV), 'values-batch-of-one')
	k0 = dict(kw0); V0 = np.array([np.hstack([f.val(x, k0.get('a', 1.), k0.get('shift', 0.)) for f in fs]) for x in X])
	ctx.ok(near(fun(Z), V0, tolV + 1e-8*np.max(np.abs(V0))) and near(fun.predict(Z), V0, tolV + 1e-8*np.max(np.abs(V0))), 'kwargs-not-sticky', 'keyword arguments of one call affect another')
	ctx.ok(kw0 == kw0c and kw1 == kw1c, 'kwargs-kept')
	if mode == 'none':
		ctx.raises(NotImplementedError, 'no-gradient', fun.grad, Z[i])
		return
	tolG = (1e-8 if mode != 'fd' else 3e-6)*(1 + np.max(np.abs(G)) + np.max(np.abs(V)))
	squeeze = lambda A: A[..., 0, :] if tot == 1 else A
	gZ, gz = squeeze(G), squeeze(G[i])
	ctx.ok(near(fun.grad(Z, **kw1), gZ, tolG), 'gradient', got = fun.grad(Z, **kw1), expected = gZ)
	ctx.ok(near(fun.grad(Z[i], **kw1), gz, tolG), 'gradient-single', got = fun.grad(Z[i], **kw1), expected = gz)
	ctx.ok(near(fun.grad(Z[i:i+1], **kw1), gZ[i:i+1], tolG), 'gradient-batch-of-one')
	v, g = fun(Z, return_grad = True, **kw1)
	ctx.ok(near(v, V, tolV) and near(g, gZ, tolG), 'return-grad', got = [v, g], expected = [V, gZ])
	v, g = fun(Z[i], return_grad = True, **kw1)
	ctx.ok(near(v, V[i], tolV) and near(g, gz, tolG), 'return-grad-single', got = [v, g], expected = [V[i], gz])
	v, g = fun(Z[i].tolist(), return_grad = True, **kw1)
	ctx.ok(near(v, V[i], tolV) and near(g, gz, tolG), 'return-grad-list')


def remote_quad(x, a = 1., shift = 0., return_grad = False):
	import time, random
	time.sleep(random.random()*0.02)
	v = a*(float((x*x).sum()) + shift)
	return (v, 2*a*x) if return_grad else v

def remote_lin(x, a = 1., shift = 0., return_grad = False):
	import numpy as np
	v = a*(float(x.sum()) - shift)
	return (v, a*np.ones(len(x))) if return_grad else v


def s_async(ctx):
	rng = ctx.rng
	from dask.distributed import Client
	d = gen.box(rng, int(rng.choice([1, 2, 3]))); m = d.m
	c, D = affine_map(d.dom, m); Dd = np.diag(D)
	both = rng.rand() < .6
	fs = [remote_quad, remote_lin] if both else [remote_quad]
	kw0 = {'a': float(rng.randn())} if rng.rand() < .5 else {}
	kw1 = {'shift': float(rng.randn())} if rng.rand() < .5 else {}
	if rng.rand() < .3: kw1['a'] = float(rng.randn())
	ctx.info(m = m, both = both, kw0 = kw0, kw1 = kw1); ctx.mix(d.x)
	client = Client(processes = False, dashboard_address = None, n_workers = 1, threads_per_worker = 4)
	try:
		fun = psdr.Function(fs if both else remote_quad, d.dom, dask_client = client, kwargs = kw0, return_grad = True)
		Z = rng.uniform(-1, 1, size = (12, m)); X = Z*Dd + c
		kw = dict(kw0); kw.update(kw1)
		res = fun.eval_async(Z, **kw1)
		ctx.ok(len(res) == 12, 'one-result-per-point')
		order = rng.permutation(12)
		for i in order:
			r = res[i].result(timeout = 60)
			w = [f(X[i], **kw) for f in fs]
			ctx.ok(np.shape(np.hstack(r)) == (len(fs),) and np.allclose(np.hstack(r), w, rtol = 1e-9, atol = 1e-9*(1 + np.max(np.abs(w)))), 'async-value', 'result of point %d' % i, got = np.hstack(r), expected = np.array(w))
			ctx.ok(np.allclose(np.hstack(r), fun(Z[i], **kw1), rtol = 1e-9, atol = 1e-9*(1 + np.max(np.abs(w)))), 'async-agrees')
		r = fun.eval_async(Z[3], **kw1).result(timeout = 60)
		ctx.ok(np.allclose(np.hstack(r), [f(X[3], **kw) for f in fs], rtol = 1e-9, atol = 1e-9), 'async-single')
		r = fun.call_async(Z[4], return_grad = True, **kw1).result(timeout = 60)
		for q, f in zip(r, fs):
			v, g = f(X[4], return_grad = True, **kw)
			ctx.ok(np.allclose(q[0], v) and np.allclose(q[1], g), 'call-async-grad')
		ctx.raises(AssertionError, 'needs-client', psdr.Function(fs, d.dom).eval_async, Z[0])
	finally:
		client.close()


class Pair(psdr.function.BaseFunction):
	"""a minimal user-defined function: only __call__"""
	def __init__(self, w): self.w = w; self.n = 0
	def __call__(self, X, return_grad = False):
		self.n += 1
		X = np.asarray(X)
		v = (X**2).dot(self.w); g = 2*X*self.w
		return (v, g) if return_grad else v


class EvalGrad(psdr.function.BaseFunction):
	"""a minimal user-defined function: eval and grad"""
	def __init__(self, w): self.w = w
	def eval(self, X, power = 2): return (np.asarray(X)**power).dot(self.w)
	def grad(self, X): return 2*np.asarray(X)*self.w


def s_base(ctx):
	rng = ctx.rng
	m = rng.randint(1, 5); w = rng.randn(m); X = rng.randn(4, m)
	ctx.info(m = m, w = w); ctx.mix(X)
	for f in (Pair(w), EvalGrad(w)):
		for Y in (X, X[0]):
			v, g = (Y**2).dot(w), 2*Y*w
			ctx.close(f(Y), v, 'call'); ctx.close(f.eval(Y), v, 'eval'); ctx.close(f.predict(Y), v, 'predict'); ctx.close(f.grad(Y), g, 'grad')
			a, b = f(Y, return_grad = True)
			ctx.close(a, v, 'call-return-grad'); ctx.close(b, g, 'call-return-grad')
	ctx.close(EvalGrad(w)(X, power = 3), (X**3).dot(w), 'kwargs')
	ctx.raises(NotImplementedError, 'hessian', EvalGrad(w).hessian, X[0])


SCENARIOS = [
	{'name': 'eval', 'func': s_eval, 'n': (500, 6000), 'timeout': 60},
	{'name': 'async', 'func': s_async, 'n': (8, 40), 'timeout': 120},
	{'name': 'base', 'func': s_base, 'n': (40, 300), 'timeout': 30},
]
