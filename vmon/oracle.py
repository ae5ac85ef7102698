"""Independent reference model of psdr's domains and of the optimisation
problems posed on them.  Nothing here calls psdr."""
import numpy as np
from scipy.optimize import linprog, minimize, nnls
import cvxpy as cp


class RefSet:
	"""{x : lb<=x<=ub, A x<=b, Aeq x=beq, |L(x-y)|<=rho, P_i x in conv(hull_i)}"""
	def __init__(self, m, lb = None, ub = None, A = None, b = None, Aeq = None, beq = None, quads = (), hulls = ()):
		self.m = m
		self.lb = -np.inf*np.ones(m) if lb is None else np.array(lb, dtype = float)
		self.ub = np.inf*np.ones(m) if ub is None else np.array(ub, dtype = float)
		self.A = np.zeros((0, m)) if A is None else np.array(A, dtype = float).reshape(-1, m)
		self.b = np.zeros(0) if b is None else np.array(b, dtype = float).reshape(-1)
		self.Aeq = np.zeros((0, m)) if Aeq is None else np.array(Aeq, dtype = float).reshape(-1, m)
		self.beq = np.zeros(0) if beq is None else np.array(beq, dtype = float).reshape(-1)
		self.quads = [(np.array(L, dtype = float).reshape(-1, m), np.array(y, dtype = float).reshape(m), float(r)) for L, y, r in quads]
		# hulls: (cols, V) -- x[cols] lies in the convex hull of the rows of V
		self.hulls = [(np.array(c, dtype = int), np.array(V, dtype = float)) for c, V in hulls]

	def __and__(self, o):
		return RefSet(self.m, np.maximum(self.lb, o.lb), np.minimum(self.ub, o.ub), np.vstack([self.A, o.A]), np.hstack([self.b, o.b]),
			np.vstack([self.Aeq, o.Aeq]), np.hstack([self.beq, o.beq]), self.quads + o.quads, self.hulls + o.hulls)

	def prod(self, o):
		m = self.m + o.m
		def pad(A, left):
			Z = np.zeros((A.shape[0], m))
			if left: Z[:, :self.m] = A
			else: Z[:, self.m:] = A
			return Z
		q = [(pad(L, True), np.hstack([y, np.zeros(o.m)]), r) for L, y, r in self.quads]
		q += [(pad(L, False), np.hstack([np.zeros(self.m), y]), r) for L, y, r in o.quads]
		h = list(self.hulls) + [(c + self.m, V) for c, V in o.hulls]
		return RefSet(m, np.hstack([self.lb, o.lb]), np.hstack([self.ub, o.ub]), np.vstack([pad(self.A, True), pad(o.A, False)]), np.hstack([self.b, o.b]),
			np.vstack([pad(self.Aeq, True), pad(o.Aeq, False)]), np.hstack([self.beq, o.beq]), q, h)

	# ---- membership: how far outside (<=0: inside), as a list of per-constraint violations in the constraint's own units
	def parts(self, x, with_hull = True):
		x = np.asarray(x, dtype = float)
		v = []
		with np.errstate(all = 'ignore'):
			d = self.lb - x; v += list(d[np.isfinite(self.lb)])
			d = x - self.ub; v += list(d[np.isfinite(self.ub)])
			v += list(self.A.dot(x) - self.b)
			v += list(np.abs(self.Aeq.dot(x) - self.beq))
			for L, y, r in self.quads:
				v.append(np.linalg.norm(L.dot(x - y)) - r)
			if with_hull:
				for c, V in self.hulls:
					v.append(hull_dist(x[c], V))
		return np.array(v)

	def viol(self, x):
		p = self.parts(x)
		return float(np.max(p)) if len(p) else -np.inf

	def contains(self, x, tol = 0.):
		return self.viol(x) <= tol

	@property
	def linear(self): return len(self.quads) == 0

	# ---- max p.x  (returns a point, or None: no answer)
	def support(self, p):
		p = np.asarray(p, dtype = float)
		if self.linear:
			return self._lp(-p)
		return self._cvx(lambda x: cp.Minimize(-(p/max(np.linalg.norm(p), 1e-300)) @ x))

	def _lift(self):
		k = sum(len(V) for _, V in self.hulls)
		m = self.m
		A = np.hstack([self.A, np.zeros((len(self.b), k))])
		Aeq = [np.hstack([self.Aeq, np.zeros((len(self.beq), k))])]
		beq = [self.beq]
		off = m
		for c, V in self.hulls:
			E = np.zeros((len(c) + 1, m + k))
			for r, ci in enumerate(c):
				E[r, ci] = -1.
				E[r, off:off + len(V)] = V[:, r]
			E[len(c), off:off + len(V)] = 1.
			Aeq.append(E); beq.append(np.hstack([np.zeros(len(c)), 1.]))
			off += len(V)
		bounds = [(None if not np.isfinite(l) else l, None if not np.isfinite(u) else u) for l, u in zip(self.lb, self.ub)] + [(0, None)]*k
		return k, A, self.b, np.vstack(Aeq), np.hstack(beq), bounds

	def _lp(self, c):
		k, A, b, Aeq, beq, bounds = self._lift()
		res = linprog(np.hstack([c/max(np.linalg.norm(c), 1e-300), np.zeros(k)]), A_ub = A if len(A) else None, b_ub = b if len(A) else None,
			A_eq = Aeq if len(Aeq) else None, b_eq = beq if len(Aeq) else None, bounds = bounds, method = 'highs')
		self.lp_status = res.status
		if res.status == 0:
			return res.x[:self.m]
		return None

	def empty_status(self):
		"""'empty' / 'nonempty' / None (cannot tell)"""
		if self.linear:
			self._lp(np.zeros(self.m))
			return {0: 'nonempty', 2: 'empty'}.get(self.lp_status)
		return None

	def scale(self):
		"""affine rescaling to roughly unit size, for the conic solver"""
		c = np.where(np.isfinite(self.lb) & np.isfinite(self.ub), 0.5*(np.where(np.isfinite(self.lb), self.lb, 0) + np.where(np.isfinite(self.ub), self.ub, 0)), 0.)
		d = np.where(np.isfinite(self.lb) & np.isfinite(self.ub) & (self.ub > self.lb), 0.5*np.where(np.isfinite(self.ub), self.ub, 0) - 0.5*np.where(np.isfinite(self.lb), self.lb, 0), 1.)
		d = np.where(d > 0, d, 1.)
		return c, d

	def _cvx(self, objective, solvers = ('ECOS', 'SCS')):
		c, d = self.scale()
		z = cp.Variable(self.m)
		x = cp.multiply(d, z) + c if self.m > 1 else float(d[0])*z + c
		cons = []
		for i in range(self.m):
			if np.isfinite(self.lb[i]): cons.append(z[i] >= (self.lb[i] - c[i])/d[i])
			if np.isfinite(self.ub[i]): cons.append(z[i] <= (self.ub[i] - c[i])/d[i])
		for a, b in zip(self.A, self.b):
			s = max(np.linalg.norm(a*d), 1e-300)
			cons.append((a*d/s) @ z <= (b - a.dot(c))/s)
		for a, b in zip(self.Aeq, self.beq):
			s = max(np.linalg.norm(a*d), 1e-300)
			cons.append((a*d/s) @ z == (b - a.dot(c))/s)
		for L, y, r in self.quads:
			cons.append(cp.norm(((L*d)/r) @ z - L.dot(y - c)/r) <= 1)
		for cols, V in self.hulls:
			al = cp.Variable(len(V), nonneg = True)
			cons.append(cp.sum(al) == 1)
			for r, ci in enumerate(cols):
				cons.append(((V[:, r] - c[ci])/d[ci]) @ al == z[ci])
		prob = cp.Problem(objective(x), cons)
		kw = {'ECOS': dict(abstol = 1e-10, reltol = 1e-10, feastol = 1e-10, max_iters = 200)}
		for s in solvers[:1]:
			try:
				prob.solve(solver = s, **kw.get(s, {}))
			except Exception:
				continue
			if prob.status in ('optimal', 'optimal_inaccurate') and z.value is not None:
				return d*np.array(z.value).reshape(self.m) + c
		return None

	def closest(self, x0, L = None):
		x0 = np.asarray(x0, dtype = float)
		L = np.eye(self.m) if L is None else np.asarray(L, dtype = float)
		s = max(np.linalg.norm(L), 1e-300)
		return self._cvx(lambda x: cp.Minimize(cp.norm((L/s) @ x - L.dot(x0)/s)))

	def lstsq(self, A, b):
		s = max(np.linalg.norm(A), 1e-300)
		return self._cvx(lambda x: cp.Minimize(cp.norm((A/s) @ x - b/s)))

	# ---- exact extent of the ray x + alpha p, alpha>=0, x taken as inside
	def extent(self, x, p):
		alpha = np.inf
		x = np.asarray(x, dtype = float); p = np.asarray(p, dtype = float)
		G = []
		for i in range(self.m):
			e = np.zeros(self.m); e[i] = 1
			if np.isfinite(self.ub[i]): G.append((e, self.ub[i]))
			if np.isfinite(self.lb[i]): G.append((-e, -self.lb[i]))
		G += list(zip(self.A, self.b))
		for a, b in G:
			ap = a.dot(p)
			if ap > 0:
				alpha = min(alpha, max((b - a.dot(x))/ap, 0.))
		for L, y, r in self.quads:
			Lp = L.dot(p); u = L.dot(x - y)
			a = Lp.dot(Lp)
			if a > 0:
				bb = Lp.dot(u); cc = u.dot(u) - r*r
				disc = bb*bb - a*cc
				if disc <= 0:
					alpha = min(alpha, max(-bb/a, 0.)) if disc > -1e-300 else min(alpha, 0.)
				else:
					alpha = min(alpha, max((-bb + np.sqrt(disc))/a, 0.))
		for c, V in self.hulls:
			k = len(V)
			if np.linalg.norm(p[c]) == 0: continue
			Aeq = np.zeros((len(c) + 1, k + 1))
			Aeq[:len(c), :k] = V.T; Aeq[:len(c), k] = -p[c]/np.linalg.norm(p[c]); Aeq[len(c), :k] = 1
			beq = np.hstack([x[c], 1.])
			co = np.zeros(k + 1); co[k] = -1
			res = linprog(co, A_eq = Aeq, b_eq = beq, bounds = [(0, None)]*(k + 1), method = 'highs')
			if res.status == 0:
				alpha = min(alpha, res.x[-1]/np.linalg.norm(p[c]))
			else:
				return None
		return alpha


def hull_dist(x, V):
	"""distance of x to the convex hull of the rows of V"""
	if len(V) == 1:
		return float(np.linalg.norm(x - V[0]))
	s = max(np.max(np.abs(V - V.mean(axis = 0))), 1e-12)
	c = V.mean(axis = 0)
	W = (V - c)/s; y = (x - c)/s
	big = 1e3
	A = np.vstack([W.T, big*np.ones((1, len(V)))])
	al, _ = nnls(A, np.hstack([y, big]), maxiter = 50*len(V) + 200)
	sm = al.sum()
	if sm <= 0: return np.inf
	al = al/sm
	return float(s*np.linalg.norm(W.T.dot(al) - y))
