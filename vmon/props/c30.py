"""Exported plot data: tables, contours, shadow plots"""
import os, shutil, tempfile, contextlib
import numpy as np, scipy.linalg, scipy.optimize
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
import psdr
from psdr.pgf import PGF, save_contour
from ..core import Skip

RULE = ('A case writes a random table, contour or shadow plot to a file in a scratch directory, reads the file with its own parser and compares it with the data it must show. Distinct: different names, columns, data, subspace, dimension, axis.')
ASSUME = ['contours are compared with the segments the plotting library reports for the same plot', 'envelopes are judged to the 1e-3 tolerance shadow_envelope asks of its solver, times 30; cases where that solver returns nothing are left out']


@contextlib.contextmanager
def scratch():
	d = tempfile.mkdtemp(prefix = 'vmon-c30-')
	try: yield d
	finally:
		plt.close('all'); shutil.rmtree(d)


def table(fname):
	"""independent parser: header of tab separated names, rows of numbers"""
	with open(fname) as f: lines = f.read().split('\n')
	assert lines[-1] == ''
	head = lines[0].split('\t')
	if head[-1] == '': head = head[:-1]
	rows = [[float(x) for x in l.split('\t') if x != ''] for l in lines[1:-1]]
	return head, rows


def same(a, b):
	a = np.asarray(a, dtype = float); b = np.asarray(b, dtype = float)
	return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def column(rng, n):
	k = int(rng.randint(9))
	x = rng.randn(n)*10.**rng.randint(-300, 300) if k == 0 else rng.randn(n)*10.**rng.randint(-5, 6, size = n)
	if k == 1: x = rng.randint(-2**31, 2**31, size = n)
	if k == 2: x = x.astype(np.float32)
	if k == 3 and n: x[rng.randint(n)] = rng.choice([np.nan, np.inf, -np.inf, -0., 5e-324])
	if k == 4: return list(x), x
	if k == 5: return tuple(int(v) for v in rng.randint(-100, 100, size = n)), None
	if k == 6: return [int(v) for v in rng.randint(-100, 100, size = n)], None
	if k == 7: x = np.repeat(x, 2)[::2]
	if k == 8: x = np.nextafter(np.ones(n), 2)*rng.rand(n)
	return x, None


def s_table(ctx):
	rng = ctx.rng; n = int(rng.choice([0, 1, 2, 3, 10, 50, 300])) if rng.rand() < .9 else 0; k = int(rng.randint(1, 7))
	pool = ['x', 'fX', 'a b', 'y_1', 'lb', '$x$', '1', 'nan', 'x.y', 'UPPER', 'upper', 'µ', '-1e5', 'f(x, y)', '#c', 'x ']
	names = [str(s) for s in rng.permutation(pool)[:k]]
	ctx.info(names = names, rows = n)
	p = PGF(); cols = []
	for nm in names:
		c, _ = column(rng, n); keep = np.array(c, dtype = float); ctx.mix(keep)
		p.add(nm, c); cols.append(keep)
		if rng.rand() < .4 and n and not isinstance(c, tuple):
			for i in range(n): c[i] = 0    # the caller goes on with his array
	ctx.ok(list(p.keys()) == names, 'keys', got = list(p.keys()), expected = names)
	for nm, c in zip(names, cols): ctx.ok(same(p[nm], c), 'getitem', name = nm, got = p[nm], expected = c)
	if rng.rand() < .5:
		bad = np.zeros(n + int(rng.choice([1, 2, 7]))) if n == 0 or rng.rand() < .5 else np.zeros(rng.randint(n))
		try:
			p.add('bad', bad); ctx.ok(False, 'length', 'columns of %d and %d values' % (n, len(bad)))
		except Exception: ctx.ok(True, 'length')
		ctx.ok(list(p.keys()) == names, 'length-kept', 'a rejected column remains', got = list(p.keys()))
	with scratch() as d:
		f = os.path.join(d, str(rng.choice(['t.dat', 't', 'a b.txt'])))
		if rng.rand() < .3:
			with open(f, 'w') as g: g.write('old\n'*2000)
		p.write(f); head, rows = table(f)
		ctx.ok(head == names, 'header', got = head, expected = names)
		if ctx.ok(len(rows) == n and all(len(r) == k for r in rows), 'rows', 'the file has %d rows of %s' % (len(rows), sorted({len(r) for r in rows}))):
			for j in range(k): ctx.ok(same([r[j] for r in rows], cols[j]), 'values', name = names[j], got = [r[j] for r in rows], expected = cols[j])
		for nm, c in zip(names, cols): ctx.ok(same(p[nm], c), 'write-keeps')
		q = PGF()
		if rng.rand() < .5: q.add('z', np.zeros(3))
		q.read(f)
		ctx.ok(list(q.keys()) == names, 'read-keys', got = list(q.keys()), expected = names)
		if list(q.keys()) == names:
			for nm, c in zip(names, cols): ctx.ok(same(q[nm], c), 'read-values', name = nm, got = q[nm], expected = c)
		# files of others: no trailing tab or newline
		with open(f, 'w') as g: g.write('\n'.join(['\t'.join(names)] + ['\t'.join(repr(float(c[i])) for c in cols) for i in range(n)]) + ('\n' if rng.rand() < .5 else ''))
		q.read(f)
		ctx.ok(list(q.keys()) == names and all(same(q[nm], c) for nm, c in zip(names, cols)), 'read-plain', got = [q[nm] for nm in q.keys()], expected = cols)
		q.write(f); head, rows = table(f)
		ctx.ok(head == names and len(rows) == n and all(same([r[j] for r in rows], cols[j]) for j in range(k)), 'write-again')


# ------------------------------------------------------------------------------------- contours
def parse_matlab(fname):
	out = []; rows = [l.split() for l in open(fname).read().split('\n') if l.strip()]; i = 0
	while i < len(rows):
		assert len(rows[i]) == 2; z, n = float(rows[i][0]), int(rows[i][1])
		out.append((z, np.array([[float(v) for v in r] for r in rows[i + 1:i + 1 + n]]).reshape(-1, 2), n)); i += 1 + n
	return out


def parse_prepared(fname):
	out = []; cur = []
	for l in open(fname).read().split('\n')[:-1]:
		if l.strip(): cur.append([float(v) for v in l.split()])
		else:
			if cur:
				c = np.array(cur); out.append((c[0, 2], c[:, :2], len(c)))
				assert np.all(c[:, 2] == c[0, 2])
			cur = []
	assert not cur
	return out


def dist_to_polyline(P, Q):
	"""distance of points P from the polyline Q"""
	if len(Q) == 1: return np.linalg.norm(P - Q, axis = 1)
	a, b = Q[:-1], Q[1:]; d = b - a; L = np.maximum(np.sum(d**2, axis = 1), 1e-300)
	t = np.clip(np.einsum('ijk,jk->ij', P[:, None] - a[None], d)/L, 0, 1)
	return np.min(np.linalg.norm(P[:, None] - a - t[:, :, None]*d, axis = 2), axis = 1)


def s_contour(ctx):
	rng = ctx.rng; nx, ny = rng.randint(5, 25, size = 2)
	sx, sy = 10.**rng.randint(-1, 4, size = 2); x = sx*np.sort(rng.rand(nx) + np.arange(nx)/nx*2) + rng.randn(); y = sy*(np.linspace(-1, 1, ny)) + rng.randn()
	k = int(rng.randint(4)); X, Y = np.meshgrid(x, y); u, v = (X - X.mean())/sx, (Y - Y.mean())/sy
	Z = [lambda: np.sin(3*u)*np.cos(4*v), lambda: u**2 + v**2, lambda: u*v + .1*rng.randn(*X.shape), lambda: np.maximum(np.abs(u), np.abs(v))][k]()
	zs = 10.**rng.randint(-3, 4); Z = zs*Z + (rng.randn()*zs if rng.rand() < .5 else 0)
	lo, hi = Z.min(), Z.max(); n = int(rng.randint(1, 7)); levels = np.sort(lo + (hi - lo)*rng.rand(n))
	if rng.rand() < .3: levels = np.unique(np.append(levels, [lo - (hi - lo), hi + (hi - lo)]))   # nothing there
	simplify = float(rng.choice([0., 1e-9, 1e-3])); fmt = str(rng.choice(['matlab', 'prepared']))
	ctx.info(shape = (int(nx), int(ny)), kind = k, levels = len(levels), simplify = simplify, fmt = fmt); ctx.mix(Z, levels)
	with scratch() as d:
		fig, ax = plt.subplots(); cs = ax.contour(x, y, Z, levels = levels); want = {}
		for z, segs in zip(cs.levels, cs.allsegs): want[float(z)] = [np.array(s) for s in segs if len(s)]
		f = os.path.join(d, 'c.dat'); kw = {} if simplify == 1e-3 and rng.rand() < .5 else {'simplify': simplify}
		if fmt == 'matlab' and rng.rand() < .5: save_contour(f, cs, **kw)
		else: save_contour(f, cs, fmt = fmt, **kw)
		try: got = (parse_matlab if fmt == 'matlab' else parse_prepared)(f)
		except Exception as e: ctx.ok(False, 'format', repr(e), file = open(f).read()[:300]); return
		ctx.ok(True, 'format')
		got = [(z, P, c) for z, P, c in got if c > 0]
		ctx.ok(all(len(P) == c for z, P, c in got), 'counts')
		zt = 1e-13*(np.max(np.abs(cs.levels)) + 1e-300)
		ctx.ok(all(np.min(np.abs(np.array(list(want)) - z)) <= zt for z, P, c in got), 'levels', got = [g[0] for g in got], expected = list(want))
		tol = 3*simplify + 1e-6*(np.ptp(x) + np.ptp(y))
		for z, segs in want.items():
			mine = [P for zz, P, c in got if abs(zz - z) <= zt]
			# several pieces of one level have the same order
			if not ctx.ok(len(mine) == len(segs), 'pieces', 'level %g has %d pieces, the plot %d' % (z, len(mine), len(segs))): continue
			for P, S in zip(mine, segs):
				ctx.ok(np.max(dist_to_polyline(P, S)) <= tol and np.max(dist_to_polyline(S, P)) <= tol, 'curve', 'exported curve is not the plotted one',
					got = [np.max(dist_to_polyline(P, S)), np.max(dist_to_polyline(S, P))], expected = tol)
				ctx.ok(np.linalg.norm(P[0] - S[0]) <= tol and np.linalg.norm(P[-1] - S[-1]) <= tol, 'ends', got = [P[0], P[-1]], expected = [S[0], S[-1]])
		ctx.count('segments', sum(len(s) for s in want.values()))
		if rng.rand() < .1: ctx.raises((NotImplementedError, ValueError), 'unknown-format', save_contour, f, cs, fmt = 'other')


# ------------------------------------------------------------------------------------- shadow plots
def reducer(rng, m):
	k = str(rng.choice(['active', 'lipschitz', 'diagonal', 'constant', 'opg'])) if m > 1 else 'active'
	M = 12; X = 2*rng.rand(M, m) - 1; g = rng.randn(M, m); f = X.dot(rng.randn(m)) + X[:, 0]**2
	if k == 'active':
		o = psdr.ActiveSubspace(); o.fit(g); return k, o, None
	if k == 'opg':
		M = 40; X = rng.randn(M, m); o = psdr.OuterProductGradient(perplexity = 12.); o.fit(X, np.sin(X[:, 0]) + X.sum(axis = 1)); return k, o, None
	o = {'lipschitz': psdr.LipschitzMatrix, 'diagonal': psdr.DiagonalLipschitzMatrix, 'constant': psdr.LipschitzConstant}[k]()
	o.fit(X, f); return k, o, X


def check_file(ctx, fname, names, cols, clause, tol = 1e-12):
	if not ctx.ok(os.path.exists(fname), clause + '-file', 'no file %s' % os.path.basename(fname)): return
	head, rows = table(fname)
	if not ctx.ok(head == names, clause + '-names', got = head, expected = names): return
	if not ctx.ok(len(rows) == len(cols[0]), clause + '-rows', got = len(rows), expected = len(cols[0])): return
	R = np.array(rows)
	for j, (nm, c) in enumerate(zip(names, cols)):
		c = np.asarray(c, dtype = float)
		ctx.ok(np.max(np.abs(R[:, j] - c), initial = 0) <= tol*(1 + np.max(np.abs(c), initial = 0)), clause + '-' + nm, got = R[:, j], expected = c)


def lay(rng, X):
	k = int(rng.randint(4)); return X.tolist() if k == 0 else np.asfortranarray(X) if k == 1 else X


def s_shadow(ctx):
	rng = ctx.rng; m = int(rng.choice([1, 2, 3, 5])); kind, o, X0 = reducer(rng, m)
	dim = 1 if m == 1 or rng.rand() < .5 else 2
	own = X0 is not None and rng.rand() < .3
	M = len(X0) if own else int(rng.choice([1, 2, 3, 20, 100])); X = np.array(X0) if own else 10.**rng.randint(-2, 3)*rng.randn(M, m); fX = rng.randn(M)*10.**rng.randint(-3, 4)
	uk = str(rng.choice(['own', 'own', 'vector', 'matrix', 'list'])); U = None
	if uk != 'own':
		W = rng.randn(m, max(dim, int(rng.randint(1, m + 1)))) if rng.rand() < .5 else np.linalg.qr(rng.randn(m, m))[0]
		if uk == 'vector' and dim == 1: W = W[:, :1]; U = W[:, 0]
		elif uk == 'list': U = W.tolist()
		else: U = W
	else: W = np.array(o.U)
	axk = str(rng.choice(['none', 'auto', 'given'])); ctx.info(kind = kind, m = m, dim = dim, M = M, U = uk, ax = axk, own = own); ctx.mix(X, fX)
	with scratch() as d:
		f = os.path.join(d, str(rng.choice(['s.dat', 's', 'a.b.dat']))); ax = None
		kw = {'fX': lay(rng, fX) if rng.rand() < .8 else fX.reshape(-1, 1), 'dim': dim, 'U': U, 'pgfname': f if rng.rand() < .9 else None}
		if axk == 'none': kw['ax'] = None
		elif axk == 'given': fig, kw['ax'] = plt.subplots()
		if not own: kw['X'] = lay(rng, X)
		before = plt.get_fignums()
		r = o.shadow_plot(**kw)
		if axk == 'none': ctx.ok(r is None and plt.get_fignums() == before, 'no-axis', 'a figure was opened')
		elif axk == 'given': ctx.ok(r is kw['ax'], 'axis')
		else: ctx.ok(r is not None and len(plt.get_fignums()) == len(before) + 1, 'auto-axis')
		Y = X.dot(W[:, :dim])
		if kw['pgfname']: check_file(ctx, f, ['y', 'fX'] if dim == 1 else ['y1', 'y2', 'fX'], list(Y.T) + [fX], 'shadow%d' % dim)
		else: ctx.ok(os.listdir(d) == [], 'no-file', got = os.listdir(d))
		if r is not None:
			drawn(ctx, r, Y, fX)


def drawn(ctx, ax, Y, fX):
	if Y.shape[1] == 1:
		if ctx.ok(len(ax.lines) >= 1, 'drawn'): ctx.ok(np.allclose(np.asarray(ax.lines[0].get_xdata(), dtype = float), Y[:, 0], rtol = 1e-10, atol = 1e-12) and np.allclose(np.asarray(ax.lines[0].get_ydata(), dtype = float), fX, rtol = 1e-12), 'drawn-points')
	else:
		sc = [c for c in ax.collections if hasattr(c, 'get_offsets') and len(c.get_offsets()) == len(Y) and c.get_array() is not None and np.size(c.get_array()) == len(Y)]
		if ctx.ok(len(sc) >= 1, 'drawn'): ctx.ok(any(np.allclose(c.get_offsets(), Y, rtol = 1e-10, atol = 1e-12) and np.allclose(c.get_array(), fX, rtol = 1e-12) for c in sc), 'drawn-points')


def contours(ax):
	"""the (level, paths) drawn"""
	for q in ax.get_children():
		if hasattr(q, 'levels') and hasattr(q, 'get_paths'):
			for z, p in zip(q.levels, q.get_paths()): yield z, [p]


def s_ridge(ctx):
	rng = ctx.rng; m = int(rng.choice([2, 3, 4])); n = 1 if rng.rand() < .7 else 2; M = int(rng.choice([40, 60])); deg = int(rng.choice([2, 3]))
	X = 2*rng.rand(M, m) - 1; U = scipy.linalg.orth(rng.randn(m, n)); Y = X.dot(U); c = rng.randn(3)
	fX = c[0] + c[1]*Y[:, 0] + c[2]*Y.sum(axis = 1)**2
	kind = str(rng.choice(['approximation', 'fixed', 'function'])); own = False
	axk = str(rng.choice(['none', 'auto', 'given'])); ctx.info(kind = kind, m = m, n = n, deg = deg, ax = axk, own = own); ctx.mix(X, U, c)
	if kind == 'function':
		# any matrix of full rank defines a ridge function
		if rng.rand() < .6: U = U.dot(rng.randn(n, n) + 2*np.eye(n)*rng.choice([-1, .5, 3.])); Y = X.dot(U)
		if np.linalg.cond(U) > 50: raise Skip('nearly singular')
		b = psdr.LegendreTensorBasis(deg, X = Y); r = psdr.PolynomialRidgeFunction(b, rng.randn(len(b)), U)
	else:
		r = psdr.PolynomialRidgeApproximation(deg, n, maxiter = 5)
		if kind == 'fixed': r.fit_fixed_subspace(X, fX, U)
		else: r.fit(X, fX, U0 = U)
	W = np.array(r.U); P = X if own else X[:int(rng.choice([2, 5, M]))]*float(rng.choice([1., .5, 3.])) + float(rng.choice([0, 0, 2.])); g = fX[:len(P)]
	if np.ptp(g) < 1e-8: raise Skip('constant')
	if n == 2 and np.min(np.ptp(P.dot(W), axis = 0)) < 1e-6: raise Skip('flat')
	with scratch() as d:
		name, resp = [('r.dat', 'r_response.dat'), ('r', 'r_response'), ('a.b.txt', 'a.b_response.txt')][rng.randint(3)]
		if rng.rand() < .3: os.mkdir(os.path.join(d, 'x.y')); d2 = os.path.join(d, 'x.y')
		else: d2 = d
		kw = {'fX': lay(rng, g), 'pgfname': os.path.join(d2, name)}
		if rng.rand() < .5: kw['dim'] = n
		if axk == 'none': kw['ax'] = None
		elif axk == 'given': fig, kw['ax'] = plt.subplots()
		if not own: kw['X'] = lay(rng, P)
		ax = r.shadow_plot(**kw); Z = P.dot(W)
		ctx.ok((ax is None) == (axk == 'none'), 'ridge-axis')
		check_file(ctx, os.path.join(d2, name), ['y', 'fX'] if n == 1 else ['y1', 'y2', 'fX'], list(Z.T) + [g], 'samples')
		if ax is not None: drawn(ctx, ax, Z, g)
		if n == 1:
			f = os.path.join(d2, resp)
			if ctx.ok(os.path.exists(f), 'response-file', got = sorted(os.listdir(d2)), expected = resp):
				head, rows = table(f); R = np.array(rows)
				if ctx.ok(head == ['x', 'fx'] and len(R) >= 2, 'response-names', got = head):
					x, y = R.T; sc = 1 + np.max(np.abs(Z))
					ctx.ok(abs(x.min() - Z.min()) <= 1e-10*sc and abs(x.max() - Z.max()) <= 1e-10*sc, 'response-range', got = [x.min(), x.max()], expected = [Z.min(), Z.max()])
					ctx.ok(np.all(np.diff(x) > 0) or np.ptp(Z) < 1e-9, 'response-order')
					ref = r.eval(x[:, None]*W[:, 0][None]/np.sum(W**2)); ctx.ok(np.max(np.abs(y - ref)) <= 1e-8*(1 + np.max(np.abs(ref))), 'response', got = y[:5], expected = ref[:5])
					if ax is not None:
						l = [q for q in ax.lines if len(q.get_xdata()) == len(x) and np.allclose(q.get_xdata(), x, rtol = 1e-9, atol = 1e-9)]
						ctx.ok(any(np.allclose(np.asarray(q.get_ydata()).ravel(), y, rtol = 1e-9, atol = 1e-9*np.max(np.abs(y))) for q in l), 'response-drawn')
		elif ax is not None:
			# the contours drawn are where the ridge function has their levels
			L = np.linspace(g.min(), g.max(), 20); G = np.meshgrid(*[np.linspace(Z[:, k].min(), Z[:, k].max(), 30) for k in range(2)])
			val = lambda y: np.asarray(r.eval(np.linalg.solve(W.T.dot(W), np.asarray(y).T).T.dot(W.T))).ravel()
			R = np.ptp(val(np.array([q.ravel() for q in G]).T)); cs = [(z, q) for z, q in contours(ax)]
			ctx.ok(len(cs) > 0 and np.allclose(sorted({z for z, _ in cs}), L, rtol = 1e-9, atol = 1e-9*np.max(np.abs(L))), 'contour-levels', got = sorted({z for z, _ in cs}), expected = L)
			for z, q in cs:
				for v in q.get_paths() if hasattr(q, 'get_paths') else q:
					v = v.vertices
					if len(v): err = np.max(np.abs(val(v) - z)); ctx.ok(err <= 2e-2*R, 'contour-drawn', got = err, expected = [z, R])
		files = sorted(f for _, _, fs in os.walk(d) for f in fs)
		ctx.ok(files == sorted([name, resp] if n == 1 else [name]), 'files', got = files)


def band(ctx, ax, y, lb, ub, clause):
	"""the area drawn between the two curves is the one of the table"""
	P = [q for q in ax.collections if len(q.get_paths()) == 1]
	if not ctx.ok(len(P) == 1, clause + '-once', got = len(ax.collections)): return
	v = P[0].get_paths()[0].vertices; s = 1e-9*(1 + np.max(np.abs(v)))
	has = lambda q: np.min(np.max(np.abs(v - q), axis = 1)) <= s
	ctx.ok(all(has([a, b]) for a, b in zip(y, lb)) and all(has([a, b]) for a, b in zip(y, ub)), clause + '-vertices')
	on = lambda q: any(np.max(np.abs([q[0] - a, q[1] - b])) <= s for c in (lb, ub) for a, b in zip(y, c))
	ctx.ok(all(on(q) for q in v), clause + '-nothing-else')


def s_bands(ctx):
	"""envelopes, uncertainty intervals, scores"""
	rng = ctx.rng; m = int(rng.choice([1, 2, 3, 5])); kind = str(rng.choice(['envelope', 'uncertainty', 'score'])) if m < 4 else str(rng.choice(['envelope', 'score']))
	if kind == 'uncertainty' and m == 1: m = 2
	axk = str(rng.choice(['none', 'given', 'given'])); ctx.info(kind = kind, m = m, ax = axk)
	ax = plt.subplots()[1] if axk == 'given' else None
	with scratch() as d:
		f = os.path.join(d, 'b.dat')
		if kind == 'envelope':
			N = int(rng.choice([30, 100])); X = rng.rand(N, m); a = rng.randn(m); fX = X.dot(a) + rng.rand(N); ctx.mix(X, fX)
			act = psdr.ActiveSubspace(); act.fit(rng.randn(m + 2, m)); kw = {'ngrid': int(rng.choice([3, 5, 10]))} if rng.rand() < .5 else {}
			y, lb, ub = act.shadow_envelope(X, fX, verbose = False, **kw)
			if lb is None or ub is None: raise Skip('no envelope')		# the external solver gave no bounds
			y, lb, ub = act.shadow_envelope(lay(rng, X), fX, ax = ax, pgfname = f, verbose = False, **kw)
			if kw: ctx.ok(len(lb) == kw['ngrid'], 'envelope-grid', got = len(lb))
			yy = np.linspace(y.min(), y.max(), len(lb)); t = 3e-2*(1 + np.max(np.abs(fX)))
			ctx.ok(np.allclose(y, X.dot(act.U[:, 0]), rtol = 1e-9, atol = 1e-12*np.max(np.abs(y))), 'envelope-coordinates')
			ctx.ok(np.all(np.interp(y, yy, ub) >= fX - t) and np.all(np.interp(y, yy, lb) <= fX + t), 'envelope-encloses', above = np.max(fX - np.interp(y, yy, ub)), below = np.max(np.interp(y, yy, lb) - fX))
			# no piecewise linear bound on this grid has a smaller sum
			W = np.array([np.interp(y, yy, e) for e in np.eye(len(yy))]).T
			for b, sg in ((ub, 1.), (lb, -1.)):
				lp = scipy.optimize.linprog(sg*np.ones(len(yy)), A_ub = -sg*W, b_ub = -sg*fX, bounds = [(None, None)]*len(yy), method = 'highs')
				if lp.status == 0: ctx.ok(sg*b.sum() <= lp.fun + t*len(yy), 'envelope-tight', got = sg*b.sum(), best = lp.fun)
			yy = np.linspace(y.min(), y.max(), len(lb)); check_file(ctx, f, ['y', 'lb', 'ub'], [yy, lb, ub], 'envelope')
			if ax is not None: band(ctx, ax, yy, lb, ub, 'envelope')
		elif kind == 'uncertainty':
			X = 2*rng.rand(6, m) - 1; L = np.diag(rng.uniform(.5, 2, m)); fX = np.sin(X.sum(axis = 1)); ctx.mix(X, L)
			lip = psdr.LipschitzConstant(); lip.fit(X, fX); g = int(rng.choice([3, 5]))
			u = np.eye(m)[:, 0] if rng.rand() < .5 else rng.randn(m)
			np.random.seed(int(rng.randint(2**31)))
			lip.shadow_uncertainty(psdr.BoxDomain(-np.ones(m), np.ones(m)), X, fX, ax = ax, ngrid = g, U = u, pgfname = f, Nsamp = 10, plot_kwargs = {'alpha': .5})
			head, rows = table(f)
			if ctx.ok(head == ['y', 'lb', 'ub'] and len(rows) == g, 'uncertainty-table', got = head) and ax is not None: band(ctx, ax, *np.array(rows).T, clause = 'uncertainty')
		else:
			G = rng.randn(4, m)*10.**rng.randint(-2, 3, size = m); ctx.mix(G); nm = ['p%d' % i for i in rng.permutation(m)]
			dia = psdr.DiagonalLipschitzMatrix(verbose = False); dia.fit(grads = G); kw = {'domain': psdr.BoxDomain(-np.ones(m), np.ones(m), names = nm)} if rng.rand() < .6 else {}
			if rng.rand() < .5: dia.fit(grads = 2*G[:, ::-1])
			if axk == 'given': kw['ax'] = ax
			elif rng.rand() < .5: kw['ax'] = None
			r = dia.plot_score(**kw)
			ctx.ok((r is None) == (kw.get('ax', 1) is None) and (axk != 'given' or r is ax), 'score-axis')
			if r is not None:
				B = sorted((b.get_x() + b.get_width()/2, b.get_y() + b.get_height()) for b in r.patches); S = np.asarray(dia.score)
				ctx.ok(len(B) == m and np.allclose(B, np.array([np.arange(m), S]).T, rtol = 1e-10, atol = 1e-12*np.max(S)), 'score-bars', got = B, expected = S)
				ctx.ok(np.allclose(S**2, np.diag(dia.H), rtol = 1e-9, atol = 1e-12*np.max(S)**2), 'score-values')
				if 'domain' in kw: ctx.ok([t.get_text() for t in r.get_xticklabels()] == nm and np.allclose(r.get_xticks(), np.arange(m)), 'score-labels', got = [t.get_text() for t in r.get_xticklabels()], expected = nm)


SCENARIOS = [
	{'name': 'bands', 'func': s_bands, 'n': (150, 1500), 'timeout': 90},
	{'name': 'table', 'func': s_table, 'n': (1500, 20000), 'timeout': 30},
	{'name': 'contour', 'func': s_contour, 'n': (400, 4000), 'timeout': 60},
	{'name': 'shadow', 'func': s_shadow, 'n': (400, 4000), 'timeout': 60},
	{'name': 'ridge', 'func': s_ridge, 'n': (250, 2500), 'timeout': 60},
]
