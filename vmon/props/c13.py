"""analytic demo functions: published formulas, exact gradients, domains"""
import numpy as np
import psdr
import psdr.demos as dm

RULE = ('A case picks one of the analytic test problems (Borehole, OTL circuit, Piston, Robot arm, Wing weight, Golinski gearbox, Nowacki beam, Hartmann MHD, affine, quadratic) and evaluates it at random points, corners and faces of its domain; '
	'the monitor compares with a separate transcription of the documented formula, and gradients with complex-step derivatives of that transcription. Distinct: different problem and points.')
ASSUME = ['gradients of the robot arm are judged at points where the distance is at least 0.05 (it is not differentiable at zero)']
pi = np.pi


def borehole(x):
	rw, r, Tu, Hu, Tl, Hl, L, Kw = x
	lr = np.log(r/rw)
	return [2*pi*Tu*(Hu - Hl)/(lr*(1 + 2*L*Tu/(lr*rw**2*Kw) + Tu/Tl))]

def otl(x):
	b1, b2, f, c1, c2, be = x
	vb = 12*b2/(b1 + b2); den = be*(c2 + 9) + f
	return [(vb + .74)*be*(c2 + 9)/den + 11.35*f/den + .74*f*be*(c2 + 9)/(den*c1)]

def piston(x):
	M, S, V0, k, P0, Ta, T0 = x
	A = P0*S + 19.62*M - k*V0/S
	V = S/(2*k)*(np.sqrt(A*A + 4*k*P0*V0*Ta/T0) - A)
	return [2*pi*np.sqrt(M/(k + S*S*P0*V0*Ta/(T0*V*V)))]

def robot(x):
	th = np.cumsum(x[:4]); L = x[4:]
	return [np.sqrt(np.sum(L*np.cos(th))**2 + np.sum(L*np.sin(th))**2)]

def wing(x):
	Sw, Wfw, A, La, q, lam, tc, Nz, Wdg, Wp = x
	c = np.cos(La*pi/180)
	return [.036*Sw**.758*Wfw**.0035*(A/c**2)**.6*q**.006*lam**.04*(100*tc/c)**-.3*(Nz*Wdg)**.49 + Sw*Wp]

def golinski(x):
	x1, x2, x4, x5, x6, x7 = x; x3 = 17.
	return [.7854*x1*x2**2*(3.3333*x3**2 + 14.9334*x3 - 43.0934) - 1.5079*x1*(x6**2 + x7**2) + 7.477*(x6**3 + x7**3) + .7854*(x4*x6**2 + x5*x7**2),
		27/(x1*x2**2*x3) - 1, 397.5/(x1*x2**2*x3**2) - 1, 1.93*x4**3/(x2*x3*x6**4) - 1, 1.93*x5**3/(x2*x3*x7**4) - 1,
		np.sqrt((745*x4/(x2*x3))**2 + 16.9e6)/(110*x6**3) - 1, np.sqrt((745*x5/(x2*x3))**2 + 157.5e6)/(85*x7**3) - 1,
		x2*x3/40 - 1, 5*x2/x1 - 1, x1/(12*x2) - 1, (1.5*x6 + 1.9)/x4 - 1, (1.1*x7 + 1.9)/x5 - 1]

def beam(x, F = 5e3, L = 1.5, E = 216.62e9, nu = .27, G = 86.65e9):
	b, h = x
	return [b*h, 6*F*L/(b*h**2), F*L**3/(3*E*(b*h**3/12)), 6*F*L/(b*h**2), 3*F/(2*b*h), h/b, 4/L**2*np.sqrt(G*(b**3*h + b*h**3)/12*E*(b**3*h/12)/(1 - nu))]

def hartmann(x):
	mu, dp, eta, B = x
	H = B/np.sqrt(eta*mu)
	return [-dp*eta/B**2*(1 - H/np.tanh(H)), dp/(2*B)*(1 - 2/H*np.tanh(H/2))]

DEMOS = {
	'borehole': (lambda: dm.Borehole(), borehole, [.05, 100, 63070, 990, 63.1, 700, 1120, 9855], [.15, 50e3, 115600, 1110, 116, 820, 1680, 12045]),
	'otl': (lambda: dm.OTLCircuit(), otl, [50, 25, .5, 1.2, .25, 50], [150, 70, 3, 2.5, 1.2, 300]),
	'piston': (lambda: dm.Piston(), piston, [30, .005, .002, 1000, 90e3, 290, 340], [60, .020, .010, 5000, 110e3, 296, 360]),
	'robot': (lambda: dm.RobotArm(), robot, [0.]*8, [2*pi]*4 + [1.]*4),
	'wing': (lambda: dm.WingWeight(), wing, [150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025], [200, 300, 10, 10, 45, 1, .18, 6, 2500, .08]),
	'golinski': (lambda: dm.GolinskiGearbox(), golinski, [2.6, .7, 7.3, 7.3, 2.9, 5.], [3.6, .8, 8.3, 8.3, 3.9, 5.5]),
	'beam': (lambda: dm.NowackiBeam(), beam, [.005, .02], [.05, .25]),
	'hartmann': (lambda: dm.HartmannMHD(), hartmann, [.05, .5, .5, .1], [.2, 3, 3, 1]),
}
RAW = {'borehole': ['borehole'], 'otl': ['otl_circuit'], 'piston': ['piston'], 'robot': ['robot_arm'], 'wing': ['wing_weight'],
	'golinski': ['golinski_volume'] + ['golinski_constraint%d' % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 24, 25)]}
RAWG = {'borehole': 'borehole_grad', 'otl': 'otl_circuit_grad', 'wing': 'wing_weight_grad'}


def jac(f, x):
	h = 1e-30
	J = []
	for i in range(len(x)):
		z = x.astype(complex); z[i] += 1j*h*abs(x[i] if x[i] else 1.)
		J.append(np.imag(np.array(f(z)))/(h*abs(x[i] if x[i] else 1.)))
	return np.array(J).T


def points(rng, lb, ub, n):
	U = rng.uniform(size = (n, len(lb)))
	if rng.rand() < .4: U[0] = rng.randint(2, size = len(lb))
	if rng.rand() < .4: U[-1, rng.randint(len(lb))] = rng.randint(2)
	return lb + U*(ub - lb)


def s_formula(ctx):
	rng = ctx.rng
	name = sorted(DEMOS)[ctx.idx % len(DEMOS)]
	build, ref, lb, ub = DEMOS[name]
	lb, ub = np.array(lb, dtype = float), np.array(ub, dtype = float); m = len(lb)
	fun = build()
	X = points(rng, lb, ub, 4)
	if name == 'robot': X = X[[ref(x)[0] > .05 for x in X]]
	if len(X) == 0: ctx.trivial = True; return
	ctx.info(problem = name, x = X[0])
	d = fun.domain_app
	ctx.close(d.lb, lb, 'domain'); ctx.close(d.ub, ub, 'domain')
	ctx.ok(len(d.names) == m and len(set(d.names)) == m, 'names')
	Z = (X - lb)/(ub - lb)*2 - 1
	V = np.array([ref(x) for x in X]); n = V.shape[1]
	s = np.array([1e-9*(abs(v) + np.max(np.abs(V))*1e-3) for v in V])
	def near(A, B, tol): A = np.asarray(A); return A.shape == B.shape and bool(np.all(np.abs(A - B) <= tol))
	tol = 1e-9*np.abs(V) + 1e-10*np.max(np.abs(V), axis = 0) + 1e-13
	ctx.ok(near(fun(Z), V, tol), 'value', name, got = fun(Z), expected = V)
	i = rng.randint(len(X))
	ctx.ok(near(fun(Z[i]), V[i], tol[i]), 'value-single', name, got = fun(Z[i]), expected = V[i])
	J = np.array([jac(ref, x) for x in X])*(ub - lb)/2
	g = fun.grad(Z); want = J[:, 0] if n == 1 else J
	gt = 1e-6*np.abs(want) + 1e-8*np.max(np.abs(J), axis = (0, 2)).reshape(-1, 1) if n > 1 else 1e-6*np.abs(want) + 1e-8*np.max(np.abs(J))
	ctx.ok(near(g, want, gt), 'gradient', name, got = g, expected = want)
	g1 = fun.grad(Z[i])
	ctx.ok(near(g1, want[i], gt[i]), 'gradient-single', name, got = g1, expected = want[i])
	v, g2 = fun(Z, return_grad = True)
	ctx.ok(near(v, V, tol) and near(g2, want, gt), 'return-grad')
	# the bare functions in application units
	for k, nm in enumerate(RAW.get(name, [])):
		f = getattr(dm, nm)
		ctx.ok(np.all(np.abs(np.ravel(f(X)) - V[:, k]) <= tol[:, k]), 'bare-function', nm)
		ctx.ok(np.size(f(X[i])) == 1 and abs(float(np.ravel(f(X[i]))[0]) - V[i, k]) <= tol[i, k], 'bare-function', nm)
	if name in RAWG:
		gr = np.asarray(getattr(dm, RAWG[name])(X))
		ctx.ok(gr.shape == (len(X), m) and np.all(np.abs(gr*(ub - lb)/2 - J[:, 0]) <= 1e-6*np.abs(J[:, 0]) + 1e-8*np.max(np.abs(J))), 'bare-gradient')
	if name == 'beam':
		kw = {'F': 5e3*np.exp(rng.uniform(-1, 1)), 'L': 1.5*np.exp(rng.uniform(-1, 1)), 'E': 216.62e9*np.exp(rng.uniform(-1, 1)), 'nu': rng.uniform(0, .45), 'G': 86.65e9*np.exp(rng.uniform(-1, 1))}
		kw = {k: kw[k] for k in kw if rng.rand() < .6}
		W = np.array([ref(x, **kw) for x in X])
		ctx.ok(near(fun(Z, **kw), W, 1e-9*np.abs(W)), 'material-parameters', '%s' % kw)
		Jw = np.array([jac(lambda x: ref(x, **kw), x) for x in X])*(ub - lb)/2
		ctx.ok(near(fun.grad(Z, **kw), Jw, 1e-6*np.abs(Jw) + 1e-8*np.max(np.abs(Jw), axis = (0, 2)).reshape(-1, 1)), 'material-parameters-gradient', '%s' % kw)


def s_synthetic(ctx):
	rng = ctx.rng
	m = int(rng.randint(1, 6)); q = rng.rand() < .6
	c = float(rng.randn()); l = rng.randn(m)
	own = rng.rand() < .5
	lb = -np.ones(m); ub = np.ones(m); dom = None
	if own:
		lb = rng.randn(m); ub = lb + np.exp(rng.uniform(-1, 1, m)); dom = psdr.BoxDomain(lb, ub)
	X = lb + (ub - lb)*rng.uniform(size = (5, m)); Z = (X - lb)/(ub - lb)*2 - 1; s = (ub - lb)/2
	kw = {}
	if q:
		Q = rng.randn(m, m)
		if rng.rand() < .3: Q = Q + Q.T
		kw['quad'] = Q
		if rng.rand() < .2: kw.pop('quad'); Q = np.eye(m)
		if rng.rand() < .8 or not kw: kw['linear'] = l
		else: l = np.zeros(m)
		f = psdr.demos.QuadraticFunction(constant = c, domain = dom, **kw)
		V = np.einsum('ni,ij,nj->n', X, Q, X) + X.dot(l) + c; G = (X.dot(Q + Q.T) + l)*s
	else:
		if rng.rand() < .2: l = np.round(3*l).astype(int).tolist()
		f = psdr.demos.AffineFunction(linear = l, constant = c if rng.rand() < .8 else None, domain = dom)
		c = f.constant if f.constant == 0 else c
		l = np.array(l, dtype = float); V = X.dot(l) + c; G = np.tile(l, (5, 1))*s
	ctx.info(m = m, quadratic = q, own = own, kw = sorted(kw)); ctx.mix(X)
	ctx.ok(len(f.domain) == m, 'dimension')
	ctx.close(np.ravel(f(Z)), V, 'value', rtol = 1e-9, atol = 1e-10*(1 + np.max(np.abs(V))))
	ctx.ok(np.shape(f(Z)) == (5, 1) and np.shape(f(Z[0])) == (1,) and np.shape(f.grad(Z[0])) == (m,), 'shape')
	ctx.close(f(Z[2]), V[2:3], 'value', rtol = 1e-9, atol = 1e-10*(1 + np.max(np.abs(V))))
	ctx.close(f.grad(Z), G, 'gradient', rtol = 1e-9, atol = 1e-10*(1 + np.max(np.abs(G))))
	ctx.close(f.grad(Z[3]), G[3], 'gradient', rtol = 1e-9, atol = 1e-10*(1 + np.max(np.abs(G))))
	if rng.rand() < .2:
		k = rng.randint(1, 5)
		r = psdr.demos.AffineFunction(domain = psdr.BoxDomain(-np.ones(k), np.ones(k)))
		ctx.ok(len(r.domain) == k and np.shape(r.linear) == (k,) and abs(r(np.ones(k)) - np.sum(r.linear)) < 1e-9, 'default-dimension')


def s_domains(ctx):
	"""the random and composite domains of the demos"""
	rng = ctx.rng
	k = ctx.idx % 5
	ctx.info(which = k); ctx.mix(rng.rand(3))
	if k == 0:
		f = dm.Borehole('uncertain'); d = f.domain_app
		ctx.ok(len(d) == 8 and len(f.domain) == 8, 'dimension')
		X = d.sample(400)
		lb, ub = np.array(DEMOS['borehole'][2]), np.array(DEMOS['borehole'][3])
		ctx.ok(np.all(X[:, 2:] >= lb[2:]) and np.all(X[:, 2:] <= ub[2:]), 'uniform-part')
		ctx.ok(abs(X[:, 0].mean() - .1) < 6*.0161812/20 and abs(X[:, 0].std()/.0161812 - 1) < .25, 'normal-part', 'mean %g std %g' % (X[:, 0].mean(), X[:, 0].std()))
		lr = np.log(X[:, 1])
		ctx.ok(abs(lr.mean() - 7.71) < 6*1.0056/20 and abs(lr.std()/1.0056 - 1) < .25, 'lognormal-part', 'mean %g std %g' % (lr.mean(), lr.std()))
	elif k == 1:
		sd = np.array([21e-4, 1e-4, 30e-4, 30e-4, 21e-4, 30e-4])
		d = dm.build_golinski_random_domain()
		X = d.sample(400)
		ctx.ok(X.shape == (400, 6) and np.all(np.abs(X.mean(axis = 0)) < 6*sd/20) and np.all(np.abs(X.std(axis = 0)/sd - 1) < .25), 'normal', 'std %s' % X.std(axis = 0))
		al = rng.choice([.05, .2, .5])
		d = dm.build_golinski_random_domain(clip = al)
		from scipy.stats import norm
		r = norm.isf(al/2)*sd
		X = d.sample(200)
		ctx.ok(np.all(np.abs(X) <= r*(1 + 1e-6)), 'clipped')
		ctx.ok(not d.isinside(1.1*r*np.eye(6)[rng.randint(6)]) and d.isinside(.9*r), 'clipped')
	elif k == 2:
		d = dm.build_oas_design_domain() * dm.build_oas_robust_domain() * dm.build_oas_random_domain()
		lb = np.r_[-np.ones(3), .005*np.ones(3), .7, .75, 2., .8*70e9, .8*30e9, .8*3e3]; ub = np.r_[np.ones(3), .05*np.ones(3), 1.3, 1.25, 5., 1.2*70e9, 1.2*30e9, 1.2*3e3]
		ctx.close(d.lb, lb, 'domain'); ctx.close(d.ub, ub, 'domain')
		X = d.sample(20)
		ctx.ok(X.shape == (20, 12) and np.all(X >= lb) and np.all(X <= ub), 'samples')
		ctx.ok(len(dm.OpenAeroStruct().domain) == 12, 'dimension')
	elif k == 3:
		a, b = rng.randint(1, 8, size = 2); fr = rng.uniform(.001, .1)
		f = dm.NACA0012(n_lower = a, n_upper = b, fraction = fr); d = f.domain_app
		ctx.ok(len(d) == a + b, 'dimension')
		ctx.close(d.lb, -fr*np.ones(a + b), 'domain'); ctx.close(d.ub, fr*np.ones(a + b), 'domain')
	else:
		X = dm.build_multif_random_domain().sample(5)
		d = dm.build_multif_random_domain(); n = d.normalized_domain()
		ctx.ok(X.shape == (5, 40) and np.all(d.isinside(X)) and np.all(n.isinside(d.normalize(X))), 'multif-random')
		q = dm.build_multif_design_domain(solver = 'CVXOPT').normalized_domain()
		ctx.ok(len(q) == 96, 'dimension')
		p = rng.randn(96); x = q.corner(p); Y = q.sample(3)
		ctx.ok(np.all(q.isinside(Y)) and np.all(Y.dot(p) <= x.dot(p) + 1e-6*np.linalg.norm(p)), 'multif-design')
		ctx.ok(np.all(np.abs(Y) <= 1 + 1e-5), 'multif-design')


SCENARIOS = [
	{'name': 'formula', 'func': s_formula, 'n': (480, 6000), 'timeout': 60},
	{'name': 'synthetic', 'func': s_synthetic, 'n': (200, 2000), 'timeout': 30},
	{'name': 'domains', 'func': s_domains, 'n': (30, 100), 'timeout': 120},
]
