"""random domains: density, samples, truncation and support agree with the stated distribution"""
import numpy as np
import psdr
from scipy.stats import kstest, norm, chi2, multivariate_normal
from scipy.integrate import quad
from .. import gen

RULE = ('A case builds a normal, log-normal or uniform domain with random parameters (mean, covariance, offset, scaling, truncation, dimension 1-5) or the normalized version of one; '
	'the monitor compares the density with the closed form and its integral with one, and the samples with the stated distribution (KS tests at level 1e-8 and moments at 7 sigma). '
	'Distinct: different generated distribution.')
ASSUME = ['statistical verdicts use thresholds which a correct sampler fails with probability below 1e-7 per case']


def cov(rng, m):
	B = rng.randn(m, m) + np.eye(m)
	s = np.exp(rng.uniform(-1.5, 1.5, m))
	C = (B.dot(B.T) + 0.2*np.eye(m))*s[:, None]*s[None]
	return 0.5*(C + C.T)


def check_normal(ctx, dom, mu, C, tr, n = 1500):
	rng = ctx.rng
	m = len(mu)
	Li = np.linalg.inv(np.linalg.cholesky(C))
	r2 = np.inf if tr is None else chi2.isf(tr, m)
	X = np.asarray(dom.sample(n)).reshape(n, m)
	Y = (X - mu).dot(Li.T)
	d2 = np.sum(Y**2, axis = 1)
	ctx.ok(np.all(d2 <= r2*(1 + 1e-9)), 'normal-truncation', 'a sample lies beyond the truncation radius: %g > %g' % (d2.max(), r2))
	tot = 1. if tr is None else 1 - tr
	ctx.ok(kstest(d2, lambda t: np.minimum(chi2.cdf(t, m)/tot, 1.)).pvalue > 1e-8, 'normal-radius', 'Mahalanobis distances of the samples do not follow the (truncated) chi distribution')
	# directions are uniform on the sphere: every projection has the same law
	s2 = np.mean(d2)/m
	for j in range(m):
		ctx.ok(abs(np.mean(Y[:, j])) < 7*np.sqrt(s2/n), 'normal-mean', 'mean of the standardized samples is %g' % np.mean(Y[:, j]))
		ctx.ok(abs(np.mean(Y[:, j]**2)/s2 - 1) < 7*np.sqrt(3./n) + .02, 'normal-cov', 'variance of a standardized coordinate, relative: %g' % (np.mean(Y[:, j]**2)/s2))
		for k in range(j):
			ctx.ok(abs(np.mean(Y[:, j]*Y[:, k]))/s2 < 7/np.sqrt(n), 'normal-cov', 'correlation %g' % (np.mean(Y[:, j]*Y[:, k])/s2))
	# density
	Z = mu + (rng.randn(30, m)*rng.choice([.5, 1, 3])).dot(np.linalg.cholesky(C).T)
	p = np.asarray(dom.pdf(Z))
	q = multivariate_normal(mu, C).pdf(Z).reshape(-1)/tot
	dz = np.sqrt(np.sum((Z - mu).dot(Li.T)**2, axis = 1))
	ctx.ok(p.shape == (30,), 'pdf-shape', '%s' % (p.shape,))
	for i in range(30):
		if abs(dz[i] - np.sqrt(r2)) < 1e-3: continue
		e = q[i] if dz[i]**2 <= r2 else 0.
		ctx.ok(abs(p[i] - e) <= 1e-6*e + 1e-300, 'normal-pdf', 'density %.12g, closed form %.12g' % (p[i], e), x = Z[i])
	one = np.asarray(dom.pdf(Z[0]))
	ctx.ok(one.size == 1 and abs(float(one.reshape(-1)[0]) - p[0]) <= 1e-12*p[0], 'pdf-single')


def s_normal(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3, 5]))
	mu = rng.choice([1., 10.])*rng.randn(m)
	C = cov(rng, m)
	tr = [None, 1e-1, 1e-2, 1e-4, .5, .95, 1e-8][rng.randint(7)]
	ctx.info(m = m, mean = mu, cov = C, truncate = tr)
	if rng.rand() < .2:
		C = np.eye(m)
		dom = psdr.NormalDomain(mu, truncate = tr)
	else:
		dom = psdr.NormalDomain(list(mu), C.tolist() if rng.rand() < .3 else C, truncate = tr)
	check_normal(ctx, dom, mu, C, tr)
	if tr is not None:
		nd = dom.normalized_domain()
		c = np.asarray(dom.unnormalize(np.zeros(m))); D = np.array([dom.unnormalize(e) - c for e in np.eye(m)]).T
		Di = np.linalg.inv(D)
		ctx.info(normalized = True)
		check_normal(ctx, nd, Di.dot(mu - c), Di.dot(C).dot(Di.T), tr, 1000)
		# the extent of the truncated domain
		r = np.sqrt(chi2.isf(tr, m))
		for k in range(m):
			e = np.zeros(m); e[k] = 1
			ctx.close(dom.corner(e)[k], mu[k] + r*np.sqrt(C[k, k]), 'truncation-extent', rtol = 1e-5, atol = 1e-5*r*np.sqrt(C[k, k]))
	ctx.raises(Exception, 'bad-covariance', psdr.NormalDomain, mu, np.ones((m, m)) - 2*np.eye(m) if m > 1 else [[-1.]])


def s_lognormal(ctx):
	rng = ctx.rng
	mu, v = rng.uniform(-1, 1), rng.uniform(.05, 1.)
	off = float(rng.choice([0., rng.randn()*3])); sc = float(rng.choice([1., rng.uniform(.3, 4)]))
	tr = [None, 1e-1, 1e-2, .6, .95, 1e-7][rng.randint(6)]
	ctx.info(mean = mu, cov = v, offset = off, scaling = sc, truncate = tr)
	dom = psdr.LogNormalDomain(mu, v, offset = off, scaling = sc, truncate = tr)
	def judge(dom, off, sc, n, tag):
		s = np.sqrt(v)
		q = np.inf if tr is None else norm.isf(tr/2)
		tot = 1. if tr is None else 1. - tr
		X = np.asarray(dom.sample(n))
		ctx.ok(X.shape == (n, 1), 'shape', '%s' % (X.shape,))
		t = (X.reshape(-1) - off)/sc
		ctx.ok(np.all(t > 0), tag + 'support')
		y = (np.log(np.maximum(t, 1e-300)) - mu)/s
		ctx.ok(np.all(np.abs(y) <= q + 1e-6), tag + 'truncation', 'largest standardized logarithm %g, truncated at %g' % (np.abs(y).max(), q))
		ctx.ok(kstest(y, lambda u: np.clip((norm.cdf(u) - (0 if tr is None else tr/2))/tot, 0, 1)).pvalue > 1e-8, tag + 'samples', 'logarithms of the samples are not (truncated) normal')
		ctx.ok(np.all(dom.isinside(X)), tag + 'samples-inside')
		x1 = np.asarray(dom.sample())
		ctx.ok(x1.shape == (1,) and bool(np.all(dom.isinside(x1))), tag + 'sample-single')
		lo, hi = (off, np.inf) if tr is None else (off + sc*np.exp(mu - q*s), off + sc*np.exp(mu + q*s))
		ctx.close(dom.lb, [lo], tag + 'lower-bound', rtol = 1e-6, atol = 1e-6*sc)
		ctx.ok(np.isinf(hi) and np.isinf(dom.ub[0]) or abs(dom.ub[0] - hi) < 1e-5*(abs(hi) + sc), tag + 'upper-bound', '%s %g' % (dom.ub, hi))
		Z = off + sc*np.exp(mu + s*rng.uniform(-4, 4, size = 24))
		Z = np.hstack([Z, off - sc*rng.rand(3)]).reshape(-1, 1)
		p = np.asarray(dom.pdf(Z))
		ctx.ok(p.shape == (len(Z),), 'pdf-shape', '%s' % (p.shape,))
		for z, pz in zip(Z[:, 0], p):
			u = (z - off)/sc
			e = 0.
			if u > 0:
				w = (np.log(u) - mu)/s
				if abs(abs(w) - q) < 1e-3 or min(abs(z - lo), abs(z - hi)) < 1e-4: continue
				if abs(w) < q: e = np.exp(-.5*w*w)/(u*s*np.sqrt(2*np.pi))/tot
			ctx.ok(abs(pz - e) <= 1e-6*e + 1e-12, tag + 'pdf-shape-in-standard-units', 'density %.10g, closed form (before scaling) %.10g at %g' % (pz, e, z))
		a = off if tr is None else lo
		b = off + sc*np.exp(mu + 9*s) if tr is None else hi
		mid = off + sc*np.exp(mu)
		I = sum(quad(lambda x: float(np.asarray(dom.pdf(np.array([[x]]))).reshape(-1)[0]), l, u, limit = 200)[0] for l, u in ((a, mid), (mid, b)))
		ctx.ok(abs(I - 1) < 1e-3, ('' if abs(sc - 1) < 1e-12 else 'scaled-') + 'pdf-integral', 'the density integrates to %g (scaling %g)' % (I, sc))
	judge(dom, off, sc, 1500, '')
	if tr is not None:
		nd = dom.normalized_domain()
		c = float(dom.unnormalize(np.zeros(1))[0]); D = float(dom.unnormalize(np.ones(1))[0]) - c
		judge(nd, (off - c)/D, sc/D, 800, 'normalized-')


def s_uniform(ctx):
	rng = ctx.rng
	m = int(rng.choice([1, 2, 3]))
	c, d = gen.affine(rng, m)
	lb, ub = c - d, c + d*rng.uniform(.3, 2, m)
	ctx.info(m = m, lb = lb, ub = ub)
	dom = psdr.UniformDomain(lb, ub)
	X = c + 2.5*d*rng.uniform(-1, 1, size = (60, m))
	p = np.asarray(dom.pdf(X))
	vol = np.prod(ub - lb)
	for x, px in zip(X, p):
		s = np.max(np.maximum(lb - x, x - ub))
		if abs(s) < 1e-3: continue
		ctx.ok(abs(px - (1/vol if s < 0 else 0)) <= 1e-9/vol, 'uniform-pdf', 'density %g, 1/volume %g, outside by %g' % (px, 1/vol, s), x = x)
	X = np.asarray(dom.sample(800))
	for j in range(m):
		ctx.ok(kstest((X[:, j] - lb[j])/(ub[j] - lb[j]), 'uniform').pvalue > 1e-8, 'uniform-samples')
	q = np.asarray(dom.pdf(X))
	ctx.close(np.mean(1/q), vol, 'importance-volume', rtol = 1e-9)


def s_product(ctx):
	"""the components of a product are sampled from their own distributions, independently"""
	rng = ctx.rng
	mu, s = rng.randn(2), cov(rng, 2)
	lmu, lv = rng.uniform(-.5, .5), rng.uniform(.1, .6)
	lb = rng.randn(1); ub = lb + 1 + rng.rand(1)
	tr = 1e-2
	ctx.info(mu = mu, lmu = lmu, lb = lb)
	parts = [psdr.NormalDomain(mu, s, truncate = tr), psdr.LogNormalDomain(lmu, lv, truncate = tr), psdr.BoxDomain(lb, ub)]
	perm = rng.permutation(3)
	dom = psdr.TensorProductDomain([parts[i] for i in perm])
	n = 1500
	X = np.asarray(dom.sample(n))
	ctx.ok(X.shape == (n, 4) and np.all(dom.isinside(X)), 'inside')
	col, cols = 0, {}
	for i in perm:
		k = (2, 1, 1)[i]; cols[i] = X[:, col:col + k]; col += k
	Y = (cols[0] - mu).dot(np.linalg.inv(np.linalg.cholesky(s)).T)
	ctx.ok(kstest(np.sum(Y**2, axis = 1), lambda t: np.minimum(chi2.cdf(t, 2)/(1 - tr), 1)).pvalue > 1e-8, 'normal-part')
	y = (np.log(cols[1][:, 0]) - lmu)/np.sqrt(lv)
	ctx.ok(kstest(y, lambda u: np.clip((norm.cdf(u) - tr/2)/(1 - tr), 0, 1)).pvalue > 1e-8, 'lognormal-part')
	ctx.ok(kstest((cols[2][:, 0] - lb)/(ub - lb), 'uniform').pvalue > 1e-8, 'box-part')
	for a, b in ((Y[:, 0], y), (y, cols[2][:, 0]), (Y[:, 1], cols[2][:, 0])):
		ctx.ok(abs(np.corrcoef(a, b)[0, 1]) < 6.5/np.sqrt(n), 'independent')


SCENARIOS = [
	{'name': 'normal', 'func': s_normal, 'n': (120, 1500), 'timeout': 60},
	{'name': 'lognormal', 'func': s_lognormal, 'n': (120, 1500), 'timeout': 60},
	{'name': 'uniform', 'func': s_uniform, 'n': (60, 600), 'timeout': 60},
	{'name': 'product', 'func': s_product, 'n': (60, 600), 'timeout': 60},
]
