"""Wrappers of external simulations (OpenAeroStruct, NACA0012, MULTI-F), run against a stand-in for docker"""
import contextlib, io, json, os, re, shutil, stat, sys, tempfile
import numpy as np
import psdr, psdr.demos
from psdr.demos.oas import oas_func, build_oas_design_domain
from psdr.demos.naca0012 import naca0012_func, build_hicks_henne_domain
from psdr.demos.multif import multif
from ..core import Skip, REPO

RULE = ('A case evaluates one of the three wrapped simulations at random points with a stand-in for the docker executable first on the path; the stand-in records its command line and the files it finds, prints, writes outputs computed from its inputs, and may fail. '
	'The monitor compares the record with the call, the result with the output, and the directories before and after. Distinct: different wrapper, points, options, behaviour of the stand-in.')
ASSUME = ['the images follow the drivers in psdr/demos (my.input to my.output and my_grad.output; general-3d.in to results.out)']

FAKE = '''#!%s -SE
import sys, os, json, math, time
a = sys.argv[1:]; d = os.environ['VMON_FAKE']; opt = json.load(open(d + '/options.json'))
src = None
for i, s in enumerate(a):
	s = a[i + 1] if s == '--mount' else s[8:] if s.startswith('--mount=') else None
	if s is not None:
		for kv in s.split(','):
			k, _, v = kv.partition('=')
			if k in ('source', 'src'): src = v
if src is None: sys.exit(3)
files = sorted(os.listdir(src))
name = 'general-3d.in' if 'general-3d.in' in files else 'my.input'
rows = [[float(x) for x in l.split()] for l in open(os.path.join(src, name)) if l.strip()]
cfg = open(os.path.join(src, 'general-3d.cfg')).read() if 'general-3d.cfg' in files else None
out = []
for l in range(opt['lines']): out.append('line %%d of the run, 100 %%%% done\\r\\n' %% l)
out.append('no end of line')
text = ''.join(out)
n = len(os.listdir(d + '/runs'))
rec = {'argv': a, 'src': src, 'files': files, 'rows': rows, 'cfg': cfg, 'text': text, 'log': os.path.exists(os.path.join(src, 'output.log'))}
def val(x, k): return sum(math.sin((i + 1)*(k + 1)*.1 + v/(1 + abs(v))) for i, v in enumerate(x))*10.**(3*(k %% 3) - 3)
half = len(text)//2
os.write(1, text[:half].encode())
if opt['sleep']: time.sleep(opt['sleep'])
if opt['split']: os.write(2, text[half:].encode())
else: os.write(1, text[half:].encode())
if not opt['fail']:
	if name == 'my.input':
		img = ' '.join(a)
		if 'naca0012' in img:
			x = [v for r in rows for v in r]; y = [val(x, 0), val(x, 1)]; g = [[val(x, k + 2)*(i + 1) for i in range(len(x))] for k in range(2)]
			open(src + '/my.output', 'w').write(''.join('%%.18e\\n' %% v for v in y))
			if 'discrete' in a: open(src + '/my_grad.output', 'w').write(''.join(' '.join('%%.18e' %% v for v in r) + '\\n' for r in g))
			rec['y'], rec['g'] = y, g
		else:
			if all(len(r) == 1 for r in rows): rows = [[r[0] for r in rows]]
			y = [[val(x, k) for k in range(5)] for x in rows]
			open(src + '/my.output', 'w').write(''.join(' '.join('%%.18e' %% v for v in r) + '\\n' for r in y)); rec['y'] = y
	else:
		x = [v for r in rows for v in r]; y = [val(x, k) for k in range(47)]
		open(src + '/results.out', 'w').write(''.join('%%.16e qoi_%%d\\n' %% (v, k) for k, v in enumerate(y))); rec['y'] = y
	os.mkdir(src + '/more'); open(src + '/more/flow.dat', 'w').write('flow')
json.dump(rec, open(d + '/runs/%%d-%%d.json' %% (time.time_ns(), os.getpid()), 'w'))
sys.exit(opt['code'])
'''


class Box:
	def __init__(self, **opt):
		self.opt = dict({'lines': 3, 'sleep': 0, 'split': False, 'fail': False, 'code': 0}, **opt)
	def __enter__(self):
		self.dir = tempfile.mkdtemp(prefix = 'vmon-c32-'); self.tmp = self.dir + '/tmp'; self.bin = self.dir + '/bin'
		for d in (self.tmp, self.bin, self.dir + '/runs', self.dir + '/home'): os.mkdir(d)
		with open(self.bin + '/docker', 'w') as f: f.write(FAKE % sys.executable)
		os.chmod(self.bin + '/docker', 0o755); json.dump(self.opt, open(self.dir + '/options.json', 'w'))
		self.env = {k: os.environ.get(k) for k in ('PATH', 'VMON_FAKE', 'TMPDIR')}; self.old = tempfile.tempdir, os.getcwd()
		os.environ['PATH'] = self.bin + ':' + os.environ.get('PATH', ''); os.environ['VMON_FAKE'] = self.dir; os.environ['TMPDIR'] = self.tmp; tempfile.tempdir = self.tmp
		os.chdir(self.dir + '/home')
		return self
	def __exit__(self, *a):
		os.chdir(self.old[1]); tempfile.tempdir = self.old[0]
		for k, v in self.env.items():
			if v is None: os.environ.pop(k, None)
			else: os.environ[k] = v
		shutil.rmtree(self.dir, ignore_errors = True)
	def runs(self):
		out = []
		for f in sorted(os.listdir(self.dir + '/runs')): out.append(json.load(open(self.dir + '/runs/' + f)))
		return out


def options(argv):
	"""docker options, image, arguments after it"""
	k = [i for i, s in enumerate(argv) if s.startswith('jeffreyhokanson/')]
	if len(k) != 1: return None
	return argv[:k[0]], argv[k[0]], argv[k[0] + 1:]


def value(args, *names):
	v = None
	for i, s in enumerate(args):
		if s in names and i + 1 < len(args): v = args[i + 1]
		for n in names:
			if n.startswith('--') and s.startswith(n + '='): v = s[len(n) + 1:]
	return v


def common(ctx, r, image, version):
	o = options(r['argv'])
	if not ctx.ok(o is not None and r['argv'][0] == 'run', 'command', got = r['argv']): return None
	pre, im, post = o
	ctx.ok(im == 'jeffreyhokanson/%s:%s' % (image, version), 'image', got = im)
	ctx.ok('--rm' in pre, 'removed', 'the container is kept', got = pre)
	m = dict(kv.partition('=')[::2] for kv in (value(pre, '--mount') or '').split(','))
	ctx.ok(m.get('type') == 'bind' and (m.get('target') or m.get('dst') or m.get('destination')) == '/workdir', 'mount', got = m)
	return pre, post


def inputs(ctx, r, X, column = False):
	got = r['rows']
	want = np.atleast_2d(X) if not column else np.reshape(X, (-1, 1))
	try: G = np.array(got, dtype = float)
	except Exception: G = np.zeros((0, 0))
	if ctx.ok(G.shape == want.shape, 'input-shape', got = G.shape, expected = want.shape):
		ctx.ok(np.all(np.abs(G - want) <= 1e-15*np.abs(want)), 'input', got = G, expected = want)


def setting(ctx, name):
	"""options of a call shared by all wrappers, and the behaviour of the stand-in"""
	rng = ctx.rng
	opt = {'lines': int(rng.choice([0, 3, 40, 6000])), 'split': bool(rng.rand() < .3), 'sleep': float(rng.choice([0, 0, 0, .05]))}
	wd = str(rng.choice(['none', 'none', 'new', 'relative', 'nested', 'space', 'keep', 'keep', 'exists'])); verbose = bool(rng.rand() < .4)
	if rng.rand() < .08: opt['fail'] = True; opt['code'] = int(rng.choice([0, 1, 125]))
	ctx.info(wrapper = name, workdir = wd, verbose = verbose, **opt)
	return opt, wd, verbose


def run(ctx, name, f, kw, box, wd, verbose):
	"""call the wrapper and watch the file system; returns (records, result)"""
	kw = dict(kw, verbose = verbose) if verbose else dict(kw); home = box.dir + '/home'; path = None
	if wd in ('new', 'keep'): path = kw['workdir'] = box.dir + '/work'
	if wd == 'relative': kw['workdir'] = 'rel'; path = home + '/rel'
	if wd == 'nested': path = kw['workdir'] = box.dir + '/a/b/c'
	if wd == 'space': path = kw['workdir'] = box.dir + '/with space'
	if wd == 'exists':
		path = kw['workdir'] = box.dir + '/work'; os.mkdir(path); open(path + '/precious', 'w').write('results of last week')
	if wd == 'keep': kw['keep_data'] = True
	buf = io.StringIO(); err = None; res = None; before = sorted(os.listdir(box.dir))
	with contextlib.redirect_stdout(buf):
		try: res = f(**kw)
		except Exception as e: err = e
	runs = box.runs(); out = buf.getvalue()
	if wd == 'exists':
		ctx.ok(err is not None and not runs, 'existing', 'used a directory that exists', got = repr(res))
		ctx.ok(os.path.exists(path + '/precious') and os.listdir(path) == ['precious'] and open(path + '/precious').read() == 'results of last week', 'existing-kept', 'an existing directory was changed'); return None
	if box.opt['fail']:
		ctx.ok(err is not None, 'failure', 'a run without output returned %r' % (res,)); return None
	if err is not None: raise err
	ctx.ok(os.getcwd() == home, 'cwd')
	ctx.ok(os.listdir(box.tmp) == [], 'temporary', 'temporary files remain', got = os.listdir(box.tmp))
	ctx.ok(len(runs) > 0, 'ran')
	for r in runs:
		if path is not None: ctx.ok(os.path.realpath(r['src']) == os.path.realpath(path), 'workdir', got = r['src'], expected = path)
		else: ctx.ok(os.path.dirname(os.path.realpath(r['src'])) == os.path.realpath(box.tmp), 'workdir-temporary', got = r['src'])
		if verbose and box.opt['lines']: ctx.ok('line 0 of the run' in out or 'line 0' in out, 'verbose')
	ctx.ok(verbose or 'of the run' not in out, 'quiet')
	ctx.ok(len({r['src'] for r in runs}) == len(runs) or path is not None, 'separate', 'runs share a directory')
	if wd == 'keep':
		ctx.ok(os.path.isdir(path + '/more') and os.path.exists(path + '/more/flow.dat'), 'kept')
		if ctx.ok(os.path.exists(path + '/output.log'), 'log'): 
			got = open(path + '/output.log', 'rb').read().decode(); want = runs[-1]['text']
			ctx.ok(sorted(got) == sorted(want) if box.opt['split'] else got == want, 'log-complete', 'log has %d of %d bytes' % (len(got), len(want)))
	elif path is not None: ctx.ok(not os.path.exists(path), 'cleaned', 'work directory remains')
	ctx.ok(set(os.listdir(box.dir)) - set(before) <= ({'work'} if wd == 'keep' else {'a'} if wd == 'nested' else set()), 'strays', got = sorted(set(os.listdir(box.dir)) - set(before)))
	ctx.ok(os.listdir(home) == [], 'strays-home', got = os.listdir(home))
	return runs, res


def eq(ctx, got, want, clause):
	got = np.asarray(got, dtype = float); want = np.asarray(want, dtype = float)
	ctx.ok(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-14*np.abs(want)), clause, got = got, expected = want)


def s_oas(ctx):
	rng = ctx.rng; opt, wd, verbose = setting(ctx, 'oas'); M = int(rng.choice([0, 1, 2, 7])); version = str(rng.choice(['v1', 'v2'])); how = str(rng.choice(['function', 'class']))
	f = psdr.demos.OpenAeroStruct(); N = np.round(2*rng.rand(max(M, 1), 12) - 1, int(rng.choice([1, 16]))); X = f.domain_app.unnormalize(N)
	if M == 0: N, X = N[0], X[0]
	kw = {} if version == 'v1' else {'version': version}; ctx.info(M = M, how = how, version = version); ctx.mix(N)
	with Box(**opt) as box:
		call = (lambda **k: oas_func(X, **k)) if how == 'function' else (lambda **k: f(N, **k))
		r = run(ctx, 'oas', call, kw, box, wd, verbose)
		if r is None: return
		runs, y = r
		if not ctx.ok(len(runs) == 1, 'one-run', 'a vectorized evaluation ran %d times' % len(runs)): return
		c = common(ctx, runs[0], 'oas', version)
		if c: ctx.ok(c[1] == ['/workdir/my.input'], 'arguments', got = c[1])
		inputs(ctx, runs[0], X, column = M == 0)
		eq(ctx, y, runs[0]['y'][0] if M == 0 else runs[0]['y'], 'output')
	n = int(rng.randint(1, 7)); d = build_oas_design_domain(n); ctx.ok(len(d) == 2*n + 2 and len(d.names) == 2*n + 2 and len(set(d.names)) == 2*n + 2, 'design-domain', got = d.names)


def s_naca(ctx):
	rng = ctx.rng; opt, wd, verbose = setting(ctx, 'naca'); nl, nu = int(rng.choice([1, 2, 5, 10])), int(rng.choice([1, 3, 10])); fr = float(rng.choice([.01, .1])); how = str(rng.choice(['function', 'class', 'class', 'grad', 'both']))
	conf = {}
	if rng.rand() < .5: conf['maxiter'] = int(rng.choice([1, 200, 5000]))
	if rng.rand() < .5: conf['nprocesses'] = int(rng.choice([1, 4]))
	if rng.rand() < .3: conf['version'] = 'v7'
	f = psdr.demos.NACA0012(n_lower = nl, n_upper = nu, fraction = fr, **conf); m = nl + nu
	M = int(rng.choice([0, 0, 1, 3])) if wd in ('none',) else 0
	N = 2*rng.rand(max(M, 1), m) - 1; X = fr*N
	ctx.info(nl = nl, nu = nu, M = M, how = how, conf = sorted(conf.items())); ctx.mix(N, fr)
	if how == 'function': M = 0
	one = M == 0; n0 = N[0] if one else N; x0 = X[0]; g = how in ('grad', 'both') or (how == 'function' and rng.rand() < .5)
	with Box(**opt) as box:
		if how == 'function':
			ex = dict(conf, n_lower = nl, n_upper = nu)
			if g: ex['return_grad'] = True
			call = lambda **k: naca0012_func(x0, **dict(ex, **k))
		else: call = (lambda **k: f.grad(n0, **k)) if how == 'grad' else (lambda **k: f(n0, return_grad = True, **k)) if how == 'both' else (lambda **k: f(n0, **k))
		r = run(ctx, 'naca', call, {}, box, wd, verbose)
		if r is None: return
		runs, y = r
		if not ctx.ok(len(runs) == max(M, 1), 'one-run', 'ran %d times for %d points' % (len(runs), max(M, 1))): return
		for i, q in enumerate(runs):
			c = common(ctx, q, 'naca0012', conf.get('version', 'v1')); inputs(ctx, q, X[i], column = True)
			if c is None: continue
			a = c[1]; ctx.ok('/workdir/my.input' in a, 'arguments', got = a)
			ctx.ok(value(a, '--nlower') == str(nl) and value(a, '--nupper') == str(nu), 'bumps', got = a, expected = (nl, nu))
			ctx.ok(value(a, '--maxiter') == str(conf.get('maxiter', 1000)) and value(a, '--nprocesses') == str(conf.get('nprocesses', 1)), 'solver-options', got = a, expected = conf)
			ctx.ok((value(a, '--adjoint') == 'discrete') == g, 'adjoint', got = a, expected = g)
		Y = np.array([q['y'] for q in runs]); G = np.array([q['g'] for q in runs])
		if how == 'function':
			if g:
				if ctx.ok(len(y) == 2, 'both'): eq(ctx, y[0], Y[0], 'output'); eq(ctx, y[1], G[0], 'gradient')
			else: eq(ctx, y, Y[0], 'output')
			return
		Gn = fr*G    # derivative with respect to the normalized variables
		near = lambda a, b, c: ctx.ok(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol = 1e-12, atol = 0), c, got = a, expected = b)
		if how == 'class': near(y, Y[0] if one else Y, 'output')
		if how == 'grad': near(y, Gn[0] if one else Gn, 'gradient')
		if how == 'both': near(y[0], Y[0] if one else Y, 'output'); near(y[1], Gn[0] if one else Gn, 'gradient')
	d = f.domain_app; ctx.ok(len(d) == m and np.allclose(d.lb, -fr) and np.allclose(d.ub, fr) and [('lower' in s) for s in d.names] == [True]*nl + [False]*nu, 'domain', got = d.names)


_MF = {}
def s_multif(ctx):
	rng = ctx.rng; opt, wd, verbose = setting(ctx, 'multif'); level = int(rng.randint(14)); cores = rng.choice([None, 1, 8]); it = rng.choice([None, 3, 5000]); how = str(rng.choice(['function', 'class']))
	with Box(**opt) as box:
		if how == 'function':
			x = rng.randn(136)*10.**rng.randint(-6, 11, size = 136); X = x[None]
			kw = {'level': level}
			if cores is not None: kw['cores'] = cores
			if it is not None: kw['su2_maxiter'] = it
			call = lambda **k: multif(x, **dict(kw, **k)); M = 0
		else:
			key = (level % 3, [None, 3][int(it is not None)]); level = [0, 5, 13][key[0]]
			if key not in _MF: _MF[key] = psdr.demos.MULTIF(level = level, **({} if key[1] is None else {'su2_maxiter': key[1]}))
			f = _MF[key]; it = key[1] or 5000; M = int(rng.choice([0, 2])) if wd == 'none' else 0
			ctx.ok(len(f.domain) == 136, 'dimension')
			N = 2*rng.rand(max(M, 1), 136) - 1; X = f.domain_app.unnormalize(N); kw = {}
			if cores is not None: kw['cores'] = cores
			call = lambda **k: f(N if M else N[0], **dict(kw, **k))
		ctx.info(level = level, cores = cores, it = it, how = how, M = M); ctx.mix(X)
		r = run(ctx, 'multif', call, {}, box, wd, verbose)
		if r is None: return
		runs, y = r
		if not ctx.ok(len(runs) == max(M, 1), 'one-run', 'ran %d times' % len(runs)): return
		ref = open(os.path.join(REPO, 'psdr/demos/multif/general-3d.cfg.v25')).read()
		for i, q in enumerate(runs):
			c = common(ctx, q, 'multif', 'v25'); inputs(ctx, q, X[i], column = True)
			ctx.ok('general-3d.cfg' in q['files'] and 'general-3d.in' in q['files'], 'files', got = q['files'])
			active = lambda t: [l.strip() for l in t.split('\n') if l.strip() and not l.strip().startswith('%')]
			A, B = active(q['cfg'] or ''), active(ref); new = [l for l in A if not l.replace(' ', '').startswith('SU2_MAX_ITERATIONS=')]
			ctx.ok(new == [l for l in B if not l.replace(' ', '').startswith('SU2_MAX_ITERATIONS=')], 'configuration', 'other settings changed')
			its = [l.replace(' ', '').split('=')[1] for l in A if l.replace(' ', '').startswith('SU2_MAX_ITERATIONS=')]
			ctx.ok(its == ([] if it is None else [str(it)]), 'iterations', got = its, expected = it)
			if c is None: continue
			ctx.ok(value(c[1], '-f') == 'general-3d.cfg' and value(c[1], '-l') == str(level), 'level', got = c[1], expected = level)
			ctx.ok(value(c[1], '-c') == (None if cores is None else str(cores)), 'cores', got = c[1], expected = cores)
			ctx.ok(value(c[0], '--user') == str(os.getuid()) and value(c[0], '--workdir', '-w') == '/workdir', 'user', got = c[0])
		Y = np.array([q['y'] for q in runs]); eq(ctx, y, Y if M else Y[0], 'output')


def s_keep(ctx):
	"""results can only be kept where the caller knows them"""
	rng = ctx.rng; name = ['naca', 'multif'][ctx.idx % 2]; x = rng.randn(20 if name == 'naca' else 136); ctx.info(name = name); ctx.mix(x)
	with Box() as box:
		try:
			(naca0012_func if name == 'naca' else multif)(x, keep_data = True)
			kept = os.listdir(box.tmp); ctx.ok(len(kept) == 1, 'keep-unnamed', got = kept)
		except Exception: ctx.ok(not box.runs(), 'keep-unnamed', 'ran and then failed')
		# a missing executable is an error
		os.remove(box.bin + '/docker'); p = os.environ['PATH']; os.environ['PATH'] = box.bin
		try: ctx.raises(Exception, 'no-docker', naca0012_func if name == 'naca' else multif, x)
		finally: os.environ['PATH'] = p


SCENARIOS = [
	{'name': 'oas', 'func': s_oas, 'n': (240, 2400), 'timeout': 60},
	{'name': 'naca', 'func': s_naca, 'n': (300, 3000), 'timeout': 60},
	{'name': 'multif', 'func': s_multif, 'n': (240, 2400), 'timeout': 120},
	{'name': 'keep', 'func': s_keep, 'n': (10, 40), 'timeout': 60},
]
