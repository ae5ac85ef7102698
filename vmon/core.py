"""Runner for the runtime-monitoring checks.

A property module (vmon/props/cNN.py) supplies scenarios.  A scenario is a
function `f(ctx)` which drives the *real* psdr code on one generated workload
and feeds what it observed to monitors through `ctx.ok(cond, clause, ...)`.
This module schedules the cases over worker processes, collects the monitors'
verdicts, observes which psdr functions/lines actually ran (sys.monitoring),
applies the known-findings file, and writes the evidence file.

Exit status: 0 held on everything explored, 1 violated, 2 inconclusive/error.
"""
import collections, hashlib, importlib, json, os, random, signal, sys, time, traceback, warnings, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')
WALL_LIMIT = {'quick': 480., 'thorough': 3300.}


class CaseTimeout(BaseException):
	pass


class Skip(Exception):
	"""The case could not be decided (e.g. a documented solver failure)"""


class Ctx:
	def __init__(self, prop, scen, idx, seed, tier):
		import numpy as np
		self.prop, self.scen, self.idx, self.seed, self.tier = prop, scen, idx, seed, tier
		self.rng = np.random.RandomState(seed)
		self.clauses = collections.Counter()
		self.viol = []
		self.case = {}
		self._fp = hashlib.sha1()
		self.trivial = False

	# ---- description of the case, used for the evidence file
	def info(self, **kw):
		for k, v in kw.items():
			self.case[k] = short(v)
			self._fp.update(repr((k, self.case[k])).encode())

	def mix(self, *arrays):
		"""add input data to the fingerprint of the case"""
		import numpy as np
		for a in arrays:
			try:
				self._fp.update(np.ascontiguousarray(np.asarray(a, dtype = float)).tobytes())
			except Exception:
				self._fp.update(repr(a).encode())

	# ---- verdicts
	def ok(self, cond, clause, msg = '', **data):
		self.clauses[clause] += 1
		try:
			good = bool(cond)
		except Exception:
			good = False
		if not good and len(self.viol) < 8:
			self.viol.append({'clause': clause, 'msg': msg, 'data': {k: short(v, 400) for k, v in data.items()}})
		return good

	def count(self, clause, n = 1):
		self.clauses[clause] += n

	def close(self, a, b, clause, rtol = 1e-7, atol = 1e-9, msg = '', **data):
		import numpy as np
		a = np.asarray(a, dtype = float); b = np.asarray(b, dtype = float)
		good = a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol = rtol, atol = atol, equal_nan = False)))
		return self.ok(good, clause, msg, got = a, expected = b, **data)

	def raises(self, types, clause, f, *args, **kw):
		"""the call must raise one of the types"""
		try:
			f(*args, **kw)
		except types:
			return self.ok(True, clause)
		except Skip:
			raise
		except Exception as e:
			return self.ok(False, clause, 'raised %s instead' % type(e).__name__, error = str(e))
		return self.ok(False, clause, 'did not raise')


def short(v, n = 160):
	import numpy as np
	if isinstance(v, np.ndarray):
		s = '%s%s' % (v.shape, np.array2string(v.flatten()[:24], precision = 17, max_line_width = 10**6))
	elif isinstance(v, (int, float, bool, str)) or v is None:
		return v
	else:
		s = repr(v)
	return s if len(s) <= n*4 else s[:n*4] + '...'


# --------------------------------------------------------------------------- coverage observation
class Observer:
	"""which functions of /repo/psdr ran, how often, and which lines (sys.monitoring)"""
	def __init__(self):
		self.calls = collections.Counter()
		self.lines = set()
		self.prefix = os.path.join(os.path.realpath(REPO), 'psdr') + os.sep
		self.on = False

	def start(self):
		try:
			m = sys.monitoring
			m.use_tool_id(3, 'vmon')
		except Exception:
			return
		pre = self.prefix
		def start(code, off):
			fn = code.co_filename
			if not fn.startswith(pre):
				return m.DISABLE
			self.calls[fn[len(pre):] + ':' + code.co_qualname] += 1
		def line(code, ln):
			fn = code.co_filename
			if fn.startswith(pre):
				self.lines.add((fn[len(pre):], ln))
			return m.DISABLE
		m.register_callback(3, m.events.PY_START, start)
		m.register_callback(3, m.events.LINE, line)
		m.set_events(3, m.events.PY_START | m.events.LINE)
		self.on = True

	def drain(self):
		c, l = self.calls, self.lines
		self.calls = collections.Counter()
		self.lines = set()
		return dict(c), list(l)


OBS = Observer()
_MOD = None


def _alarm(sig, frame):
	raise CaseTimeout()


def case_seed(prop, scen, vseed, idx):
	return zlib.crc32(('%s/%s/%s/%s' % (prop, scen, vseed, idx)).encode()) & 0x7fffffff


def in_psdr(tb):
	pre = OBS.prefix
	return any(f.filename.startswith(pre) for f in traceback.extract_tb(tb))


def run_case(task):
	prop, scen, idx, vseed, tier, timeout = task
	import numpy as np
	seed = case_seed(prop, scen, vseed, idx)
	ctx = Ctx(prop, scen, idx, seed, tier)
	func = {s['name']: s for s in _MOD.SCENARIOS}[scen]['func']
	np.random.seed((seed*7919 + 13) & 0x7fffffff)
	random.seed(seed)
	status, err = 'ok', None
	t0 = time.time()
	signal.signal(signal.SIGALRM, _alarm)
	signal.setitimer(signal.ITIMER_REAL, timeout)
	try:
		with warnings.catch_warnings():
			warnings.simplefilter('ignore')
			func(ctx)
	except CaseTimeout:
		status = 'timeout'
	except Skip as e:
		status, err = 'skip', str(e)
	except Exception as e:
		signal.setitimer(signal.ITIMER_REAL, 0)
		err = traceback.format_exc()
		if in_psdr(e.__traceback__):
			# a documented solver failure is no verdict; it is counted
			if type(e).__name__ in ('SolverError',):
				status = 'skip'
			else:
				status = 'ok'
				ctx.ok(False, 'no-crash', '%s: %s' % (type(e).__name__, e), where = err[-1500:])
		elif isinstance(e, (MemoryError, OSError, ImportError, AssertionError)):
			status = 'error'
		else:
			# what the code under test returned could not even be examined
			# (on the unchanged tree no workload does this)
			status = 'ok'
			ctx.ok(False, 'unexpected-result', '%s: %s' % (type(e).__name__, e), where = err[-1500:])
	finally:
		signal.setitimer(signal.ITIMER_REAL, 0)
	calls, lines = OBS.drain()
	return {'scen': scen, 'idx': idx, 'seed': seed, 'status': status, 'err': err, 'clauses': dict(ctx.clauses),
		'viol': ctx.viol, 'case': ctx.case, 'fp': ctx._fp.hexdigest(), 'trivial': ctx.trivial, 'wall': time.time() - t0,
		'calls': calls, 'lines': lines}


def _init_worker():
	signal.signal(signal.SIGINT, signal.SIG_IGN)
	sys.stdout = open(os.devnull, 'w')
	sys.stderr = open(os.devnull, 'w')
	if not OBS.on:
		OBS.start()


# --------------------------------------------------------------------------- known findings
def load_known(prop):
	known = {}
	path = os.path.join(VERIF, 'known_findings.txt')
	if os.path.exists(path):
		for ln in open(path):
			ln = ln.strip()
			if not ln.startswith('known:'):
				continue
			parts = dict(p.split('=', 1) for p in ln.split(None, 3)[1:3])
			if parts.get('property') == prop:
				known[parts['key']] = ln.split(None, 3)[3] if len(ln.split(None, 3)) > 3 else ''
	return known


def main(prop, tier, vseed, replay = None, only = None, scale = 1.0, jobs = None, out = None):
	global _MOD
	t0 = time.time()
	sys.path.insert(0, VERIF)
	_MOD = importlib.import_module('vmon.props.%s' % prop.lower())
	import psdr
	assert os.path.realpath(psdr.__file__).startswith(os.path.realpath(REPO) + os.sep), psdr.__file__
	scens = {s['name']: s for s in _MOD.SCENARIOS}

	if replay:
		r = json.load(open(replay))
		OBS.start()
		s = scens[r['scenario']]
		res = run_case((prop, r['scenario'], r['index'], r['vseed'], r['tier'], 10*s.get('timeout', 60)))
		print(json.dumps({k: res[k] for k in ('scen', 'idx', 'status', 'err', 'viol', 'case')}, indent = 1))
		return 1 if res['viol'] else (0 if res['status'] in ('ok', 'skip') else 2)

	tasks = []
	for s in _MOD.SCENARIOS:
		if only and s['name'] not in only:
			continue
		n = s['n'][0] if tier == 'quick' else s['n'][1]
		n = max(1, int(round(n*scale)))
		for i in range(n):
			tasks.append((prop, s['name'], i, vseed, tier, s.get('timeout', 60)))
	# interleave the scenarios so that a wall limit truncates all of them alike
	rank = {}
	per = collections.Counter()
	tot = collections.Counter(t[1] for t in tasks)
	for t in tasks:
		rank[t] = (per[t[1]] + 0.5)/tot[t[1]]; per[t[1]] += 1
	tasks.sort(key = lambda t: (rank[t], t[1]))

	import multiprocessing as mp
	jobs = jobs or int(os.environ.get('VMON_JOBS', '0')) or min(8, os.cpu_count() or 1)
	results, late = [], []
	limit = WALL_LIMIT[tier]
	pool = mp.get_context('fork').Pool(jobs, initializer = _init_worker)
	try:
		it = pool.imap_unordered(run_case, tasks, chunksize = 1)
		for _ in range(len(tasks)):
			left = limit - (time.time() - t0)
			try:
				r = it.next(timeout = max(left, 0.01))
			except mp.TimeoutError:
				break
			results.append(r)
	finally:
		pool.terminate()
		pool.join()
	truncated = len(tasks) - len(results)

	# a case that ran out of time is run again with nothing else running
	tmo = [r for r in results if r['status'] == 'timeout']
	bykey = {(t[1], t[2]): t for t in tasks}
	for r in tmo[:2]:
		if time.time() - t0 > limit + 120:
			break
		with mp.get_context('fork').Pool(1, initializer = _init_worker) as p1:
			t = bykey[(r['scen'], r['idx'])]
			r2 = p1.apply_async(run_case, (t,))
			try:
				r2 = r2.get(timeout = 2*t[5] + 10)
			except mp.TimeoutError:
				r2 = dict(r)
		if r2['status'] == 'timeout':
			r['viol'] = r['viol'] + [{'clause': 'terminates', 'msg': 'no result within %g s, twice (cases of this kind take well under a tenth of that)' % t[5], 'data': {}}]
		else:
			r.update(r2)

	known = load_known(prop)
	clauses = collections.Counter()
	calls = collections.Counter()
	lines = set()
	fps = set()
	nontriv = 0
	viols, knownhits, errors, skips = [], {}, [], collections.Counter()
	scount = collections.Counter(r['scen'] for r in results)
	for r in results:
		for k, v in r['clauses'].items():
			clauses['%s/%s' % (r['scen'], k)] += v
		calls.update(r['calls'])
		lines.update(tuple(l) for l in r['lines'])
	if os.environ.get('VMON_LINES'):
		# development aid: the lines that ran, to find code no check reaches
		with open(os.environ['VMON_LINES'], 'w') as f: json.dump(sorted(lines), f)
	for r in results:
		if r['clauses'] and not r['trivial'] and r['status'] == 'ok':
			fps.add((r['scen'], r['fp']) if r['fp'] != hashlib.sha1().hexdigest() else (r['scen'], r['seed']))
		if r['status'] == 'error':
			errors.append(r)
		if r['status'] == 'skip':
			skips[r['scen']] += 1
		for v in r['viol']:
			key = '%s/%s' % (r['scen'], v['clause'])
			if key in known:
				knownhits.setdefault(key, (r, v))
			else:
				viols.append((r, v))
	# solver failures are tolerated as no-verdict, but not as the rule
	for s, n in skips.items():
		if n >= 4 and n > 0.5*scount[s]:
			r = [r for r in results if r['scen'] == s and r['status'] == 'skip'][0]
			viols.append((r, {'clause': 'mostly-undecided', 'msg': '%d of %d cases ended in a solver failure' % (n, scount[s]), 'data': {'err': r['err']}}))

	rdir = os.path.join(VERIF, 'evidence', 'replays')
	os.makedirs(rdir, exist_ok = True)
	seen = set()
	nprint = 0
	for r, v in viols:
		k = (r['scen'], v['clause'])
		if k in seen:
			continue
		seen.add(k)
		path = os.path.join(rdir, '%s-%s-%s.json' % (prop, r['scen'], r['idx']))
		with open(path, 'w') as f:
			json.dump({'property': prop, 'scenario': r['scen'], 'index': r['idx'], 'vseed': vseed, 'tier': tier, 'case_seed': r['seed'],
				'case': r['case'], 'violation': v, 'all': r['viol']}, f, indent = 1, default = str)
		if nprint < 12:
			nprint += 1
			print('VIOLATION property=%s replay=%s' % (prop, path))
			print('  clause %s/%s: %s' % (r['scen'], v['clause'], v['msg']))
			print('  case %s' % json.dumps(r['case'], default = str)[:800])
			print('  data %s' % json.dumps(v['data'], default = str)[:1600])
	for key, desc in known.items():
		if key in knownhits:
			print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key, desc))

	okr = [r for r in results if r['clauses'] and r['status'] == 'ok']
	samples, sc = [], set()
	for r in okr:
		if r['scen'] not in sc and r['case']:
			sc.add(r['scen'])
			samples.append({'scenario': r['scen'], 'case': r['case'], 'clauses': r['clauses']})
	samples = samples[:12]
	ev = {
		'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration',
		'coverage': {
			'evaluations': len(results),
			'distinct_nontrivial': len(fps),
			'rule': _MOD.RULE,
			'samples': samples,
			'monitor_verdicts': int(sum(clauses.values())),
			'verdicts_per_clause': dict(sorted(clauses.items())),
			'cases_per_scenario': dict(sorted(scount.items())),
			'undecided_per_scenario': dict(skips),
			'timeouts_first_run': len(tmo),
			'cases_not_run': truncated,
			'psdr_calls_observed': int(sum(calls.values())),
			'psdr_functions_observed': len(calls),
			'psdr_lines_observed': len(lines),
			'most_called': dict(calls.most_common(25)),
		},
		'assumptions': list(getattr(_MOD, 'ASSUME', [])),
		'wall_s': round(time.time() - t0, 2),
		'violations': len(seen),
	}
	if out is None:
		out = os.path.join(VERIF, 'evidence', '%s.json' % prop)
	os.makedirs(os.path.dirname(out), exist_ok = True)
	with open(out, 'w') as f:
		json.dump(ev, f, indent = 1, default = str)
	slow = sorted(results, key = lambda r: -r['wall'])[:3]
	print('%s %s seed=%s: %d cases, %d distinct, %d verdicts, %d psdr calls (%d functions, %d lines), %d undecided, %d not run, %.1fs; slowest %s' % (
		prop, tier, vseed, len(results), len(fps), sum(clauses.values()), sum(calls.values()), len(calls), len(lines), sum(skips.values()), truncated,
		time.time() - t0, ['%s#%d %.1fs' % (r['scen'], r['idx'], r['wall']) for r in slow]))
	for r in errors[:3]:
		print('HARNESS-ERROR in %s#%d:\n%s' % (r['scen'], r['idx'], r['err']))
	if viols:
		return 1
	if errors:
		return 2
	if len(results) < 0.3*len(tasks):
		print('INCONCLUSIVE: only %d of %d cases ran' % (len(results), len(tasks)))
		return 2
	undec = [s for s in scens if (not only or s in only) and not any(k.startswith(s + '/') for k in clauses)]
	if undec:
		print('INCONCLUSIVE: no verdict from scenario(s) %s' % undec)
		return 2
	return 0
