"""Machinery shared by every check.

A check is a list of *suites*.  Each suite is one of

  Replay : TLC explores a specification (specs/*.tla), checking its invariants, and prints one JSON record
           (a "case": the operations of a behaviour together with the observations the specification
           allows) per state.  Every case is replayed on the real code from /repo and the observations are
           compared.
  Trace  : the real code is driven (the drives themselves come from TLC or from a seeded generator), what it does is
           recorded as a trace of integer-valued events, and TLC evaluates a trace specification on all the recorded
           traces.  The verdict is total: TLC prints for each trace 'ok' or the name of the clause that failed
           and the position at which it failed.

Only two outcomes are reported: exit 0, or exit 1 with a VIOLATION line.  Any other exit is a failure of the machinery.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
REPLAYS = os.path.join(VERIF, 'replays')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
INT_MAX = 2**31 - 1
CASE_TIMEOUT = 200


class MachineryError(Exception):
	pass


class CaseTimeout(BaseException):
	pass


################################################################################
# Running TLC
################################################################################
def cfg_text(spec='Spec', constants=None, invariants=(), properties=(), constraints=(), postcondition=None,
		deadlock=False, symmetry=None, view=None, init_next=None):
	out = []
	if init_next:
		out += ['INIT %s' % init_next[0], 'NEXT %s' % init_next[1]]
	else:
		out.append('SPECIFICATION %s' % spec)
	for k, v in (constants or {}).items():
		if isinstance(v, bool):
			v = 'TRUE' if v else 'FALSE'
		elif isinstance(v, (set, frozenset)):
			v = '{' + ', '.join(json.dumps(x) if isinstance(x, str) else str(x) for x in sorted(v)) + '}'
		elif isinstance(v, str) and not v.startswith('<-'):
			v = json.dumps(v)
		if isinstance(v, str) and v.startswith('<-'):
			out.append('CONSTANT %s %s' % (k, v))
		else:
			out.append('CONSTANT %s = %s' % (k, v))
	out += ['INVARIANT %s' % i for i in invariants]
	out += ['PROPERTY %s' % i for i in properties]
	out += ['CONSTRAINT %s' % i for i in constraints]
	if view:
		out.append('VIEW %s' % view)
	if postcondition:
		out.append('POSTCONDITION %s' % postcondition)
	out.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
	return '\n'.join(out) + '\n'


class TlcResult:
	def __init__(self):
		self.states = self.transitions = 0
		self.records = []
		self.wall = 0.
		self.output_tail = ''
		self.coverage = {}


def run_tlc(module, cfg, env=None, simulate=None, depth=None, workers=8, timeout=800, heap='6g', seed=None):
	"""Run TLC and collect the JSON records that the specification prints (lines starting with "@@")."""
	tmp = tempfile.mkdtemp(prefix='vtlc.')
	try:
		cfgfile = os.path.join(tmp, module + '.cfg')
		with open(cfgfile, 'w') as f:
			f.write(cfg)
		cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-DTLA-Library=' + SPECS,
			'-Djava.io.tmpdir=' + tmp, '-cp', JARS, 'tlc2.TLC',
			'-workers', str(workers), '-metadir', os.path.join(tmp, 'meta'), '-noGenerateSpecTE', '-config', cfgfile]
		if simulate:
			cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(SEED if seed is None else seed)]
		if depth:
			cmd += ['-depth', str(depth)]
		cmd.append(os.path.join(SPECS, module + '.tla'))
		e = dict(os.environ)
		e.update(env or {})
		out_path = os.path.join(tmp, 'out')
		t0 = time.time()
		with open(out_path, 'w') as fo:
			try:
				rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=tmp, timeout=timeout).returncode
			except subprocess.TimeoutExpired:
				raise MachineryError('TLC did not finish on %s in %d s' % (module, timeout))
		res = TlcResult()
		res.wall = time.time() - t0
		tail = []
		with open(out_path, errors='replace') as f:
			for line in f:
				if line.startswith('"@@'):
					try:
						res.records.append(json.loads(json.loads(line)[2:]))
					except ValueError:
						raise MachineryError('%s: unreadable record %r' % (module, line[:200]))
					continue
				tail.append(line)
				if len(tail) > 400:
					del tail[:200]
				m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
				if m:
					res.transitions, res.states = int(m.group(1)), int(m.group(2))
				m = re.match(r'The number of states generated: (\d+)', line)
				if m and simulate:
					res.transitions = res.states = int(m.group(1))
		res.output_tail = ''.join(tail[-60:])
		if rc != 0:
			raise MachineryError('TLC exited with %d on %s\n%s' % (rc, module, res.output_tail))
		return res
	finally:
		shutil.rmtree(tmp, ignore_errors=True)


################################################################################
# Integers for TLC
################################################################################
def q(x, scale):
	"""Quantize a float to an integer; what is not finite or too large saturates."""
	x = float(x)
	if x != x:
		return INT_MAX
	y = x*scale
	if y > 2e9:
		return 2000000000
	if y < -2e9:
		return -2000000000
	return int(round(y))


def qs(v, scale):
	return [q(x, scale) for x in v]


def ranks(values, rel=0.):
	"""Replace floats with their rank: exact for every order comparison; NaN ranks highest."""
	import math
	vals = [float(v) for v in values]
	key = [(1, 0.) if math.isnan(v) else (0, v) for v in vals]
	order = {k: i for i, k in enumerate(sorted(set(key)))}
	return [order[k] for k in key]


def fl(r):
	"""A rational <<n, d>> of the specification as a float"""
	return r[0]/r[1]


def fls(v):
	return [fl(r) for r in v]


################################################################################
# Running cases
################################################################################
def _alarm(signum, frame):
	raise CaseTimeout()


def case_hash(case):
	return int(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)


def guarded(fun, case, timeout=CASE_TIMEOUT):
	"""Run fun(case) -> (failures, result) under an alarm, with everything seeded and quiet"""
	import numpy as np
	import random
	import warnings
	np.random.seed((case_hash(case) + SEED) % 2**32)
	random.seed(case_hash(case) + SEED)
	old = signal.signal(signal.SIGALRM, _alarm)
	signal.alarm(timeout)
	try:
		with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
			warnings.simplefilter('ignore')
			try:
				return fun(case)
			except CaseTimeout:
				return ('EXC', 'the call did not return within %d s' % timeout)
			except RecursionError as e:
				return ('EXC', 'RecursionError: %s' % e)
			except Exception as e:
				return ('EXC', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
	finally:
		signal.alarm(0)
		signal.signal(signal.SIGALRM, old)


_FUN = None
_TIMEOUT = CASE_TIMEOUT


def _worker(args):
	i, case = args
	return i, guarded(_FUN, case, _TIMEOUT)


def pmap(fun, cases, procs=8, chunk=None, timeout=CASE_TIMEOUT):
	"""Run fun on every case in forked workers."""
	global _FUN, _TIMEOUT
	_FUN, _TIMEOUT = fun, timeout
	out = [None]*len(cases)
	if len(cases) <= 4 or procs == 1:
		for i, c in enumerate(cases):
			out[i] = guarded(fun, c, timeout)
		return out
	if chunk is None:
		chunk = max(1, min(50, len(cases)//(procs*4)))
	ctx = multiprocessing.get_context('fork')
	with ctx.Pool(procs) as pool:
		for i, r in pool.imap_unordered(_worker, list(enumerate(cases)), chunksize=chunk):
			out[i] = r
	return out


################################################################################
# Suites
################################################################################
class Failure:
	def __init__(self, prop, suite, case, what, key=None):
		self.prop, self.suite, self.case, self.what = prop, suite, case, what
		self.key = key or '%s:%s' % (suite, json.dumps(case.get('key', None) if isinstance(case, dict) else None))


class Suite:
	"""name; gen(tier) -> (cases, [TlcResult]); run(case) -> list of messages"""
	def __init__(self, name, gen, run, procs=8, chunk=None, min_cases=1, nontrivial=None, timeout=CASE_TIMEOUT):
		self.name, self.gen, self.run = name, gen, run
		self.procs, self.chunk, self.min_cases = procs, chunk, min_cases
		self.nontrivial = nontrivial
		self.timeout = timeout

	def execute(self, prop, tier, stats):
		cases, tlcs = self.gen(tier)
		return self.execute_cases(prop, cases, tlcs, stats)

	def execute_cases(self, prop, cases, tlcs, stats):
		for t in tlcs:
			stats['states'] += t.states
			stats['transitions'] += t.transitions
		if len(cases) < self.min_cases:
			raise MachineryError('suite %s generated only %d cases' % (self.name, len(cases)))
		results = pmap(self.run, cases, self.procs, self.chunk, self.timeout)
		fails = []
		for c, r in zip(cases, results):
			if isinstance(r, tuple) and r and r[0] == 'EXC':
				r = ['raised/hung: ' + r[1]]
			if r:
				fails.append(Failure(prop, self.name, c, r))
		stats['traces_validated_against_impl'] += len(cases)
		stats['suites'][self.name] = {'kind': 'replay of TLC behaviours', 'cases': len(cases), 'failed': len(fails),
			'states': sum(t.states for t in tlcs)}
		if self.nontrivial:
			stats['suites'][self.name]['nontrivial'] = sum(1 for c in cases if self.nontrivial(c))
		if cases:
			stats['samples'].append({'suite': self.name, 'case': cases[(SEED*7919) % len(cases)]})
		return fails


class TraceSuite(Suite):
	"""drive(case) -> trace: a list of events (dicts of ints, strings, lists) recorded from the real code.
	The traces are judged by TLC with the trace specification `module`, which must print, once per trace,
	[t |-> trace number, verdict |-> "ok" or failing clause, at |-> event number]."""
	def __init__(self, name, gen, drive, module, constants=None, procs=8, chunk=None, min_cases=1, tlc_workers=8,
			timeout=CASE_TIMEOUT, batch=400, min_events=1, invariants=('TypeOK',)):
		Suite.__init__(self, name, gen, None, procs, chunk, min_cases, timeout=timeout)
		self.drive, self.module, self.constants = drive, module, constants or {}
		self.tlc_workers, self.batch, self.min_events = tlc_workers, batch, min_events
		self.invariants = invariants

	def execute_cases(self, prop, cases, tlcs, stats):
		for t in tlcs:
			stats['states'] += t.states
			stats['transitions'] += t.transitions
		if len(cases) < self.min_cases:
			raise MachineryError('suite %s generated only %d cases' % (self.name, len(cases)))
		results = pmap(self.drive, cases, self.procs, self.chunk, self.timeout)
		fails, traces, idx = [], [], []
		for i, (c, r) in enumerate(zip(cases, results)):
			if isinstance(r, tuple) and r and r[0] == 'EXC':
				fails.append(Failure(prop, self.name, c, ['raised/hung: ' + r[1]]))
			else:
				traces.append(r)
				idx.append(i)
		nev = sum(len(t) for t in traces)
		states = 0
		for start in range(0, len(traces), self.batch):
			part = traces[start:start + self.batch]
			verdicts, tl = judge(self.module, part, self.constants, self.tlc_workers, self.invariants)
			stats['states'] += tl.states
			stats['transitions'] += tl.transitions
			states += tl.states
			for j, v in enumerate(verdicts):
				if v['verdict'] != 'ok':
					i = idx[start + j]
					at = v['at']
					ev = part[j][at - 1] if 1 <= at <= len(part[j]) else None
					fails.append(Failure(prop, self.name, cases[i],
						['trace rejected by %s: clause "%s" at event %d: %s' % (self.module, v['verdict'], at, json.dumps(ev)[:1500])]))
		if not fails and nev < self.min_events:
			raise MachineryError('suite %s recorded only %d events' % (self.name, nev))
		stats['traces_validated_against_impl'] += len(traces)
		stats['suites'][self.name] = {'kind': 'traces of the code judged by TLC', 'traces': len(traces), 'events': nev,
			'failed': len(fails), 'states': states}
		if traces:
			k = (SEED*7919) % len(traces)
			stats['samples'].append({'suite': self.name, 'case': cases[idx[k]], 'trace': traces[k][:6]})
		return fails


def _check_ints(x):
	if isinstance(x, bool) or isinstance(x, str):
		return
	if isinstance(x, int):
		if abs(x) > INT_MAX:
			raise MachineryError('integer %d too large for TLC' % x)
	elif isinstance(x, (list, tuple)):
		for y in x:
			_check_ints(y)
	elif isinstance(x, dict):
		for y in x.values():
			_check_ints(y)
	else:
		raise MachineryError('value %r of type %s in a trace' % (x, type(x)))


def judge(module, traces, constants=None, workers=8, invariants=('TypeOK',)):
	"""Have TLC judge the traces; returns one verdict per trace"""
	_check_ints(traces)
	tmp = tempfile.mkdtemp(prefix='vtrace.')
	try:
		path = os.path.join(tmp, 'traces.json')
		with open(path, 'w') as f:
			json.dump(traces, f)
		res = run_tlc(module, cfg_text('Spec', constants, invariants=list(invariants)), env={'TRACES': path}, workers=workers)
	finally:
		shutil.rmtree(tmp, ignore_errors=True)
	verdicts = [None]*len(traces)
	for r in res.records:
		if verdicts[r['t'] - 1] is None or verdicts[r['t'] - 1]['verdict'] == 'ok':
			verdicts[r['t'] - 1] = r
	missing = [i for i, v in enumerate(verdicts) if v is None]
	if missing:
		raise MachineryError('%s gave no verdict for %d of %d traces\n%s' % (module, len(missing), len(traces), res.output_tail))
	return verdicts, res


################################################################################
# Findings and the main loop
################################################################################
def known_findings():
	path = os.path.join(VERIF, 'known_findings.jsonl')
	out = []
	if os.path.exists(path):
		with open(path) as f:
			for line in f:
				line = line.strip()
				if line and line.startswith('{'):
					out.append(json.loads(line))
	return [f for f in out if f.get('status') == 'known']


def run_property(prop, tier, suites, level='model_checking', assumptions=()):
	t0 = time.time()
	stats = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'suites': {}}
	fails = []
	for s in suites:
		t1 = time.time()
		fails += s.execute(prop, tier, stats)
		stats['suites'].setdefault(s.name, {})['wall_s'] = round(time.time() - t1, 1)
	known = [k for k in known_findings() if k['property'] == prop]
	reported, suppressed = [], {}
	for f in fails:
		hit = [k for k in known if k['suite'] == f.suite and k['key'] == f.key]
		if hit:
			suppressed.setdefault(hit[0]['key'], hit[0])
		else:
			reported.append(f)
	for k in known:
		print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	coverage = {k: stats[k] for k in ('states', 'transitions', 'traces_validated_against_impl', 'suites')}
	coverage['samples'] = json.loads(json.dumps(stats['samples'], default=str))
	ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': coverage,
		'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
	with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
		json.dump(ev, f, indent=1)
	if reported:
		os.makedirs(REPLAYS, exist_ok=True)
		for n, f in enumerate(reported[:3]):
			path = os.path.join(REPLAYS, '%s-%d.json' % (prop, n))
			with open(path, 'w') as fo:
				json.dump({'property': prop, 'suite': f.suite, 'case': f.case, 'what': f.what, 'key': f.key, 'seed': SEED,
					'how': 'bash /verif/run.sh %s --replay %s' % (prop, path)}, fo, indent=1)
			print('%s: %s: %s' % (prop, f.suite, '; '.join(f.what)[:1500]))
			print('VIOLATION property=%s replay=%s' % (prop, path))
		print('%s: %d violations in total' % (prop, len(reported)))
		return 1
	print('%s: held on %d cases/traces, %d states, %d transitions (%.1f s)' % (prop, stats['traces_validated_against_impl'],
		stats['states'], stats['transitions'], time.time() - t0))
	return 0


def replay(prop, suites, path):
	with open(path) as f:
		r = json.load(f)
	s = [s for s in suites if s.name == r['suite']][0]
	stats = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'suites': {}}
	s.min_cases = 0
	fails = s.execute_cases(prop, [r['case']], [], stats)
	for f in fails:
		print('%s: %s: %s' % (prop, f.suite, '; '.join(f.what)))
		print('VIOLATION property=%s replay=%s' % (prop, path))
	if not fails:
		print('%s: the case passes' % prop)
	return 1 if fails else 0


def tlc_cases(module, tier_constants, invariants=(), spec='Spec', simulate=None, depth=None, post=None, constraints=(), limit=None,
		properties=(), dedup=True):
	"""A generator for Suite: run TLC on `module` and take the records it prints as the cases"""
	def gen(tier):
		consts = dict(tier_constants.get('both', {}))
		consts.update(tier_constants.get(tier, {}))
		sim = simulate[tier] if isinstance(simulate, dict) else simulate
		dep = depth[tier] if isinstance(depth, dict) else depth
		r = run_tlc(module, cfg_text(spec, consts, invariants=list(invariants), constraints=list(constraints), properties=list(properties)),
			simulate=sim, depth=dep, workers=1 if sim else 8)
		cases = r.records
		if dedup:
			seen, out = set(), []
			for c in cases:
				h = json.dumps(c, sort_keys=True)
				if h not in seen:
					seen.add(h)
					out.append(c)
			cases = out
		cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
		if post:
			cases = post(cases, tier)
		if limit and len(cases) > limit[tier]:
			# a fixed, seeded subset
			import random
			rng = random.Random(SEED)
			cases = sorted(rng.sample(cases, limit[tier]), key=lambda c: json.dumps(c, sort_keys=True))
		return cases, [r]
	return gen
