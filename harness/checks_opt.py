"""The solvers: Gauss-Newton, minimax, sequential linear programs"""
import contextlib
import io

import numpy as np
from psdr import BaseFunction, BoxDomain
from psdr.gn import gauss_newton, linesearch_armijo, BadStep
from psdr.minimax import minimax
from psdr.seqlp import sequential_lp

from core import Suite, TraceSuite, tlc_cases, fl, fls, q, case_hash
from checks_bas import Report
from domlib import replay_history

NAN, BAD, NANV = 99999, -1, -2


################################################################################
# O01: Gauss-Newton
################################################################################
def run_iteration(case):
	"""The specification scripts residuals, Jacobians, directions, and the line search"""
	rep = Report()
	r, j, d = case['r'], case['j'], case['d']
	for verbose in (0, 1):
		calls, solves = [], []

		def f(x):
			return np.array([float(r[int(x[0])])])

		def F(x):
			return np.array([[float(j[int(x[0])])]])

		def gnsolver(Fx, fx):
			solves.append((float(Fx[0, 0]), float(fx[0])))
			p = d[len(solves) - 1] if len(solves) <= len(d) else 64
			return np.array([np.nan if p == NAN else p/64.]), np.array([1.])

		def linesearch(f, g, p, x, **kwargs):
			calls.append({'at': int(x[0]), 'g': float(g[0]), 'p': float(p[0])})
			new = np.array([float(len(calls))])
			return new, 1., f(new) if len(calls) < len(r) else np.array([0.])
		x0 = np.zeros(1)
		try:
			x, info = gauss_newton(f, F, x0, tol=case['tol']/64., tol_normdx=0.5, maxiter=case['maxiter'], linesearch=linesearch,
				gnsolver=gnsolver, verbose=verbose)
			got = (int(x[0]), int(info))
		except RuntimeError:
			got = ('error', -2)
		want = ('error', -2) if case['info'] == -2 else (case['x'], case['info'])
		if got != want:
			rep.add('verbose %d: returned point %s with info %s; the specification has %s' % (verbose, got[0], got[1], want))
		expect = [{'at': c['at'], 'g': float(c['g']), 'p': c['p']/64.} for c in case['calls']]
		if calls != expect:
			rep.add('verbose %d: line searches %s; the specification has %s' % (verbose, calls, expect))
		if x0[0] != 0:
			rep.add('the starting point changed')
	return rep.out


def run_linesearch(case):
	rep = Report()
	trials, B = case['trials'], case['B']
	for curve in (False, True):
		seen = {}

		def trajectory(x, p, t):
			if not curve:
				return x + t*p
			i = int(round(np.log(t)/np.log(1./B)))
			if i < len(trials) and trials[i] == BAD:
				raise BadStep
			return x + t*p + t**2*np.array([0., 3.])

		def f(x):
			t = x[0] - 5.
			i = int(round(-np.log(t)/np.log(B)))
			seen[i] = x
			v = trials[i] if i < len(trials) else 0
			if v == BAD:
				raise BadStep
			v = np.nan if v == NANV else v/64.
			return np.array([0.6*v, 0.8*v]) if curve else np.array([v])
		x0, p = np.array([5., 1.]), np.array([1., 2.])
		g = np.array([case['slope']/64., 0.])
		fx0 = np.array([case['norm0']/64.])
		x, alpha, fx = linesearch_armijo(f, g, p, x0, bt_factor=1./B, ftol=0.25, maxiter=case['maxiter'], trajectory=trajectory, fx0=fx0)
		step = fl(case['step'])
		rep.same('step', [alpha], [step], 1e-12)
		if case['found']:
			rep.same('point', x, x0 + step*p + (step**2*np.array([0., 3.]) if curve else 0), 1e-12)
			rep.same('residual norm', [np.linalg.norm(fx)], [trials[-1]/64.], 1e-12)
		else:
			rep.same('point', x, [5., 1.], 1e-12)
			rep.same('residual', fx, fx0, 1e-12)
		if not (np.array_equal(x0, [5., 1.]) and np.array_equal(p, [1., 2.])):
			rep.add('the arguments changed')
	return rep.out


def smooth(fam, m, q_=4):
	"""vector functions R^m -> R^q with Jacobian"""
	C = np.array([[((3*i + 5*k + i*k) % 7) - 3 for k in range(m)] for i in range(q_)], dtype=float)
	if fam == 1:
		return (lambda x: np.sum((x - C)**2, axis=1) - np.arange(q_)*3., lambda x: 2*(x - C))
	if fam == 2:
		return (lambda x: np.exp(np.clip(C @ x/8, -30, 30)) + C @ x - 4, lambda x: (np.exp(np.clip(C @ x/8, -30, 30))/8 + 1)[:, None]*C)
	if fam == 3:
		w = np.arange(1, q_ + 1)/2.
		return (lambda x: np.sin(w*x[0]) + (C @ x)**2/20 - 1, lambda x: np.outer(w*np.cos(w*x[0]), np.eye(m)[0]) + (C @ x/10)[:, None]*C)
	return (lambda x: np.hstack([10*(x[-1] - x[0]**2), 1 - x[0], x - 2]),
		lambda x: np.vstack([10*(np.eye(m)[-1] - 2*x[0]*np.eye(m)[0]), -np.eye(m)[0], np.eye(m)]))


def drive_gn(case):
	"""least squares problems: linear ones with known solution, and smooth ones"""
	c = case['q']
	m = case['m']
	if c['kind'] == 'norm':
		A = np.array([f['a'] for f in case['F']], dtype=float)
		b = np.array([f['b'] for f in case['F']], dtype=float)
		f, F = (lambda x: A @ x + b), (lambda x: A.copy())
		known, val = True, np.sqrt(fl(case['val']))
	else:
		f, F = smooth(c['fam'], m)
		known, val = False, 0.
	x0 = np.array(fls(case['starts'][0]))
	scale = 1e6/(1 + np.linalg.norm(f(x0)))
	outs = []
	maxiter = 60 if c['kind'] == 'norm' else [3, 200][case_hash(case) % 2]
	tol = 1e-8
	for verbose in (0, 1):
		trace = []

		def jac(x):
			trace.append(dict(kind='iter', obj=q(np.linalg.norm(f(x)), scale), viol=0, inside=True))
			return F(x)
		keep = x0.copy()
		with contextlib.redirect_stdout(io.StringIO()):
			x, info = gauss_newton(f, jac, x0, verbose=verbose, maxiter=maxiter, tol=tol)
		outs.append((x, info))
	g0, g = np.linalg.norm(F(x0).T @ f(x0)), np.linalg.norm(F(x).T @ f(x))
	iters = len(trace) - 1
	# 0: stationary; 2: the iterations ran out
	honest = (info != 0 or g <= max(tol*g0, 1e-14)*(1 + 1e-6)) and (info != 2 or iters >= maxiter - 1) and info in (0, 1, 2, 3)
	if known and g0 > 1e-6 and g > 1e-5*g0:
		honest = False
	first = dict(kind='start', obj=q(np.linalg.norm(f(x0)), scale), viol=0)
	end = dict(kind='end', obj=q(np.linalg.norm(f(x)), scale), viol=0, inside=True, known=known, sharp=True, val=q(val, scale), kept=bool(np.array_equal(keep, x0)),
		same=bool(np.array_equal(outs[0][0], outs[1][0]) and outs[0][1] == outs[1][1]), honest=bool(honest))
	return [first] + trace + [end]


def O01():
	it = {'quick': {'Maxiter': 3},
		'thorough': {'Maxiter': 4}}
	ls = {'quick': {'MaxTrials': 3, 'Norms': {0, 32, 48, 56, 60, 62, 63, 64, 80}}, 'thorough': {'MaxTrials': 4, 'Norms': {0, 48, 56, 60, 62, 64, 120}}}
	lsq = {'quick': {'Full': False, 'S': 1, 'Kinds': {'norm', 'smooth'}}, 'thorough': {'Full': True, 'S': 1, 'Kinds': {'norm', 'smooth'}}}

	def unconstrained(cases, tier):
		# least squares on the whole space only; problems on a domain give starting points for smooth problems
		return [c for c in cases if c['q']['norm'] == '2' and c['q']['lo'] == -1000 and c['q']['hi'] == 1000
			and (c['q']['kind'] == 'smooth' or c['q']['cat'] == 23)]
	return [Suite('iteration', tlc_cases('GaussNewton', it, invariants=['Monotone', 'Ends', 'Truthful', 'Descent', 'Emit'], properties=['Decreases'],
			limit={'quick': 6000, 'thorough': 60000}), run_iteration, min_cases=2000),
		Suite('linesearch', tlc_cases('Armijo', ls, invariants=['Sane', 'Emit'], limit={'quick': 6000, 'thorough': 60000}), run_linesearch, min_cases=3000),
		TraceSuite('least squares', tlc_cases('Opt', lsq, invariants=['Sane', 'Emit'], post=unconstrained), drive_gn, 'OptTrace',
			constants={'Tol': 2, 'OptTol': 50}, min_cases=20)]


################################################################################
# O02: minimax, O03: sequential linear programs
################################################################################
NORM = {'1': 1, '2': 2, 'inf': np.inf, 'hinge': 'hinge', 'None': None}


def objective(norm, v):
	v = np.asarray(v, dtype=float)
	if norm == 'max':
		return np.max(v)
	if norm == 'hinge':
		return np.sum(np.maximum(v, 0))
	if norm == 'None':
		return float(np.ravel(v)[0])
	return np.linalg.norm(v, NORM[norm])


def problem(case):
	"""(f, jac, known optimum or None) of a case"""
	c = case['q']
	if c['kind'] == 'ball':
		C = np.array(case['F'], dtype=float)
		return (lambda x: np.sum((x - C)**2, axis=1)), (lambda x: 2*(x - C)), fl(case['val'])
	if c['kind'] == 'smooth':
		f, J = smooth(c['fam'], case['m'])
		return f, J, None
	if c['kind'] == 'circle':
		z = case['F'][0]
		y, u = np.array(z['y'], dtype=float), np.array(z['c'], dtype=float)
		if c['norm'] == 'None':
			return (lambda x: u @ x), (lambda x: u), fl(case['val'])
		p = y - 2*u
		return (lambda x: x - p), (lambda x: np.eye(2)), np.sqrt(fl(case['val'])) if c['norm'] == '2' else None
	A = np.array([f['a'] for f in case['F']], dtype=float)
	b = np.array([f['b'] for f in case['F']], dtype=float)
	val = fl(case['val'])
	if c['kind'] == 'linear':
		return (lambda x: A[0] @ x + b[0]), (lambda x: A[0].copy()), val
	return (lambda x: A @ x + b), (lambda x: A.copy()), np.sqrt(val) if c['norm'] == '2' else val


class Recorder:
	def __init__(self, case, x0, D):
		self.norm = case['q']['norm']
		self.f, self.jac, self.val = problem(case)
		self.D, self.x0 = D, x0
		self.sharp = case['q']['kind'] != 'circle'
		self.scale = 1e6/(1 + np.max(np.abs(self.f(x0))))
		self.trace = [self.event('start', x0)]

	def violation(self, x):
		return 0.

	def inside(self, x):
		return bool(self.D.isinside(x, tol=1e-5)) if self.D is not None else True

	def event(self, kind, x, **kw):
		return dict(kind=kind, obj=q(objective(self.norm, self.f(x)), self.scale), viol=q(self.violation(x), 1e6), inside=self.inside(x), **kw)

	def eval(self, x):
		self.trace.append(dict(kind='eval', inside=self.inside(x)))
		return self.f(x)

	def grad(self, x):
		self.trace.append(self.event('iter', x))
		return self.jac(x)

	def end(self, x, **kw):
		known = self.val is not None
		self.trace.append(self.event('end', x, known=known, sharp=self.sharp, val=q(self.val if known else 0, self.scale), **kw))
		return self.trace


def drive_minimax(case):
	D = replay_history(case['hist'])[-1]
	x0 = np.array(fls(case['starts'][case_hash(case) % 2]))
	outs = []
	unb = case['q']['kind'] != 'ball' or D.is_unbounded
	for trust in ((True,) if unb else (True, False)):
		for verbose in (False, True):
			rec = Recorder(case, x0, D)
			fun = BaseFunction()
			fun.eval, fun.grad = rec.eval, rec.grad
			keep = x0.copy()
			x = minimax(fun, x0, domain=D, verbose=verbose, trust_region=trust)
			outs.append(x)
		if not np.array_equal(outs[-1], outs[-2]):
			break
	return rec.end(x, kept=bool(np.array_equal(x0, keep)), same=bool(np.array_equal(outs[-2], outs[-1])), honest=True)


def drive_seqlp(case):
	c = case['q']
	D = replay_history(case['hist'])[-1]
	x0 = np.array(fls(case['starts'][case_hash(case) % 2]))
	kw = {}
	con = None
	if c['kind'] == 'circle':
		D = BoxDomain([-100, -100], [100, 100])
		z = case['F'][0]
		y, r = np.array(z['y'], dtype=float), float(z['r'])
		con = lambda x: (x - y) @ (x - y)
		kw.update(constraints=[con], constraint_grads=[lambda x: 2*(x - y)], constraints_ub=[r**2])
	outs = []
	for verbose in (False, True):
		rec = Recorder(case, x0, D)
		n = np.size(rec.f(x0))
		lo, hi = c['lo'], c['hi']
		# (for smooth functions relative to the start, where they are allowed a third of that)
		base, w = (rec.f(x0), 1/3) if c['kind'] == 'smooth' else (np.zeros(n), 1.)
		if lo != -1000:
			kw['obj_lb'] = base + lo*w
		if hi != 1000:
			kw['obj_ub'] = base + hi*w

		def violation(x):
			v = 0. if con is None else max(con(x) - r**2, 0)/r
			f = rec.f(x)
			if lo != -1000:
				v = max(v, np.max(kw['obj_lb'] - f))
			if hi != 1000:
				v = max(v, np.max(f - kw['obj_ub']))
			return v
		rec.violation = violation
		rec.trace = [rec.event('start', x0)]
		keep = x0.copy()
		if n > 1 and case_hash(case) % 3 == 0 and c['kind'] != 'smooth':
			# the functions may also be given one by one
			fs = [(lambda x, i=i: rec.f(x)[i]) for i in range(n)]
			js = [(lambda x, i=i: rec.jac(x)[i]) for i in range(n)]
			x = sequential_lp(fs, x0, js, norm=NORM[c['norm']], domain=D, verbose=verbose, **kw)
		else:
			x = sequential_lp(rec.eval, x0, rec.grad, norm=NORM[c['norm']], domain=D, verbose=verbose, **kw)
		outs.append(x)
	return rec.end(x, kept=bool(np.array_equal(x0, keep)), same=bool(np.array_equal(outs[-2], outs[-1])), honest=True)


def O02():
	k = {'minimax', 'ball', 'smooth'}
	consts = {'quick': {'Full': False, 'S': 1, 'Kinds': k}, 'thorough': {'Full': True, 'S': 1, 'Kinds': k}}
	post = lambda cs, tier: [c for c in cs if c['q']['norm'] == 'max']
	return [TraceSuite('minimax', tlc_cases('Opt', consts, invariants=['Sane', 'Emit'], post=post), drive_minimax, 'OptTrace',
		constants={'Tol': 3, 'OptTol': 100}, min_cases=100)]


def O03():
	k = {'norm', 'linear', 'circle', 'smooth'}
	consts = {'quick': {'Full': False, 'S': 1, 'Kinds': k}, 'thorough': {'Full': True, 'S': 1, 'Kinds': k}}
	post = lambda cs, tier: [c for c in cs if c['q']['norm'] != 'max']
	return [TraceSuite('programs', tlc_cases('Opt', consts, invariants=['Sane', 'Emit'], post=post, limit={'quick': 420, 'thorough': 100000}), drive_seqlp, 'OptTrace',
		constants={'Tol': 3, 'OptTol': 100}, min_cases=300)]
