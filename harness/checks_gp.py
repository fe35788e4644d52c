"""Gaussian processes"""
import warnings
from unittest import mock
import numpy as np
import scipy.optimize
from psdr import GaussianProcess

from core import Suite, TraceSuite, tlc_cases, fl, fls, case_hash
from checks_bas import Report

LN2 = np.log(2.)
K = 10000


def scaling(case):
	"""the parameters for which |L d|^2 = 2 ln(2) E(d), and L"""
	g, m = case['g'], case['m']
	if g['st'] == 'diag':
		ell = 0.5*np.log(2*LN2*np.array(g['d'], dtype=float))
		return ell, np.diag(np.exp(ell))
	S = np.array(g['S'], dtype=float)
	a = 0.5*np.log(2*LN2*g['c'])
	if g['st'] == 'tril':
		ell = S.copy()
		ell[np.diag_indices(m)] = a
		return ell[np.tril_indices(m)], np.exp(a)*S
	return np.array([a]), np.exp(a)*S


def make(case, st, deg, tau=None):
	kw = {}
	if st == 'scalar_mult':
		kw['Lfixed'] = np.array(case['g']['S'], dtype=float) if 'g' in case else np.array(fixed(case['m']), dtype=float)
	if tau:
		kw['nugget'] = tau
	return GaussianProcess(structure=st, degree=None if deg == -1 else deg, **kw)


def run_exact(case):
	rep = Report()
	ans, g, m = case['ans'], case['g'], case['m']
	h = case_hash(case)
	X, y, P = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float), np.array(case['P'], dtype=float).reshape(-1, m)
	tau = fl(case['tau'])
	ell, L = scaling(case)
	# likelihood and its gradient
	gp = make(case, g['st'], case['deg'], tau)
	gp._fit_init(X, y)
	rep.same('likelihood', [gp._obj(ell, X, y)], [fl(ans['quad']) + 0.5*np.log(fl(ans['det']))], 1e-6)
	if ans['grad']:
		rep.same('gradient of the likelihood', gp._grad(ell, X, y), LN2*np.array(fls(ans["grad"])), 1e-5)
	# the model for these parameters
	called = []

	def stay(fun, x0, *args, **kwargs):
		called.append(1)
		return scipy.optimize.OptimizeResult(x=ell.copy(), fun=fun(ell, *(kwargs.get('args') or ())), success=True)
	gp = make(case, g['st'], case['deg'], tau)
	U, v = X.copy(), y.copy()
	with mock.patch('scipy.optimize.minimize', stay):
		if h % 3 == 0:
			gp.fit(X[::-1] + 1, y[::-1] - 2)
		if h % 2 == 0:
			gp.fit(U, v.reshape(-1, 1))
		else:
			gp.fit(U.tolist(), v.tolist())
	if not called:
		return rep.out
	if not (np.array_equal(U, X) and np.array_equal(v, y)):
		rep.add('the data changed')
	U += 7
	v -= 3
	rep.same('scaling matrix', gp.L, L, 1e-9)
	rep.same('weights', gp.alpha, fls(ans['a']), 1e-6)
	rep.same('values at the data', gp(X), fls(ans['fX']), 1e-6)
	if len(P):
		want, var = fls(ans['f']), fls(ans['var'])
		keep = P.copy()
		rep.same('predictions', gp(P), want, 1e-6)
		rep.same('predict', gp.predict(P), want, 1e-6)
		rep.same('prediction at a point', gp(P[-1]), want[-1:], 1e-6)
		rep.same('predictions for a list', gp.eval(P.tolist()), want, 1e-6)
		f, cov = gp.eval(P, return_cov=True)
		rep.same('predictions with variances', f, want, 1e-6)
		rep.same('variances', cov, var, 1e-6)
		f, cov = gp.eval(P[0], return_cov=True)
		rep.same('variance at a point', [f[0], cov[0]], [want[0], var[0]], 1e-6)
		if not np.array_equal(P, keep):
			rep.add('the points changed')
	_, cov = gp.eval(X, return_cov=True)
	rep.same('variance at the data', cov, np.zeros(len(X)), 1e-6)
	return rep.out


def fixed(m):
	return [[2, 1, 0], [0, 1, -1], [1, 0, 1]][:m] if m == 3 else [[2, 1], [0, 1]] if m == 2 else [[3]]


def rnd(x):
	return [int(round(float(np.clip(v, -2e5, 2e5))*K)) if np.isfinite(v) else 2000000000 for v in np.atleast_1d(x)]


def drive_fits(case):
	a, m, st = case['ans'], case['m'], case['st']
	X, y, P = np.array(case['X'], dtype=float), np.array(a['y'], dtype=float), np.array(case['P'], dtype=float)
	deg = case['deg']
	trace = [{'kind': 'case', 'm': m, 'st': st, 'y': a['y'], 'explained': a['explained'], 'q': a['q'], 'fixed': [r[:m] for r in fixed(m)]}]
	V = np.array([np.ones(len(X))] if deg == 0 else [] if deg < 0 else [np.ones(len(X))] + list(X.T) + ([X[:, i]*X[:, j] for i in range(m) for j in range(i + 1)] if deg == 2 else []))
	gp = make(case, st, deg)
	for k in range(2):
		if k == 1:
			gp.fit(X + 1, y[::-1])
		U, v = X.copy(), y.copy()
		try:
			with warnings.catch_warnings():
				warnings.simplefilter('ignore')
				gp.fit(U, v)
		except Exception as ex:
			return trace + [{'kind': 'failed', 'why': type(ex).__name__}]
		f, q = gp(X), gp(P)
		_, varX = gp.eval(X, return_cov=True)
		_, var = gp.eval(P, return_cov=True)
		L = np.array(gp.L)
		ell0 = np.eye(m)[np.tril_indices(m)] if st == 'tril' else np.ones(m) if st == 'diag' else np.ones(1)
		before = gp._obj(ell0, X, y)
		after = gp._obj(gp._ell, X, y) if hasattr(gp, '_ell') else before
		shape = f.shape == y.shape and q.shape == (len(P),) and varX.shape == y.shape and L.shape == (m, m)
		scale = np.max(np.abs(L))
		w = np.sum(np.abs(gp.alpha)) + 1
		event = {'kind': 'fit', 'shape': bool(shape), 'kept': bool(np.array_equal(U, X) and np.array_equal(v, y)), 'before': rnd(before)[0], 'after': rnd(after)[0],
			'L': [[int(round(float(x))) for x in r] for r in 1000*L/scale], 'f': rnd(f), 'q': rnd(q), 'varX': rnd(varX), 'var': rnd(var),
			'moments': rnd(V @ gp.alpha/w) if len(V) else [], 'regular': bool(np.min(np.linalg.eigvalsh(np.exp(-0.5*np.sum(((X[:, None] - X[None]) @ L.T)**2, axis=2)))) > 1e-7)}
		trace.append(event)
	return trace


def K01():
	return [Suite('exact', tlc_cases('Gp', {'quick': {'Dims': {1, 2}, 'Vals': {0, 1, 3}, 'Share': 3}, 'thorough': {'Dims': {1, 2}, 'Vals': {0, 1, 3, 4}, 'Share': 1}},
			invariants=['Sane', 'Emit']), run_exact, min_cases=500),
		TraceSuite('fits', tlc_cases('GpFit', {'quick': {'Dims': {1, 2, 3}, 'Sizes': {2, 4, 6}, 'Share': 97}, 'thorough': {'Dims': {1, 2, 3}, 'Sizes': {1, 2, 3, 4, 5, 6, 7}, 'Share': 37}},
			invariants=['Sane', 'Emit']), drive_fits, 'GpTrace', constants={'K': K, 'Tol': 20}, min_cases=60)]
