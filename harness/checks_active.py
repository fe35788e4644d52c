"""Active subspaces, local linear models, outer products of their gradients, nonlinearity"""
import numpy as np
import psdr
from psdr import ActiveSubspace, OuterProductGradient, local_linear, local_linear_grads, perplexity_bandwidth, measure_nonlinearity

from core import Suite, tlc_cases, fl, fls, case_hash
from checks_bas import Report, arr


################################################################################
# A01: active subspaces
################################################################################
def check_subspace(rep, est, C, mean, e=None, tol=1e-9):
	"""what an active subspace with the matrix C shows"""
	m = len(C)
	U, s = np.array(est.U), np.array(est.singvals)
	n = 1 + np.trace(C)
	if U.shape != (m, m) or s.shape != (m,):
		rep.add('U has shape %s and there are %s singular values' % (U.shape, s.shape))
		return
	rep.same('C', est.C, C, tol)
	rep.same("U'U", U.T @ U, np.eye(m), tol)
	rep.same("U'CU", U.T @ C @ U/n, np.diag(s**2)/n, tol)
	if np.any(np.diff(s) > 1e-9*n) or np.any(s < 0):
		rep.add('singular values %s' % s)
	if e is not None:
		w = np.array(list(s**2) + [0.]*(3 - m))
		rep.same('trace, minors and determinant of C', [w.sum()/n, (w[0]*w[1] + w[0]*w[2] + w[1]*w[2])/n**2, w.prod()/n**3],
			[e[0]/n, e[1]/n**2, e[2]/n**3], tol)
	if np.any(np.array(mean) @ U < -1e-8*n):
		rep.add('the gradients point down along U: %s' % (np.array(mean) @ U))
	est.U[:] = 7
	rep.same('U after scribbling over it', est.U, U, 0)


def quadratic(f):
	Q, b = np.array(f['Q'], dtype=float), np.array(f['b'], dtype=float)
	c, h = np.array(f['box']['c'], dtype=float), np.array(f['box']['h'], dtype=float)
	return psdr.Function(lambda x: float(0.5*x @ Q @ x + b @ x), psdr.BoxDomain(c - h, c + h), grads=lambda x: Q @ x + b)


def run_active(case):
	rep = Report()
	m, last = case['m'], case['hist'][-1]
	for lists in (False, True):
		est = ActiveSubspace()
		for f in case['hist']:
			if f['kind'] == 'grads':
				G, w = np.array(f['G'], dtype=float).reshape(-1, m), fls(f['w']) if f['w'] else None
				keep = G.copy()
				args = (G.tolist() if lists else G,) + (() if w is None else (list(w) if lists else np.array(w),))
				est.fit(*args)
				rep.same('the argument', G, keep, 0)
			else:
				est.fit_function(quadratic(f), [3**m, 4**m, 5**m + 1][case_hash(case) % 3])
		check_subspace(rep, est, arr(case['ans']['C']), fls(case['ans']['mean']), fls(case['ans']['e']))
		if last['kind'] == 'grads' and len(est) != m:
			rep.add('len is %d' % len(est))
	return rep.out


def run_local(case):
	rep = Report()
	m, ans = case['m'], case['ans']
	X, T, f = np.array(case['X'], dtype=float), np.array(case['T'], dtype=float), np.array(case['f'], dtype=float)
	own, at = arr(ans['own']), arr(ans['at'])
	bw = 2*np.log(2)/case['unit']
	keep = [X.copy(), T.copy(), f.copy()]
	rep.same('models at the samples', local_linear(X, f, bandwidth=bw), own, 1e-8)
	rep.same('models elsewhere', local_linear(X, f, bandwidth=bw, Xt=T), at, 1e-8)
	rep.same('models at one point', local_linear(X, f, bandwidth=bw, Xt=T[:1]), at[:1], 1e-8)
	rep.same('gradients at the samples', local_linear_grads(X, f.reshape(-1, 1), bandwidth=bw), own[:, 1:], 1e-8)
	rep.same('gradients elsewhere', local_linear_grads(X, f, bandwidth=bw, Xt=T), at[:, 1:], 1e-8)
	rep.same('models, lists', local_linear(X.tolist(), f.tolist(), bandwidth=bw, Xt=T.tolist()), at, 1e-8)
	s = 10.**(case_hash(case) % 5 - 2)
	rep.same('models in other units', local_linear(s*X, f, bandwidth=bw/s**2, Xt=s*T)*np.array([1.] + [s]*m), at, 1e-8)
	xia = 2.34*len(X)**(-1./(max(m, 3) + 6))
	rep.same('the bandwidth of Xia', local_linear(X, f, bandwidth='xia', Xt=T), local_linear(X, f, bandwidth=xia, Xt=T), 1e-8)
	if case['kind'] == 'affine':
		# (two points twice: a perplexity of two leaves only one of them)
		for kw in ({'bandwidth': 0.3},) + (({}, {'perplexity': min(m + 1.5, len(X) - 0.5)}) if m > 1 or not case['std'] else ()):
			rep.same('models of affine data, %s' % kw, local_linear(X, f, **kw), own, 1e-6)
			rep.same('models of affine data in the middle, %s' % kw, local_linear(X, f, Xt=np.mean(X, axis=0).reshape(1, -1), **kw), own[:1], 1e-6)
	if len(ans['C']):
		C, mean = arr(ans['C']), np.mean(own[:, 1:], axis=0)
		for how in ('plain', 'lists', 'refit'):
			opg = OuterProductGradient(standardize=False, bandwidth=bw)
			if how == 'refit':
				opg.fit(X[::-1]*2 + 1, np.arange(len(X))**2)
			opg.fit(*((X.tolist(), f.tolist()) if how == 'lists' else (X, f)))
			check_subspace(rep, opg, C, mean, tol=1e-8)
	if case['std']:
		# other units and offsets of the inputs: the standardized data are the same, and the directions transform along
		ev, Z = np.linalg.eigh(arr(ans['C']))
		Z = Z[:, ::-1]
		units = np.array([[1., 4., 0.25], [100., 1e-2, 1.], [3., 3., 3.]][case_hash(case) % 3][:m])
		opg = OuterProductGradient(standardize=True, bandwidth=bw)
		opg.fit(X*units + np.array([5., -3., 0.])[:m], f)
		U = np.array(opg.U)
		rep.same("U'U", U.T @ U, np.eye(m), 1e-9)
		for k in range(1, m + 1):
			if k == m or ev[m - k] - ev[m - k - 1] > 1e-6*(1 + ev[-1]):
				want = np.linalg.qr((Z/units.reshape(-1, 1))[:, :k])[0]
				rep.same('the space of the first %d directions' % k, U[:, :k] @ U[:, :k].T, want @ want.T, 1e-7)
		if np.any(np.mean(own[:, 1:], axis=0)/units @ U < -1e-8):
			rep.add('the gradients point down along U')
		# an input that never changes
		opg.fit(np.hstack([X*units, np.full((len(X), 1), 3.)]), f)
		if ev[-1] > 1e-6 and (m == 1 or ev[-1] - ev[-2] > 1e-6):
			want = np.append(Z[:, 0]/units, 0.)
			rep.same('the first direction with a constant input', np.outer(opg.U[:, 0], opg.U[:, 0]), np.outer(want, want)/(want @ want), 1e-7)
	if not all(np.array_equal(a, b) for a, b in zip(keep, [X, T, f])):
		rep.add('the arguments changed')
	return rep.out


def run_perplexity(case):
	rep = Report()
	d = np.array(case['d'], dtype=float)
	target = fl(case['z'])*2**fl(case['e'])
	h = case_hash(case)
	for unit, shift, perm in ((1., 0., 1), ([1e-3, 7., 1e4][h % 3], 0., -1), (1., [0.5, 3., 40.][h//3 % 3], 1)):
		beta = perplexity_bandwidth((unit*d + shift)[::perm], target)
		rep.same('beta, unit %g, shift %g' % (unit, shift), [beta*unit], [np.log(2)], 1e-6)
	if case['ties'] > 1:
		# less than the number of closest points is impossible: only these count
		beta = perplexity_bandwidth(d, [1.5, case['ties'] - 0.1][h % 2])
		rep.same('weights for an impossible perplexity', np.exp(-beta*(d - d.min())), 1.*(d == d.min()), 1e-6)
	return rep.out


def run_nonlinear(case):
	rep = Report()
	X, f, ans = np.array(case['X'], dtype=float), np.array(case['f'], dtype=float), case['ans']
	L0, best = fl(ans['L0']), fl(ans['best'])
	I, J = np.triu_indices(len(X), k=1)
	P = X[I] - X[J]
	for unit, kind in ((1., 'array'), ([0.1, 30.][case_hash(case) % 2], 'column'), (1., 'list')):
		g = unit*f + 3
		n, a = measure_nonlinearity(X.tolist() if kind == 'list' else X, g.reshape(-1, 1) if kind == 'column' else g.tolist() if kind == 'list' else g)
		rep.same('nonlinearity, ' + kind, [n], [best/L0 if L0 else 0.], 1e-5)
		a = np.array(a).flatten()/unit
		if a.shape != (case['m'],):
			rep.add('coefficients of shape %s' % (a.shape,))
			continue
		rep.same('what the linear fit leaves', [np.max(np.abs(f[I] - f[J] - P @ a)/np.linalg.norm(P, axis=1))], [best], 1e-4)
		if ans['line']:
			rep.same('slopes of the linear fit', P @ a, P @ fls(ans['a']), 1e-4)
	return rep.out


class Pool:
	"""a function with given gradients at given points"""
	def __init__(self, G):
		self.G = G
		self.domain = psdr.BoxDomain([0., 0.], [4., 4.])

	def index(self, X):
		X = np.asarray(X)
		assert X.ndim == 2 and X.shape[1] == 2 and np.all(X[:, 1] == 0.5)
		return [int(x) for x in X[:, 0]]

	def __call__(self, X):
		return np.array([[float(np.sum(self.G[i])*10 + i)] for i in self.index(X)])

	def grad(self, X):
		return np.array([self.G[i] for i in self.index(X)])


class Recorder:
	def __init__(self):
		self.calls = []

	def fit(self, X=None, fX=None, grads=None):
		self.calls.append((X, fX, grads))

	@property
	def U(self):
		a = float(len(self.calls))
		return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def run_angle(case):
	rep = Report()
	fun = Pool(np.array(case['G'], dtype=float))
	asked = []

	def sampler(domain, n):
		asked.append((domain, n))
		X = np.array([[i, 0.5] for i in range(min(n, case['cap']))])
		return X[0] if len(X) == 1 else X
	ns = list(case['ns'])
	ac = psdr.ActiveSubspace()
	for what, kw in (('once', {}), ('again', {'domain': None}), ('on a domain', {'domain': psdr.BoxDomain([-1., -1.], [5., 5.])})):
		del asked[:]
		angles, M = psdr.subspace_convergence(ac, fun, sampler, ns, data='grad', **kw)
		if list(M) != case['M'] or [n for _, n in asked] != ns or any(d is not (kw.get('domain') or fun.domain) for d, _ in asked):
			rep.add('%s: asked for %s, got %s' % (what, [n for _, n in asked], list(M)))
		if np.shape(angles) != (len(ns),) or angles[0] != np.pi/2:
			rep.add('%s: angles %s' % (what, angles))
			continue
		for i, a in enumerate(case['ans']):
			if not 0 <= angles[i + 1] <= np.pi/2 + 1e-12 or abs(np.cos(2*angles[i + 1])*np.sqrt(a['nn']) - a['dot']) > 1e-6*np.sqrt(a['nn']):
				rep.add('%s: the angle between estimates %d and %d is %.8g' % (what, i, i + 1, angles[i + 1]))
	angles, M = psdr.subspace_convergence(ac, fun, sampler, tuple(ns), data='grad', subspace_dimension=2)
	rep.same('angles between planes in the plane', angles, np.array([np.pi/2] + [0.]*(len(ns) - 1)), 1e-7)
	rec = Recorder()
	angles, M = psdr.subspace_convergence(rec, fun, sampler, ns)
	for (X, fX, grads), n in zip(rec.calls, case['M']):
		want = np.array([[i, 0.5] for i in range(n)])
		if grads is not None or not np.array_equal(X, want) or not np.array_equal(np.ravel(fX), np.ravel(fun(want))):
			rep.add('values: fitted %s, %s' % (X, fX))
	if len(rec.calls) != len(ns):
		rep.add('values: %d fits' % len(rec.calls))
	rep.same('angles', angles, np.array([np.pi/2] + [1.]*(len(ns) - 1)), 1e-8)
	return rep.out


def A01():
	return [Suite('active', tlc_cases('Active', {'quick': {'Dims': {1, 2, 3}, 'Sizes': {1, 2}, 'Depth': 2}, 'thorough': {'Dims': {1, 2, 3}, 'Sizes': {1, 2, 3, 4}, 'Depth': 2}},
			invariants=['Sane', 'Emit']), run_active, min_cases=300),
		Suite('local', tlc_cases('LocLin', {'quick': {'Dims': {1, 2, 3}, 'Vals': {0, 1, 4}}, 'thorough': {'Dims': {1, 2, 3}, 'Vals': {0, 1, 2, 4, 7}}}, invariants=['Sane', 'Emit']),
			run_local, min_cases=300),
		Suite('perplexity', tlc_cases('Perplex', {'quick': {'MaxN': 4, 'MaxD': 4}, 'thorough': {'MaxN': 5, 'MaxD': 5}}, invariants=['Sane', 'Emit']), run_perplexity, min_cases=500),
		Suite('nonlinearity', tlc_cases('Nonlin', {'quick': {'Dims': {1, 2, 3}, 'Vals': {0, 1, 4}}, 'thorough': {'Dims': {1, 2, 3}, 'Vals': {0, 1, 2, 4, 7}}}, invariants=['Sane', 'Emit']),
			run_nonlinear, min_cases=200),
		Suite('angles', tlc_cases('Angle', {'quick': {'Share': 101, 'Most': 3}, 'thorough': {'Share': 13, 'Most': 4}}, invariants=['Sane', 'Emit']),
			run_angle, min_cases=200)]
