"""The Lipschitz matrix, and what is derived from it"""
import os
import tempfile

import numpy as np
import psdr
from psdr import LipschitzMatrix, LipschitzConstant, DiagonalLipschitzMatrix, PartialLipschitzMatrix

from psdr.lipschitz_approx import LipschitzApproximation, lipschitz_approximation_compatible_data

from core import Suite, TraceSuite, tlc_cases, fl, fls, q, case_hash
from checks_bas import Report

K = 10000


################################################################################
# L01: estimating
################################################################################
def data(case, unit=1., how='base'):
	X = np.array(case['X'], dtype=float).reshape(-1, case['m'])
	f = np.array(case['f'], dtype=float)*unit
	G = np.array(case['G'], dtype=float).reshape(-1, case['m'])*unit
	if how == 'permute':
		X, f, G = X[::-1], f[::-1], G[::-1]
	elif how == 'shift':
		X, f = X + 1.5, f - 7*unit
	elif how == 'negate':
		f, G = -f, -G
	kw = {}
	if len(X):
		kw.update(X=X, fX=f)
	if len(G):
		kw.update(grads=G)
	if how == 'lists':
		kw = {k: v.tolist() for k, v in kw.items()}
	return kw


def estimator(cls, rank, method, eps, unit, case):
	kw = {} if eps < 0 else {'epsilon': eps/2.*unit}
	if cls == 'full':
		return LipschitzMatrix(method=method, **kw)
	if cls == 'diag':
		return DiagonalLipschitzMatrix(method=method, **kw)
	if cls == 'const':
		return LipschitzConstant(**kw)
	if method == 'U0':
		kw['U0'] = np.linalg.qr(np.array([[1. + ((3*i + 2*j) % 5) for j in range(rank)] for i in range(case['m'])]))[0]
	return PartialLipschitzMatrix(rank, verbose=False, maxiter=3, **kw)


def fit_event(case, est, cls, rank, how, kw, unit, ref=0):
	m = case['m']
	H, L, U = np.array(est.H)/unit**2, np.array(est.L)/unit, np.array(est.U)
	n = 1 + abs(np.trace(H))
	Hn = U.T @ H @ U
	slope = 0.
	if cls in ('full', 'partial'):
		X, f, G = kw.get('X', []), kw.get('fX', []), kw.get('grads', [])
		if len(G):
			slope = np.min(np.mean(np.array(G) @ U, axis=0))/unit
		else:
			for k in range(U.shape[1]):
				s = 0.
				for i in range(len(X)):
					for j in range(i):
						den = U[:, k] @ (np.array(X[i]) - np.array(X[j]))
						if abs(den) > 0:
							s += (f[i] - f[j])/den/unit
						if 0 < abs(den) < 1e-3:     # dominated by rounding
							s = np.inf
				slope = min(slope, s)
	ev = dict(kind='fit', cls=cls, rank=rank, how=how, H=[[q(v, K) for v in r] for r in H], U=[[q(v, K) for v in r] for r in U], ref=ref,
		sym=q(np.max(np.abs(H - H.T)), 1e7/n), root=q(np.max(np.abs(L.T @ L - H)), 1e7/n), lsym=q(np.max(np.abs(L - L.T)), 1e7/n),
		orth=q(np.max(np.abs(U.T @ U - np.eye(U.shape[1]))), 1e7), eigen=q(np.max(np.abs(H @ U - U @ Hn)), 1e7/n),
		order=q(np.min(-np.diff(np.diag(Hn)), initial=0), 1e7/n), slope=q(slope, 1e6))
	if cls == 'full' or cls == 'partial':
		ev['eigen'] = max(ev['eigen'], q(np.max(np.abs(Hn - np.diag(np.diag(Hn)))), 1e7/n))
	if cls == 'diag':
		s = np.array(est.score)/unit
		ev['eigen'] = max(ev['eigen'], q(np.max(np.abs(s**2 - np.diag(H))), 1e7/n))
	if U.shape != (m, rank) or H.shape != (m, m) or L.shape != (m, m):
		ev['sym'] = 10**6
	return ev


def drive_lip(case):
	h = case_hash(case)
	m = case['m']
	trace = [dict(kind='case', m=m, cons=case['cons'], G=case['G'], const2=case['const2'], best=case['best'], diag=case['diag'],
		exact=case['exact'], exactdiag=case['exactdiag'])]
	other = [{'X': np.arange(3*m).reshape(3, m)**2., 'fX': np.array([3., -1, 0])}, {'grads': np.array([[5.] + [-2.]*(m - 1)])}]
	jobs = [('full', m, 'cvxopt'), ('diag', m, 'cvxopt'), ('const', m, '')]
	slow = [('full', m, 'param'), ('full', m, 'cvxpy'), ('diag', m, 'param'), ('diag', m, 'cvxpy')]
	slow += [('partial', r, 'U0' if m > r else '') for r in range(1, m + 1)]
	jobs += [slow[h % len(slow)], slow[(h//7) % len(slow)]]
	for k, (cls, rank, method) in enumerate(jobs):
		kw = data(case)
		est = estimator(cls, rank, method, case['eps'], 1., case)
		keep = {a: v.copy() for a, v in kw.items()}
		est.fit(**kw)
		trace.append(fit_event(case, est, cls, rank, 'base', kw, 1.))
		if any(not np.array_equal(keep[a], kw[a]) for a in kw):
			trace[-1]['sym'] = 10**6
		base = len(trace)
		if cls == 'partial':
			continue
		how = ['permute', 'shift', 'negate', 'lists', 'base', 'refit'][(h + k) % 6]
		unit = [1., 1e-4, 250.][(h//11 + k) % 3]
		if how == 'refit':
			est = estimator(cls, rank, method, case['eps'], 1., case)
			est.fit(**other[(h + k) % 2])
			est.U, est.H, est.L
			est.fit(**kw)
			trace.append(fit_event(case, est, cls, rank, how, kw, 1., ref=base))
		else:
			kw = data(case, unit, how)
			est = estimator(cls, rank, method, case['eps'], unit, case)
			est.fit(**kw)
			trace.append(fit_event(case, est, cls, rank, how, kw, unit))
	return trace


def L01():
	consts = {'quick': {'Dims': {1, 2, 3}, 'Vals': {0, 2, 3}, 'Halves': {0, 1, 2, 4}, 'Mod': 7},
		'thorough': {'Dims': {1, 2, 3}, 'Vals': {0, 2, 3}, 'Halves': {0, 1, 2, 4, 7}, 'Mod': 1}}
	return [TraceSuite('estimates', tlc_cases('LipCase', consts, invariants=['Sane', 'Emit'], limit={'quick': 500, 'thorough': 4000}), drive_lip, 'LipTrace',
		constants={'K': K, 'Tol': 5}, min_cases=300)]


################################################################################
# L02: bounds on the values elsewhere
################################################################################
def surd(s, sign=1):
	return sign*(s['y'] - np.sqrt(s['q']))


def scenario(case):
	X = np.array(case['X'], dtype=float)
	f = np.array(case['f'], dtype=float)
	eps = max(case['eps'], 0)/2.
	kw = {} if case['eps'] < 0 else {'epsilon': eps}
	return X, f, np.array(case['L'], dtype=float), eps, kw


def run_points(case):
	rep = Report()
	X, f, L, eps, kw = scenario(case)
	T = np.array([t['x'] for t in case['ans']['tests']], dtype=float)
	lb = np.array([surd(t['lb']) for t in case['ans']['tests']]) - eps
	ub = np.array([surd(t['ub'], -1) for t in case['ans']['tests']]) + eps
	lip = LipschitzMatrix(L=L, **kw)
	keep = [X.copy(), f.copy(), T.copy()]
	for name, args in (('arrays', (X, f, T)), ('column', (X, f.reshape(-1, 1), T)), ('lists', (X.tolist(), f.tolist(), T.tolist()))):
		a, b = lip.uncertainty(*args)
		rep.same('lower bound, ' + name, a, lb, 1e-10)
		rep.same('upper bound, ' + name, b, ub, 1e-10)
	a, b = lip.uncertainty(X, f, T[1])
	rep.same('lower bound at one point', a, lb[1:2], 1e-10)
	rep.same('upper bound at one point', b, ub[1:2], 1e-10)
	a, b = lip.uncertainty(X[::-1], f[::-1], T)
	rep.same('lower bound, other order', a, lb, 1e-10)
	rep.same('upper bound, other order', b, ub, 1e-10)
	if not all(np.array_equal(p, r) for p, r in zip(keep, [X, f, T])):
		rep.add('the arguments changed')
	D = np.array(case['L'], dtype=float)
	if D.shape[0] == D.shape[1] and np.array_equal(D, np.diag(np.diag(D))):
		a, b = psdr.DiagonalLipschitzMatrix(L=D, **kw).uncertainty(X, f, T)
		rep.same('lower bound, diagonal', a, lb, 1e-10)
		rep.same('upper bound, diagonal', b, ub, 1e-10)
	if case['m'] == 1:
		a, b = LipschitzConstant(L=D[0, 0], **kw).uncertainty(X, f, T)
		rep.same('lower bound, constant', a, lb, 1e-10)
		rep.same('upper bound, constant', b, ub, 1e-10)
	return rep.out


def run_over(case):
	"""bounds over a domain: exact if the matrix has one row"""
	rep = Report()
	X, f, L, eps, kw = scenario(case)
	line = case['ans']['line']
	m = case['m']
	dom = psdr.BoxDomain(-3*np.ones(m), 5*np.ones(m))
	lip = LipschitzMatrix(L=L, **kw)
	lo, hi = fl(line['lb']) - eps, fl(line['ub']) + eps
	if case_hash(case) % 4 or np.max(np.abs(L)) == 0:
		a, b = lip.uncertainty_domain(X, f, dom, Nsamp=25)
		rep.same('lower bound over the domain', [a], [lo], 1e-4)
		rep.same('upper bound over the domain', [b], [hi], 1e-4)
		a, b = lip.uncertainty_domain(X.tolist(), f.tolist(), psdr.PointDomain(X[0]), Nsamp=2)
		pa, pb = lip.uncertainty(X, f, X[:1])
		rep.same('lower bound over a single point', [a], pa, 1e-6)
		rep.same('upper bound over a single point', [b], pb, 1e-6)
	else:
		with tempfile.TemporaryDirectory() as tmp:
			path = os.path.join(tmp, 'shadow.dat')
			u = L[0]/np.linalg.norm(L[0])
			lip.shadow_uncertainty(dom, X, f, ngrid=5, U=u, pgfname=path, Nsamp=4)
			T = np.loadtxt(path, skiprows=1, ndmin=2)
		rep.same('coordinates of the shadow', T[:, 0], np.array([fl(g['s']) for g in line['grid']])/np.linalg.norm(L[0]), 1e-5)
		rep.same('lower bounds of the shadow', T[:, 1], [fl(g['lb']) - eps for g in line['grid']], 1e-4)
		rep.same('upper bounds of the shadow', T[:, 2], [fl(g['ub']) + eps for g in line['grid']], 1e-4)
	return rep.out


def run_approx(case):
	"""the best compatible data, and the approximation that it gives"""
	rep = Report()
	X, f, L, eps, kw = scenario(case)
	ans, m = case['ans'], case['m']
	near = ans['near']
	P = X[:, None, :] - X[None, :, :]
	d = np.sqrt(np.sum((P @ L.T)**2, axis=2))
	for norm in (1, 2, np.inf):
		y = lipschitz_approximation_compatible_data(L, X, f, norm=norm)
		if np.max(np.abs(y[:, None] - y[None, :]) - d) > 1e-5:
			rep.add('data closest in the %s-norm are not compatible with L: %s' % (norm, y))
		err = np.linalg.norm(y - f, norm)
		if near['ok']:
			want = fl(near['one']) if norm == 1 else fl(near['inf']) if norm == np.inf else np.sqrt(fl(near['two']))
			if err > want + 1e-5 or (norm != 2 and err < want - 1e-5):
				rep.add('data closest in the %s-norm have the distance %g; the specification has %g' % (norm, err, want))
		if ans['compatible']:
			rep.same('compatible data, norm %s' % norm, y, f, 1e-5)
	dom = psdr.BoxDomain(-5*np.ones(m), 6*np.ones(m))
	app = LipschitzApproximation(L, dom, norm=[1, 2, np.inf][case_hash(case) % 3])
	app.fit(X, f)
	T = np.array([t['x'] for t in ans['tests']], dtype=float)
	v = np.asarray(app(T))
	if v.shape != (len(T),):
		rep.add('values of shape %s at %d points' % (v.shape, len(T)))
	vX = np.asarray(app(X))
	# a Lipschitz function ...
	A, fA = np.vstack([T, X]), np.hstack([v, vX])
	dA = np.sqrt(np.sum(((A[:, None, :] - A[None, :, :]) @ L.T)**2, axis=2))
	if np.max(np.abs(fA[:, None] - fA[None, :]) - dA) > 1e-4:
		rep.add('the approximation is not in the Lipschitz class of L')
	# ... as close to the data as possible ...
	if np.max(np.abs(vX - f)) > app.epsilon + 1e-4:
		rep.add('the approximation misses the data by %g; epsilon is %g' % (np.max(np.abs(vX - f)), app.epsilon))
	# ... in the middle of the bounds
	if ans['compatible']:
		mid = np.array([0.5*(surd(t['lb']) + surd(t['ub'], -1)) for t in ans['tests']])
		rep.same('approximation of compatible data', v, mid, 1e-4)
	rep.same('one point', [float(np.ravel(app(T[2]))[0])], v[2:3], 1e-10)
	return rep.out


def L02():
	consts = {'quick': {'Dims': {1, 2, 3}, 'Vals': {0, 1, 4}, 'Halves': {0, 3}}, 'thorough': {'Dims': {1, 2, 3}, 'Vals': {0, 1, 3, 4}, 'Halves': {0, 1, 2, 4}}}
	gen = lambda post, limit: tlc_cases('LipUnc', consts, invariants=['Sane', 'Bracket', 'Emit'], post=post, limit=limit)
	return [Suite('points', gen(None, None), run_points, min_cases=300),
		Suite('domains', gen(lambda cs, tier: [c for c in cs if c['ans']['line']['ok']], {'quick': 160, 'thorough': 1200}), run_over, min_cases=100),
		Suite('approximation', gen(lambda cs, tier: [c for c in cs if c['eps'] < 0], None), run_approx, min_cases=100)]
