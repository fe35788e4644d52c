"""Polynomial ridge functions and approximations"""
import numpy as np
import psdr
import polyrat
from psdr import PolynomialRidgeFunction, PolynomialRidgeApproximation, polynomial_ridge_approximation

from core import Suite, TraceSuite, tlc_cases, fl, fls, q, case_hash
from checks_bas import arr, Report, make_basis, ordered, norm_of, check_fit, NORMS, FIT_BASES

# integer matrices with orthogonal columns of equal length: (U, length)
FRAMES = {
	1: [([[1]], 1.), ([[3], [4]], 5.), ([[0], [1]], 1.), ([[2], [-1], [2]], 3.)],
	2: [([[1, 0], [0, 1]], 1.), ([[3, 4], [-4, 3]], 5.), ([[2, 1], [1, 2], [2, -2]], 3.), ([[0, 1], [1, 0], [0, 0], [0, 0]], 1.)],
	3: [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], 1.), ([[2, 1, 2], [1, 2, -2], [2, -2, -1]], 3.)],
}


def frame(m, i, normal=True):
	U, s = FRAMES[m][i % len(FRAMES[m])]
	return np.array(U, dtype=float)/(s if normal else 1.)


def lift(U, Y, rng):
	"""points whose image under U^T is Y"""
	X = Y @ np.linalg.pinv(U)
	W = rng.randn(len(Y), len(U))
	return X + W - W @ U @ np.linalg.pinv(U)


################################################################################
# values and derivatives
################################################################################
def run_ridge(case):
	rep = Report()
	a, n = case['a'], case['q']['m']
	basis = make_basis(case)
	order = ordered(basis, a['idx'], rep)
	if order is None:
		return rep.out
	P = arr(case['P'])
	c1 = arr(a['c1'])[order]
	f = arr([x['f'] for x in a['at']])
	g, hess = arr([x['g'] for x in a['at']]), arr([x['hess'] for x in a['at']])
	rng = np.random.RandomState(case_hash(case) % 2**31)
	k = case_hash(case)
	for normal in (True, False):
		U = frame(n, k, normal)
		m = len(U)
		X = lift(U, P, rng)
		r = PolynomialRidgeFunction(basis, c1, U)
		G = g @ U.T
		H = np.einsum('ik,akl,jl->aij', U, hess, U)
		keep = X.copy()
		rep.same('eval', r.eval(X), f, 1e-8)
		rep.same('call', r(X), f, 1e-8)
		rep.same('grad', r.grad(X), G, 1e-8)
		rep.same('hessian', r.hessian(X), H, 1e-8)
		rep.same('profile', r.profile.eval(P), f, 1e-8)
		rep.same('profile gradient', r.profile.grad(P), g, 1e-8)
		rep.same('grad of a point', r.grad(X[1]), G[1], 1e-8)
		rep.same('hessian of a point', r.hessian(X[1]), H[1], 1e-8)
		rep.same('eval of a point', np.ravel(r.eval(X[1])), f[1:2], 1e-8)
		fx, gx = r(X, return_grad=True)
		rep.same('call with return_grad', np.hstack([fx.reshape(-1, 1), gx]), np.hstack([f.reshape(-1, 1), G]), 1e-8)
		if not np.array_equal(X, keep) or not np.array_equal(r.U, U):
			rep.add('the points or U changed')
	return rep.out


################################################################################
# approximations on a fixed subspace and affine approximations: optimal
################################################################################
def run_ridge_fit(case):
	rep = Report()
	Y, f = np.array(case['X'], dtype=float), np.array(case['f'], dtype=float)
	n, p = case['m'], case['p']
	bound = None if case['bound'] == 'none' else case['bound']
	rng = np.random.RandomState(case_hash(case) % 2**31)
	k = case_hash(case)
	scale = 1 + np.max(np.abs(f))
	if p >= 1 and not (p == 1 and n > 1):
		for j, b in enumerate(FIT_BASES):
			U = frame(n, k + j)
			X = lift(U, Y, rng)
			for rotate in (True, False):
				r = PolynomialRidgeApproximation(p, n, basis=b, norm=NORMS[case['norm']] if j % 2 else case['norm'] if case['norm'] == 'inf' else NORMS[case['norm']],
					bound=bound, rotate=rotate)
				Xk, fk, Uk = X.copy(), f.copy(), U.copy()
				r.fit_fixed_subspace(X, f, U)
				if not np.array_equal(X, Xk) or not np.array_equal(f, fk) or not np.array_equal(U, Uk):
					rep.add('%s: fit_fixed_subspace changed its arguments' % b)
				V = r.U
				rep.same('%s: projector onto the subspace' % b, V @ V.T, U @ U.T, 1e-8)
				if not rotate:
					rep.same('%s: subspace without rotation' % b, V, U, 1e-12)
				check_fit(rep, '%s on the fixed subspace' % b, case, r.eval(X), f)
				if rotate and np.min(np.mean(r.grad(X) @ V, axis=0)) < -1e-4*scale:
					rep.add('%s: the average slope %s along the subspace is negative' % (b, np.mean(r.grad(X) @ V, axis=0)))
	if p == 1 and np.ptp(f) > 0:
		# the best affine function is a ridge function; its profile is found without iteration
		params = 2 + n - 1
		for j, b in enumerate(FIT_BASES):
			r = PolynomialRidgeApproximation(1, 1 + j % 2, basis=b, norm=NORMS[case['norm']], bound=bound)
			if len(f) < params:
				try:
					r.fit(Y, f)
					rep.add('%s: fitted %d parameters to %d values' % (b, params, len(f)))
				except psdr.UnderdeterminedException:
					pass
				continue
			if np.any(np.ptp(Y, axis=0) == 0):
				continue
			r.fit(Y, f)
			rep.same('%s: length of the direction' % b, np.linalg.norm(r.U), 1., 1e-8)
			check_fit(rep, '%s affine fit' % b, case, r.eval(Y), f)
			r.fit(Y[::-1].copy(), f[::-1]*10 + 100)
			check_fit(rep, '%s affine fit of scaled data' % b, dict(case, val=[]), (r.eval(Y) - 100)/10, f)
	return rep.out


def run_under(case):
	"""fewer data than parameters are refused, enough are accepted"""
	rep = Report()
	m, n, d = case['q']['m'], case['q']['n'], case['q']['d']
	rng = np.random.RandomState(case_hash(case) % 2**31)
	for M in range(max(2, case['a']['least'] - 3), case['a']['enough'] + 3):
		X, f = rng.randn(M, m), rng.randn(M)
		r = PolynomialRidgeApproximation(d, n, maxiter=1)
		try:
			r.fit(X, f, U0=rng.randn(m, case['a']['dim']))
			refused = False
		except psdr.UnderdeterminedException:
			refused = True
		if (M < case['a']['least'] and not refused) or (M >= case['a']['enough'] and refused):
			rep.add('degree %d, subspace dimension %d of %d: %d data %s' % (d, n, m, M, 'refused' if refused else 'accepted'))
	return rep.out


################################################################################
# fits: traces judged by RidgeTrace
################################################################################
def fit_data(c, rng):
	m, n, d = c['m'], c['n'], c['d']
	M = 12*m + 10*d*n
	X = rng.uniform(-1, 1, size=(M, m))
	if c['data'] == 'even':
		X = np.vstack([X[:M//2], -X[:M//2]])
	U = np.linalg.qr(rng.randn(m, 1 if d == 1 else n))[0]
	Y = X @ U
	# a polynomial of degree d in Y with a quadratic part along each coordinate
	f = (Y @ np.arange(1, Y.shape[1] + 1)) + 0.5
	if d >= 2:
		f = f + np.sum(Y**2, axis=1)*2 + Y[:, 0]*Y[:, -1]
	if d >= 3:
		f = f - np.sum(Y**3, axis=1)
	if c['data'] == 'noise':
		f = f + 0.3*rng.randn(M)
	elif c['data'] == 'even':
		f = np.sum(Y**2, axis=1) + 0.25
	elif c['data'] == 'constant':
		f = np.ones(len(X))*3.
	elif c['data'] == 'offset':
		f = 1000 + f + 0.1*rng.randn(M)
	return X, f, U


def drive_fit(case):
	c = case['q']
	rng = np.random.RandomState(case_hash(case) % 2**31)
	X, f, U = fit_data(c, rng)
	bound = None if c['bound'] == 'none' else c['bound']
	norm = NORMS[c['norm']]
	scale = np.ptp(f) if np.ptp(f) > 0 else 1.
	U0 = U if c['data'] == 'exact' else np.linalg.qr(rng.randn(*U.shape))[0]
	SC = 1e6/scale/(len(f) if norm == 1 else np.sqrt(len(f)) if norm == 2 else 1)

	def mismatch(r):
		return np.linalg.norm(r.eval(X) - f, norm)*SC

	def fixed(V, basis):
		r = PolynomialRidgeApproximation(c['d'], c['n'], basis=basis, norm=norm, bound=bound, rotate=False)
		r.fit_fixed_subspace(X, f, V)
		return mismatch(r)
	trace = [dict(kind='start', obj=q(fixed(U0, 'legendre'), 1.))]
	W = U0
	for again in range(2):
		r = PolynomialRidgeApproximation(c['d'], c['n'], basis=c['basis'], norm=norm, bound=bound, rotate=c['rotate'], maxiter=40)
		keep = X.copy(), f.copy(), W.copy()
		r.fit(X, f, U0=W)
		V = r.U
		res = r.eval(X) - f
		viol = 0. if bound is None else np.max(res) if bound == 'lower' else np.max(-res)
		if np.all(np.isfinite(V)) and V.shape == U0.shape:
			own = fixed(V, 'legendre')
			slope = np.min(np.mean(r.grad(X) @ V, axis=0))
			orth = np.max(np.abs(V.T @ V - np.eye(V.shape[1])))
		else:
			own, slope, orth = np.nan, np.nan, np.nan
		trace.append(dict(kind='fit', obj=q(mismatch(r), 1.), orth=q(orth, 1e6), dims=list(V.shape), want=[c['m'], case['a']['dim']],
			viol=q(viol/scale, 1e6), own=q(own, 1.), slope=q(slope/scale, 1e6), oriented=bool(c['rotate'] and c['d'] > 1 and norm == 2),  # fits in the other norms need not be unique
			exact=c['data'] in ('exact', 'constant') or (c['d'] == 1 and c['data'] == 'exact'),
			kept=bool(np.array_equal(keep[0], X) and np.array_equal(keep[1], f) and np.array_equal(keep[2], W))))
		W = np.array(V)
	return trace


def ridge_cases(cases, tier):
	return [c for c in cases if c['q']['p'] >= 1]


def R01():
	consts = {'quick': {'Full': False}, 'thorough': {'Full': True}}
	return [Suite('values', tlc_cases('BasMod', consts, invariants=['Sane', 'Emit'], post=ridge_cases), run_ridge, min_cases=150),
		Suite('counts', tlc_cases('RidgeCase', consts, invariants=['Sane', 'Emit'], post=lambda cs, tier: [c for c in cs if c['q']['kind'] == 'count']),
			run_under, min_cases=15),
		TraceSuite('solves', tlc_cases('RidgeCase', consts, invariants=['Sane', 'Emit'], post=lambda cs, tier: [c for c in cs if c['q']['kind'] == 'fit']),
			drive_fit, 'RidgeTrace', constants={'Tol': 10}, min_cases=50, chunk=1),
		Suite('fits', tlc_cases('BasFit', consts, invariants=['Sane', 'Emit']), run_ridge_fit, min_cases=80)]


################################################################################
# vector-valued functions: traces judged by RidgeVecTrace
################################################################################
def vec_data(c, a, rng):
	m, n, d, K = c['m'], c['n'], c['d'], a['outs']
	M = 10*m + 8*d*n + 10*rng.randint(0, 3)
	X = rng.uniform(-1, 1, size=(M, m))
	U = np.linalg.qr(rng.randn(m, n))[0]
	Y = X @ U
	F = []
	for k in range(K):
		f = Y @ (np.arange(n) + 1. + k) + 0.5
		if d >= 2:
			f = f + 2*np.sum(Y**2, axis=1) + k*Y[:, 0]*Y[:, -1]
		if d >= 3:
			f = f - np.sum(Y**3, axis=1)
		if d >= 4:
			f = f + 0.5*k*Y[:, 0]**4
		if a['data'] == 'even':
			f = (1 + 0.5*k)*np.sum(Y**2, axis=1) + k*Y[:, -1]**2
		F.append(f)
	F = np.stack(F, axis=1)
	if a['data'] == 'noise':
		F = F + 0.2*rng.randn(*F.shape)
	elif a['data'] == 'offset':
		F = F + 100 + 0.1*rng.randn(*F.shape)
	return X, F, U


def drive_vec(case):
	c, a = case['q'], case['a']
	m, n, nf, d = c['m'], c['n'], c['f'], c['d']
	rng = np.random.RandomState(case_hash(case) % 2**31)
	X, F, U = vec_data(c, a, rng)
	fX = F.reshape({'vector': (-1,), 'column': (-1, 1), 'matrix': F.shape, 'tensor': (-1, 2, 2)}[a['shape']])
	fixed = U[:, :nf] @ (rng.randn(nf, nf) + 2*np.eye(nf)) if nf else None
	near = np.linalg.qr(U + 0.05*rng.randn(m, n))[0]
	U0 = {'near': near, 'random': np.linalg.qr(rng.randn(m, n))[0], 'none': None}[a['start']]
	Basis = getattr(polyrat, a['basis'])
	scale = np.max(np.std(F, axis=0))

	def mismatch(V):
		Y = X @ V
		V = psdr.LegendreTensorBasis(d, X=Y).V(Y)
		return np.linalg.norm(F - V @ np.linalg.lstsq(V, F, rcond=None)[0])/scale/np.sqrt(F.size)

	def solve(iters, X=X, fX=fX, U0=U0, fixed=fixed):
		np.random.seed(1)
		return polynomial_ridge_approximation(X, fX, n, d, fixed_subspace=fixed, U0=U0, Basis=Basis, maxiter=iters)

	def within(V):
		return 0. if fixed is None else np.max(np.abs(fixed - V @ (V.T @ fixed)))

	# where the iteration starts: the fixed subspace and the most important directions of U0 beside it
	Q = np.linalg.qr(fixed, mode='complete')[0] if nf else None
	if U0 is None:
		trace = []
	else:
		S = U0 if not nf else np.hstack([Q[:, :nf], Q[:, nf:] @ np.linalg.svd(Q[:, nf:].T @ U0, full_matrices=False)[0][:, :n-nf]])
		trace = [dict(kind='start', obj=q(mismatch(S), 1e6))]
	for iters in (0, 1, 2, 5, 60):
		keep = [None if v is None else v.copy() for v in (X, fX, U0, fixed)]
		V = solve(iters)
		kept = all(v is w or np.array_equal(v, w) for v, w in zip(keep, (X, fX, U0, fixed)))
		ok = V.shape == (m, n) and np.all(np.isfinite(V))
		orth = np.max(np.abs(V.T @ V - np.eye(n))) if ok else np.nan
		gap = 0.
		if iters == 60 and ok and orth < 1e-6 and within(V) < 1e-6 and a['start'] == 'near' and not a['forced']:
			# no rotation of the free part by a small angle is better
			free = V if not nf else np.linalg.svd(V - Q[:, :nf] @ (Q[:, :nf].T @ V))[0][:, :n-nf]
			rest = np.linalg.qr(V, mode='complete')[0][:, n:]
			angles = [(i, j, t) for i in range(free.shape[1]) for j in range(rest.shape[1]) for t in (-0.02, 0.02)]
			here = mismatch(V)
			for i, j, t in angles:
				W = free.copy()
				W[:, i] = np.cos(t)*free[:, i] + np.sin(t)*rest[:, j]
				gap = max(gap, here - mismatch(np.hstack([Q[:, :nf], W]) if nf else W))
		trace.append(dict(kind='fit', iters=iters, dims=list(V.shape), want=[m, n], orth=q(orth, 1e6),
			fixed=q(within(V), 1e6) if ok else 0, kept=bool(kept), obj=q(mismatch(V), 1e6) if ok else 2000000000,
			moved=q(np.max(np.abs(V @ V.T - S @ S.T)), 1e6) if ok and U0 is not None else 0,
			exact=bool(iters == 60 and (a['start'] == 'near' or a['forced']) and a['data'] in ('exact', 'even')),
			gap=q(gap, 1e6), allow=1))
	if U0 is not None:
		V = solve(3)
		T = np.linalg.qr(rng.randn(F.shape[1], F.shape[1]))[0]
		R = np.linalg.qr(rng.randn(m, m))[0]
		perm = rng.permutation(len(X))
		others = [('depends on the shape of the outputs', solve(3, fX=F)),
			('depends on the order of the outputs', solve(3, fX=F[:, ::-1].copy())),
			('depends on the basis of the outputs', solve(3, fX=F @ T)),
			('depends on the constant', solve(3, fX=fX + 3.)),
			('depends on the basis of the start', solve(3, U0=U0 @ np.linalg.qr(rng.randn(n, n))[0])),
			('depends on the order of the data', solve(3, X=X[perm], fX=fX[perm])),
			('depends on the coordinates', R @ solve(3, X=X @ R, U0=R.T @ U0, fixed=None if fixed is None else R.T @ fixed))]
		if nf:
			others.append(('depends on the basis of the fixed subspace', solve(3, fixed=fixed @ (rng.randn(nf, nf) + 3*np.eye(nf)))))
		if F.shape[1] == 1 and not nf:
			r = PolynomialRidgeApproximation(d, n, rotate=False, maxiter=3)
			if d > 1:
				r.fit(X, F[:, 0], U0=U0)
				others.append(('PolynomialRidgeApproximation', r.U))
		for what, W in others:
			trace.append(dict(kind='same', what=what, diff=q(np.max(np.abs(V @ V.T - W @ W.T)), 1e6)))
	return trace


def R02():
	consts = {'quick': {'Full': False}, 'thorough': {'Full': True}}
	return [TraceSuite('vector', tlc_cases('RidgeVecCase', consts, invariants=['Sane', 'Emit']), drive_vec, 'RidgeVecTrace',
		constants={'Tol': 1}, min_cases=40, chunk=1)]
