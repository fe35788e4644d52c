"""Polynomial bases and polynomial approximations"""
import numpy as np
import psdr
from psdr import (MonomialTensorBasis, LegendreTensorBasis, ChebyshevTensorBasis, HermiteTensorBasis, LaguerreTensorBasis,
	ArnoldiPolynomialBasis, PolynomialFunction, PolynomialApproximation)

from core import Suite, tlc_cases, fl, fls

BASES = dict(monomial=MonomialTensorBasis, legendre=LegendreTensorBasis, chebyshev=ChebyshevTensorBasis, hermite=HermiteTensorBasis,
	laguerre=LaguerreTensorBasis)


def arr(x):
	"""nested sequences of rationals as an array of floats"""
	x = np.array(x, dtype=float)
	return x[..., 0]/x[..., 1]


class Report:
	def __init__(self, limit=6):
		self.out, self.limit = [], limit

	def add(self, msg):
		if len(self.out) < self.limit:
			self.out.append(msg)

	def none(self, what, bad):
		if len(bad):
			self.add('%s: %s' % (what, bad))

	def same(self, what, got, want, tol):
		got = np.asarray(got, dtype=float)
		want = np.asarray(want, dtype=float)
		if got.shape != want.shape:
			self.add('%s has shape %s instead of %s' % (what, got.shape, want.shape))
		elif not np.allclose(got, want, rtol=0, atol=tol*(1 + np.max(np.abs(want), initial=0))):
			self.add('%s is %s instead of %s' % (what, got.tolist(), want.tolist()))


def make_basis(case):
	b, m, p = case['q']['b'], case['q']['m'], case['q']['p']
	if case['q']['x'] == 1:
		return BASES[b](p, dim=m)
	return BASES[b](p, X=arr(case['X']))


def ordered(basis, idx, rep):
	"""positions in idx of the columns of the basis"""
	have = [tuple(int(v) for v in a) for a in basis.indices]
	want = {tuple(a): j for j, a in enumerate(idx)}
	if sorted(have) != sorted(want) or len(basis) != len(want):
		rep.add('the indices of the basis are %s' % have)
		return None
	return [want[a] for a in have]


def run_basis(case):
	rep = Report()
	a, m = case['a'], case['q']['m']
	basis = make_basis(case)
	order = ordered(basis, a['idx'], rep)
	if order is None:
		return rep.out
	P = arr(case['P'])
	keep = P.copy()
	v = np.array([arr(x['v']) for x in a['at']])[:, order]
	dv = np.array([arr(x['dv']) for x in a['at']])[:, order]
	ddv = np.array([arr(x['ddv']) for x in a['at']])[:, order]
	c1, c2 = arr(a['c1'])[order], arr(a['c2'])[order]
	f, h = arr([x['f'] for x in a['at']]), arr([x['h'] for x in a['at']])
	g, hess = arr([x['g'] for x in a['at']]), arr([x['hess'] for x in a['at']])
	tol = 1e-9
	rep.same('V', basis.V(P), v, tol)
	rep.same('DV', basis.DV(P), dv, tol)
	rep.same('DDV', basis.DDV(P), ddv, tol)
	rep.same('V of one row', basis.V(P[2:3]), v[2:3], tol)
	rep.same('DDV of one row', basis.DDV(P[1:2]), ddv[1:2], tol)
	rep.same('VC', basis.VC(P, c1), f, tol)
	rep.same('VC of two columns', basis.VC(P, np.vstack([c1, c2]).T), np.vstack([f, h]).T, tol)
	if case['q']['x'] != 1:
		X = arr(case['X'])
		rep.same('V() of the stored points', basis.V(), basis.V(X), tol)
		rep.same('the scaling after set_scale', (lambda b: (b.set_scale(X), b.V(P))[1])(BASES[case['q']['b']](case['q']['p'], dim=m)), v, tol)
	poly = PolynomialFunction(basis, c1)
	rep.same('eval', poly.eval(P), f, tol)
	rep.same('call', poly(P), f, tol)
	rep.same('predict', poly.predict(P), f, tol)
	rep.same('grad', poly.grad(P), g, tol)
	rep.same('hessian', poly.hessian(P), hess, tol)
	fx, gx = poly(P, return_grad=True)
	rep.same('call with return_grad', np.hstack([fx.reshape(-1, 1), gx]), np.hstack([f.reshape(-1, 1), g]), tol)
	for i in (0, 3):
		rep.same('eval of a point', poly.eval(P[i]), f[i:i + 1], tol)
		rep.same('grad of a point', poly.grad(P[i]), g[i], tol)
		rep.same('hessian of a point', poly.hessian(P[i]), hess[i], tol)
	if not np.array_equal(P, keep):
		rep.add('the points were changed')
	if a['roots']:
		pr = PolynomialFunction(basis, arr(a['rcoef'])[order])
		r = np.sort_complex(np.asarray(pr.roots(), dtype=complex))
		want = np.sort(arr(a['roots']))
		if len(r) != len(want) or not np.allclose(r, want, atol=1e-5*(1 + np.max(np.abs(want)))):
			rep.add('roots are %s instead of %s' % (r.tolist(), want.tolist()))
	return rep.out


def run_arnoldi(case):
	rep = Report()
	a = case['a']
	X, P = arr(case['lattice']), arr(case['P'])
	keep = X.copy()
	basis = ArnoldiPolynomialBasis(case['q']['p'], X)
	order = ordered(basis, a['idx'], rep)
	if order is None:
		return rep.out
	fX = arr(a['lat'])
	f, g = arr([x['f'] for x in a['at']]), arr([x['g'] for x in a['at']])
	Q = basis.V()
	N = len(order)
	rep.same('Q^T Q', Q.T @ Q, np.eye(N), 1e-9)
	rep.same('V of the stored points', basis.V(X), Q, 1e-9)
	c = Q.T @ fX
	tol = 1e-7
	rep.same('V c at the points', Q @ c, fX, tol)
	rep.same('V c elsewhere', basis.V(P) @ c, f, tol)
	rep.same('V of part of the points', basis.V(X[:3]), Q[:3], tol)
	rep.same('DV c', np.tensordot(basis.DV(P), c, axes=(1, 0)), g, tol)
	rep.same('DV of the stored points', basis.DV(), basis.DV(X.copy()), tol)
	W, D = basis.V(X + 0.), basis.DV(X[::-1].copy())
	rep.same('DV in another order', D, basis.DV()[::-1], tol)
	# column k only involves the first k + 1 monomials of the indices
	mono = np.array([[np.prod(x**np.array(al)) for al in basis.indices] for x in X])
	for k in range(N):
		co = np.linalg.lstsq(mono[:, :k + 1], W[:, k], rcond=None)[0]
		rep.same('column %d' % k, mono[:, :k + 1] @ co, W[:, k], 1e-6)
	poly = PolynomialFunction(basis, c)
	rep.same('eval', poly.eval(P), f, tol)
	rep.same('grad', poly.grad(P), g, tol)
	rep.same('grad of a point', poly.grad(P[1]), g[1], tol)
	if not np.array_equal(X, keep):
		rep.add('the points were changed')
	return rep.out


def arnoldi_cases(cases, tier):
	return [c for c in cases if c['a']['lat']]


def B01():
	consts = {'quick': {'Full': False}, 'thorough': {'Full': True}}
	inv = ['SaneData', 'Sane', 'Emit']
	return [Suite('bases', tlc_cases('BasMod', consts, invariants=inv), run_basis, min_cases=200),
		Suite('arnoldi', tlc_cases('BasMod', consts, invariants=inv, post=arnoldi_cases), run_arnoldi, min_cases=10)]


################################################################################
# B02: polynomial approximation
################################################################################
NORMS = {'1': 1, '2': 2, 'inf': np.inf}


def norm_of(r, norm):
	return {'1': np.sum(np.abs(r)), '2': np.sum(r**2), 'inf': np.max(np.abs(r))}[norm]


def check_fit(rep, what, case, vals, f):
	"""the values of an approximation at the data: optimal, and on the required side"""
	vals = np.asarray(vals)
	if vals.shape != f.shape:
		rep.add('%s: the values have shape %s' % (what, vals.shape))
		return
	opt = fl(case['opt'])
	got = norm_of(vals - f, case['norm'])
	scale = 1 + np.max(np.abs(f))
	tol = 1e-5*scale*(scale if case['norm'] == '2' else 1)*len(f)
	if not abs(got - opt) <= tol:
		rep.add('%s: the mismatch is %.8g but the best possible is %.8g' % (what, got, opt))
	if case['bound'] == 'lower' and np.max(vals - f) > 1e-6*scale or case['bound'] == 'upper' and np.min(vals - f) < -1e-6*scale:
		rep.add('%s: %s is not a %s bound of %s' % (what, vals, case['bound'], f))
	if case['val'] and not np.allclose(vals, arr(case['val']), atol=2e-3*scale if case['bound'] != 'none' else 1e-8*scale):
		rep.add('%s: the values are %s instead of %s' % (what, vals, arr(case['val'])))


FIT_BASES = ('legendre', 'monomial', 'chebyshev', 'hermite', 'laguerre', 'arnoldi')


def run_fit(case):
	rep = Report()
	X, f = np.array(case['X'], dtype=float), np.array(case['f'], dtype=float)
	E = np.array(case['extra'], dtype=float)
	bound = None if case['bound'] == 'none' else case['bound']
	for b in FIT_BASES:
		p = PolynomialApproximation(case['p'], basis=b, norm=NORMS[case['norm']], bound=bound)
		# fit something else first: nothing of it may remain
		p.fit(X[::-1]*3 + 1, f**2 + X[:, 0])
		Xk, fk = X.copy(), f.copy()
		p.fit(X, f)
		if not np.array_equal(X, Xk) or not np.array_equal(f, fk):
			rep.add('%s: fit changed its data' % b)
		check_fit(rep, b, case, p.eval(X), f)
		rep.same('%s: values one by one' % b, np.hstack([p.eval(x) for x in X]), p(X), 1e-8)
		if case['ext']:
			rep.same('%s: values elsewhere' % b, p(E), arr(case['ext']), 1e-7 if not bound else 1e-2)
		# gradients belong to the values
		h = 1e-5
		for x in E[:2]:
			fd = [(p.eval(x + h*e) - p.eval(x - h*e))[0]/(2*h) for e in np.eye(len(x))]
			rep.same('%s: gradient at %s' % (b, x), p.grad(x), fd, 1e-5)
	return rep.out


def B02():
	consts = {'quick': {'Full': False}, 'thorough': {'Full': True}}
	return [Suite('approximation', tlc_cases('BasFit', consts, invariants=['Sane', 'Emit']), run_fit, min_cases=80)]
