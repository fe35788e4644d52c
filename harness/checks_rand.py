"""Densities, samples of densities and quadrature"""
import math
import numpy as np
import psdr
from psdr.quadrature import gauss
from psdr.exceptions import EmptyDomainException
import scipy.stats

from core import Suite, TraceSuite, tlc_cases, run_tlc, cfg_text, fl, fls, q, qs
import domlib

KR = 64


def build(d):
	tau = fl(d['tau'])
	kw = {'truncate': tau} if tau else {}
	if d['kind'] == 'uniform':
		return psdr.UniformDomain(d['lb'], d['ub'])
	if d['kind'] == 'normal':
		return psdr.NormalDomain(d['mean'], d['cov'], **kw)
	return psdr.LogNormalDomain(d['mean'][0], d['cov'][0][0], offset=d['off'], scaling=fl(d['sc']), **kw)


def clip(d):
	"""the squared radius that contains 1 - tau of the mass of a standard normal"""
	tau, m = fl(d['tau']), d['m']
	if not tau:
		return None
	if m == 2:
		return -2*math.log(tau)
	lo, hi = 0., 100.
	for it in range(200):
		r2 = (lo + hi)/2
		r = math.sqrt(r2)
		mass = math.erf(r/math.sqrt(2)) - (0 if m == 1 else math.sqrt(2/math.pi)*r*math.exp(-r2/2))
		lo, hi = (r2, hi) if mass < 1 - tau else (lo, r2)
	return lo


def run_pdf(case):
	d = case['d']
	m = d['m']
	dom = build(d)
	x = np.array(case['x'], dtype=float)/2
	tau = fl(d['tau'])
	out = []
	inside = True
	if d['kind'] == 'uniform':
		inside, p = case['inside'], fl(case['p'])
	else:
		d2 = fl(case['d2'])
		cl = clip(d)
		inside = cl is None or d2 <= cl
		p = math.exp(-d2/2)/math.sqrt((2*math.pi)**m*case['det'])
		if cl is not None:
			p = p/(1 - tau) if inside else 0.
			if abs(d2 - cl) < 1e-3:
				return out
		if d['kind'] == 'lognormal':
			sc = fl(d['sc'])
			if x[0] > 6:
				return out
			e = math.exp(x[0])
			x = d['off'] + sc*np.array([e])
			p = p/(abs(sc)*e)
			if cl is not None and min(abs(x[0] - d['off'] - sc*math.exp(d['mean'][0] + s*math.sqrt(cl*d['cov'][0][0]))) for s in (1, -1)) < 1e-4:
				return out
	keep = x.copy()
	got = np.asarray(dom.pdf(x))
	if got.shape != (1,):
		return ['pdf of one point has shape %s' % (got.shape,)]
	scaled = p*abs(fl(d['sc']))
	if case.get('strict'):
		return [] if abs(got[0] - p) <= 1e-9 + 1e-7*p else ['pdf(%s) is %.12g instead of %.12g' % (x, got[0], p)]
	# that the density of a scaled log-normal is not divided by the scaling is judged by the suite "scaled"
	if not abs(got[0] - p) <= 1e-9 + 1e-7*p and not abs(got[0] - scaled) <= 1e-9 + 1e-7*scaled:
		out.append('pdf(%s) is %.12g instead of %.12g' % (x, got[0], p))
	X = np.array([x, x + 0.25, x])
	P = np.asarray(dom.pdf(X))
	if P.shape != (3,) or not np.isclose(P[0], got[0]) or not np.isclose(P[2], got[0]) or np.any(P < 0):
		out.append('pdf of several points is %s, of the first alone %s' % (P, got))
	if not np.array_equal(np.asarray(dom.pdf(x.tolist())), got) or not np.array_equal(keep, x):
		out.append('pdf of a list differs, or the argument was changed')
	if bool(np.asarray(dom.isinside(x)).flat[0]) != inside:
		out.append('isinside(%s) is not %s' % (x, inside))
	if d['kind'] == 'normal' and tau:
		# the density of the normalized domain is the one of the image measure
		dn = dom.normalized_domain()
		jac = np.linalg.det(dom._unnormalize_der())
		pn = np.asarray(dn.pdf(dom.normalize(x)))[0]
		if not abs(pn - p*jac) <= 1e-6*(1 + p*jac):
			out.append('the density of the normalized domain is %g instead of %g' % (pn, p*jac))
	return out


def scaled_cases(cases, tier):
	out = []
	for c in cases:
		d = c['d']
		if d['kind'] == 'lognormal' and d['sc'] != [1, 1] and c['x'][0] in range(-6, 7):
			c['key'] = 'lognormal scaling %d/%d' % tuple(d['sc'])
			c['strict'] = True
			out.append(c)
	return out


def drive_rand(case):
	d = case['d']
	m = d['m']
	dom = build(d)
	cl = clip(d)
	n = 4000 if case['tier'] == 'quick' else 40000
	ev = []
	base = {'c': case['c'], 'clip': -1 if cl is None else int(math.ceil(cl*1000))}
	X = np.vstack([np.reshape(dom.sample(k), (-1, m)) for k in (1, 2, n)])
	assert np.shape(dom.sample(1)) == (m,) and np.shape(dom.sample(2)) == (2, m) and np.shape(dom.sample(0)) == (0, m)
	assert np.all(build(d).isinside(X)), 'a sample is not in the domain'
	if not (d['kind'] == 'lognormal' and d['sc'] != [1, 1]):
		assert np.all(dom.pdf(X) > 0), 'a sample has zero density'
	if d['kind'] == 'lognormal':
		Y = (X - d['off'])/fl(d['sc'])
		assert np.all(Y > 0), 'a sample is beyond the offset'
		X = np.log(Y)
	ev.append(dict(base, kind='inside', n=303, pts=[qs(x, KR) for x in X[:303]]))
	f = 1. if cl is None else scipy.stats.chi2.cdf(cl, m + 2)/(1 - fl(d['tau']))
	S = np.atleast_2d(np.cov(X.T))
	ev.append(dict(base, kind='moments', n=n, mean=qs(np.mean(X, axis=0), KR), cov=[qs(r, KR) for r in S], f=q(f, 1000)))
	return ev


def rand_domains(tier):
	r = run_tlc('DomRand', cfg_text('Spec', {'Dense': False}, invariants=['Sane', 'Emit']))
	cat = {}
	for c in r.records:
		cat[c['c']] = {'c': c['c'], 'd': c['d'], 'tier': tier}
	return [cat[k] for k in sorted(cat)], [r]


def run_quad(case):
	qr = case['q']
	out = []
	vol = fl(case['vol'])
	if qr['kind'] == 'gauss':
		a, b = qr['e']
		x, w = gauss(qr['n'], a, b)
		if x.shape != (qr['n'],) or w.shape != (qr['n'],):
			return ['gauss(%d) returned %s nodes and %s weights' % (qr['n'], x.shape, w.shape)]
		lo, hi = min(a, b), max(a, b)
		if np.any(x <= lo) or np.any(x >= hi) or len(np.unique(np.round(x, 9))) != len(x):
			out.append('nodes %s are not distinct points between %s and %s' % (x, lo, hi))
		if np.any(w*(b - a) <= 0):
			out.append('weights %s' % w)
		for k, v in enumerate(fls(case['mom'])):
			got = np.sum(w*x**k)
			if abs(got - v) > 1e-11*(1 + np.sum(np.abs(w*x**k))):
				out.append('gauss(%d, %d, %d) integrates x^%d to %.15g instead of %.15g' % (qr['n'], a, b, k, got, v))
		if (a, b) == (0, 1):
			x2, w2 = gauss(qr['n'])
			if not np.array_equal(x, x2) or not np.array_equal(w, w2):
				out.append('the default interval is not [0, 1]')
		return out
	dom = domlib.replay_history(case['hist'])[-1]
	m, n = case['m'], qr['n']
	if qr['kind'] == 'poly' and vol == 0:
		return out
	for method in ('auto', 'gauss', 'montecarlo'):
		if method == 'montecarlo' and qr['kind'] == 'poly' and n > 50:
			continue
		dom = domlib.replay_history(case['hist'])[-1]
		X, w = dom.quadrature_rule(n, method=method)
		X, w = np.asarray(X), np.asarray(w)
		if n == 1 and X.shape == (m,):
			X = X.reshape(1, m)
		if X.ndim != 2 or X.shape[1] != m or w.shape != (len(X),) or len(X) > n:
			out.append('%s: rule with %d points at most has shapes %s, %s' % (method, n, X.shape, w.shape))
			continue
		if len(X) and not np.all(dom.isinside(X)):
			out.append('%s: nodes outside of the domain' % method)
		if np.any(w <= 0):
			out.append('%s: weights are not positive' % method)
		if method == 'montecarlo':
			if len(X) != n or np.ptp(w) > 1e-12*vol:
				out.append('montecarlo: %d nodes, weights %s' % (len(X), w[:5]))
			if abs(np.sum(w) - vol) > (1e-9 if qr['kind'] == 'box' else 0.12)*vol:
				out.append('montecarlo: weights sum up to %g instead of %g' % (np.sum(w), vol))
			continue
		if qr['kind'] == 'box':
			if method == 'auto' and case['root'] == 1:
				continue
			# the root may be off by one due to rounding if n is a perfect power
			k = int(round(len(X)**(1./m)))
			if k**m != len(X) or k < case['root'] - (1 if case['root']**m == n else 0):
				out.append('%s: %d nodes out of %d' % (method, len(X), n))
			for deg, v in zip(case['degs'], fls(case['mom'])):
				if max(deg) <= 2*k - 1:
					f = np.prod(X**np.array(deg), axis=1)
					if abs(w @ f - v) > 1e-10*(1 + np.abs(w) @ np.abs(f)):
						out.append('%s with %d nodes integrates the monomial %s to %.12g instead of %.12g' % (method, len(X), deg, w @ f, v))
		elif n >= 700:
			if abs(np.sum(w) - vol) > (0.12 if n < 2000 else 0.06)*vol:
				out.append('%s: the %d weights sum up to %g but the area is %g' % (method, len(X), np.sum(w), vol))
			if len(X) < n/4:
				out.append('%s: only %d of %d nodes' % (method, len(X), n))
	v = domlib.replay_history(case['hist'])[-1].volume()
	if abs(v - vol) > (1e-9 if qr['kind'] == 'box' else 0.12)*vol:
		out.append('volume is %g instead of %g' % (v, vol))
	return out


def quad_cases(cases, tier):
	"""the linear programs of convex hulls are slow"""
	return [c for c in cases if tier == 'thorough' or c['q']['n'] < 2000 or c['hist'][0].get('cls') != 'hull']


def run_novol(case):
	"""nothing can be integrated over an empty domain"""
	try:
		r = domlib.replay_history(case['hist'])[-1].quadrature_rule(10)
		return ['quadrature_rule of an empty domain returned %s' % (r,)]
	except EmptyDomainException:
		return []


def D07():
	from checks_dom import catalogue
	return [Suite('density', tlc_cases('DomRand', {'quick': {'Dense': False}, 'thorough': {'Dense': True}}, invariants=['Sane', 'Emit']),
			run_pdf, min_cases=1000),
		Suite('scaled', tlc_cases('DomRand', {'both': {'Dense': False}}, invariants=['Emit'], post=scaled_cases), run_pdf),
		TraceSuite('distribution', rand_domains, drive_rand, 'RandTrace', constants={'K': KR}, invariants=('Report',), min_cases=20, chunk=1),
		Suite('quadrature', tlc_cases('Quad', {'both': {'S': 2}}, invariants=['Sane', 'SaneBox', 'Emit'], post=quad_cases), run_quad, min_cases=200, chunk=1),
		Suite('empty', catalogue(lambda c: c['empty']), run_novol)]
