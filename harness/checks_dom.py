"""Domains: the algebra of sets, normalization, optimal points, extent, sampling"""
import numpy as np
import psdr

from core import Suite, TraceSuite, tlc_cases, run_tlc, cfg_text, fl, fls, q, qs
import domlib


def _diff(name, got, want, X):
	bad = np.flatnonzero(np.asarray(got) != np.asarray(want, dtype=bool))
	if len(bad):
		i = bad[0]
		return ['%s: point %s is reported %s, the specification says %s (%d points differ)' % (
			name, X[i].tolist(), 'inside' if got[i] else 'outside', 'inside' if want[i] else 'outside', len(bad))]
	return []


################################################################################
# D01: membership and the algebra of domains
################################################################################
def run_algebra(case):
	out = []
	pool = []
	s = case['s']
	lat = {}
	for o in case['obs']:
		m = o['m']
		if m not in lat:
			lat[m] = domlib.lattice(case['vals'][m - 1], m, s)
	pool = domlib.replay_history(case['hist'])
	for i, (dom, o) in enumerate(zip(pool, case['obs'])):
		m = o['m']
		X = lat[m]
		want = np.array(o['bits'], dtype=bool)
		what = 'domain %d of the history' % (i + 1)
		if len(dom) != m:
			out.append('%s has dimension %d instead of %d' % (what, len(dom), m))
			continue
		keep = X.copy()
		got = domlib.as_bits(dom.isinside(X), len(X))
		out += _diff(what, got, want, X)
		if not np.array_equal(keep, X):
			out.append('%s: isinside changed its argument' % what)
		# one point at a time, as arrays, lists and integers; a few of each kind
		sel = list(np.flatnonzero(want)[:3]) + list(np.flatnonzero(~want)[:3]) + list(range(0, len(X), max(1, len(X)//5)))
		for j in sel:
			one = np.asarray(dom.isinside(X[j])).reshape(-1)
			if len(one) != 1 or bool(one[0]) != bool(want[j]):
				out.append('%s: isinside of the single point %s is %s' % (what, X[j].tolist(), one))
			one = np.asarray(dom.isinside(X[j].tolist())).reshape(-1)
			if len(one) != 1 or bool(one[0]) != bool(want[j]):
				out.append('%s: isinside of the list %s is %s' % (what, X[j].tolist(), one))
		if np.any(dom.isinside(np.zeros((3, m + 1)))) or np.any(dom.isinside(np.zeros(m + 1))):
			out.append('%s: contains a point of dimension %d' % (what, m + 1))
		empty = np.asarray(dom.isinside(np.zeros((0, m))))
		if empty.size:
			out.append('%s: isinside of no points returned %s' % (what, empty))
		# what the domain says about itself
		if list(dom.names) != case['names'][i]:
			out.append('%s: names are %s instead of %s' % (what, list(dom.names), case['names'][i]))
		if not np.array_equal(np.asarray(dom.lb, dtype=float), domlib.bound(o['lb'])):
			out.append('%s: lower bound is %s instead of %s' % (what, dom.lb, o['lb']))
		if not np.array_equal(np.asarray(dom.ub, dtype=float), domlib.bound(o['ub'])):
			out.append('%s: upper bound is %s instead of %s' % (what, dom.ub, o['ub']))
		if not o['hull'] and bool(dom.is_box_domain) != o['box']:
			out.append('%s: is_box_domain is %s' % (what, dom.is_box_domain))
		if bool(dom.is_linineq_domain) != o['linear']:
			out.append('%s: is_linineq_domain is %s' % (what, dom.is_linineq_domain))
		if not dom.is_linquad_domain:
			out.append('%s: is_linquad_domain is False' % what)
		# an independent copy means the same
		if i == len(pool) - 1:
			out += _diff(what + ' (copy)', domlib.as_bits(dom.copy().isinside(X), len(X)), want, X)
	return out


def D01():
	return [Suite('algebra', tlc_cases('DomAlg', {'both': {'S': 2, 'MaxDim': 3},
		'quick': {'Depth': 3, 'Big': False}, 'thorough': {'Depth': 4, 'Big': True, 'MaxDim': 4}},
		invariants=['Sound', 'Emit'], properties=['Pure'], limit={'quick': 100000, 'thorough': 60000}), run_algebra, min_cases=500)]


################################################################################
# D02: normalization;  D03: optimal points of polyhedra, exactly
################################################################################
from psdr.exceptions import EmptyDomainException, UnboundedDomainException


def _outcome(f):
	try:
		return 'ok', f()
	except EmptyDomainException:
		return 'empty', None
	except UnboundedDomainException:
		return 'unbounded', None


def fresh(case):
	return domlib.replay_history(case['hist'])[-1]


def run_opt(case):
	out = []
	for unit, natural in ((1, True), (2, True), (4, False)):
		with domlib.units(unit, natural):
			out += ['%s (units 1/%d)' % (x, unit) for x in run_opt1(case, unit)]
	return out


def run_opt1(case, unit):
	qr = case['q']
	dom = fresh(case)
	m = case['m']
	want = fl(case['val'])/(unit if qr['kind'] == 'corner' else unit**2)
	out = []
	if qr['kind'] == 'shape':
		if bool(dom.is_empty) != case['empty']:
			out.append('is_empty is %s' % dom.is_empty)
		dom = fresh(case)
		if bool(dom.is_point) != case['point']:
			out.append('is_point is %s' % dom.is_point)
		dom = fresh(case)
		if bool(dom.is_unbounded) != case['unb']:
			out.append('is_unbounded is %s' % dom.is_unbounded)
		if dom.intrinsic_dimension != m - case['neq']:
			out.append('intrinsic_dimension is %s' % dom.intrinsic_dimension)
		return out
	if qr['kind'] == 'corner':
		arg = np.array(qr['p'], dtype=float)
		call = lambda: dom.corner(arg)
		value = lambda x: arg.dot(x)
	elif qr['kind'] == 'closest':
		arg = domlib.arr(qr['x0'])
		L = np.array(qr['L'], dtype=float) if qr['L'] else None
		call = (lambda: dom.closest_point(arg)) if L is None else (lambda: dom.closest_point(arg, L=L))
		M = np.eye(m) if L is None else L
		value = lambda x: np.sum((M @ (x - arg))**2)
	else:
		A, arg = np.array(qr['L'], dtype=float), domlib.arr(qr['b'])
		call = lambda: dom.constrained_least_squares(A, arg)
		value = lambda x: np.sum((A @ x - arg)**2)
	keep = arg.copy()
	# asking twice must give the same answer: nothing is left behind in the domain
	for again in range(2):
		st, x = _outcome(call)
		if st != case['status']:
			return out + ['%s %s: outcome "%s" (%s), the specification says "%s"' % (qr['kind'], arg, st, x, case['status'])]
		if st != 'ok':
			continue
		x = np.asarray(x)
		if x.shape != (m,):
			return out + ['%s returned shape %s' % (qr['kind'], x.shape)]
		if not np.all(fresh(case).isinside(x)):
			out.append('%s returned %s, which is not in the domain' % (qr['kind'], x))
		if not abs(value(x) - want) <= 2e-5*(1 + abs(want)):
			out.append('%s returned %s with value %g instead of %g' % (qr['kind'], x, value(x), want))
		# giving the caller a view of the state of the domain would let them change it
		x[:] = 100.
	if not np.array_equal(arg, keep):
		out.append('%s changed its argument' % qr['kind'])
	return out


K = 480
_CAT = {}


def catalogue(select=lambda c: True):
	"""the domains of the catalogue, as cases"""
	def gen(tier):
		if 'cat' not in _CAT:
			r = run_tlc('DomDump', cfg_text('Spec', {'S': 2}, invariants=['Emit']))
			_CAT['cat'] = sorted(r.records, key=lambda c: (c['which'], c['cat'])), r
		cases, r = _CAT['cat']
		return [dict(c, tier=tier) for c in cases if select(c)], [r]
	return gen


DIRS = {1: [[1], [-2]],
	2: [[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [-1, 2], [2, -3], [-3, -1]],
	3: [[1, 0, 0], [0, 1, 0], [0, 0, -1], [1, 1, 1], [-1, 2, 1], [2, -1, -3]]}
POINTS = {1: [[0], [3], [8]],
	2: [[0, 0], [4, 2], [10, 3], [-7, 6], [5, -8], [1, 11]],
	3: [[0, 0, 0], [3, 2, -1], [7, 6, 4], [-3, 5, 1]]}
MATS = {1: [[[1]], [[3]]],
	2: [[[1, 0], [0, 1]], [[2, 1], [0, 1]], [[1, 0], [1, 1], [0, 2]], [[1, 2]]],
	3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 1], [0, 1, 0], [0, 0, 2]], [[1, 1, 0]]]}


def qv(x):
	return qs(np.asarray(x, dtype=float).flatten(), K)


def quad_nonempty(c):
	return c['which'] == 'quad'


def bounded_poly(c):
	return c['which'] == 'poly' and c['bounded']


def drive_opt(case):
	m = case['m']
	ev = []
	base = {'which': case['which'], 'cat': case['cat']}
	dom = fresh(case)
	for p in DIRS[m]:
		ev.append(dict(base, kind='corner', p=p, x=qv(dom.corner(p))))
	for x0 in POINTS[m]:
		for L in MATS[m]:
			x = dom.closest_point(np.array(x0, dtype=float), L=np.array(L, dtype=float))
			ev.append(dict(base, kind='lsq', A=L, b=[int(v)*K for v in np.dot(L, x0)], x=qv(x)))
		x = dom.closest_point(x0)
		ev.append(dict(base, kind='lsq', A=MATS[m][0] if m > 1 else [[1]], b=[int(v)*K for v in x0], x=qv(x)))
	for A in MATS[m]:
		for s in (1, -1):
			b = [s*(3*i + 2) for i in range(len(A))]
			ev.append(dict(base, kind='lsq', A=A, b=[v*K for v in b], x=qv(dom.constrained_least_squares(A, b))))
	return ev


def drive_cheb(case):
	dom = fresh(case)
	x, r = dom.chebyshev_center()
	assert np.allclose(dom.center, x, atol=1e-6) and abs(dom.radius - r) < 1e-6
	return [{'which': case['which'], 'cat': case['cat'], 'kind': 'cheb', 'x': qv(x), 'r': q(r, K)}]


TRACE = dict(module='DomTrace', constants={'S': 2, 'K': K}, invariants=('Report',))


def D03():
	return [Suite('polyhedra', tlc_cases('DomOpt', {'both': {'S': 2}, 'quick': {'Deep': False}, 'thorough': {'Deep': True}},
			invariants=['SaneClosest', 'SaneFaces', 'SaneRange', 'Emit']), run_opt, min_cases=900),
		TraceSuite('ellipsoids', catalogue(quad_nonempty), drive_opt, **TRACE),
		TraceSuite('center', catalogue(lambda c: bounded_poly(c) and c['hist'][-1].get('cls') in ('box', 'linineq', 'boxscalar', 'uniform')),
			drive_cheb, **TRACE)]


################################################################################
# D02: normalization
################################################################################
def run_norm(case):
	out = []
	for unit, natural in ((1, True), (2, False)):
		with domlib.units(unit, natural):
			out += ['%s (units 1/%d)' % (x, unit) for x in run_norm1(case, unit)]
	return out


def check_norm_consistency(dom, X, bits, names):
	"""the normalized domain is the image of the domain under the normalization"""
	out = []
	keep = X.copy()
	Xn = dom.normalize(X)
	if Xn.shape != X.shape or not np.array_equal(X, keep):
		out.append('normalize returned shape %s or changed its argument' % (Xn.shape,))
	if not np.allclose(dom.unnormalize(Xn), X, atol=1e-7):
		out.append('unnormalize does not invert normalize: %s' % np.max(np.abs(dom.unnormalize(Xn) - X)))
	if not np.allclose(dom.normalize(dom.unnormalize(X)), X, atol=1e-7):
		out.append('normalize does not invert unnormalize')
	for x, xn in list(zip(X, Xn))[::max(1, len(X)//4)]:
		if not np.array_equal(np.asarray(dom.normalize(x)), xn) or not np.array_equal(np.asarray(dom.normalize(x.tolist())), xn):
			out.append('normalize of the single point %s differs' % x)
		if not np.allclose(dom.unnormalize(xn), x, atol=1e-7) or np.shape(dom.unnormalize(xn)) != x.shape:
			out.append('unnormalize of the single point %s differs' % xn)
	dn = dom.normalized_domain()
	got = np.asarray(dn.isinside(Xn))
	bad = np.flatnonzero(got != bits)
	if len(bad):
		out.append('normalized domain: the image of %s (%s) is reported %s' % (X[bad[0]], 'inside' if bits[bad[0]] else 'outside', got[bad[0]]))
	if [str(n) for n in dn.names] != ['%s (normalized)' % n for n in names]:
		out.append('names of the normalized domain are %s' % list(dn.names))
	return out


def run_norm1(case, unit):
	out = []
	dom = fresh(case)
	m = case['m']
	X = domlib.lattice(list(range(-9, 13)) if m < 3 else list(range(-3, 9)), m, unit)
	X = X[::7] if m == 3 else X
	bits = np.asarray(fresh(case).isinside(X))
	names = dom.names
	if not case['exact']:
		# only the box that contains the domain is prescribed
		Y = dom.normalize(X[bits])
		if len(Y) and np.max(np.abs(Y)) > 1 + 1e-6:
			out.append('a point of the domain has normalized coordinates %s' % Y[np.argmax(np.max(np.abs(Y), axis=1))])
		return out + check_norm_consistency(dom, X, bits, names)
	want = np.zeros(X.shape)
	for i, (lo, hi) in enumerate(case['range']):
		lo, hi = fl(lo), fl(hi)
		fin = lo != domlib.NINF and hi != domlib.INF
		lo, hi = lo/unit if lo != domlib.NINF else -np.inf, hi/unit if hi != domlib.INF else np.inf
		if not fin:
			want[:, i] = X[:, i]
		elif lo == hi:
			want[:, i] = X[:, i] - lo
		else:
			want[:, i] = (2*X[:, i] - lo - hi)/(hi - lo)
		if not (np.isclose(dom.norm_lb[i], lo, atol=1e-6) or dom.norm_lb[i] == lo) or not (np.isclose(dom.norm_ub[i], hi, atol=1e-6) or dom.norm_ub[i] == hi):
			out.append('normalization bounds of coordinate %d are [%s, %s] instead of [%s, %s]' % (i, dom.norm_lb[i], dom.norm_ub[i], lo, hi))
	got = fresh(case).normalize(X)
	if got.shape != want.shape or not np.allclose(got, want, atol=1e-4, rtol=1e-5):
		i = np.argmax(np.max(np.abs(got - want), axis=1))
		return out + ['normalize(%s) = %s instead of %s' % (X[i], got[i], want[i])]
	return out + check_norm_consistency(dom, X, bits, names)


def drive_range(case):
	m = case['m']
	dom = fresh(case)
	ev = []
	msgs = check_norm_consistency(fresh(case), *(lambda X: (X, np.asarray(fresh(case).isinside(X)), dom.names))(
		domlib.lattice(list(range(-9, 13, 1 if m < 3 else 2)), m, 1)))
	if msgs:
		raise AssertionError('; '.join(msgs))
	for i in range(m):
		e = np.eye(m)[i]
		if is_hull_with_constraints(case):
			continue
		ev.append({'which': case['which'], 'cat': case['cat'], 'kind': 'range', 'i': i + 1, 'lo': q(dom.norm_lb[i], K), 'hi': q(dom.norm_ub[i], K),
			'xlo': qv(fresh(case).corner(-e)), 'xhi': qv(fresh(case).corner(e)), 'x': []})
	return ev


def is_hull_with_constraints(c):
	return c['hist'][0].get('cls') == 'hull' and [h['op'] for h in c['hist']] == ['base', 'add']


def norm_cases(cases, tier):
	out = []
	for c in cases:
		if c['q']['kind'] == 'shape' and not c['empty']:
			# hulls with additional constraints are normalized with respect to the hull
			c['exact'] = not is_hull_with_constraints(c)
			out.append(c)
	return out


def D02():
	return [Suite('polyhedra', tlc_cases('DomOpt', {'both': {'S': 2, 'Deep': False}}, invariants=['SaneRange', 'Emit'], post=norm_cases),
			run_norm, min_cases=28, chunk=1),
		TraceSuite('ellipsoids', catalogue(quad_nonempty), drive_range, chunk=1, **TRACE)]


################################################################################
# D04: extent and sweep
################################################################################
def _root(a, b, c):
	# the positive root of a t^2 + b t + c with c <= 0
	if a == 0:
		return np.inf
	d = np.sqrt(float(b)**2 - 4.*a*c)
	return (-b + d)/(2.*a) if b <= 0 else -2.*c/(b + d)


def run_ext(case):
	out = []
	dom = fresh(case)
	x, p = np.array(case['x'], dtype=float)/case['s'], np.array(case['p'], dtype=float)
	want = min([np.inf if case['lin'] == [domlib.INF, 1] else fl(case['lin'])] + [_root(*c) for c in case['quads']])
	tol = (2e-5 if case['hull'] else 1e-7)
	kx, kp = x.copy(), p.copy()
	got = dom.extent(x, p)
	if not (got == want or abs(got - want) <= tol*(1 + abs(want))):
		out.append('extent from %s in direction %s is %s instead of %s' % (x, p, got, want))
	got2 = dom.extent(x.tolist(), case['p'])
	if not (got2 == got or abs(got2 - got) <= tol*(1 + abs(got))):
		out.append('extent of lists is %s instead of %s' % (got2, got))
	if np.isfinite(want):
		scale = dom.extent(x, 2*p)
		if abs(scale - want/2) > tol*(1 + abs(want)):
			out.append('extent in direction 2*%s is %s instead of %s' % (p, scale, want/2))
	if not np.array_equal(kx, x) or not np.array_equal(kp, p):
		out.append('extent changed its arguments')
	return out


def sweep_cases(cases, tier):
	"""pair the extents in opposite directions: the end points of a sweep"""
	ext = {}
	for c in cases:
		ext[(c['which'], c['cat'], tuple(c['x']), tuple(c['p']))] = c
	out = []
	for c in cases:
		if any(c['proj']) and c['proj'] == c['p'] or c['neq'] >= 1:
			out.append(c)
	return [c for i, c in enumerate(out) if i % 3 == 0 or not any(c['proj'])] if tier == 'quick' else out


def run_sweep(case):
	out = []
	dom = fresh(case)
	m = case['m']
	x = np.array(case['x'], dtype=float)/case['s']
	p = np.array(case['p'], dtype=float)
	pp = np.array(case['proj'], dtype=float)
	if not np.any(pp):
		# the equality constraints do not allow any movement along p
		for n in (1, 4):
			X, y = dom.sweep(n, x=x, p=p)
			if np.shape(X) != (n, m) or np.shape(y) != (n,) or not np.allclose(X, x, atol=1e-6) or not np.allclose(y, y[0], atol=1e-6):
				out.append('sweep through %s along %s, which the equality constraints rule out, is %s, %s' % (x, p, X, y))
		if case['bounded']:
			X, y = dom.sweep(4)
			if np.shape(X) != (4, m) or not np.all(fresh(case).isinside(X)):
				out.append('a random sweep left the domain: %s' % X)
		return out
	up, down = fresh(case).extent(x, pp), fresh(case).extent(x, -pp)
	if not np.isfinite(up) or not np.isfinite(down) or (up + down < 1e-6 and (case['hull'] or np.any(dom.lb == dom.ub))):
		return out
	if case['hull'] and not case['quads'] and up + down < 1e-3:
		return out
	n = 2 + (case['x'][0] + case['p'][-1]) % 6
	keep, keepx = p.copy(), x.copy()
	X, y = dom.sweep(n, x=x, p=p)
	if not np.array_equal(keep, p) or not np.array_equal(keepx, x):
		out.append('sweep changed its arguments')
	want = np.array([(1 - a)*(x + up*pp) + a*(x - down*pp) for a in np.linspace(0, 1, n)])
	scale = 1 + np.max(np.abs(want))
	if X.shape != (n, m) or np.shape(y) != (n,):
		return out + ['sweep returned shapes %s and %s for n = %d' % (X.shape, np.shape(y), n)]
	if not np.allclose(X, want, atol=1e-4*scale):
		out.append('sweep through %s along %s goes from %s to %s instead of %s to %s' % (x, p, X[0], X[-1], want[0], want[-1]))
	if not np.allclose(y - y[0], np.linalg.norm(X - X[0], axis=1), atol=1e-6*scale):
		out.append('the lengths %s of the sweep do not match its points' % y)
	if not np.all(fresh(case).isinside(X)):
		out.append('sweep left the domain')
	# random sweeps, and those between corners
	for kw in ({}, {'p': p.tolist()}, {'x': x.tolist()}):
		if not case['bounded']:
			continue
		X, y = dom.sweep(4, **kw)
		if np.shape(X) != (4, m) or np.shape(y) != (4,) or not (np.all(np.isnan(X)) or np.all(fresh(case).isinside(X))):
			out.append('sweep(%s) left the domain or has a wrong shape' % kw)
	if not case['neq'] and m > 1 and case['bounded']:
		X, y = dom.sweep(5, x=x, p=p, corner=True)
		c1, c2 = fresh(case).corner(p), fresh(case).corner(-p)
		if abs(p @ X[0] - p @ c1) > 1e-4*scale or abs(p @ X[-1] - p @ c2) > 1e-4*scale or not np.allclose(np.diff(X, axis=0), (X[-1] - X[0])/4, atol=1e-6*scale):
			out.append('sweep between corners goes from %s to %s' % (X[0], X[-1]))
	return out


def D04():
	consts = {'both': {'S': 2}, 'quick': {'Dense': False}, 'thorough': {'Dense': True}}
	return [Suite('extent', tlc_cases('DomExt', consts, invariants=['Sane', 'Emit']), run_ext, min_cases=1000),
		Suite('sweep', tlc_cases('DomExt', consts, invariants=['Emit'], post=sweep_cases), run_sweep, min_cases=200)]


################################################################################
# D05: samples
################################################################################
def drive_sample(case):
	m = case['m']
	case = dict(case, point=case['point'] or case['neq'] >= m)
	dom = fresh(case)
	base = {'which': case['which'], 'cat': case['cat'], 'x': []}
	ev = []
	big = 1000 if case['tier'] == 'thorough' else 150
	for n in (1, 2, 7):
		X = dom.sample(n)
		assert np.shape(X) == ((m,) if n == 1 else (n, m)), 'sample(%d) has shape %s' % (n, np.shape(X))
		assert np.all(fresh(case).isinside(X)), 'sample(%d) is not inside the domain: %s' % (n, X)
		ev.append(dict(base, kind='samples', n=n, pts=[qv(x) for x in np.reshape(X, (-1, m))]))
	assert np.shape(dom.sample()) == (m,)
	for n in (0, -2):
		assert np.shape(dom.sample(n)) == (0, m), 'sample(%d) has shape %s' % (n, np.shape(dom.sample(n)))
	X = np.vstack([fresh(case).sample(big)])
	ev.append(dict(base, kind='samples', n=big, pts=[qv(x) for x in X]))
	for i in range(m):
		ev.append(dict(base, kind='spread', i=i + 1, lo=q(np.min(X[:, i]), K), hi=q(np.max(X[:, i]), K)))
	assert case['point'] or len(np.unique(np.round(X, 9), axis=0)) > big/2, 'only %d different samples' % len(np.unique(X, axis=0))
	for x in X[:20]:
		if case['point']:
			break
		d = dom.random_direction(x) if interior(case, x) else None
		if d is not None:
			assert np.shape(d) == (m,) and fresh(case).extent(x, d) > 0, 'random_direction(%s) = %s' % (x, d)
	if not case['point']:
		for n in (1, 5):
			X = dom.sample_boundary(n)
			assert np.shape(X) == ((m,) if n == 1 else (n, m)), 'sample_boundary(%d) has shape %s' % (n, np.shape(X))
			ev.append(dict(base, kind='boundary', n=n, pts=[qv(x) for x in np.reshape(X, (-1, m))]))
	return ev


def interior(case, x):
	"""x can move in almost half of all directions"""
	dom = fresh(case)
	rng = np.random.RandomState(0)
	Qeq = dom._A_eq_basis
	for i in range(40):
		p = rng.randn(len(x))
		if dom.extent(x, p - Qeq @ (Qeq.T @ p)) > 0:
			return True
	return False


def drive_grid(case):
	dom = fresh(case)
	base = {'which': case['which'], 'cat': case['cat'], 'x': [], 'kind': 'grid'}
	ev = []
	for n in (2, 3, 4, 5, 6):
		if case['m'] == 3 and n > 4:
			continue
		if not (np.all(np.isfinite(dom.lb)) and np.all(np.isfinite(dom.ub))):
			try:
				dom.sample_grid(n)
			except AssertionError:
				continue
			raise ValueError('sample_grid did not refuse a domain without bounds')
		X = dom.sample_grid(n)
		assert X.ndim == 2 and X.shape[1] == case['m']
		ev.append(dict(base, n=n, pts=[qv(x) for x in X]))
	return ev


def run_refuse(case):
	"""there is nothing to sample in an empty domain"""
	out = []
	dom = fresh(case)
	try:
		X = dom.sample(3)
		out.append('sample returned %s from an empty domain' % X)
	except Exception:
		pass
	return out


def gridable(c):
	return (c['which'] == 'quad' or c['bounded']) and not any(l == u for l, u in zip(c['lb'], c['ub']))


def D05():
	return [TraceSuite('random', catalogue(lambda c: c['which'] == 'quad' or bounded_poly(c)), drive_sample, chunk=1, **TRACE),
		TraceSuite('grid', catalogue(gridable), drive_grid, **TRACE),
		Suite('empty', catalogue(lambda c: c['empty']), run_refuse)]


################################################################################
# D06: a domain is a value
################################################################################
def _ask(kind, dom, m):
	v = np.array([2., 1., -1.])[:m]
	x0 = np.array([3.5, 1.5, -1.5])[:m]
	if kind == 'corner1': return dom.corner(v)
	if kind == 'corner2': return dom.corner(-np.ones(m))
	if kind == 'closest': return dom.closest_point(9*np.ones(m))
	if kind == 'lsq': return dom.constrained_least_squares(np.eye(m) + 1, -np.ones(m))
	if kind == 'extent': return dom.extent(x0, v)
	if kind == 'isinside': return dom.isinside(np.vstack([x0, v]))
	if kind == 'normalize': return dom.normalize(np.vstack([x0, v]))
	if kind == 'normalized_domain': return dom.normalized_domain().isinside(np.vstack([np.zeros(m), 0.9*np.ones(m), 0.3*v]))
	if kind == 'is_empty': return bool(dom.is_empty)
	if kind == 'is_point': return bool(dom.is_point)
	if kind == 'is_unbounded': return bool(dom.is_unbounded)
	if kind == 'intrinsic': return dom.intrinsic_dimension
	if kind == 'sample': return dom.sample(3)
	if kind == 'sample1': return dom.sample()
	if kind == 'sweep': return dom.sweep(3)
	if kind == 'random_direction': return dom.random_direction(None)
	if kind == 'sample_boundary': return dom.sample_boundary(2)
	if kind == 'grid': return dom.sample_grid(3)
	if kind == 'add': return dom.add_constraints(A=np.ones((1, m)), b=[4.]).isinside(np.vstack([x0, v]))
	if kind == 'copy': return dom.copy().isinside(np.vstack([x0, v]))
	if kind == 'mul': return (dom*psdr.BoxDomain(0, 1)).corner(np.ones(m + 1))
	if kind == 'and': return (dom & psdr.BoxDomain(-np.ones(m), 5*np.ones(m))).isinside(np.vstack([x0, v]))
	if kind == 'volume': return dom.volume()
	if kind == 'quadrature': return dom.quadrature_rule(20)
	if kind == 'center': return dom.center
	if kind == 'points': return dom.X
	raise ValueError(kind)


RANDOM = ('sample', 'sample1', 'sweep', 'random_direction', 'sample_boundary', 'volume', 'quadrature', 'center')


def _answer(kind, dom, m, bounded):
	try:
		return _ask(kind, dom, m)
	except (EmptyDomainException, UnboundedDomainException) as e:
		return type(e).__name__
	except (NotImplementedError, AssertionError, AttributeError) as e:
		return 'refused'
	except Exception:
		# nothing is specified for samples of domains that are unbounded or empty
		if kind in RANDOM and not bounded:
			return 'refused'
		raise


def _same(a, b):
	if isinstance(a, str) or isinstance(b, str):
		return isinstance(a, str) and isinstance(b, str) and a == b
	return np.shape(a) == np.shape(b) and np.allclose(a, b, atol=2e-4, equal_nan=True)


def _state(dom):
	return [np.array(v) for v in (dom.lb, dom.ub, dom.A, dom.b, dom.A_eq, dom.b_eq)] + [np.array(v) for v in list(dom.Ls) + list(dom.ys) + list(dom.rhos)] + [list(dom.names)]


_FRESH = {}


def run_hist(case):
	c = case['dom']
	m = c['m']
	out = []
	key = (c['which'], c['cat'])
	dom = fresh(c)
	before = _state(dom)
	for n, kind in enumerate(case['hist']):
		got = _answer(kind, dom, m, c['bounded'])
		if kind in RANDOM:
			if isinstance(got, str):
				continue
			pts = got[0] if isinstance(got, tuple) else got
			if c['bounded'] and kind not in ('volume', 'random_direction') and np.size(pts) and not np.all(np.isnan(pts)) and not np.all(fresh(c).isinside(pts)):
				out.append('after %s, %s leaves the domain: %s' % (case['hist'][:n], kind, pts))
		else:
			if key + (kind,) not in _FRESH:
				_FRESH[key + (kind,)] = _answer(kind, fresh(c), m, c['bounded'])
			want = _FRESH[key + (kind,)]
			if not _same(got, want):
				out.append('after %s, %s is %s; asked first it is %s' % (case['hist'][:n], kind, got, want))
				continue
		# scribble over what was returned: it must not be part of the domain
		for a in (got if isinstance(got, tuple) else (got,)):
			if isinstance(a, np.ndarray) and a.flags.writeable:
				a[...] = 77.
	after = _state(dom)
	if len(before) != len(after) or not all(np.array_equal(a, b) for a, b in zip(before, after)):
		out.append('%s changed the constraints of the domain' % case['hist'])
	return out


def hist_cases(tier):
	doms, tl = catalogue()(tier)
	r = run_tlc('DomHist', cfg_text('Spec', {'Len1': 2 if tier == 'quick' else 3}, invariants=['Emit'], properties=['Monotone']))
	hists = sorted(h['hist'] for h in r.records)
	out = []
	for i, d in enumerate(doms):
		# every domain sees each of the histories whose number is congruent to its own
		step = 7 if tier == 'quick' else 60
		for h in hists[i % step::step]:
			# quadrature rules on a part of a segment take about a minute
			if 'quadrature' in h and d['which'] == 'quad' and d['hist'][0].get('cls') == 'hull' and d['cat'] == 17:
				continue
			out.append({'dom': d, 'hist': h + (['sample1', 'isinside', 'corner1', 'sample1', 'normalize', 'sample'] if tier == 'quick' else ['sample1', 'closest', 'sample1', 'normalize'])})
	return out, tl + [r]


def D06():
	return [Suite('histories', hist_cases, run_hist, min_cases=1000, timeout=40)]
