"""Voronoi vertices, fill distances and other geometry; designs that follow from them"""
import numpy as np
import psdr
from psdr import voronoi_vertex, voronoi_vertex_sample, fill_distance, fill_distance_estimate, maximin_coffeehouse, seq_maximin_sample
from psdr.geometry import cdist, unique_points, sample_sphere, sample_simplex, miniball
from psdr.sample.util import low_rank_L

from core import Suite, tlc_cases, fl, fls, case_hash
from checks_bas import Report, arr


def domain_of(d, first=None, unit=1.):
	"""the domain; with `first`, one whose single samples are that point"""
	base = cls = {'box': psdr.BoxDomain, 'linineq': psdr.LinIneqDomain}[d['cls']]
	if first is not None:
		point = np.array(first, dtype=float)

		class Started(base):
			def _sample(self, draw=1):
				return point.reshape(1, -1) if draw == 1 else base._sample(self, draw)
		cls = Started
	kw = {}
	if d['lb']:
		kw['lb'], kw['ub'] = unit*np.array(d['lb'], dtype=float), unit*np.array(d['ub'], dtype=float)
	if d['A']:
		kw['A'], kw['b'] = np.array([r['a'] for r in d['A']], dtype=float), unit*np.array([r['b'] for r in d['A']], dtype=float)
	return cls(**kw)


def near(L, x, X):
	"""distances of points x to the nearest of X"""
	return np.min(np.linalg.norm(np.einsum('ij,abj->abi', L, np.atleast_2d(x)[:, None, :] - np.atleast_2d(X)[None, :, :]), axis=2), axis=1)


def missing(P, Q, tol):
	"""points of P that are not among Q"""
	P, Q = np.atleast_2d(P), np.atleast_2d(Q)
	if len(P) == 0:
		return []
	if len(Q) == 0:
		return P.tolist()
	d = np.min(np.linalg.norm(P[:, None, :] - Q[None, :, :], axis=2), axis=1)
	return P[d > tol].tolist()


def run_voronoi(case):
	rep = Report()
	dom = domain_of(case['dom'])
	L, X, V, fill = np.array(case['L'], dtype=float), np.array(case['X'], dtype=float), arr(case['V']), np.sqrt(fl(case['fill2']))
	m, h = X.shape[1], case_hash(case)
	rank = np.linalg.matrix_rank(L)
	full = rank == m
	X = X[np.random.RandomState(h % 1000).permutation(len(X))]
	keep = [L.copy(), X.copy()]
	identity = L.shape == (m, m) and np.array_equal(L, np.eye(m))
	for kw in ({'L': L},) + (({},) if identity else ()):
		how = ', without L' if not kw else ''
		got = voronoi_vertex(dom, X, **kw)
		if got.ndim != 2 or got.shape[1] != m:
			rep.add('vertices of shape %s' % (got.shape,))
			return rep.out
		rep.none('vertices that are missing' + how, missing(V, got, 1e-6))
		rep.none('vertices too many' + how, missing(got, V, 1e-6))
		if len(got) != len(V):
			rep.add('%d vertices instead of %d%s' % (len(got), len(V), how))
		rep.same('fill distance' + how, fill_distance(dom, X, **kw), fill, 1e-6)
		# from starting points
		X0 = dom.sample(20)
		start = X0.copy()
		for randomize in (True, False):
			for run in ('once', 'lists', 'units'):
				unit = 1e-4 if run == 'units' else 1
				got = voronoi_vertex_sample(dom, X, X0.tolist() if run == 'lists' else X0, randomize=randomize, **({'L': unit*L} if kw or run == 'units' else {}))
				if got.shape != X0.shape:
					rep.add('%d points moved to %s vertices' % (len(X0), got.shape))
					return rep.out
				if not np.all(dom.isinside(got)):
					rep.add('vertices outside of the domain: %s' % got[~dom.isinside(got)].tolist())
				less = near(L, got, X) - near(L, X0, X)
				if np.min(less) < -1e-7:
					rep.add('a starting point went nearer to the sites, by %g' % -np.min(less))
				if full or randomize:
					rep.none('ends of the search that are no vertices (randomize = %s, %s)%s' % (randomize, run, how), missing(got, V, 1e-3))
			rep.same('the starting points', X0, start, 0)
		est = fill_distance_estimate(dom, X, Nsamp=300, **kw)
		if not est <= fill + 1e-6*(1 + fill):
			rep.add('the estimate %g of the fill distance %g is greater' % (est, fill))
		if full and est < (0.999 if m < 3 else 0.8)*fill:
			rep.add('the estimate %g of the fill distance %g is too small' % (est, fill))
		few = fill_distance_estimate(dom, X, X0=V, **kw)
		if full:
			rep.same('estimate from the vertices', few, fill, 1e-6)
	# everything in other units
	unit = 2e-5
	other = domain_of(case['dom'], unit=unit)
	if full:
		got = voronoi_vertex_sample(other, unit*X, unit*dom.sample(20), L=L)
		rep.none('ends of the search that are no vertices (in small units)', missing(got/unit, V, 1e-2))
	rep.same('fill distance in other units', fill_distance(dom, X, L=1e-3*L), 1e-3*fill, 1e-9)
	# twice the same site
	twice = np.vstack([X, X[:1]])
	rep.same('fill distance, a site twice', fill_distance(dom, twice, L=L), fill, 1e-6)
	rep.none('vertices that are missing, a site twice', missing(V, voronoi_vertex(dom, twice, L=L), 1e-6))
	rep.none('vertices too many, a site twice', missing(voronoi_vertex(dom, twice, L=L), V, 1e-6))
	# the next sequential sample
	if h % 3 == 0 and full:
		x = seq_maximin_sample(dom, X.tolist() if h % 2 else X, Ls=None if identity and h % 2 else [L], Nsamp=300)
		if x.shape != (m,) or not dom.isinside(x):
			rep.add('the next sample %s is not in the domain' % x)
		elif near(L, x, X)[0] < (0.89 if m < 3 else 0.7)*fill or near(L, x, X)[0] > fill + 1e-6*(1 + fill):
			rep.add('the next sample %s is at %g; the furthest point is at %g' % (x, near(L, x, X)[0], fill))
		elif m < 3:
			# the best in the metric within the slack, and without any slack the best
			x = seq_maximin_sample(dom, X, Ls=[L], Nsamp=300, slack=1.)
			if near(L, x, X)[0] < 0.999*fill:
				rep.add('the next sample %s without slack is at %g; the furthest point is at %g' % (x, near(L, x, X)[0], fill))
	if not (np.array_equal(L, keep[0]) and np.array_equal(X, keep[1])):
		rep.add('the arguments changed')
	return rep.out


def group_runs(cases, tier):
	"""behaviours that start in the same state"""
	groups = {}
	import json
	for c in cases:
		groups.setdefault(json.dumps([c['dom'], c['L'], c['pts'][0]]), []).append([c['pts'], c['dist']])
	out = []
	for key, runs in sorted(groups.items()):
		dom, L, first = json.loads(key)
		out.append({'dom': dom, 'L': L, 'first': first, 'n': max(len(r[0]) for r in runs), 'runs': runs})
	return out


def run_coffee(case):
	rep = Report()
	dom = domain_of(case['dom'], fls(case['first']))
	L = np.array(case['L'], dtype=float)
	m, h = L.shape[1], case_hash(case)
	keep = L.copy()
	identity = L.shape == (m, m) and np.array_equal(L, np.eye(m))
	runs = [arr(r[0]) for r in case['runs']]
	for kw in ({'L': L, 'verbose': False}, {'L': L, 'verbose': bool(h % 2), 'full': True}) + (({'verbose': False},) if identity else ()):
		X = maximin_coffeehouse(dom, case['n'], **kw)
		if X.shape != (case['n'], m):
			rep.add('a design of shape %s' % (X.shape,))
			return rep.out
		d = np.array([near(L, X[k], X[:k])[0] for k in range(1, len(X))])
		if not any(np.max(np.abs(X[:len(r)] - r)) < 1e-5 for r in runs):
			rep.add('%s: the design %s is none of the %d of the specification; first %s' % (kw, X.tolist(), len(runs), runs[0].tolist()))
		if np.any(np.diff(d) > 1e-6*(1 + d[0])) or not np.all(dom.isinside(X)):
			rep.add('%s: the distances of the design %s are %s' % (kw, X.tolist(), d))
	X = maximin_coffeehouse(dom, case['n'] + 3, L=L, verbose=False, full=False)
	if X.shape != (case['n'] + 3, m) or not np.all(dom.isinside(X)):
		rep.add('a sampled design leaves the domain: %s' % X.tolist())
	elif np.linalg.matrix_rank(L) == m:
		# the first search is among all the corners of the domain
		d = np.array([near(L, X[k], X[:k])[0] for k in range(1, len(X))])
		if m < 3 and d[0] < 0.999*np.sqrt(fl(case['runs'][0][1][0])):
			rep.add('the second point of a sampled design is at %g' % d[0])
	if not np.array_equal(L, keep):
		rep.add('the arguments changed')
	return rep.out


def run_geo(case):
	rep = Report()
	X, L, ans = np.array(case['X'], dtype=float), np.array(case['L'], dtype=float), case['ans']
	D = np.sqrt(np.array(ans['d2'], dtype=float))
	keep = [X.copy(), L.copy()]
	h = case_hash(case)
	rep.same('distances', cdist(X, X, L), D, 1e-9)
	rep.same('distances from one', cdist(X[0], X[1:] if len(X) > 1 else X, L), D[:1, 1:] if len(X) > 1 else D, 1e-9)
	rep.same('distances to one', cdist(X, X[-1], L=L), D[:, -1:], 1e-9)
	rep.same('distances without a metric', cdist(L.dot(X.T).T, L.dot(X[:1].T).T), D[:, :1], 1e-9)
	# points apart from each other that stand for all
	for Y, d in ((X, None), (L.dot(X.T).T, D), (1e3*X - 7, None)):
		I = unique_points(Y)
		d = np.linalg.norm(Y[:, None, :] - Y[None, :, :], axis=2) if d is None else d
		if I.dtype != bool or I.shape != (len(Y),):
			rep.add('unique points: %s' % I)
			break
		if np.any(d[I][:, ~I].min(axis=0) > 1e-9) if np.any(I) and np.any(~I) else not np.any(I):
			rep.add('unique points: %s of %s leave out a point' % (I, Y.tolist()))
		if np.sum(d[I][:, I] < 1e-9) != np.sum(I):
			rep.add('unique points: %s of %s keep a point twice' % (I, Y.tolist()))
	if np.sum(unique_points(X)) != ans['distinct']:
		rep.add('%d points of %s are distinct, not %d' % (ans['distinct'], X.tolist(), np.sum(unique_points(X))))
	# the metric with as few rows as possible
	if ans['rank']:
		J = low_rank_L(L if h % 2 else L.tolist())
		tiny = low_rank_L(1e-9*L)
		if J.shape != (ans['rank'], case['m']) or tiny.shape != J.shape:
			rep.add('the low rank metrics of %s and 1e-9 times it have shapes %s and %s; the rank is %d' % (L.tolist(), J.shape, tiny.shape, ans['rank']))
		else:
			rep.same('low rank metric', J.T @ J, L.T @ L, 1e-9)
			rep.same('low rank metric in other units', tiny.T @ tiny*1e18, L.T @ L, 1e-9)
	if len(L) == 1:
		rep.same('low rank metric of a vector', low_rank_L(L[0]).T @ low_rank_L(L[0]), L.T @ L, 1e-9)
	# the smallest ball
	if h % 7 == 0:
		r = np.sqrt(fl(ans['ball']['r2']))
		z, got = miniball(X.tolist() if h % 2 else X)
		rep.same('radius of the ball', got, r, 1e-4)
		rep.same('centre of the ball', z, fls(ans['ball']['z']), 3e-3)
		rep.same('radius in other units', miniball(X, L=3*np.eye(case['m']))[1], 3*r, 1e-4)
		if ans['rank'] == case['m'] > 1:
			z, got = miniball(X, L=L)
			rep.same('radius of the ball in the metric', got, miniball(L.dot(X.T).T)[1], 1e-3)
			rep.same('radius about its centre', got, np.max(np.linalg.norm(L.dot((X - z).T), axis=0)), 1e-3)
	if not (np.array_equal(X, keep[0]) and np.array_equal(L, keep[1])):
		rep.add('the arguments changed')
	return rep.out


def G01():
	return [Suite('vertices', tlc_cases('Voronoi', {'quick': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Sizes': {1, 2, 3, 4}, 'Share': 601, 'Share3': 1009},
				'thorough': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Sizes': {1, 2, 3, 4}, 'Share': 37, 'Share3': 251}},
			invariants=['Sane', 'FillIsMax', 'Emit']), run_voronoi, min_cases=300),
		Suite('designs', tlc_cases('Coffee', {'quick': {'Which': {1, 2, 3, 4, 5, 6}, 'Length': 4, 'Share': 3}, 'thorough': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Length': 5, 'Share': 2}},
			invariants=['Decreasing', 'Separated', 'Inside', 'Emit'], post=group_runs), run_coffee, min_cases=100),
		Suite('points', tlc_cases('Geo', {'quick': {'Lens': {1, 2, 3, 4}, 'Share': 211, 'Span': 3}, 'thorough': {'Lens': {1, 2, 3, 4}, 'Share': 29, 'Span': 3}},
			invariants=['Sane', 'Emit']), run_geo, min_cases=1000)]
