"""Tables for plots, and the plots themselves"""
import os
import tempfile

import numpy as np
import psdr
from psdr.pgf import PGF, save_contour

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from core import Suite, tlc_cases, fl, fls, case_hash
from checks_bas import Report, arr

NUMBERS = [0., 0.1, -1e-300, 1/3., 1e22, np.nan, -np.inf, 7.]


def same_table(rep, what, pgf, names, cols):
	if list(pgf.keys()) != names:
		rep.add('%s: the names are %s instead of %s' % (what, pgf.keys(), names))
		return
	for n in set(names):
		want = [NUMBERS[k] for k in cols[names.index(n)]]
		got = [float(v) for v in pgf[n]]
		if not np.array_equal(got, want, equal_nan=True):
			rep.add('%s: column %s is %s instead of %s' % (what, n, got, want))
	for j in range(len(names)):
		got = [float(v) for v in pgf.columns[j]]
		if not np.array_equal(got, [NUMBERS[k] for k in cols[j]], equal_nan=True):
			rep.add('%s: column %d is %s' % (what, j, got))


def run_table(case):
	rep = Report()
	pgf, given = PGF(), None
	with tempfile.TemporaryDirectory() as tmp:
		path = os.path.join(tmp, 'table.dat')
		for k, e in enumerate(case['hist']):
			if e['op'] == 'add':
				col = [NUMBERS[v] for v in e['col']]
				col = [np.array(col), col, np.array(col).reshape(-1, 1)][(case_hash(case) + k) % 3]
				try:
					pgf.add(e['name'], col)
					ok = True
					given = col
				except Exception:
					ok = False
				if ok != e['ok']:
					rep.add('step %d: adding a column of length %d %s' % (k, len(col), 'succeeded' if ok else 'failed'))
					return rep.out
			elif e['op'] == 'scribble':
				if given is not None:
					given[0] = NUMBERS[7]
			elif e['op'] == 'write':
				pgf.write(path)
			elif e['op'] == 'read':
				pgf.read(path)
			else:
				pgf = PGF()
			same_table(rep, 'step %d' % k, pgf, e['names'], e['cols'])
	return rep.out


def table(path):
	pgf = PGF()
	pgf.read(path)
	return {k: np.array(pgf[k]) for k in pgf.keys()}


class Reduction(psdr.ActiveSubspace):
	"""a subspace given outright"""
	def __init__(self, U):
		psdr.ActiveSubspace.__init__(self)
		self._U = np.array(U)
		self._dimension = len(U)


def orthogonal(u):
	"""an orthonormal basis whose first column is u"""
	Q = np.linalg.qr(np.hstack([u.reshape(-1, 1), np.eye(len(u))]))[0]
	Q[:, 0] = u
	return Q


def run_shadow(case):
	rep = Report()
	X, f, ans, g = np.array(case['X'], dtype=float), np.array(case['f'], dtype=float), case['ans'], case['g']
	m = X.shape[1]
	u = np.array(case['w'])/float(case['n'])
	y = np.array(ans['s'])/float(case['n'])
	U = orthogonal(u)
	sdr = Reduction(U)
	h = case_hash(case)
	keep = [X.copy(), f.copy()]
	with tempfile.TemporaryDirectory() as tmp:
		path = os.path.join(tmp, 'shadow.dat')
		if g == 2:
			# the shadow, onto the own or another subspace
			ax = sdr.shadow_plot(X, f, pgfname=path) if h % 2 else Reduction(U[:, ::-1]).shadow_plot(X, f, U=u if h % 4 else U, pgfname=path)
			t = table(path)
			rep.same('coordinates in the file', t['y'], y, 1e-12)
			rep.same('values in the file', t['fX'], f, 0)
			xy = ax.lines[0].get_xydata()
			rep.same('points in the plot', xy, np.vstack([y, f]).T, 1e-12)
			plt.close('all')
			fig, mine = plt.subplots()
			if sdr.shadow_plot(X.tolist(), f.tolist(), ax=mine) is not mine or len(mine.lines) != 1:
				rep.add('the plot was drawn elsewhere')
			if sdr.shadow_plot(X, f, ax=None) is not None:
				rep.add('a plot was drawn although none was asked for')
			plt.close('all')
			if m > 1:
				Y = X @ U[:, :2]
				ax = sdr.shadow_plot(X, f.reshape(-1, 1) if h % 3 else f.tolist(), dim=2, pgfname=path)
				t = table(path)
				rep.same('coordinates in the file, two', np.vstack([t['y1'], t['y2'], t['fX']]).T, np.vstack([Y.T, f]).T, 1e-12)
				rep.same('points in the plot, two', ax.collections[0].get_offsets(), Y, 1e-12)
				rep.same('values in the plot, two', ax.collections[0].get_array(), f, 1e-12)
				plt.close('all')
			# a ridge function and its response
			p = np.array([1., -2., 3.])
			ridge = psdr.PolynomialRidgeFunction(psdr.MonomialTensorBasis(2, X=np.array([[-1.], [1.]])), p, u.reshape(-1, 1))
			ax = ridge.shadow_plot(X, f, pgfname=path)
			t = table(path)
			rep.same('coordinates in the file of the ridge function', t['y'], y, 1e-12)
			t = table(os.path.join(tmp, 'shadow_response.dat'))
			rep.same('range of the response', [t['x'].min(), t['x'].max()], [y.min(), y.max()], 1e-12)
			rep.same('response', t['fx'], p[0] + p[1]*t['x'] + p[2]*t['x']**2, 1e-9)
			rep.same('response in the plot', ax.lines[1].get_xydata(), np.vstack([t['x'], t['fx']]).T, 1e-12)
			if m > 1:
				ridge2 = psdr.PolynomialRidgeFunction(psdr.MonomialTensorBasis(1, X=np.array([[-1., -1.], [1., 1.]])), p, U[:, :2])
				if ridge2.shadow_plot(X, f, ax=None, pgfname=path) is not None:
					rep.add('a plot was drawn although none was asked for')
				rep.same('coordinates in the file of the ridge function, two', table(path)['y2'], X @ U[:, 1], 1e-12)
				if f.min() < f.max():
					ridge2.shadow_plot(X, f)
			plt.close('all')
		if ans['ok']:
			R = arr(ans['rows'])
			for how in ('given', 'own') + (('auto',) if g == 3 else ()):
				kw = {} if how == 'auto' else {'ngrid': g}
				if how == 'given':
					kw['U'] = u if h % 2 else U
				fig, ax = plt.subplots()
				y0, lb, ub = (Reduction(U[:, ::-1]) if how == 'given' else sdr).shadow_envelope(X, f if h % 3 else f.reshape(-1, 1), ax=ax, verbose=False, pgfname=path, **kw)
				plt.close('all')
				t = table(path)
				rep.same('grid', t['y'], np.linspace(y.min(), y.max(), g), 1e-9)
				rep.same('bounds in the file', np.vstack([t['lb'], t['ub']]), np.vstack([lb, ub]), 1e-12)
				tol = 0.03*(1 + np.max(np.abs(f)))
				if np.any(R @ ub < f - tol) or np.any(R @ lb > f + tol):
					rep.add('the envelope %s, %s does not contain the data' % (lb, ub))
				if abs(np.sum(ub) - fl(ans['upper'])) > tol*g:
					rep.add('the upper envelope %s has the sum %g; the specification has %g' % (ub, np.sum(ub), fl(ans['upper'])))
				if abs(np.sum(lb) - fl(ans['lower'])) > tol*g:
					rep.add('the lower envelope %s has the sum %g; the specification has %g' % (lb, np.sum(lb), fl(ans['lower'])))
	if not np.array_equal(X, keep[0]) or not np.array_equal(f, keep[1]):
		rep.add('the arguments changed')
	return rep.out


def along(p, a, b):
	"""how far p is from the segment from a to b"""
	d = b - a
	t = min(1., max(0., (p - a) @ d/(d @ d)))
	return np.linalg.norm(p - a - t*d)


def run_contour(case):
	rep = Report()
	m = case['m']
	x, y = np.meshgrid(np.arange(-m, m + 1.), np.arange(-m, m + 1.))
	Z = case['a']*x + case['b']*y if case['kind'] == 'affine' else case['a']*(abs(x) + abs(y))
	levels = sorted([(fl(v['l']), v['pieces']) for v in case['ans']])
	cs = plt.contour(x, y, Z, levels=[l for l, _ in levels])
	got = {}
	with tempfile.TemporaryDirectory() as tmp:
		path = os.path.join(tmp, 'contour.dat')
		for fmt in ('matlab', 'prepared'):
			save_contour(path, cs, fmt)
			pieces = []
			rows = [[float(t) for t in line.split()] for line in open(path).read().split('\n')[:-1]]
			if fmt == 'matlab':
				while rows:
					l, n = rows[0]
					pieces.append((l, np.array(rows[1:1 + int(n)]).reshape(-1, 2)))
					if len(pieces[-1][1]) != n:
						rep.add('a piece with %g points announces %g' % (len(pieces[-1][1]), n))
					rows = rows[1 + int(n):]
			else:
				now = []
				for r in rows:
					if r:
						now.append(r)
					elif now:
						if len(set(r[2] for r in now)) > 1:
							rep.add('a piece of several levels')
						pieces.append((now[0][2], np.array(now)[:, :2]))
						now = []
				if now:
					rep.add('the last piece does not end')
			got[fmt] = [(l, p) for l, p in pieces if len(p)]
	plt.close('all')
	for fmt, pieces in got.items():
		for l, want in levels:
			mine = [p for k, p in pieces if abs(k - l) < 1e-12]
			if len(mine) != len(want):
				rep.add('%s: %d pieces at level %g; the specification has %d' % (fmt, len(mine), l, len(want)))
				continue
			for w in want:
				corners = np.array([[fl(t) for t in q] for q in w['pts']])
				# the corners in turn around the piece
				corners = corners[np.argsort(np.arctan2(corners[:, 1], corners[:, 0]))] if w['closed'] else corners
				edges = list(zip(corners, np.roll(corners, -1, axis=0)))
				hit = [p for p in mine if max(min(along(q, a, b) for a, b in edges) for q in p) < 1e-6
					and all(np.min(np.linalg.norm(p - q, axis=1)) < 1e-6 for q in corners)]
				if len(hit) != 1:
					rep.add('%s: %d pieces at level %g go through %s' % (fmt, len(hit), l, corners.tolist()))
				elif w['closed'] and np.linalg.norm(hit[0][0] - hit[0][-1]) > 1e-6:
					rep.add('%s: the piece through %s is not closed' % (fmt, corners.tolist()))
		if any(min(abs(k - l) for l, _ in levels) > 1e-12 for k, _ in pieces):
			rep.add('%s: levels %s' % (fmt, [k for k, _ in pieces]))
	return rep.out


def P01():
	return [Suite('tables', tlc_cases('Pgf', {'quick': {'Depth': 4, 'Cols': {1, 2}, 'Names': {'a', 'b'}}, 'thorough': {'Depth': 5, 'Cols': {1, 2, 3}, 'Names': {'a', 'b'}}},
			invariants=['Rectangular', 'RoundTrip', 'Emit'], limit={'quick': 4000, 'thorough': 60000}), run_table, min_cases=1000),
		Suite('shadows', tlc_cases('Shadow', {'quick': {'Grids': {2, 3, 4}, 'Vals': {0, 4}}, 'thorough': {'Grids': {2, 3, 4}, 'Vals': {0, 1, 4}}}, invariants=['Sane', 'Emit']),
			run_shadow, min_cases=100),
		Suite('contours', tlc_cases('Contour', {'quick': {'M': 3, 'Slopes': {0, 1, 2}, 'Levels': {0, 3, 4, 6, 8}}, 'thorough': {'M': 3, 'Slopes': {0, 1, 2, 3}, 'Levels': {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}}},
			invariants=['Sane', 'Apart', 'Emit']), run_contour, min_cases=50)]
