"""Minimax designs, designs with good projections"""
import itertools
import numpy as np
import psdr
from psdr import minimax_cluster, minimax_cluster_pso, minimax_lloyd, minimax_scale, minimax_optimal_cover, minimax_design, minimax_design_1d
from psdr import projection_sample, projection_design, latin_hypercube_maximin, latin_hypercube_sample

from core import Suite, TraceSuite, tlc_cases, fl, fls, q, qs, case_hash
from checks_bas import Report, arr
from checks_geo import domain_of, near

KM = 1000


def faces(d):
	"""a and b of the inequalities a x <= b"""
	A, b = [], []
	if d['lb']:
		I = np.eye(d['m'])
		A += list(I) + list(-I)
		b += list(d['ub']) + [-x for x in d['lb']]
	for r in d['A']:
		A.append(r['a'])
		b.append(r['b'])
	return np.array(A, dtype=float), np.array(b, dtype=float)


def farthest(d, L, X):
	"""the greatest distance of a point of the domain from X, in any metric: at the intersection of sides and bisectors"""
	A, b = faces(d)
	A, b = list(A), list(b)
	G = L.T @ L
	for i, j in itertools.combinations(range(len(X)), 2):
		a = 2*G @ (X[j] - X[i])
		if np.linalg.norm(a) > 1e-6:
			A.append(a)
			b.append(X[j] @ G @ X[j] - X[i] @ G @ X[i])
	A, b = np.array(A), np.array(b)
	T = np.array(list(itertools.combinations(range(len(A)), d['m'])))
	det = np.linalg.det(A[T]/np.linalg.norm(A[T], axis=2, keepdims=True))
	T = T[np.abs(det) > 1e-7]
	V = np.linalg.solve(A[T], b[T][:, :, None])[:, :, 0]
	F, f = faces(d)
	V = V[np.all(V @ F.T <= f + 1e-7, axis=1)]
	return float(np.max(near(L, V, X)))


class Search:
	"""the trace of the searches on one case"""
	def __init__(self, case):
		self.case, self.d = case, case['dom']
		self.dom = domain_of(case['dom'])
		self.L = np.array(case['L'], dtype=float)
		self.X = np.array(case['X'], dtype=float)
		self.X = self.X[np.random.RandomState(case_hash(case) % 1000).permutation(len(self.X))]
		self.grid = np.array(case['grid'], dtype=float)
		self.trace = []

	def fill(self, X):
		return farthest(self.d, self.L, X)

	def cover(self, X):
		return float(np.max(near(self.L, self.grid, X)))

	def start(self, grid=False, fresh=False):
		self.measure = self.cover if grid else self.fill
		self.grids = grid
		self.trace.append({'kind': 'case', 'fill': q(self.measure(self.X), KM), 'exact': self.case['cover2' if grid else 'fill2'], 'fresh': fresh})

	def attempt(self, X):
		self.trace.append({'kind': 'try', 'fill': q(self.measure(np.asarray(X, dtype=float)), KM)})

	def design(self, X, kept=True, claim=None, sharp=False, most=None, n=None):
		X = np.asarray(X)
		shape = X.ndim == 2 and (n == 0 or X.shape[0] == (len(self.X) if n is None else n)) and X.shape[1] == self.d['m'] and X.dtype.kind == 'f'
		self.trace.append({'kind': 'design', 'shape': bool(shape), 'fill': q(self.measure(X), KM) if shape else 0, 'inside': bool(shape and np.all(self.dom.isinside(X, tol=1e-4))),
			'kept': bool(kept), 'claim': -1 if claim is None else q(claim, KM), 'n': len(X), 'whole': not self.grids, 'sharp': bool(sharp), 'ball': self.case['ball2'],
			'most': -1 if most is None else q(most, KM)})


def drive_minimax_design(case):
	s = Search(case)
	m, n, L = s.d['m'], len(s.X), s.L
	h = case_hash(case)
	identity = L.shape == (m, m) and np.array_equal(L, np.eye(m))
	kw = {} if identity and h % 2 else {'L': L}
	keep = [L.copy(), s.X.copy()]
	same = lambda: np.array_equal(L, keep[0]) and np.array_equal(s.X, keep[1])
	one_row = L.shape[0] == 1
	# Lloyd's iteration
	if not one_row:
		s.start()
		for k in (1, 2, 3, 8):
			Xint = s.X.astype(int)
			X = minimax_lloyd(s.dom, n, full=True, Xhat=Xint if h % 3 == 0 else s.X, maxiter=k, verbose=(h % 5 == 0 and k == 2), **kw)
			s.design(X, kept=same() and np.array_equal(Xint, s.X), sharp=k == 8)
		s.start(fresh=True)
		s.design(minimax_lloyd(s.dom, n, maxiter=2, verbose=False, **kw))
	# moving points towards the centre
	s.start()
	center = s.dom.center
	for points in (2, 3, 6):
		for a in np.linspace(0.5, 1, points):
			s.attempt(a*(s.X - center) + center)
		X = minimax_scale(s.dom, s.X, npoints=points, verbose=False, **kw)
		s.design(X, kept=same())
	# clusters of a discrete set
	s.start(grid=True)
	opts = {}
	for k in (1, 2, 4):
		X = minimax_cluster(s.dom, n, X=s.grid, Xhat=s.X, maxiter=k, verbose=False, solver_opts=opts, **kw)
		# the q-norm is at most the root of the number of points greater than the greatest distance
		s.design(X, kept=same() and opts == {}, most=np.sqrt(fl(case['ball2']))*len(s.grid)**0.1 if n == 1 and k > 1 else None)
	if not one_row and np.linalg.matrix_rank(L) == m:
		s.start(grid=True, fresh=True)
		for k in (1, 2, 3):
			np.random.seed(h % 1000)
			# (another domain: random walks go on where they stopped)
			X, score = minimax_cluster_pso(domain_of(s.d), n, maxiter=k, X=s.grid, verbose=False, n_particles=2, **kw)
			s.design(X, kept=same(), claim=score)
	if L.shape == (m, m) and np.linalg.matrix_rank(L) == m and h % 3 == 0:
		# as many points as it takes
		ball = {1: 2, 2: np.pi, 3: 4/3*np.pi}[m]
		for r in (np.sqrt(fl(case['fill2']))*a for a in (0.5, 0.7)):
			size = s.dom.volume()/ball*abs(np.linalg.det(L))/r**m
			if r == 0 or not (1 <= size and 3**m*size < len(s.grid)):
				continue
			s.start(grid=True, fresh=True)
			try:
				X = minimax_optimal_cover(s.dom, r, X=s.grid, maxiter=5, **kw)
			except AssertionError:
				# there is nothing to search for: the bounds on the number of points are not on both sides
				continue
			s.design(X, kept=same(), most=r, n=0)
	if h % 4 == 0 and len(s.grid) > 5:
		s.start(grid=True, fresh=True)
		s.design(minimax_cluster(s.dom, n, X=s.grid, maxiter=3, verbose=False, **kw), kept=same())
	return s.trace


def run_line_minimax(case):
	rep = Report()
	dom = domain_of(case['dom'])
	v = np.array([case['v']], dtype=float)
	m = case['dom']['m']
	calls = [('minimax_design_1d', lambda N: minimax_design_1d(dom, N, L=v)), ('minimax_design', lambda N: minimax_design(dom, N, L=v)),
		('minimax_lloyd', lambda N: minimax_lloyd(dom, N, L=v, verbose=False)), ('minimax_design of a list', lambda N: minimax_design(dom, N, L=case['v']))]
	if m == 1:
		calls += [('minimax_design_1d without L', lambda N: minimax_design_1d(dom, N)), ('minimax_design without L', lambda N: minimax_design(dom, N)),
			('minimax_lloyd without L', lambda N: minimax_lloyd(dom, N, verbose=False))]
	for N, pos in enumerate(case['ans']['minimax'], 1):
		want = fls(pos)
		for name, call in calls:
			X = np.asarray(call(N))
			if X.shape != (N, m):
				rep.add('%s of %d points has shape %s' % (name, N, X.shape))
				continue
			if not np.all(dom.isinside(X, tol=1e-5)):
				rep.add('%s of %d points left the domain' % (name, N))
			rep.same('%s of %d points' % (name, N), np.sort(X @ v[0]), want, 1e-5)
	return rep.out


################################################################################
# S05: designs with good projections
################################################################################
KP = 4000


def drive_project(case):
	d, N = case['dom'], case['N']
	V = [np.array([v], dtype=float) for v in case['V']]
	m, h = d['m'], case_hash(case)
	axes = len(V) == m and all(np.array_equal(v[0], e) for v, e in zip(V, np.eye(m)))
	trace = [{'kind': 'case', 'N': N, 'fixed': case['fixed'], 'bounds': [qs(fls(b), KP) for b in case['bounds']],
		'cells': [{'p': c['p'], 'ok': c['ok'], 'x': qs(fls(c['x']), KP)} for c in case['cells']]}]

	def event(X, more, last, kept=True, rows=None):
		if X is None:
			return {'kind': 'none'}
		X = np.asarray(X, dtype=float)
		shape = X.shape == (N, m)
		return {'kind': 'design', 'shape': shape, 'inside': bool(shape and np.all(domain_of(d).isinside(X, tol=1e-5))), 'kept': bool(kept), 'more': bool(more), 'last': bool(last),
			'rows': list(range(1, len(V) + 1)) if rows is None else rows, 'values': [qs(np.sort(X @ v[0]), KP) for v in V] if shape else [], 'X': [qs(x, KP) for x in X] if shape else []}

	Ls = [v.copy() for v in V]
	if len(V) == 1 and h % 3 == 0:
		# the same metric, in more rows than it needs
		Ls = [np.vstack([V[0], 2*V[0]])/np.sqrt(5)]
	elif h % 3 == 1:
		Ls = [v.tolist() for v in V]
	keep = [np.array(L) for L in Ls]
	same = lambda: all(np.array_equal(np.array(L), k) for L, k in zip(Ls, keep))
	calls = []
	if case['kind'] == 'ends':
		calls.append(lambda k: projection_sample(domain_of(d), N, Ls, maxiter=k, verbose=(h % 5 == 0 and k == 2)))
	else:
		calls.append(lambda k: projection_design(domain_of(d), N, Ls, maxiter=k, verbose=(h % 5 == 0 and k == 2), use_assumptions=h % 2 == 0))
		if axes and d['cls'] != 'box':
			calls.append(lambda k: latin_hypercube_maximin(domain_of(d), N, maxiter=k) if k > 1 else latin_hypercube_sample(domain_of(d), N))
			calls.append(lambda k: latin_hypercube_maximin(domain_of(d), N) if k == 1000 else latin_hypercube_maximin(domain_of(d), N, maxiter=k))
	steps = (1, 2, 4, 1000) if case['fixed'] else (1, 3)
	for call in calls:
		for i, k in enumerate(steps):
			np.random.seed(h % 10000)
			trace.append(event(call(k), i > 0, k == 1000, same()))
			if trace[-1]['kind'] == 'none' and not case['fixed']:
				break
	return trace


def S04():
	return [Suite('lines', tlc_cases('Line', {'quick': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Most': 5, 'Share': 4001}, 'thorough': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Most': 9, 'Share': 401}},
			invariants=['Sane', 'Optimal', 'Emit']), run_line_minimax, min_cases=100),
		TraceSuite('searches', tlc_cases('Minimax', {'quick': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Sizes': {1, 2, 3, 4}, 'Share': 2003}, 'thorough': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Sizes': {1, 2, 3, 4, 5}, 'Share': 1501}},
			invariants=['Sane', 'Emit']), drive_minimax_design, 'MinimaxTrace', constants={'K': KM, 'Tol': 5}, min_cases=100, chunk=1)]


def run_given(case):
	"""targets that points of the domain attain"""
	rep = Report()
	dom, m = domain_of(case['dom']), case['dom']['m']
	X = np.array(case['X'], dtype=float)
	v = np.array([case['v']], dtype=float)
	if len(X) < 2:
		return rep.out
	order = lambda Z: np.array(sorted(np.round(np.asarray(Z), 4).tolist()))
	ys = [X.copy()]
	Z = projection_design(dom, len(X), [np.eye(m)], ys=ys, verbose=False)
	rep.same('targets in the identity', Z if Z is None else order(Z), order(X), 1e-4)
	rep.same('targets afterwards', ys[0], X, 0)
	y = X @ v.T
	if len(set(y[:, 0])) == len(y):
		Z = projection_design(dom, len(X), [v], ys=[y.copy()], verbose=False)
		rep.same('targets in one direction', None if Z is None else np.sort(Z @ v[0]), np.sort(y[:, 0]), 1e-5)
		if not np.all(dom.isinside(Z, tol=1e-5)):
			rep.add('targets in one direction: left the domain')
	# several rows: whatever the targets there, there is a point in every piece of the other metrics
	if m > 1:
		Ls = [np.eye(m)[:2]] + [np.eye(m)[2:]]*(m > 2)
		Z = projection_sample(dom, len(X) + 2, Ls, maxiter=2)
		if Z is None or np.shape(Z) != (len(X) + 2, m) or not np.all(dom.isinside(Z, tol=1e-5)):
			rep.add('a metric of two rows: %s' % (None if Z is None else np.shape(Z),))
	return rep.out


def S05():
	return [Suite('given', tlc_cases('Line', {'quick': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Most': 2, 'Share': 8003}, 'thorough': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Most': 2, 'Share': 1201}},
			invariants=['Sane', 'Emit']), run_given, min_cases=50),
		TraceSuite('projections', tlc_cases('Project', {'quick': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Sizes': {1, 2, 3, 4}, 'Share': 53}, 'thorough': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Sizes': {1, 2, 3, 4}, 'Share': 17}},
			invariants=['Sane', 'Emit']), drive_project, 'ProjectTrace', constants={'Tol': 8}, min_cases=60, chunk=1)]
