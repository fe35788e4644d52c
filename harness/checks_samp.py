"""Designs of experiments: Latin hypercubes, Sobol sequences, separated points"""
import numpy as np
import psdr
from psdr import latin_hypercube_sample, latin_hypercube_maximin, sobol_sequence, random_sample
from psdr import maximin_design_1d, maximin_block, seq_maximin_sample, initial_sample, stretch_sample, stretch_sample_domain
from psdr import poisson_disk_sample, poisson_disk_sample_grid, minimax_covering, minimax_covering_discrete

from core import Suite, TraceSuite, tlc_cases, fl, fls, q, qs, case_hash
from checks_bas import Report, arr
from checks_geo import domain_of


################################################################################
# S01: Latin hypercubes, Sobol sequences
################################################################################
def latin_domain(case):
	lb = case['lo'] + 0.5*np.arange(case['m'])
	ub = lb + np.array(case['w'], dtype=float)*case['N']
	if case['kind'] == 'uniform':
		return psdr.UniformDomain(lb, ub), lb
	if case['kind'] == 'tensor':
		return psdr.TensorProductDomain([psdr.BoxDomain(lb[:1], ub[:1]), psdr.UniformDomain(lb[1:], ub[1:])]), lb
	return psdr.BoxDomain(lb, ub), lb


def drive_latin(case):
	dom, lb = latin_domain(case)
	w, N, m = np.array(case['w'], dtype=float), case['N'], case['m']

	def event(kind, X, step=0, shape=True):
		X = np.atleast_2d(np.array(X, dtype=float))
		z = (X - lb)/w - 0.5
		cells = np.round(z)
		return {'kind': kind, 'N': N, 'm': m, 'w': case['w'], 'cells': cells.astype(int).tolist(), 'off': q(np.max(np.abs(z - cells)), 1e9),
			'inside': bool(np.all(dom.isinside(X))), 'step': step}
	out = [event('sample', latin_hypercube_sample(dom, N)), event('sample', latin_hypercube_sample(dom, float(N)))]
	last = None
	for k in (0, 1, 2, 3, 4, 7, 15, 40):
		np.random.seed(case['seed'])
		ev = event('search', latin_hypercube_maximin(dom, N, maxiter=k), 0 if last is None else k - last)
		if last is None:
			ev['kind'] = 'sample'
		out.append(ev)
		last = k
	if N <= 4 and m <= 3:
		out.append(event('end', latin_hypercube_maximin(dom, N, maxiter=1500) if case['seed'] % 2 else latin_hypercube_maximin(dom, N)))
	return out


def run_sobol(case):
	rep = Report()
	dom = domain_of(case['dom'])
	ref = arr(case['acc'])
	n = len(ref)
	for k in sorted({1, 2, 3, 5, n//2, n - 1, n}):
		X = sobol_sequence(dom, k)
		if X.shape != (k, ref.shape[1]):
			rep.add('%d points of the sequence have the shape %s' % (k, X.shape))
		else:
			rep.same('the first %d points of the sequence' % k, X, ref[:k], 1e-7)
	np.random.seed(5)
	X = random_sample(domain_of(case['dom']), 7)
	np.random.seed(5)
	rep.same('random samples', X, domain_of(case['dom']).sample(7), 0)
	return rep.out


def S01():
	return [TraceSuite('latin', tlc_cases('LatinCase', {'quick': {'Sizes': {1, 2, 3, 4, 5, 7}, 'Seeds': {1}}, 'thorough': {'Sizes': {1, 2, 3, 4, 5, 6, 7, 9}, 'Seeds': {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}}},
			invariants=['Emit']), drive_latin, 'LatinTrace', min_cases=100),
		Suite('sobol', tlc_cases('Sobol', {'quick': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Length': 120, 'Bits': 10}, 'thorough': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Length': 400, 'Bits': 10}},
			invariants=['Balanced', 'Net', 'Kept', 'Emit']), run_sobol, min_cases=8)]


################################################################################
# S02: separated and covering samples
################################################################################
KD = 1000


def drive_disk(case):
	dom = domain_of(case['dom'])
	L, r, full = np.array(case['L'], dtype=float), case['r2']/2., case['full']
	m = case['dom']['m']
	identity = L.shape == (m, m) and np.array_equal(L, np.eye(m))
	keep = L.copy()

	def event(X, apart, cover, den=1):
		return {'den': den, 'k': case['k'], 'l': case['l'], 'shape': list(np.shape(X)), 'pts': [qs(x, KD) for x in np.atleast_2d(X)], 'apart': apart, 'cover': cover if full else 0}
	out = [event(poisson_disk_sample(dom, r, L=L, Ntries=1000), case['r2'], 2*case['r2']),
		event(poisson_disk_sample(dom, r, L=L), case['r2'], 0)]
	if identity:
		out.append(event(poisson_disk_sample(dom, r), case['r2'], 0))
		out.append(event(poisson_disk_sample(dom, r, Ntries=1), case['r2'], 0))
	# (the search through the grid takes long in more dimensions)
	if len(L) == 1:
		out.append(event(poisson_disk_sample_grid(dom, r, L=L, Ntries=200), case['r2'], 3*case['r2']))
	elif len(L) == 2:
		out.append(event(poisson_disk_sample_grid(dom, r, L=L, Ntries=10), case['r2'], 0))
		if identity:
			out.append(event(poisson_disk_sample_grid(dom, r, Ntries=5), case['r2'], 0))
			# hundreds of points
			if case['r2'] == 2:
				out.append(event(poisson_disk_sample_grid(dom, r/6, Ntries=10), 2, 0, 6))
	if full:
		# the discretization keeps a fourth of the radius
		big = 4*r
		out.append(event(minimax_covering(dom, big, L=L), 0, int(2*big)))
		if identity:
			out.append(event(minimax_covering(dom, big), 0, int(2*big)))
	if not np.array_equal(L, keep):
		raise AssertionError('the arguments changed')
	return out


def run_cover(case):
	rep = Report()
	X, L, r = np.array(case['X'], dtype=float), np.array(case['L'], dtype=float), case['r2']/2.
	h = case_hash(case)
	X = X[np.random.RandomState(h % 1000).permutation(len(X))]
	size = len(case['best'][0])
	covers = sorted(sorted(map(tuple, T)) for T in case['best'])
	identity = L.shape == (case['m'], case['m']) and np.array_equal(L, np.eye(case['m']))
	for how, args, kw in (('with L', X, {'L': L}),) + ((('without L', X.tolist(), {}),) if identity else ()) + (('in other units', X, {'L': 3*L}), ('a point twice', np.vstack([X, X[:1]]), {'L': L})):
		I = minimax_covering_discrete(args, r*(3 if how == 'in other units' else 1), **kw)
		if np.shape(I) != (len(args),) or np.asarray(I).dtype != bool:
			rep.add('the covering is %s (%s)' % (I, how))
			continue
		got = sorted(tuple(int(z) for z in x) for x in np.array(args)[I])
		if got not in covers:
			rep.add('%s (%s) is not one of the %d coverings by %d points' % (got, how, len(covers), size))
	return rep.out


def S02():
	return [TraceSuite('discs', tlc_cases('DiskCase', {'quick': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Radii': {1, 2, 3, 4}, 'Seeds': {1}}, 'thorough': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Radii': {1, 2, 3, 4, 6}, 'Seeds': {1, 2, 3, 4, 5, 6}}},
			invariants=['Emit']), drive_disk, 'DiskTrace', constants={'K': KD}, min_cases=30, chunk=1),
		Suite('coverings', tlc_cases('Cover', {'quick': {'Sizes': {1, 2, 3, 4, 5, 6}, 'Share': 397}, 'thorough': {'Sizes': {1, 2, 3, 4, 5, 6, 7}, 'Share': 53}},
			invariants=['Sane', 'Emit']), run_cover, min_cases=100)]


################################################################################
# S03: maximin and sequential designs
################################################################################
def least(v):
	v = np.sort(v)
	return np.min(np.diff(v)) if len(v) > 1 else np.inf


def run_line(case):
	"""designs in the metric of one row"""
	rep = Report()
	ans, v, X = case['ans'], np.array(case['v'], dtype=float), np.array(case['X'], dtype=float)
	dom = domain_of(case['dom'])
	m, h = len(v), case_hash(case)
	X = X[np.random.RandomState(h % 1000).permutation(len(X))]
	lo, hi, verts, fill = fl(ans['lo']), fl(ans['hi']), np.sort(fls(ans['verts'])), fl(ans['fill'])
	keep = [v.copy(), X.copy()]

	def line(what, Y, want, tol=1e-6):
		Y = np.asarray(Y, dtype=float)
		if Y.shape != (len(want), m):
			rep.add('%s has the shape %s' % (what, Y.shape))
		elif not np.all(dom.isinside(Y)):
			rep.add('%s leaves the domain: %s' % (what, Y[~dom.isinside(Y)].tolist()))
		else:
			rep.same(what, np.sort(Y @ v), want, tol)
	for n in range(1, len(ans['maximin']) + 1):
		# one point alone may be at either end
		want = np.sort(fls(ans['maximin'][n - 1]))
		designs = [('maximin_design_1d', maximin_design_1d(dom, n, L=v if n % 2 else v.reshape(1, -1))), ('maximin_block', maximin_block(dom, n, L=v.reshape(1, -1)))]
		if n > 2:
			designs.append(('maximin_block, two rows', maximin_block(dom, n, L=np.vstack([v, -2*v]))))
		if m == 1:
			designs.append(('maximin_design_1d without L', maximin_design_1d(dom, n)))
			designs.append(('maximin_block without L', maximin_block(dom, n)))
		for what, Y in designs:
			if n == 1:
				line(what, Y, [np.asarray(Y).reshape(1, -1)[0] @ v])
				if min(abs(np.asarray(Y).flatten() @ v - lo), abs(np.asarray(Y).flatten() @ v - hi)) > 1e-6*(1 + hi - lo):
					rep.add('%s of one point: %s' % (what, Y))
			else:
				line('%s of %d points' % (what, n), Y, want)
	# the next point of a design
	L = v.reshape(1, -1)
	for what, kw in (('', {} if h % 5 == 0 else {'Nsamp': 200}), (' from other points', {'X0': dom.sample(30)}), (' among few', {'Nsamp': 10}), (' at once', {'Nsamp': 200, 'slack': 1.})):
		x = seq_maximin_sample(dom, X.tolist() if h % 2 else X, Ls=[L], **kw)
		if np.shape(x) != (m,) or not dom.isinside(x):
			rep.add('the next sample%s %s is not in the domain' % (what, x))
			continue
		d = np.min(np.abs(x @ v - X @ v))
		# (the search is not randomized: in more dimensions it may end before it is at a vertex)
		want = (1 if 'slack' in kw else 0.9)*fill*(1 if m == 1 else 0.97)
		if 'X0' in kw or kw.get('Nsamp') == 10:
			want = 0
		if d < want - 1e-6*(1 + fill) or d > fill + 1e-5*(1 + fill):
			rep.add('the next sample%s %s is at %g; the furthest point is at %g' % (what, x, d, fill))
		if m == 1 and np.min(np.abs(x @ v - verts)) > 1e-5*(1 + np.abs(v).sum()):
			rep.add('the next sample%s %s is at %g; the vertices are %s' % (what, x, x @ v, verts))
	# no points yet: a corner of the domain at one of the ends
	np.random.seed(h % 1000)
	ends = [seq_maximin_sample(dom, (np.zeros((0, m)), [], np.zeros((0, m)))[i % 3], Ls=[L] if i % 2 else [3*L, L]) for i in range(4)]
	for x in ends:
		if np.shape(x) != (m,) or not dom.isinside(x) or min(abs(x @ v - lo), abs(x @ v - hi)) > 1e-6*(1 + abs(lo) + abs(hi)):
			rep.add('the first sample %s is not at an end (%g, %g)' % (x, lo, hi))
	# points from which to start, along the whole range of the metric
	X0 = initial_sample(dom, L, Nsamp=60)
	if X0.shape != (60, m) or not np.all(dom.isinside(X0)):
		rep.add('initial samples leave the domain')
	elif set(np.clip(np.floor(4*(X0 @ v - lo)/(hi - lo)), 0, 3).astype(int)) != {0, 1, 2, 3}:
		rep.add('initial samples reach %s only of %g..%g' % (np.unique(X0 @ v), lo, hi))
	if not (np.array_equal(v, keep[0]) and np.array_equal(X, keep[1])):
		rep.add('the arguments changed')
	return rep.out


def run_seq(case):
	"""several metrics of one coordinate each"""
	rep = Report()
	dom = domain_of(case['dom'])
	X, w, ans = np.array(case['X'], dtype=float), np.array(case['w'], dtype=float), case['ans']
	m, h = len(w), case_hash(case)
	X = X[np.random.RandomState(h % 1000).permutation(len(X))]
	Ls = [w[j]*np.eye(m)[j:j + 1] for j in range(m) if w[j]]
	if h % 2:
		Ls = Ls[::-1]
	used = [j for j in range(m) if w[j]]
	fills = np.array([fl(ans[j]['fill']) for j in range(m)])
	keep = [X.copy(), [L.copy() for L in Ls]]
	best = np.prod(fills[used])
	for what, least_score, kw in (('', 0.9*best, {}), (' without slack', best, {'slack': 1.}), (' with any slack', 0, {'slack': 0.})):
		x = seq_maximin_sample(dom, X, Ls=Ls, Nsamp=400, **kw)
		if np.shape(x) != (m,) or not dom.isinside(x):
			rep.add('the next sample%s %s is not in the domain' % (what, x))
			continue
		score = np.prod([np.min(np.abs(x[j] - X[:, j])) for j in used])
		if score < least_score*(1 - 1e-6):
			rep.add('the next sample%s %s has the score %g; the best has %g' % (what, x, score, best))
	# every coordinate with a metric is fixed as far from the points as possible
	s = stretch_sample_domain(dom, X, Ls, verbose=False)
	if len(s) != m or s.is_empty:
		rep.add('the stretched domain %s is empty' % s)
	else:
		Y = s.sample(5)
		if not np.all(dom.isinside(Y)):
			rep.add('the stretched domain leaves the domain: %s' % Y.tolist())
		for j in range(m):
			V = np.array([fl(z) for z in ans[j]['verts']])
			if w[j] and np.max(np.min(np.abs(Y[:, j][:, None] - V), axis=1)) > 1e-5:
				rep.add('coordinate %d of the stretched domain is %s; the vertices are %s' % (j, Y[:, j], V))
	x = stretch_sample(dom, X, Ls)
	if np.shape(x) != (m,) or not dom.isinside(x):
		rep.add('the stretched sample %s is not in the domain' % x)
	else:
		for j in used:
			V = np.array([fl(z) for z in ans[j]['verts']])
			if np.min(np.abs(x[j] - V)) > 1e-5:
				rep.add('coordinate %d of the stretched sample %s is not among the vertices %s' % (j, x, V))
	if not (np.array_equal(X, keep[0]) and len(Ls) == len(keep[1]) and all(np.array_equal(a, b) for a, b in zip(Ls, keep[1]))):
		rep.add('the arguments changed')
	return rep.out


KB = 200


def drive_block(case):
	dom, L = domain_of(case['dom']), np.array(case['L'], dtype=float)
	m, n = case['dom']['m'], case['n']
	S = case['S']
	h = case_hash(case)
	identity = L.shape == (m, m) and np.array_equal(L, np.eye(m))
	out = []
	for kind in (['none'] if not S else ['list', 'float', 'int']):
		X0 = {'none': None, 'list': S, 'float': np.array(S, dtype=float), 'int': np.array(S)}[kind]
		keep = np.array(X0) if S else None
		kw = {} if identity and h % 2 else {'L': L if h % 3 else L.tolist()}
		if S or h % 2:
			kw['X0'] = X0
		X = maximin_block(dom, n, verbose=kind == 'float', **kw)
		if S and not np.array_equal(np.array(X0), keep):
			raise AssertionError('the arguments changed')
		rank = np.linalg.matrix_rank(L)
		out.append({'k': case['k'], 'l': case['l'], 'n': n, 'shape': list(np.shape(X)), 'pts': [qs(x, KB) for x in X], 'start': S if rank > 1 else [], 'regular': bool(rank == m and m == 2)})
	return out


KS = 1000


class Response(psdr.BaseFunction):
	"""a function with the part of the interface that a sampler uses"""
	def __init__(self, dom, F, G, kind):
		self.domain, self.F, self.G, self.kind = dom, F, G, kind

	def eval(self, X, **kwargs):
		y = np.array(X, dtype=float) @ self.F.T + self.G
		return y[..., 0] if self.kind == 'flat' else y


def drive_sampler(case):
	c = case['c']
	b, v = c['box'], np.array(c['v'], dtype=float)
	m = b['m']
	lb, ub = np.array(b['lb'], dtype=float), np.array(b['ub'], dtype=float)
	box = psdr.BoxDomain(lb, ub)
	F, G = np.array([[1, -1, 2][:m], [0, 2, 1][:m]], dtype=float), np.array([3., -1.])
	kind = c['fun']
	nf = 2 if kind in ('two', 'list') else 1
	F, G = F[:nf], G[:nf]
	back, row = (lambda X: X), v
	if kind in ('one', 'two'):
		fun = Response(box, F, G, 'flat' if kind == 'one' and not c['values'] else 'table')
	else:
		one = lambda x, i=0: np.array(x) @ F[i] + G[i]
		fun = psdr.Function([one, lambda x: np.array(x) @ F[1] + G[1]] if kind == 'list' else one, box, vectorized=kind == 'vectorized')
		# the sampler works in normalized coordinates
		back, row = box.unnormalize, v*(ub - lb)/2
	X = np.array(c['X'], dtype=float).reshape(-1, m)
	args = {'L': row.reshape(1, -1)}
	if m == 1 and v[0] == 1:
		args = {}
	if len(X):
		X0 = X if fun.domain is box else box.normalize(X)
		args['X'] = X0.tolist() if len(X) == 1 else X0
	flat = kind == 'one' and not c['values']
	if c['values']:
		args['fX'] = X @ F.T + G
		if kind == 'vectorized':
			args['fX'] = np.asarray(fun.eval(X0))
	np.random.seed(len(case['ops']))
	s = psdr.SequentialMaximinSampler(fun, **args)

	def points():
		P = np.array(s.X, dtype=float)
		assert P.ndim == 2 and P.shape[1] == m, 'points of shape %s' % (P.shape,)
		return [qs(x, KS) for x in (back(P) if len(P) else P)]

	def values():
		Y = s.fX
		return [] if Y is None else [qs(y, KS) for y in np.array(Y, dtype=float).reshape(-1, nf)]
	out = [{'op': 'new', 'm': m, 'lb': b['lb'], 'ub': b['ub'], 'v': c['v'], 'X': [[KS*z for z in x] for x in c['X']], 'F': F.astype(int).tolist(), 'G': G.astype(int).tolist(), 'values': c['values'], 'pts': points()}]
	for op in case['ops']:
		draw = 0
		if op == 'write':
			P, Y = s.X, s.fX
			P[:] = 7
			if Y is not None:
				Y[:] = 7
			if len(X):
				args['X'] = 0
		else:
			draw = 2 if op == 'sample 2' else 1
			s.sample(draw, verbose=op == 'verbose') if op != 'sample 1' else s.sample()
		out.append({'op': op, 'draw': draw, 'pts': points(), 'fX': values()})
	return out


def S03():
	return [Suite('lines', tlc_cases('Line', {'quick': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Most': 5, 'Share': 4001}, 'thorough': {'Which': {1, 2, 3, 4, 5, 6, 7, 8}, 'Most': 9, 'Share': 401}},
			invariants=['Sane', 'Optimal', 'Emit']), run_line, min_cases=100),
		Suite('next points', tlc_cases('Seq', {'quick': {'Which': {1, 2, 3, 7}, 'Share': 4001}, 'thorough': {'Which': {1, 2, 3, 7}, 'Share': 809}},
			invariants=['Sane', 'Emit']), run_seq, min_cases=30, chunk=1),
		TraceSuite('blocks', tlc_cases('BlockCase', {'quick': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Share': 251}, 'thorough': {'Which': {2, 3, 4, 5, 6, 7, 8}, 'Share': 17}},
			invariants=['Emit']), drive_block, 'BlockTrace', constants={'K': KB}, min_cases=30, chunk=1),
		TraceSuite('samplers', tlc_cases('SamplerCase', {'quick': {'Depth': 3, 'Share': 151}, 'thorough': {'Depth': 4, 'Share': 23}},
			invariants=['Emit']), drive_sampler, 'SamplerTrace', constants={'K': KS}, min_cases=30, chunk=1)]
