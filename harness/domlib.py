"""Building real domains from the descriptions used by the specifications"""
import numpy as np
import psdr

INF, NINF = 1000, -1000


# The specifications use integers; the domains are built in units of 1/UNIT.  With NATURAL set, vectors are passed in the type
# a user would write (integers stay integers).
UNIT, NATURAL = 1, False


class units:
	def __init__(self, unit, natural=False):
		self.new = (unit, natural)

	def __enter__(self):
		global UNIT, NATURAL
		self.old = (UNIT, NATURAL)
		UNIT, NATURAL = self.new

	def __exit__(self, *args):
		global UNIT, NATURAL
		UNIT, NATURAL = self.old


def arr(v, power=1):
	"""a vector of lengths (power = 1) or a matrix without units (power = 0)"""
	a = np.array(v, dtype=float)/UNIT**power
	if NATURAL and np.all(a == np.round(a)):
		return a.astype(int)
	return a


def bound(v):
	a = np.array([np.inf if x == INF else -np.inf if x == NINF else float(x)/UNIT for x in v])
	if NATURAL and np.all(a == np.round(a)) and np.all(np.isfinite(a)):
		return a.astype(int)
	return a


def con_kwargs(d):
	kw = {}
	if any(x != NINF for x in d['lb']):
		kw['lb'] = bound(d['lb'])
	if any(x != INF for x in d['ub']):
		kw['ub'] = bound(d['ub'])
	if d['A']:
		kw['A'] = arr([r['a'] for r in d['A']], 0)
		kw['b'] = arr([r['b'] for r in d['A']])
	if d['E']:
		kw['A_eq'] = arr([r['a'] for r in d['E']], 0)
		kw['b_eq'] = arr([r['b'] for r in d['E']])
	if d['Q']:
		kw['Ls'] = [arr(c['L'], 0) for c in d['Q']]
		kw['ys'] = [arr(c['y']) for c in d['Q']]
		kw['rhos'] = [float(c['r'])/UNIT for c in d['Q']]
	return kw


def names_arg(nm, m):
	if not nm:
		return None
	if len(nm) == m and m > 1:
		return list(nm)
	return nm[0]


def build(cls, d, nm=()):
	m = d['m']
	names = names_arg(nm, m)
	kw = con_kwargs(d)
	if cls == 'box':
		return psdr.BoxDomain(bound(d['lb']), bound(d['ub']), names=names)
	if cls == 'boxscalar':
		return psdr.BoxDomain(float(d['lb'][0])/UNIT, float(d['ub'][0])/UNIT, names=names)
	if cls == 'uniform':
		return psdr.UniformDomain(bound(d['lb']), bound(d['ub']), names=names)
	if cls == 'linineq':
		return psdr.LinIneqDomain(names=names, **kw)
	if cls == 'linquad':
		return psdr.LinQuadDomain(names=names, **kw)
	if cls == 'point':
		return psdr.PointDomain(arr(d['lb']), names=names)
	if cls == 'unbounded':
		return psdr.UnboundedDomain(m, names=names)
	if cls == 'hull':
		return psdr.ConvexHullDomain(arr(d['H'][0]['pts']), names=names, **kw)
	raise ValueError(cls)


def replay_history(hist):
	pool = []
	for h in hist:
		if h['op'] == 'base':
			pool.append(build(h['cls'], h['d'], h['nm']))
		elif h['op'] == 'add':
			pool.append(pool[h['i'] - 1].add_constraints(**con_kwargs(h['c'])))
		elif h['op'] == 'and':
			pool.append(pool[h['i'] - 1] & pool[h['j'] - 1])
		elif h['op'] == 'mul':
			pool.append(pool[h['i'] - 1] * pool[h['j'] - 1])
		else:
			raise ValueError(h)
	return pool


def lattice(vals, m, s):
	"""the lattice of the specification, in its order"""
	import itertools
	return np.array(list(itertools.product(vals, repeat=m)), dtype=float)/s


def as_bits(x, n):
	x = np.asarray(x)
	assert x.shape == (n,), 'isinside returned shape %s for %d points' % (x.shape, n)
	assert x.dtype == bool, 'isinside returned %s' % x.dtype
	return x


def feasible_domain(cls, d):
	return build(cls, d)
