"""The published test functions"""
import numpy as np
import scipy.stats
import psdr.demos

from core import Suite, tlc_cases, case_hash
from checks_bas import Report
from checks_fun import FakeClient

FUNS = {'log': np.log, 'sin': np.sin, 'cos': np.cos, 'sinh': np.sinh, 'cosh': np.cosh}
DIRECT = {'OTLCircuit': (['otl_circuit'], ['otl_circuit_grad']), 'Borehole': (['borehole'], ['borehole_grad']), 'Piston': (['piston'], []), 'RobotArm': (['robot_arm'], []),
	'WingWeight': (['wing_weight'], ['wing_weight_grad']), 'GolinskiGearbox': (['golinski_volume'] + ['golinski_constraint%d' % k for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 24, 25)], [])}
CLIENTS = ('OTLCircuit', 'Borehole', 'Piston', 'RobotArm', 'GolinskiGearbox')


def value(t, x):
	"""a term of the specification at the points whose coordinates are x"""
	k = t[0]
	if k == 'c':
		return t[1]/t[2]*10.**t[3]
	if k == 'x':
		return x[t[1] - 1]
	if k == 'pi':
		return np.pi
	if k == '+':
		return value(t[1], x) + value(t[2], x)
	if k == '*':
		return value(t[1], x)*value(t[2], x)
	if k == '^':
		a = value(t[1], x)
		return a**t[2] if t[3] == 1 and t[2] > 0 else 1./a**(-t[2]) if t[3] == 1 else a**(t[2]/t[3])
	return FUNS[k](value(t[1], x))


def columns(terms, x, N):
	return np.array([np.broadcast_to(value(t, x), (N,)) for t in terms], dtype=float).T


def run_demo(case):
	rep = Report()
	m, a, name = case['m'], case['ans'], case['name']
	par = dict(case['par']) if case['par'] else {}
	cls = getattr(psdr.demos, name)
	fun = cls(**par)
	dom = fun.domain_app
	lb, ub = np.array([value(b[0], []) for b in case['dom']]), np.array([value(b[1], []) for b in case['dom']])
	rep.same('lower bounds', dom.norm_lb, lb, 1e-12)
	rep.same('upper bounds', dom.norm_ub, ub, 1e-12)
	rep.same('lower bounds of the normalized domain', fun.domain.norm_lb, -np.ones(m), 1e-12)
	rep.same('upper bounds of the normalized domain', fun.domain.norm_ub, np.ones(m), 1e-12)
	if len(dom.names) != m or len(set(dom.names)) != m:
		rep.add('names of the variables: %s' % (dom.names,))
	s = np.array(a['pts'], dtype=float)/7
	Z = 2*s - 1
	Y = lb + s*(ub - lb)
	N, q = len(Z), len(a['f'])

	def check(label, got, want, scale):
		got = np.asarray(got, dtype=float)
		if got.shape != want.shape:
			rep.add('%s has shape %s instead of %s' % (label, got.shape, want.shape))
		elif not np.all(np.abs(got - want) <= 1e-8*scale):
			i = np.unravel_index(np.argmax(np.abs(got - want)/scale), got.shape)
			rep.add('%s is %r instead of %r (entry %s)' % (label, got[i], want[i], list(i)))

	def expected(consts):
		x = [Y[:, k] for k in range(m)] + consts
		F = columns(a['f'], x, N)
		with np.errstate(all='ignore'):
			G = np.array([columns(g, x, N) for g in a['g']]).transpose(1, 0, 2)
		return F, G
	consts = [value(c['v'], []) for c in case['consts']]
	F, G = expected(consts)
	scF = np.max(np.abs(F), axis=0, keepdims=True) + np.zeros(F.shape)
	# where the function has a kink there is no gradient
	ok = np.all(np.isfinite(G), axis=(1, 2)) & ~((name == 'RobotArm') & (np.abs(F[:, 0]) < 1e-3))
	GN = G*(ub - lb)/2
	scG = np.maximum(np.max(np.abs(GN[ok]), axis=(0, 2), keepdims=True), 1e-300) + np.zeros(GN.shape) if np.any(ok) else np.ones(GN.shape)
	keep = Z.copy()
	for vec in (True, False) if name not in ('AffineFunction', 'QuadraticFunction') else (True,):
		fun.vectorized = vec
		lab = 'vectorized ' if vec else ''
		check(lab + 'values', fun(Z), F, scF)
		check(lab + 'values of a list', fun.eval(Z.tolist()), F, scF)
		for i in (0, N - 1):
			check(lab + 'values at a point', fun(Z[i]), F[i], scF[i])
		if np.any(ok):
			W = Z[ok]
			sq = (lambda x: x[:, 0]) if q == 1 else (lambda x: x)
			check(lab + 'gradients', fun.grad(W), sq(GN[ok]), sq(scG[ok]))
			f, g = fun(W, return_grad=True)
			check(lab + 'values with gradients', f, F[ok], scF[ok])
			check(lab + 'gradients with values', g, sq(GN[ok]), sq(scG[ok]))
			i = np.flatnonzero(ok)[-1]
			check(lab + 'gradient at a point', fun.grad(Z[i]), GN[i, 0] if q == 1 else GN[i], scG[i, 0] if q == 1 else scG[i])
	fun.vectorized = True
	if case['consts']:
		# other constants: for one call only
		changed = {c['n']: v*(1 + 0.1*(k + 1)) for k, (c, v) in enumerate(zip(case['consts'], consts)) if (case_hash(case) >> k) % 2 == 0}
		F2, G2 = expected([changed.get(c['n'], v) for c, v in zip(case['consts'], consts)])
		check('values with other constants', fun(Z, **changed), F2, scF*2)
		check('gradients with other constants', fun.grad(Z, **changed), G2*(ub - lb)/2, scG*2)
		check('values with the constants of before', fun(Z), F, scF)
	if name in DIRECT:
		for k, f in enumerate(DIRECT[name][0]):
			check(f, getattr(psdr.demos, f)(Y.copy()), F[:, k], scF[:, k])
		for k, f in enumerate(DIRECT[name][1]):
			check(f, getattr(psdr.demos, f)(Y[ok]), G[ok][:, k], scG[ok][:, k]*2/(ub - lb))
	if name in CLIENTS:
		far = cls(dask_client=FakeClient(), **par)
		got = [np.hstack([np.asarray(v).flatten() for v in r.result()]) for r in far.eval_async(Z)]
		check('values from workers', got, F, scF)
	if name == 'Borehole':
		unc = cls(domain='uncertain')
		V = np.array(unc.domain.sample(4))
		x = unc.domain_app.unnormalize(V)
		want = columns(a['f'], [x[:, k] for k in range(m)], 4)
		check('values on the uncertain domain', unc(V), want, np.abs(want) + 1)
	if not np.array_equal(Z, keep):
		rep.add('the points changed')
	return rep.out


def run_domain(case):
	"""a domain that comes with a test function"""
	rep = Report()
	d = case['dom']
	num = lambda v: v[0]/v[1]*10.**v[2]
	conv = lambda v: num(v) if isinstance(v, list) else v
	f = psdr.demos
	for part in d['name'].split('.'):
		f = getattr(f, part)
	dom = f(**({k: conv(v) for k, v in d['args'].items()} if d['args'] else {}))
	if isinstance(dom, psdr.Function):
		rep.same('lower bounds of the domain of the function', dom.domain.norm_lb, -np.ones(len(d['coords'])), 1e-12)
		rep.same('upper bounds of the domain of the function', dom.domain.norm_ub, np.ones(len(d['coords'])), 1e-12)
		dom = dom.domain_app
	multif = d['name'] == 'build_multif_domain'
	if multif:
		# the design variables come first
		design = psdr.demos.build_multif_design_domain()
		if len(dom) != len(design) + len(d['coords']):
			return ['%d instead of %d coordinates' % (len(dom), len(design) + len(d['coords']))]
		k = len(design)
		np.random.seed(case_hash(case) % 2**31)
		x, y = design.sample(3), dom.sample(3)
		rep.same('bounds of the design variables', np.vstack([dom.norm_lb, dom.norm_ub])[:, :k], np.vstack([design.norm_lb, design.norm_ub]), 1e-12)
		if list(dom.names)[:k] != list(design.names):
			rep.add('names of the design variables')
		if not np.all(design.isinside(x)) or not np.all(design.isinside(y[:, :k])) or np.any(design.isinside(x + 1)):
			rep.add('design variables outside of their domain')
		norm = design.normalized_domain()
		if not np.all(norm.isinside(design.normalize(x))) or not np.all(norm.isinside(norm.sample(2))):
			rep.add('normalized design variables outside of their domain')
		names = list(dom.names)[k:]
		dom = psdr.demos.build_multif_random_domain(**{k: conv(v) for k, v in d['args'].items()})
		if names != list(dom.names):
			rep.add('names of the random variables')
	m = len(d['coords'])
	if len(dom) != m or len(dom.names) != m:
		return ['%d coordinates with %d names instead of %d' % (len(dom), len(dom.names), m)]
	trunc = num(d['trunc'])
	cut = np.sqrt(scipy.stats.chi2.isf(trunc, 1)) if trunc > 0 else np.inf
	t = (np.array(case['ans']['pts'], dtype=float) - 4)/4
	lb, ub, X, P = [], [], [], []
	for i, c in enumerate(d['coords']):
		a, b, s = num(c['a']), num(c['b']), num(c['c'])
		if c['k'] in ('box', 'uniform'):
			lb.append(a); ub.append(b)
			X.append((a + b)/2 + t[:, i]*(b - a)/2)
			P.append(np.ones(len(t))/(b - a))
			continue
		sd = np.sqrt(b)
		z = t[:, i]*min(cut, 3.)
		p = np.exp(-z**2/2)/np.sqrt(2*np.pi)/sd/(1 - trunc)
		if c['k'] == 'normal':
			lb.append(a - cut*sd); ub.append(a + cut*sd)
			X.append(a + z*sd); P.append(p)
		else:
			lb.append(s*np.exp(a - cut*sd)); ub.append(s*np.exp(a + cut*sd))
			X.append(s*np.exp(a + z*sd)); P.append(p/X[-1])
	lb, ub, X, P = np.array(lb), np.array(ub), np.array(X).T, np.array(P).T

	def close(label, got, want):
		got = np.asarray(got, dtype=float)
		with np.errstate(invalid='ignore'):
			bad = got.shape != want.shape or not np.all((got == want) | (np.abs(got - want) <= 1e-6*np.abs(want)))
		if bad:
			rep.add('%s: %s instead of %s' % (label, got.tolist(), want.tolist()))
	close('lower bounds', dom.norm_lb, lb)
	close('upper bounds', dom.norm_ub, ub)
	if not np.all(dom.isinside(X)):
		rep.add('points of the domain are not inside')
	for i in np.flatnonzero(np.isfinite(ub)):
		w = min(ub[i] - lb[i], np.abs(ub[i]))
		for out in (ub[i] + 0.02*w, lb[i] - 0.02*w):
			y = X[0].copy()
			y[i] = out
			if w > 1e-3 and dom.isinside(y.reshape(1, -1))[0]:
				rep.add('a point beyond the bounds of coordinate %d is inside' % i)
				break
	if all(c['k'] != 'box' for c in d['coords']):
		# products have no density of their own, their factors do
		for i, part in enumerate(dom.domains):
			# (that the density of a scaled log-normal is not divided by the scaling is judged in D07)
			got, sc = np.asarray(part.pdf(X[:, [i]])), num(d['coords'][i]['c'])
			if got.shape != P[:, i].shape or not np.allclose(got, P[:, i], rtol=1e-4) and not np.allclose(got, sc*P[:, i], rtol=1e-4):
				rep.add('density of coordinate %d is %s instead of %s' % (i, got, P[:, i]))
	np.random.seed(case_hash(case) % 2**31)
	S = dom.sample(20)
	if S.shape != (20, m) or np.any(S < lb - 1e-6*np.abs(lb)) or np.any(S > ub + 1e-6*np.abs(ub)):
		rep.add('samples beyond the bounds')
	if np.all(np.isfinite(ub)) and np.all(np.isfinite(lb)):
		close('normalized points', dom.normalize(X) + 3, 3 + (2*X - lb - ub)/(ub - lb))
		nd = dom.normalized_domain()
		close('lower bounds of the normalized domain', nd.norm_lb, -np.ones(m))
		close('upper bounds of the normalized domain', nd.norm_ub, np.ones(m))
	return rep.out


def F02():
	return [Suite('formulas', tlc_cases('Formula', {'quick': {'Blocks': 8}, 'thorough': {'Blocks': 60}}, invariants=['Sane', 'Emit']), run_demo, min_cases=90),
		Suite('domains', tlc_cases('DemoDom', {'quick': {'Blocks': 4}, 'thorough': {'Blocks': 20}}, invariants=['Sane', 'Emit']), run_domain, min_cases=60)]
