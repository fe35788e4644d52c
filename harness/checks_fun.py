"""Functions posed on a domain"""
import numpy as np
import psdr
from psdr import Function

from core import Suite, TraceSuite, tlc_cases, fl, fls
import domlib


class User:
	"""the user's function, in the form the configuration asks for"""
	def __init__(self, outs, m, vec, withgrad, flat=True):
		self.outs, self.m, self.vec, self.withgrad, self.flat = outs, m, vec, withgrad, flat
		self.seen = []

	def value(self, o, X, s, t):
		m = self.m
		a, qq = np.array(o['a'][:m], dtype=float), np.array(o['q'][:m], dtype=float)
		return s*(X @ a) + (X**2) @ qq + o['e']*X[..., 0]*X[..., m - 1] + t + o['c']

	def gradient(self, o, X, s):
		m = self.m
		a, qq = np.array(o['a'][:m], dtype=float), np.array(o['q'][:m], dtype=float)
		g = s*a + 2*qq*X
		g[..., 0] += o['e']*X[..., m - 1]
		g[..., m - 1] += o['e']*X[..., 0]
		return g

	def take(self, x):
		x = np.asarray(x)
		assert x.ndim == 1 or (self.vec and x.ndim == 2), 'the function was called with an array of shape %s' % (x.shape,)
		assert x.shape[-1] == self.m, 'the function was called with an array of shape %s' % (x.shape,)
		self.seen.append(x.copy())
		return x.astype(float)

	def __call__(self, x, s=1, t=0, return_grad=False):
		if return_grad and not self.withgrad:
			raise TypeError('return_grad was not announced')
		X = self.take(x)
		v = [self.value(o, X, s, t) for o in self.outs]
		v = v[0] if len(v) == 1 else np.stack(v, axis=-1)
		if self.vec and X.ndim == 2 and not self.flat:
			v = v.reshape(len(X), -1)
		if return_grad:
			return v, self.grad(X, s=s, t=t)
		return v

	def grad(self, x, s=1, t=0):
		X = self.take(x)
		g = [self.gradient(o, X, s) for o in self.outs]
		return g[0] if len(g) == 1 else np.stack(g, axis=-2)


def run_function(case):
	out = []
	m, vec, mode = case['m'], case['vec'], case['mode']
	dom = domlib.replay_history(case['hist'])[-1]
	tol = 1e-6 if case['exact'] else 1e-3
	kd = {k: case['kd'][k] for k in case['kd']['has']}
	kc = {k: case['kc'][k] for k in case['kc']['has']}
	P = np.array([fls(p) for p in case['pts']])
	val = np.array([fls(v) for v in case['val']])
	grd = np.array([[fls(g) for g in gs] for gs in case['grad']])
	X = np.array([fls(x) for x in case['x']])
	d = val.shape[1]
	for flat in (True, False) if vec else (True,):
		users = [User(f, m, vec, mode == 'return_grad', flat) for f in case['fs']]
		kw = dict(vectorized=vec)
		if kd:
			kw['kwargs'] = dict(kd)
		if mode == 'grads':
			kw['grads'] = [u.grad for u in users] if len(users) > 1 else users[0].grad
		if mode == 'return_grad':
			kw['return_grad'] = True
		if mode == 'fd':
			kw['fd_grad'] = True
		f = Function(users if len(users) > 1 or not flat else users[0], dom, **kw)
		gtol = 2e-5*(1 + np.max(np.abs(grd)) + np.max(np.abs(val))) if mode == 'fd' else tol*(1 + np.max(np.abs(grd)))
		vtol = tol*(1 + np.max(np.abs(val)))

		def check(what, got, want, t):
			got = np.asarray(got)
			if got.shape != want.shape:
				out.append('%s has shape %s instead of %s' % (what, got.shape, want.shape))
			elif not np.allclose(got, want, atol=t, rtol=0):
				out.append('%s is %s instead of %s' % (what, got.tolist(), want.tolist()))

		calls = [('point %d' % i, P[i], val[i], grd[i]) for i in range(len(P))]
		calls += [('points', P, val, grd), ('one row', P[1:2], val[1:2], grd[1:2]), ('two points', P[2:0:-1], val[2:0:-1], grd[2:0:-1]),
			('list point', P[2].tolist(), val[2], grd[2]), ('list points', P[:3].tolist(), val[:3], grd[:3])]
		for name, p, v, g in calls:
			if d == 1:
				g = g[..., 0, :]
			keep = np.array(p)
			for u in users:
				u.seen = []
			check('eval(%s)' % name, f.eval(p, **kc), v, vtol)
			if not all(len(u.seen) for u in users):
				out.append('a function was not called')
			elif not np.allclose(np.vstack([np.atleast_2d(x) for x in users[-1].seen]), X[[0]*0 + [int(np.flatnonzero(np.all(np.isclose(P, r), axis=1))[0]) for r in np.atleast_2d(keep)]], atol=tol*10):
				out.append('eval(%s) called the function at %s' % (name, users[-1].seen))
			check('call(%s)' % name, f(p, **kc), v, vtol)
			if not kc:
				check('predict(%s)' % name, f.predict(p), v, vtol)
			if mode == 'none':
				for call in (lambda: f.grad(p), lambda: f(p, return_grad=True)):
					try:
						out.append('a gradient was made up: %s' % (call(),))
					except NotImplementedError:
						pass
			else:
				check('grad(%s)' % name, f.grad(p, **kc), g, gtol)
				both = f(p, return_grad=True, **kc)
				if len(both) != 2:
					out.append('call with return_grad returned %d values' % len(both))
				else:
					check('call(%s, return_grad)[0]' % name, both[0], v, vtol)
					check('call(%s, return_grad)[1]' % name, both[1], g, gtol)
			if not np.array_equal(keep, np.array(p)):
				out.append('%s: the argument was changed' % name)
			# the defaults are not changed by calls
			if kc and name == 'points':
				f2 = Function(users if len(users) > 1 else users[0], dom, **kw)
				check('eval without arguments after one with', f.eval(p), np.asarray(f2.eval(p)), vtol)
		if kd and kw['kwargs'] != kd:
			out.append('the keyword arguments were changed to %s' % kw['kwargs'])
		if len(out) > 6:
			break
	dn = f.domain
	if len(dn) != m or not np.array_equal(np.asarray(dn.isinside(P)), np.asarray(dom.isinside(dom.unnormalize(P)))):
		out.append('the domain of the function is not the normalized domain')
	return out[:6]


class FakeFuture:
	def __init__(self, value):
		self.value = value

	def result(self):
		return self.value


class FakeClient:
	def __init__(self):
		self.jobs = 0

	def submit(self, fun, *args, **kwargs):
		import cloudpickle
		self.jobs += 1
		# what is submitted must survive the transport
		fun, args, kwargs = cloudpickle.loads(cloudpickle.dumps((fun, args, kwargs)))
		return FakeFuture(fun(*args, **kwargs))


def run_async(case):
	import userfuns
	out = []
	m = case['m']
	dom = domlib.replay_history(case['hist'])[-1]
	kd = {k: case['kd'][k] for k in case['kd']['has']}
	kc = {k: case['kc'][k] for k in case['kc']['has']}
	P = np.array([fls(p) for p in case['pts']])
	X = np.array([fls(x) for x in case['x']])
	funs = [userfuns.async_a, userfuns.async_b]
	client = FakeClient()
	f = Function(funs, dom, kwargs=kd, dask_client=client)
	eff = dict(kd, **kc)
	want = [[g(x, **eff) for g in funs] for x in X]
	one = f.eval_async(P[1], **kc).result()
	many = [r.result() for r in f.eval_async(P, **kc)]
	if client.jobs != 1 + len(P):
		out.append('%d jobs for %d points' % (client.jobs, 1 + len(P)))
	tol = 1e-6 if case['exact'] else 5e-3
	if not np.allclose(one, want[1], atol=tol) or not np.allclose(many, want, atol=tol):
		out.append('evaluation on workers is %s instead of %s' % (many, want))
	g = [r.result() for r in f.call_async(P, return_grad=True, **kc)]
	for r, x in zip(g, X):
		for (fx, gx), fun in zip(r, funs):
			v, gv = fun(x, return_grad=True, **eff)
			if not np.allclose(fx, v, atol=tol) or not np.allclose(gx, gv, atol=tol):
				out.append('call_async returned %s, %s' % (fx, gx))
	return out


def async_cases(cases, tier):
	return [c for c in cases if c['mode'] == 'none' and not c['vec'] and len(c['fs']) == 2 and len(c['fs'][1]) == 1]


def F01():
	consts = {'both': {'S': 2}, 'quick': {'Full': False}, 'thorough': {'Full': True}}
	return [Suite('wrapper', tlc_cases('FunMod', consts, invariants=['Sane', 'Emit']), run_function, min_cases=1000),
		Suite('workers', tlc_cases('FunMod', consts, invariants=['Emit'], post=async_cases), run_async, min_cases=10)]
