"""Self-contained functions: PSDR ships the source of functions to its workers"""


def async_a(x, s=1, t=0, **kwargs):
	f = s*(x[0] - 2*x[-1]) + t
	if kwargs.get('return_grad'):
		g = [0.]*len(x)
		g[0] += s
		g[-1] -= 2*s
		return f, g
	return f


def async_b(x, s=1, t=0, **kwargs):
	import math
	f = s*math.floor(1000*x[0])/1000 + x[-1]**2 - t
	if kwargs.get('return_grad'):
		return f, [0.]*len(x)
	return f
