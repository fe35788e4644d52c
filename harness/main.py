import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '/repo')
import core


def main():
	prop = sys.argv[1]
	args = sys.argv[2:]
	tier = os.environ.get('VERIF_TIER') or 'quick'
	if args and args[0] in ('quick', 'thorough'):
		tier = args.pop(0)
	import psdr
	if not os.path.realpath(psdr.__file__).startswith('/repo/'):
		raise core.MachineryError('psdr does not come from /repo but from %s' % psdr.__file__)
	import registry
	mod, attr = registry.CHECKS[prop]
	suites = getattr(importlib.import_module(mod), attr)()
	if args and args[0] == '--replay':
		return core.replay(prop, suites, args[1])
	return core.run_property(prop, tier, suites)


if __name__ == '__main__':
	try:
		rc = main()
	except core.MachineryError as e:
		sys.stderr.write('MACHINERY: %s\n' % e)
		rc = 2
	sys.stdout.flush()
	os._exit(rc)
