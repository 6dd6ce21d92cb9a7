"""python harness/run.py <property> [--replay FILE]: see core.py; VERIF_SEED and VERIF_TIER are read from the environment"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'

# hashing of strings must be the same in every run, and no .pyc may be written into the repository
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
	os.environ['PYTHONHASHSEED'] = '0'
	os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
	os.execv(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:])

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
# Hypothesis is not installed next to the repository's dependencies; this has to come after them
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main():
	import importlib
	import time
	import traceback
	tier = os.environ.get('VERIF_TIER', 'quick')
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	prop = sys.argv[1]
	import core
	core.limit_memory()
	sys.path.insert(0, os.path.join(HERE, 'checks'))
	try:
		# what was compiled before is not read, in case the source changed within a second
		sys.pycache_prefix = '/nonexistent/compiled'
		import abstract
		sys.pycache_prefix = None
		if not os.path.abspath(abstract.__file__).startswith(os.path.abspath(REPO) + os.sep):
			print(f'harness error: abstract was imported from {abstract.__file__}')
			return 2
	except Exception as e:
		# the code under test cannot even be imported, so nothing it promises holds
		print(f'failure: importing the package raised {type(e).__name__}: {e}')
		os.makedirs(core.REPLAYS, exist_ok=True)
		path = os.path.join(core.REPLAYS, f'{prop}-import.json')
		with open(path, 'w') as f:
			f.write('{"import": "abstract"}')
		print(f'VIOLATION property={prop} replay={path}')
		return 1
	try:
		module = importlib.import_module(prop)
		runner = core.Runner(module, tier if tier in ('quick', 'thorough') else 'quick', seed)
		if '--replay' in sys.argv:
			return runner.replay(sys.argv[sys.argv.index('--replay') + 1])
		return runner.main()
	except Exception:
		traceback.print_exc()
		print(f'harness error in the check of {prop}')
		return 2


if __name__ == '__main__':
	code = main()
	sys.stdout.flush()
	sys.stderr.flush()
	os._exit(code)
