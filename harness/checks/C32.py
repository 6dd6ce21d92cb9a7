"""C32: the same graph gives the same answers in every process"""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from hypothesis import strategies as st

from core import Stream, Violation, check
from gen import programs, shapes
from styled import styled_graphs

ID = 'C32'
RULE = (
	'A case is a batch of graphs (with settings, shapes or histories, and a second graph for sums); each is built and asked everything (all lists in '
	'their order, tree, text, rendered text, sum, filters, copy, conversion) in separate processes with different seeds for hashing strings and for '
	'the random module. All processes answer alike. Non-trivial: a graph of the batch has at least 2 nodes.'
)
WORKER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'worker.py')
SEEDS = ['0', '1', '2', '4711']


def ask(seed, text):
	environment = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE='1')
	result = subprocess.run([sys.executable, WORKER, seed], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=environment, timeout=300)
	if result.returncode != 0:
		raise RuntimeError(result.stderr.decode()[-2000:])
	return json.loads(result.stdout)


def difference(a, b, path=''):
	if type(a) is type(b) and isinstance(a, dict) and list(a) == list(b):
		for k in a:
			if a[k] != b[k]:
				return difference(a[k], b[k], f'{path}/{k}')
	if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
		for k, (x, y) in enumerate(zip(a, b)):
			if x != y:
				return difference(x, y, f'{path}/{k}')
	return path, a, b


def run(case, rec):
	text = json.dumps(case['batch']).encode()
	with ThreadPoolExecutor(len(SEEDS)) as pool:
		results = list(pool.map(lambda s: ask(s, text), SEEDS))
	for k, item in enumerate(case['batch']):
		if 'failed' in results[0][k]:
			raise Violation(f'graph {k} of the batch: {results[0][k]["failed"]}')
		for seed, result in zip(SEEDS[1:], results[1:]):
			if result[k] != results[0][k]:
				path, a, b = difference(results[0][k], result[k])
				raise Violation(f'{path} of graph {k} of the batch: {str(a)[:400]!r} with seed 0 but {str(b)[:400]!r} with seed {seed}')
	rec.nontrivial(any(len(r.get('itself', {}).get('nodes', [])) >= 2 for r in results[0]))
	for item in case['batch']:
		rec.label(*(k for k in item if k in ('graph', 'shape', 'program')))


item = st.one_of(
	st.fixed_dictionaries({'graph': styled_graphs(max_nodes=11, styles=('plain', 'weird', 'text', 'ints', 'alike')), 'other': styled_graphs(styles=('plain', 'text'))}),
	st.fixed_dictionaries({'shape': shapes(), 'other shape': shapes()}),
	st.fixed_dictionaries({'program': programs(max_ops=20)})
)
STREAMS = [Stream('batches', st.fixed_dictionaries({'batch': st.lists(item, min_size=1, max_size=12)}), 60, 900)]


def FIXED(tier):
	# of many sizes
	for stylist in ('random', 'pensieve'):
		batch = []
		for n in (1, 2, 3, 5, 8, 9, 13, 17, 24, 33) + ((50, 70, 101) if tier == 'thorough' else ()):
			for kind, edges in (('chain', [[i, i + 1] for i in range(n - 1)]), ('none', []), ('tree', [[i // 3, i] for i in range(1, n)]), ('loops', [[i, i ^ 1] for i in range(n - n % 2)])):
				shape = {'names': [f'n{(7 * i) % 1009}' for i in range(n)], 'kind': kind, 'via': 'names', 'remove_nodes': [], 'remove_edges': [], 'late': [], 'edges': edges, 'args': {'stylist': stylist}}
				batch.append({'shape': shape, 'other shape': dict(shape, edges=[])})
		for k in range(0, len(batch), 8):
			yield {'batch': batch[k:k + 8]}
