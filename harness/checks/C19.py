"""C19: random graphs"""
import random

from hypothesis import strategies as st

from core import Stream, check, same, sut
from styled import parse_dot
from world import check_state, fingerprint, ids, same_set, Model

ID = 'C19'
RULE = (
	'A case is the arguments of Graph.random (sizes, first index, probability inside and outside [0, 1], seed or none, cycle, strict, ordering) and a '
	'state of the global random generator; names, direction of edges, extremes of the probability, repeatability and independence of the global '
	'state are checked; in fixed cases the frequency of every edge and of every pair of edges over 300 seeds. Non-trivial: at least 3 nodes and a probability above 0.'
)


def run(case, rec):
	from abstract import Graph
	if 'frequencies' in case:
		return frequencies(case, rec)
	if 'seeds differ' in case:
		return differ(case, rec)
	if 'total' in case:
		return total(case, rec)
	kwargs = dict(case['arguments'])
	n = kwargs['num_nodes']
	first = kwargs.get('start_index', 1)
	p = kwargs.get('connection_probability', 0.5)
	cycle = kwargs.get('cycle', False)
	random.seed(case['global'])
	with sut(f'random({kwargs})'):
		g = Graph.random(**kwargs)
	names = [str(first + i) for i in range(n)]
	with sut('reading'):
		same(ids(g.nodes), names, f'nodes of random({kwargs})')
		edges = [e.id for e in g.edges]
	number = {name: first + i for i, name in enumerate(names)}
	check(len(set(edges)) == len(edges), 'an edge appears twice')
	for s, e, i in edges:
		check(s in number and e in number, f'edge {(s, e)} of random({kwargs})')
		if not cycle:
			check(number[s] < number[e], f'edge {(s, e)} of random({kwargs}) does not lead from a lower to a higher number')
	pairs = {(a, b) for a in names for b in names if cycle or number[a] < number[b]}
	if p <= 0:
		same(edges, [], f'edges of random({kwargs})')
	if p >= 1:
		same_set([e[:2] for e in edges], pairs, f'edges of random({kwargs})')
	m = Model()
	for name in names:
		m.add_node(name)
	by_start = {}
	for e in edges:
		by_start.setdefault(e[0], []).append(e)
	for name in names:
		for e in by_start.get(name, []):
			m.add_edge(*e)
	if n <= 8:
		with sut('reading'):
			same_set([e.id for node in g.nodes for e in node.inward_edges], edges, 'inward edges')
			same_set([e.id for node in g.nodes for e in node.outward_edges], edges, 'outward edges')
			if not cycle:
				same(g.loop_nodes, [], f'loops of random({kwargs})')
			by_hand = Graph(**{k: kwargs[k] for k in ('strict', 'ordering') if k in kwargs})
			for name in names:
				by_hand.add_node(name)
			for s, e, _ in edges:
				by_hand.connect(s, e)
			check(g.is_similar_to(by_hand) and by_hand.is_similar_to(g), f'random({kwargs}) is not similar to the same graph made by hand')
			by_hand = parse_dot(by_hand.get_graphviz_str())
			dot = parse_dot(g.render().source)
		same(dot.strict, bool(kwargs.get('strict', False)), 'strict')
		same(dot.attributes.get('ordering'), by_hand.attributes.get('ordering'), 'ordering')
	if kwargs.get('seed') is not None:
		random.seed(case['global'] + 1)
		random.random()
		with sut(f'random({kwargs}) again'):
			again = Graph.random(**kwargs)
			same(sorted(e.id for e in again.edges), sorted(edges), f'edges of random({kwargs}), made again')
			same(ids(again.nodes), names, f'nodes of random({kwargs}), made again')
	rec.nontrivial(n >= 3 and p > 0)
	rec.label('seed' if kwargs.get('seed') is not None else 'no seed', 'cycle' if cycle else 'no cycle', 'p<=0' if p <= 0 else 'p>=1' if p >= 1 else '0<p<1')


def differ(case, rec):
	"""every seed, also a large one, has a graph of its own"""
	from abstract import Graph
	seen = {}
	for seed in case['seeds differ']:
		with sut('random'):
			edges = frozenset(e.id for e in Graph.random(num_nodes=12, cycle=True, seed=seed).edges)
		check(edges not in seen, lambda: f'seeds {seed} and {seen[edges]} give the same graph of 12 nodes, in which there are 144 possible edges')
		seen[edges] = seed
	rec.nontrivial()
	rec.label('different seeds')


def total(case, rec):
	"""as many edges, over all seeds, as the probability says: 6 standard deviations either way"""
	from abstract import Graph
	n, p, cycle, seeds = case['total'], case['p'], case['cycle'], case['seeds']
	found = 0
	for seed in range(seeds):
		with sut('random'):
			found += len(list(Graph.random(num_nodes=n, connection_probability=p, cycle=cycle, seed=seed).edges))
	trials = seeds * (n * n if cycle else n * (n - 1) // 2)
	margin = 6 * (trials * p * (1 - p)) ** 0.5
	check(abs(found - trials * p) <= margin, f'{found} edges of {trials} possible ones with probability {p}')
	rec.nontrivial()
	rec.label('total')


def frequencies(case, rec):
	"""with probability p every possible edge appears in about p of the graphs: 6 standard deviations either way"""
	from abstract import Graph
	n, p, cycle, seeds = case['frequencies'], case['p'], case['cycle'], case['seeds']
	counts, together = {}, {}
	for seed in range(seeds):
		with sut('random'):
			g = Graph.random(num_nodes=n, connection_probability=p, cycle=cycle, seed=seed)
			found = sorted(e.id[:2] for e in g.edges)
		for i, e in enumerate(found):
			counts[e] = counts.get(e, 0) + 1
			for f in found[:i]:
				together[f, e] = together.get((f, e), 0) + 1
	possible = sorted((str(a), str(b)) for a in range(1, n + 1) for b in range(1, n + 1) if cycle or a < b)
	# one edge says nothing about another
	joint = 7 * (seeds * p * p * (1 - p * p)) ** 0.5 + 5
	for i, e in enumerate(possible):
		for f in possible[:i]:
			c = together.get((f, e), 0)
			check(abs(c - seeds * p * p) <= joint, f'edges {f} and {e} are both in {c} of {seeds} graphs with probability {p}')
	margin = 6 * (seeds * p * (1 - p)) ** 0.5
	for a in range(1, n + 1):
		for b in range(1, n + 1):
			c = counts.get((str(a), str(b)), 0)
			if cycle or a < b:
				check(abs(c - seeds * p) <= margin, f'edge {(a, b)} in {c} of {seeds} graphs with probability {p}')
			else:
				check(c == 0, f'edge {(a, b)} in {c} graphs')
	rec.nontrivial()
	rec.label('frequencies')


@st.composite
def cases(draw, min_nodes=0, max_nodes=10):
	arguments = {'num_nodes': draw(st.integers(min_nodes, max_nodes))}
	arguments.update(draw(st.fixed_dictionaries({}, optional={
		'strict': st.booleans(), 'cycle': st.booleans(), 'start_index': st.sampled_from([0, 1, 3, -4, 8, 98]), 'ordering': st.booleans(),
		'connection_probability': st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.1, 0.3, 0.5, 0.9, -1, 2, 1.5, -0.1, 1e-9, 1.0001, -1e-9]), st.floats(0, 1)),
		'seed': st.one_of(st.none(), st.integers(0, 1000), st.just(0))
	})))
	return {'arguments': arguments, 'global': draw(st.integers(0, 100))}


STREAMS = [Stream('arguments', cases(), 600, 6000), Stream('bigger', cases(min_nodes=11, max_nodes=60), 100, 1000)]


def FIXED(tier):
	for p in (0.2, 0.5, 0.8):
		for cycle in (False, True):
			yield {'frequencies': 5, 'p': p, 'cycle': cycle, 'seeds': 300}
	yield {'seeds differ': list(range(20)) + [100, 101, 256, 1000, 1001, 4096, 10 ** 6, 2 ** 16, 2 ** 16 + 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64, 2 ** 64 + 1]}
	# neither small nor large nor finely given probabilities are rounded
	for p in (0.03, 0.26, 0.49, 0.744, 0.96) if tier == 'quick' else (0.004, 0.012, 0.03, 0.13, 0.26, 0.49, 0.744, 0.87, 0.96, 0.991):
		yield {'total': 12, 'p': p, 'cycle': True, 'seeds': 150 if tier == 'quick' else 1000}
	for n in (30, 60) if tier == 'quick' else (20, 30, 40, 60, 80, 120):
		for cycle in (False, True):
			for p in (0.2, 0.6):
				yield {'total': n, 'p': p, 'cycle': cycle, 'seeds': 8 if n <= 40 else 2}
