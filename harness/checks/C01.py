"""C01: the graph is what its history of operations leaves"""
from core import Stream, sut, raises, check
from gen import joined_programs, programs
from large import check_large, large_cases, large_graph
from world import World, check_state

ID = 'C01'
RULE = (
	'A case is a pool of names and a history of up to 40 operations (add by name, Node/Edge constructors, connect in six ways, remove nodes and '
	'edges in several ways, add removed nodes back, change labels/values/parameters, copy, pickle, render, duplicates under every policy), applied '
	'to the graph and to a dictionary model; every public view is compared with the model during and after it; '
	'also large graphs of 8 kinds of up to 3,000 nodes (10,000 when thorough) with 160 operations on them. '
	'Non-trivial: at least 3 nodes or edges were added and something was removed, duplicated, re-added or copied.'
)


def run(case, rec):
	if 'long' in case:
		return large(case, rec)
	w = World(case['names'], case.get('args'))
	few = len(case['ops']) <= 12
	step = [0]

	def after_each(w):
		step[0] += 1
		if few or step[0] % 5 == 0:
			check_state(w.g, w.m, f'after step {step[0]}', payloads=False)

	w.run(case, after_each)
	check_state(w.g, w.m, 'at the end', absent=[w.names[0], 'no such node', 987654] + [name for _, name, _ in w.removed])
	for name in w.names + ['no such node', 987654]:
		if name not in w.m.nodes:
			with raises(f'get_node of the absent {name!r}', KeyError):
				w.g.get_node(name)
	for node, name, _ in w.removed:
		with sut('asking for a removed node'):
			check(node.graph is None, f'the removed node {name!r} has a graph')
			check((name in w.g) == (name in w.m.nodes), f'{name!r} in graph')
	rec.label(*w.counts)
	rec.label(f'nodes {min(len(w.m.nodes) // 4 * 4, 12)}+', f'edges {min(len(w.m.edges) // 5 * 5, 25)}+')
	rec.nontrivial(len(w.m.nodes) + len(w.m.edges) >= 3 and len(w.counts) >= 1)


def large(case, rec):
	"""thousands of nodes, a part of which is removed and added again"""
	g, m = large_graph(case)
	check_large(g, m, 'a large graph')
	w = World(list(m.nodes))
	w.g, w.m = g, m
	n = case['n']
	for k in range(40):
		w.apply(['rm', 7 * k * k + k, k])
		w.apply(['rmedge', 13 * k * k + 5, k])
		if k % 3 == 0:
			w.apply(['readd', k])
		w.apply(['conn', 11 * k, 17 * k + 1, None, {}, {}, 'ignore', k % 6])
	check_large(g, m, 'a large graph after 160 operations')
	for _ in range(2 * n + 10 if n < 1000 else 0):
		# until nothing is left
		w.apply(['rm', 3, 0])
	check_large(g, m, 'a large graph after removing nearly all')
	rec.nontrivial()
	rec.label(f'{case["long"]} of {n}')


def FIXED(tier):
	yield from large_cases(tier)
	yield from joined_programs()
	# many edges between few nodes
	for n in (40, 110):
		yield {'names': ['a', 'b'], 'first': 2, 'ops': [['conn', k % 2, k // 2 % 2, k, {'value': k}, {}, 'error', k % 6] for k in range(n)] + [['rmedge', 7 * k, k] for k in range(n // 2)]}


STREAMS = [
	Stream('histories', programs(), 1200, 12000),
	Stream('long histories', programs(max_ops=120, max_names=20, min_ops=30), 120, 2500),
]
