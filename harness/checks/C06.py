"""C06: distances to relatives are shortest"""
from core import Stream, check, same, sut
from gen import changing, exhaustive, joined, programs, shapes, rewired
from large import large_cases, large_graph, some_nodes
from world import World, build, ids, same_set

ID = 'C06'
RULE = (
	'A case is a graph (every directed graph of up to 3 nodes with self-loops, 4 when thorough; random shapes built in 12 ways and edited; '
	'histories; large graphs of 8 kinds of up to 3,000 nodes, 10,000 when thorough); for every node the relatives grouped by distance are compared with breadth-first distances over the '
	'edge list, each exactly once, without empty groups. Some histories are asked about after every step, some (asked after changes) after changes that leave the numbers of nodes and edges as they were. Non-trivial: some node is reached by two walks of different lengths.'
)


def run(case, rec):
	if 'long' in case:
		g, m = large_graph(case)
		rec.label(f'{case["long"]} of {case["n"]}')
		return distances(g, m, rec, some_nodes(case['n']))
	if 'ops' in case:
		w = World(case['names'], case.get('args'))
		w.run(case, after_each=(lambda w: distances(w.g, w.m, rec)) if case.get('each') else None)
		g, m = w.g, w.m
	else:
		g, m = build(case)
	distances(g, m, rec)


def grouped(d):
	result = {}
	for name, k in d.items():
		result.setdefault(k, []).append(name)
	return result


def distances(g, m, rec, only=None):
	succ, pred = m.successors(), m.predecessors()
	with sut('asking for relatives by distance'):
		for name in m.nodes if only is None else only:
			node = g.get_node(name)
			up = m.distances(pred, name)  # a node in a loop is its own ancestor
			down = m.distances(succ, name)
			rec.label(f'depth {min(max(list(down.values()) + [0]), 6)}')
			ambiguous = any(abs(down[x] - down[y]) != 1 and y != name for x in down if x != name for y in succ[x])
			rec.nontrivial(ambiguous)
			down.pop(name, None)
			for what, found, wanted in [
				('ancestors', g.get_ancestors(name), up), ('ancestors', g.get_ancestors(node, distance=True), up),
				('descendants', g.get_descendants(name), down), ('descendants', g.get_descendants(node, distance=True), down)
			]:
				wanted = grouped(wanted)
				same_set(list(found), list(wanted), f'distances of {what} of {name!r}')
				for k in wanted:
					same_set(ids(found[k]), wanted[k], f'{what} of {name!r} at distance {k}')


STREAMS = [
	Stream('asked after every step', changing(), 120, 1500),
	Stream('asked after changes', rewired(), 150, 2000),
	Stream('shapes', shapes(), 600, 7000),
	Stream('histories', programs(max_ops=30, render=False), 200, 2500),
	Stream('bigger', shapes(max_nodes=25), 80, 800)
]


def FIXED(tier):
	for n in [150, 400] if tier == 'quick' else [150, 400, 900]:
		names = [f'n{i}' for i in range(n)]
		base = {'names': names, 'via': 'names'}
		yield dict(base, kind='chain', edges=[[i, i + 1] for i in range(n - 1)])
		yield dict(base, kind='cycle', edges=[[i, (i + 1) % n] for i in range(n)][::-1])
	yield from large_cases(tier)


def extra(tier, seed):
	for n in (0, 1, 2, 3):
		for case in exhaustive(n, True, mixed=True):
			yield 'all graphs', case
	for case in joined(True):
		yield 'names put together', case
	if tier == 'thorough':
		for case in exhaustive(4, False, mixed=True):
			yield 'all graphs', case
