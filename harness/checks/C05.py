"""C05: ancestors and descendants are reachability"""
from core import Stream, check, same, sut
from gen import changing, exhaustive, joined, programs, shapes, rewired
from large import large_cases, large_graph, reach, some_nodes
from world import own_kind, World, build, ids, same_set

ID = 'C05'
RULE = (
	'A case is a graph: every directed graph of up to 3 nodes with self-loops (4 when thorough), random shapes built in 12 ways and edited, '
	'histories, and large graphs of 8 kinds (chains, loops, combs, layers) of up to 3,000 nodes (10,000 when thorough); ancestors and descendants of every node (of both forms) are compared '
	'with a transitive closure of the edge list. Some histories are asked about after every step, some (asked after changes) after changes that leave the numbers of nodes and edges as they were. Non-trivial: some node has a descendant that is not its child.'
)


def run(case, rec):
	if 'long' in case:
		return run_long(case, rec)
	if 'ops' in case:
		w = World(case['names'], case.get('args'))
		w.run(case, after_each=(lambda w: relatives(w.g, w.m, rec)) if case.get('each') else None)
		g, m = w.g, w.m
	else:
		g, m = build(case)
	relatives(g, m, rec)


def relatives(g, m, rec, whole=True):
	down = m.closure()
	up = {n: {x for x in m.nodes if n in down[x]} for n in m.nodes}
	succ = m.successors()
	with sut('asking for relatives'):
		for name in m.nodes:
			node = g.get_node(name)
			ancestors = up[name]  # a node in a loop is its own ancestor
			descendants = set(down[name]) - {name}
			for what, found, wanted in [
				('ancestors', node.ancestors, ancestors),
				('ancestors (graph)', g.get_ancestors(name, distance=False), ancestors),
				('ancestors (graph, node)', g.get_ancestors(node=node, distance=False), ancestors),
				('descendants', node.descendants, descendants),
				('descendants (graph)', g.get_descendants(name, distance=False), descendants),
				('descendants (graph, node)', g.get_descendants(node=node, distance=False), descendants)
			]:
				same_set(ids(found), wanted, f'{what} of {name!r}')
				for x in found:
					check(x is g.get_node(x.name), lambda: f'{what} of {name!r} has {x!r}, not the node of the graph')
			same(node.num_descendants, len(descendants), f'number of descendants of {name!r}')
			for what, found, wanted in [
				('ancestors by distance', g.get_ancestors(own_kind(name)), ancestors), ('descendants by distance', g.get_descendants(node), descendants)
			]:
				same_set([x.name for xs in found.values() for x in xs], wanted, f'{what} of {name!r}')
			rec.nontrivial(any(d not in succ[name] for d in descendants))
	rec.label(f'nodes {min(len(m.nodes) // 3 * 3, 15)}+')


def run_long(case, rec):
	g, m = large_graph(case)
	succ, pred = m.successors(), m.predecessors()
	for i in some_nodes(case['n']):
		with sut(f'relatives of node {i} of a {case["long"]} of {case["n"]} nodes'):
			node = g.get_node(i)
			down, up = reach(i, succ) - {i}, reach(i, pred)
			same_set(ids(node.descendants), down, f'descendants of {i}')
			same_set(ids(node.ancestors), up, f'ancestors of {i}')
			same(node.num_descendants, len(down), 'number of descendants')
			same_set([x.name for xs in g.get_descendants(i).values() for x in xs], down, 'descendants by distance')
			same_set([x.name for xs in g.get_ancestors(i).values() for x in xs], up, 'ancestors by distance')
	rec.nontrivial()
	rec.label(f'{case["long"]} of {case["n"]}')


def FIXED(tier):
	yield from large_cases(tier)


STREAMS = [
	Stream('asked after every step', changing(), 120, 1500),
	Stream('asked after changes', rewired(), 150, 2000),
	Stream('shapes', shapes(), 500, 6000),
	Stream('histories', programs(max_ops=30, render=False), 200, 2500),
	Stream('bigger', shapes(max_nodes=25), 60, 600)
]


def extra(tier, seed):
	for n in (0, 1, 2, 3):
		for case in exhaustive(n, True, mixed=True):
			yield 'all graphs', case
	for case in joined(True):
		yield 'names put together', case
	if tier == 'thorough':
		for case in exhaustive(4, False, mixed=True):
			yield 'all graphs', case
