"""C07: loops"""
from collections import Counter

from core import Stream, check, same, sut
from gen import changing, exhaustive, joined, programs, shapes, rewired
from large import components, large_cases, large_graph, some_nodes
from world import World, build, ids, same_set

ID = 'C07'
RULE = (
	'A case is a graph (every directed graph of up to 3 nodes with self-loops, 4 when thorough; random shapes with cycles, joined cycles, '
	'lollipops, self-loops, built in 12 ways and edited; histories; large graphs of 8 kinds of up to 3,000 nodes, 10,000 when thorough); loop questions about every node, pair of nodes and edge, by name and by '
	'node, are compared with mutual reachability in the edge list. Some histories are asked about after every step, some (asked after changes) after changes that leave the numbers of nodes and edges as they were. Non-trivial: some but not all nodes are in loops.'
)


def run(case, rec):
	if 'long' in case:
		return large(case, rec)
	if 'ops' in case:
		w = World(case['names'], case.get('args'))
		w.run(case, after_each=(lambda w: loops(w.g, w.m, rec)) if case.get('each') else None)
		g, m = w.g, w.m
	else:
		g, m = build(case)
	loops(g, m, rec)


def large(case, rec):
	g, m = large_graph(case)
	group, succ = components(m), m.successors()
	sizes = Counter(group.values())

	def in_loop(x):
		return sizes[group[x]] > 1 or x in succ[x]

	nodes = some_nodes(case['n'])
	with sut(f'asking about loops of a {case["long"]} of {case["n"]} nodes'):
		for a in nodes:
			node = g.get_node(a)
			same(bool(node.is_in_loop()), in_loop(a), f'is_in_loop of {a}')
			same(bool(g.is_node_in_loop(a)), in_loop(a), f'is_node_in_loop of {a}')
			for b in nodes:
				together = group[a] == group[b] and (a != b or in_loop(a))
				same(bool(node.is_in_loop_with(b)), together, f'is_in_loop_with of {a} and {b}')
				same(bool(g.are_nodes_in_same_loop(a, b)), together, f'are_nodes_in_same_loop of {a} and {b}')
			for e in node.outward_edges[:4]:
				s, t, _ = e.id
				same(bool(e.is_in_loop()), group[s] == group[t] and (s != t or in_loop(s)), f'is_in_loop of edge {e.id}')
		if case['n'] <= 100 or case['n'] <= 300 and case['long'] in ('chain', 'far loops'):
			same(ids(g.loop_nodes), [x for x in m.nodes if in_loop(x)], 'nodes in loops')
	rec.nontrivial(0 < sum(map(in_loop, m.nodes)) < len(m.nodes))
	rec.label(f'{case["long"]} of {case["n"]}')


def FIXED(tier):
	yield from large_cases(tier)


def loops(g, m, rec):
	reach = m.closure()
	in_loop = [n for n in m.nodes if n in reach[n]]
	with sut('asking about loops'):
		same(ids(g.loop_nodes), in_loop, 'nodes in loops')
		for a in m.nodes:
			node = g.get_node(a)
			expected = a in reach[a]
			for what, found in [
				('is_in_loop', node.is_in_loop()), ('is_node_in_loop(name)', g.is_node_in_loop(a)), ('is_node_in_loop(node)', g.is_node_in_loop(node))
			]:
				same(bool(found), expected, f'{what} of {a!r}')
			for b in m.nodes:
				expected = b in reach[a] and a in reach[b]
				other = g.get_node(b)
				for what, found in [
					('is_in_loop_with(name)', node.is_in_loop_with(b)), ('is_in_loop_with(other=node)', node.is_in_loop_with(other=other)),
					('are_nodes_in_same_loop(names)', g.are_nodes_in_same_loop(a, b)), ('are_nodes_in_same_loop(nodes)', g.are_nodes_in_same_loop(node, other)),
				]:
					same(bool(found), expected, f'{what} of {a!r} and {b!r}')
		for e in g.edges:
			s, t, _ = e.id
			same(bool(e.is_in_loop()), s in reach[t], f'is_in_loop of edge {e.id}')
	rec.nontrivial(0 < len(in_loop) < len(m.nodes))
	groups = {tuple(sorted(repr(x) for x in m.nodes if x in reach[n] and n in reach[x])) for n in in_loop}
	rec.label(f'{len(groups)} loops', 'self-loop' if any(s == t for s, t, _ in m.edges) else 'no self-loop')


STREAMS = [
	Stream('asked after every step', changing(), 120, 1500),
	Stream('asked after changes', rewired(), 150, 2000),
	Stream('shapes', shapes(max_nodes=10), 600, 7000),
	Stream('histories', programs(max_ops=30, max_names=8, render=False), 200, 2500),
	Stream('bigger', shapes(max_nodes=20), 40, 400)
]


def extra(tier, seed):
	for n in (0, 1, 2, 3):
		for case in exhaustive(n, True, mixed=True):
			yield 'all graphs', case
	for case in joined(True):
		yield 'names put together', case
	if tier == 'thorough':
		for case in exhaustive(4, False, mixed=True):
			yield 'all graphs', case
