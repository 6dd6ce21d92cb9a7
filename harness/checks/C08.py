"""C08: roots"""
from core import Stream, check, same, sut
from gen import changing, exhaustive, joined, programs, shapes, rewired
from large import components, large_cases, large_graph
from world import World, build, ids, same_set

ID = 'C08'
RULE = (
	'A case is a graph (every directed graph of up to 3 nodes with self-loops, 4 when thorough; random shapes built in 12 ways and edited; '
	'histories; large graphs of 8 kinds of up to 3,000 nodes, 10,000 when thorough); the roots are compared with the earliest added node of every group of mutually reachable nodes with no edge into it, and are '
	'required to reach everything. Some histories are asked about after every step, some (asked after changes) after changes that leave the numbers of nodes and edges as they were. Non-trivial: some root is in a loop, or there are two roots and other nodes.'
)


def run(case, rec):
	if 'long' in case:
		return large(case, rec)
	if 'ops' in case:
		w = World(case['names'], case.get('args'))
		w.run(case, after_each=(lambda w: roots(w.g, w.m, rec)) if case.get('each') else None)
		g, m = w.g, w.m
	else:
		g, m = build(case)
	roots(g, m, rec)


def large(case, rec):
	g, m = large_graph(case)
	group = components(m)
	entered = {group[e] for s, e, _ in m.edges if group[s] != group[e]}
	expected, seen = [], set()
	for x in m.nodes:
		if group[x] not in entered and group[x] not in seen:
			seen.add(group[x])
			expected.append(x)
	with sut(f'asking for roots of a {case["long"]} of {case["n"]} nodes'):
		same(ids(g.roots), expected, 'roots')
	rec.nontrivial()
	rec.label(f'{case["long"]} of {case["n"]}')


def FIXED(tier):
	# the other way round every node is a possible root for long
	yield from large_cases(tier, orders=(False,))
	yield from large_cases('quick', quick=200, small=40, orders=(True,))


def roots(g, m, rec):
	reach = m.closure()
	expected = []
	for n in m.nodes:
		above = [x for x in m.nodes if n in reach[x] and x != n]
		if all(x in reach[n] for x in above) and not any(x in expected for x in above):
			expected.append(n)
	with sut('asking for roots'):
		found = ids(g.roots)
		same(found, expected, 'roots')
		covered = set(found)
		for r in found:
			covered |= set(ids(g.get_node(r).descendants))
		same_set(covered, list(m.nodes), 'nodes that the roots lead to')
		for node in g.roots:
			check(node is g.get_node(node.name), 'a root is not the node of the graph')
	rec.nontrivial(any(n in reach[n] for n in expected) or 2 <= len(expected) < len(m.nodes))
	rec.label(f'roots {min(len(expected), 4)}', 'root in loop' if any(n in reach[n] for n in expected) else 'no root in loop')


STREAMS = [
	Stream('asked after every step', changing(), 120, 1500),
	Stream('asked after changes', rewired(), 150, 2000),
	Stream('shapes', shapes(), 800, 8000),
	Stream('histories', programs(max_ops=30, render=False), 300, 3000),
	Stream('bigger', shapes(max_nodes=30), 80, 800)
]


def extra(tier, seed):
	for n in (0, 1, 2, 3):
		for case in exhaustive(n, True, mixed=True):
			yield 'all graphs', case
	for case in joined(True):
		yield 'names put together', case
	if tier == 'thorough':
		for case in exhaustive(4, False, mixed=True):
			yield 'all graphs', case
