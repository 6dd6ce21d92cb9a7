"""C04: neighbours"""
from core import Stream, check, raises, same, sut
from gen import changing, exhaustive, joined, programs, shapes, rewired
from world import own_kind, World, build, ids, same_set

ID = 'C04'
RULE = (
	'A case is a graph: every directed graph of up to 3 nodes with self-loops (4 nodes when thorough), random shapes (sparse, dense, trees, chains, '
	'cycles, stars, parallel edges, self-loops; built in 12 ways and edited), and states reached by histories; parents, children, siblings, '
	'co-parents, spouses, counts, leaves, absolute roots and child ranks are compared with the edge list for every node and pair. '
	'Some histories are asked about after every step, some (asked after changes) after changes that leave the numbers of nodes and edges as they were. Non-trivial: some node has a sibling or a co-parent.'
)


def run(case, rec):
	if 'ops' in case:
		w = World(case['names'], case.get('args'))
		w.run(case, after_each=(lambda w: neighbours(w.g, w.m, rec)) if case.get('each') else None)
		g, m = w.g, w.m
	else:
		g, m = build(case)
	# a graph that was converted lists its edges by their starts, so they may arrive in another order
	neighbours(g, m, rec, ordered=case.get('via') not in ('graph', 'add'))


def truth(x, what):
	"""has_...() answers may be any value used as a condition"""
	return bool(x)


def neighbours(g, m, rec, ordered=True):
	interesting = False
	with sut('asking for neighbours'):
		order = {n: (g.get_node(n).index, n) for n in m.nodes}
		for name in m.nodes:
			node = g.get_node(name)
			parents, children = m.parents(name), m.children(name)
			siblings = {c for p in parents for c in m.children(p)} - {name}
			spouses = {p for c in children for p in m.parents(c)} - {name}
			interesting = interesting or siblings or spouses
			for ref in (name, node, own_kind(name)):
				same_set(ids(g.get_parents(ref)), parents, f'parents of {name!r}')
				if ordered:
					same(ids(g.get_parents(ref)), parents, f'parents of {name!r}')
				same(ids(g.get_children(ref)), children, f'children of {name!r}')
				same_set(ids(g.get_siblings(ref)), siblings, f'siblings of {name!r}')
				same_set(ids(g.get_spouses(ref)), spouses, f'spouses of {name!r}')
				same(g.num_parents(ref), len(parents), f'number of parents of {name!r}')
				same(g.num_children(ref), len(children), f'number of children of {name!r}')
				same(g.num_siblings(ref), len(siblings), f'number of siblings of {name!r}')
				same(g.num_spouses(ref), len(spouses), f'number of spouses of {name!r}')
				same(truth(g.has_parents(ref), 'has_parents'), bool(parents), f'has_parents of {name!r}')
				same(truth(g.has_children(ref), 'has_children'), bool(children), f'has_children of {name!r}')
				same(truth(g.has_siblings(ref), 'has_siblings'), bool(siblings), f'has_siblings of {name!r}')
				same(truth(g.has_spouses(ref), 'has_spouses'), bool(spouses), f'has_spouses of {name!r}')
			same_set(ids(node.parents), parents, f'parents of node {name!r}')
			if ordered:
				same(ids(node.parents), parents, f'parents of node {name!r}')
			same(ids(node.children), children, f'children of node {name!r}')
			same_set(ids(node.siblings), siblings, f'siblings of node {name!r}')
			same_set(ids(node.co_parents), spouses, f'co-parents of node {name!r}')
			same(bool(node.has_parents()), bool(parents), f'has_parents of node {name!r}')
			same(bool(node.has_children()), bool(children), f'has_children of node {name!r}')
			for found in (node.parents, node.children, node.siblings, node.co_parents):
				for other in found:
					check(other is g.get_node(other.name), lambda: f'{other!r}, found from {name!r}, is not the node of the graph')
			comparable = len({type(c) for c in children}) <= 1 or len({order[c][0] for c in children}) == len(set(children))
			if comparable:
				expected = {}
				for k, c in enumerate(sorted((order[c] for c in children))):
					expected.setdefault(c[1], k)
				for c in set(children):
					same(g.get_node(c).get_child_rank(node), expected[c], f'rank of {c!r} among the children of {name!r}')
			for other in m.nodes:
				if other not in children:
					with raises(f'child rank of {other!r}, not a child of {name!r}', ValueError):
						g.get_node(other).get_child_rank(node)
		same(ids(g.leaves), [n for n in m.nodes if not m.children(n)], 'leaves')
		same(ids(g.absolute_roots), [n for n in m.nodes if not m.parents(n)], 'absolute roots')
	rec.nontrivial(bool(interesting))
	rec.label(f'nodes {len(m.nodes)}')


STREAMS = [
	Stream('asked after every step', changing(), 120, 1500),
	Stream('asked after changes', rewired(), 150, 2000),
	Stream('shapes', shapes(), 500, 6000),
	Stream('histories', programs(max_ops=30, render=False, styles=('plain', 'digits', 'ints', 'mixed', 'weird', 'alike', 'big')), 250, 3000),
	Stream('bigger', shapes(max_nodes=25), 40, 400)
]


def extra(tier, seed):
	for n in (0, 1, 2, 3):
		for case in exhaustive(n, True, mixed=True):
			yield 'all graphs', case
	# families with many parents and children
	for k in (8, 12, 20, 50):
		for edges in (
			[(i, k + j) for i in range(k) for j in range(2)], [(i, k + j) for i in range(2) for j in range(k)], [(i, k + i) for i in range(k)] + [(i, 2 * k) for i in range(k)],
			[(2 * k, k + i) for i in range(k)] + [(i, k + i) for i in range(k)]
		):
			yield 'large families', {
				'names': [f'n{i}' for i in range(2 * k + 1)], 'kind': 'large family', 'via': 'names', 'remove_nodes': [], 'remove_edges': [], 'late': [],
				'edges': [list(e) for e in edges]
			}
	for case in joined(True):
		yield 'names put together', case
	if tier == 'thorough':
		for case in exhaustive(4, False, mixed=True):
			yield 'all graphs', case
