"""C28: comparing and hashing nodes and edges"""
import itertools

from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import programs
from world import World

ID = 'C28'
RULE = (
	'A case is the result of a history (nodes and edges added, removed, added again, constructed directly, copied, pickled; names of different types '
	'included) during which no hash of a node or edge may change; all pairs and triples of its nodes and pairs of its edges are compared: equality, inequality, order and hash agree with name and order '
	'of insertion, within the graph and with a copy, and other types are refused. Non-trivial: at least 3 nodes or 2 edges.'
)


def run(case, rec):
	w = World(case['program']['names'], case['program'].get('args'))
	hashes, edge_hashes = {}, {}

	def watch(world):
		# also those that were removed, put aside or belong to a graph that was copied
		with sut('hashing'):
			for node in world.g.nodes:
				hashes.setdefault(id(node), (node, hash(node)))
			for node, before in hashes.values():
				same(hash(node), before, f'hash of {node!r} later')
			for edge in world.g.edges:
				edge_hashes.setdefault(id(edge), (edge, hash(edge)))
			for edge, before in edge_hashes.values():
				# a removed edge has no ends, which its hash is made of
				if edge.graph is not None:
					same(hash(edge), before, f'hash of {edge!r} later')

	w.run(case['program'], after_each=watch)
	g, m = w.g, w.m
	with sut('copying'):
		twin = g.copy()
		nodes, edges = g.nodes, g.edges
	names = list(m.nodes)
	with sut('comparing nodes'):
		for (i, a), (j, b) in itertools.product(enumerate(nodes), repeat=2):
			what = f'{a!r} and {b!r}'
			equal = i == j
			check((a == b) is equal, f'{what}: == is {a == b}')
			check((a != b) is not equal, f'{what}: != is {a != b}')
			less = a < b
			check(sum([less, a > b, a == b]) == 1, f'{what}: not exactly one of <, > and ==')
			check((a <= b) == (less or equal), f'{what}: <= does not agree with < and ==')
			check((a >= b) == (not less), f'{what}: >= does not agree with <')
			check((b > a) == less and (b >= a) == (a <= b), f'{what}: the order depends on the side')
			# added one after the other; those that were constructed directly have no place in the order
			if a.index != b.index:
				check(less == (a.index < b.index), f'{what}: the order is not that of the indices')
		for a, b in zip(nodes, twin.nodes):
			check((a == b) is True and (a != b) is False and hash(a) == hash(b), f'{a!r} and its copy: not equal or another hash')
			check(not a < b and not a > b and a <= b and a >= b, f'{a!r} and its copy are not at the same place')
		for a, b, c in itertools.islice(itertools.permutations(nodes, 3), 400):
			check(not (a < b and b < c) or a < c, f'{a!r} < {b!r} < {c!r} but not {a!r} < {c!r}')
		ordered = sorted(nodes)
		same([n.name for n in sorted(reversed(nodes))], [n.name for n in ordered], 'names sorted from another order')
		same(len(set(nodes)), len(nodes), 'size of the set of nodes')
		same(len({n: 1 for n in nodes + twin.nodes}), len(nodes), 'size of the set of nodes and their copies')
		if 'ctor' not in [op[0] for op in w.log] and 'readd' not in [op[0] for op in w.log]:
			same([n.name for n in ordered], names, 'sorted nodes')
	with sut('comparing edges'):
		for a, b in itertools.product(edges, repeat=2):
			equal = a.id == b.id
			what = f'{a.id} and {b.id}'
			check((a == b) is equal, f'{what}: == is {a == b}')
			check((a != b) is not equal, f'{what}: != is {a != b}')
			check(not equal or hash(a) == hash(b), f'{what}: equal but with different hashes')
			check(equal == (a is b), f'{what}: the same edge twice')
		same(len(set(edges)), len(edges), 'size of the set of edges')
		again = g.edges
		for a, b in zip(edges, again):
			check(a == b and hash(a) == hash(b), f'{a.id}: not equal to itself when asked again')
	strangers = [5, 'a', None, 2.5, [], ('a', 'b', None)]
	if nodes:
		node = nodes[case['k'] % len(nodes)]
		for x in strangers + edges[:1]:
			with raises(f'{node!r} == {x!r}', TypeError):
				node == x
			with raises(f'{node!r} != {x!r}', TypeError):
				node != x
			with raises(f'{node!r} < {x!r}', TypeError, AttributeError):
				node < x
	if edges:
		edge = edges[case['k'] % len(edges)]
		for x in strangers + nodes[:1]:
			with raises(f'{edge!r} == {x!r}', TypeError):
				edge == x
			with raises(f'{edge!r} != {x!r}', TypeError):
				edge != x
		with sut('edges of the copy'):
			other = twin.edges[0]
		with raises('comparing edges of two graphs', ValueError):
			edge == other
		with raises('comparing edges of two graphs', ValueError):
			edge != other
	rec.nontrivial(len(nodes) >= 3 or len(edges) >= 2)
	rec.label(*w.counts)


CASE = st.fixed_dictionaries({'program': programs(max_ops=25, max_names=8), 'k': st.integers(0, 20)})
STREAMS = [
	Stream('histories', CASE, 500, 7000),
	Stream('mixed names', st.fixed_dictionaries({'program': programs(max_ops=20, max_names=8, styles=('mixed',)), 'k': st.integers(0, 20)}), 200, 2500)
]


def FIXED(tier):
	for n in (40, 150):
		ops = [['conn', k, k + 1, None, {}, {}, 'ignore', 0] for k in range(n - 1)] + [['conn', 0, k, 'fan', {}, {}, 'ignore', 0] for k in range(1, n, 4)]
		for more in ([], [['rm', n // 2, 0], ['add', n // 2, {}, {}, None], ['copy']]):
			yield {'program': {'names': [f'n{k}' for k in range(n)], 'first': n, 'ops': ops + more}, 'k': n - 1}
