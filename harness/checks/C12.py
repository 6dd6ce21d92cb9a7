"""C12: filters"""
from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import joined, rewired, shapes
from styled import make, styled_graphs
from large import check_large, large_cases, large_graph, reach
from world import own_kind, World, build, check_state, fingerprint, ids, same_set

ID = 'C12'
RULE = (
	'A case is a graph (random shapes; large ones of up to 3,000 nodes, 10,000 when thorough; with or without settings, styles, payloads), a selection of nodes by name or object, a direction (default, to, '
	'from, to_and_from) and a type (default, include, exclude); the result is compared with the subgraph of the model induced by reachability, '
	'settings and payloads with the original, and the original with itself before. Some graphs change between filters. Non-trivial: something but not everything is left.'
)


def large(case, rec):
	g, m = large_graph(case)
	succ, pred = m.successors(), m.predecessors()
	n = case['n']
	for chosen, direction, kind in (
		([n // 2], None, None), ([n // 3, n - 1], 'to', 'include'), ([n // 2], 'from', 'include'), ([n - 2], 'to', 'exclude'), ([n - 3, 1], 'from', 'exclude')
	):
		keep = set(chosen)
		for x in chosen:
			keep |= (reach(x, pred) if direction != 'from' else set()) | (reach(x, succ) if direction != 'to' else set())
		expected = m.copy()
		expected.nodes = {x: p for x, p in m.nodes.items() if (x in keep) != (kind == 'exclude')}
		expected.edges = {e: p for e, p in m.edges.items() if e[0] in expected.nodes and e[1] in expected.nodes}
		kwargs = {k: x for k, x in (('direction', direction), ('filter_type', kind)) if x is not None}
		what = f'filter({chosen}, {kwargs}) of a {case["long"]} of {n} nodes'
		with sut(what):
			f = g.filter(nodes=chosen, **kwargs)
		check_large(f, expected, what)
	rec.nontrivial()
	rec.label(f'{case["long"]} of {n}')


def changed(case, rec):
	"""filters of a graph that changes between them"""
	world = World(case['program']['names'], case['program']['args'])
	count = [0]

	def ask(w):
		count[0] += 1
		names = list(w.m.nodes)
		succ, pred = w.m.successors(), w.m.predecessors()
		for select, direction, kind in case['asked']:
			chosen = sorted({names[i % len(names)] for i in select}, key=names.index) if names else []
			keep = set(chosen)
			for x in chosen:
				keep |= (reach(x, pred) if direction in (None, 'to', 'to_and_from') else set()) | (reach(x, succ) if direction in (None, 'from', 'to_and_from') else set())
			expected = w.m.copy()
			for n in names:
				if (n in keep) == (kind == 'exclude'):
					expected.remove_node(n)
			kwargs = {k: x for k, x in (('direction', direction), ('filter_type', kind)) if x is not None}
			what = f'filter({chosen}, {kwargs}) after {w.log}'
			with sut(what):
				f = w.g.filter(nodes=chosen, **kwargs)
			check_state(f, expected, what)

	world.run(case['program'], ask)
	rec.nontrivial(count[0] >= 2 and len(world.m.nodes) >= 2)


def FIXED(tier):
	yield from large_cases(tier)
	for k, shape in enumerate(joined(True)):
		for direction in ('to', 'from', 'to_and_from'):
			if shape['kind'] == 'alike':
				yield {'shape': shape, 'select': [k], 'direction': direction, 'type': None, 'by object': 5, 'omit': False, 'rendered': False}


def run(case, rec):
	if 'long' in case:
		return large(case, rec)
	if 'program' in case:
		return changed(case, rec)
	if 'shape' in case:
		g, m = build(case['shape'])
		ordered = case['shape']['via'] not in ('graph', 'add', 'dict', 'lists')
	else:
		g, m = make(case['graph'])
		ordered = True
	names = list(m.nodes)
	chosen = [names[i % len(names)] for i in case['select']] if names else []
	reach = m.closure()
	direction = case['direction']
	keep = set(chosen)
	for n in chosen:
		if direction in (None, 'to', 'to_and_from'):
			keep |= {x for x in names if n in reach[x]}
		if direction in (None, 'from', 'to_and_from'):
			keep |= set(reach[n])
	exclude = case['type'] == 'exclude'
	expected = m.copy()
	for n in names:
		if (n in keep) == exclude:
			expected.remove_node(n)
	with sut('asking the original'):
		if case['rendered']:
			g.render()
		before = fingerprint(g)
		text = g.get_graphviz_str()
		styles = {n.name: None if n.style is None else n.style.get_graphviz_str() for n in g.nodes}
		indices = {n.name: n.index for n in g.nodes}
		lines = {n.name: n.get_graphviz_str() for n in g.nodes}
		edge_lines = {e.id: e.get_graphviz_str() for e in g.edges}
	kwargs = {}
	if direction is not None:
		kwargs['direction'] = direction
	if case['type'] is not None:
		kwargs['filter_type'] = case['type']
	with sut(f'filter(nodes={chosen}, {kwargs})'):
		refs = [g.get_node(n) if case['by object'] >> k & 1 else own_kind(n) if k == 1 else n for k, n in enumerate(chosen)]
		if refs or not case['omit']:
			# nodes and names that are equal cannot be told apart in a set
			kwargs['nodes'] = tuple(refs) if case.get('form') == 'tuple' else set(chosen) if case.get('form') == 'set' else refs
		f = g.filter(**kwargs)
	what = f'filter({chosen}, direction={direction}, type={case["type"]})'
	if ordered:
		check_state(f, expected, what, absent=names)
	else:
		with sut(what):
			same(ids(f.nodes), list(expected.nodes), f'nodes left by {what}')
			same_set([e.id for e in f.edges], list(expected.edges), f'edges left by {what}')
	with sut('asking the result'):
		for n in f.nodes:
			same(n.get_graphviz_str(), lines[n.name], f'node {n} after {what}')
			same(n.index, indices[n.name], f'index of node {n} after {what}')
			check(n is not g.get_node(n.name), f'node {n} is shared after {what}')
		for e in f.edges:
			same(e.get_graphviz_str(), edge_lines[e.id], f'edge {e.id} after {what}')
		same(f.get_graphviz_header(), g.get_graphviz_header(), f'settings after {what}')
		f.render()
		if len(f.nodes) == 0:
			same(f.get_tree_str(), '', 'tree of an empty result')
		same(fingerprint(g), before, f'the original after {what}')
		same(g.get_graphviz_str(), text, f'text of the original after {what}')
	with raises('filtering with an absent name', KeyError):
		g.filter(nodes=['no such node'])
	rec.nontrivial(0 < len(expected.nodes) < len(m.nodes))
	rec.label(f'{direction} {case["type"]}')


common = {
	'select': st.one_of(st.lists(st.integers(0, 30), min_size=1, max_size=2), st.lists(st.integers(0, 30), max_size=4), st.integers(0, 30).map(lambda x: [x, x])), 'direction': st.sampled_from([None, 'to', 'from', 'to_and_from']),
	'type': st.sampled_from([None, 'include', 'exclude']), 'by object': st.sampled_from([0, 255, 5, 2]), 'omit': st.booleans(), 'form': st.sampled_from(['list', 'list', 'tuple', 'set']), 'rendered': st.booleans()
}
STREAMS = [
	Stream('shapes', st.fixed_dictionaries({'shape': st.one_of(shapes(), shapes(min_nodes=5)), **common}), 700, 8000),
	Stream('graphs with settings', st.fixed_dictionaries({'graph': styled_graphs(removals=True, min_nodes=2), **common}), 350, 3500),
	Stream('asked after changes', st.fixed_dictionaries({'program': rewired(payloads=True), 'asked': st.lists(st.tuples(
		st.lists(st.integers(0, 30), min_size=1, max_size=2), common['direction'], common['type']
	).map(list), min_size=1, max_size=3)}), 120, 1500),
	Stream('bigger', st.fixed_dictionaries({'shape': shapes(max_nodes=25, min_nodes=12), **common}), 60, 600)
]
