"""C29: asking does not change anything"""
import warnings

from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import programs, shapes
from styled import big_case, make, styled_graphs
from world import World, build, check_state, fingerprint

ID = 'C29'
RULE = (
	'A case is a graph (with settings and styles, a shape, or the result of a history) and a sequence of queries about it, its nodes and edges, from '
	'a list of all public ones. Each is asked twice, and the list or dictionary it gives is emptied, reversed or added to in between; '
	'the answers are the same and the graph is what it was. Non-trivial: at least 2 nodes, an edge and 5 queries.'
)


def other_of(g):
	"""much the same graph, with styles and values for what has none"""
	h = g.copy()
	for i, x in enumerate(h.nodes + h.edges):
		if x.style is None:
			x.style = {'text_size': 31}
		if i % 2 and x.value is None and not x.is_frozen:
			x.value = 'other'
	h.add_node('only in the other', if_node_exists='ignore')
	return h


def similar_to_others(g):
	h, c = other_of(g), g.copy()
	result = [g.is_similar_to(h), h.is_similar_to(g), g.is_similar_to(c)]
	for n in g.nodes:
		for other in (h, c):
			result += [n.is_similar_to(other.get_node(n.name)), other.get_node(n.name).is_similar_to(n)]
			result += [e.is_similar_to(other.edges_dict[e.id]) for e in n.outward_edges]
	return result


# name: (graph, node, other node) -> something that can be changed without changing the graph
GRAPH = {
	'nodes': lambda g: g.nodes, 'edges': lambda g: g.edges, 'edges_dict': lambda g: g.edges_dict, 'roots': lambda g: g.roots,
	'absolute_roots': lambda g: g.absolute_roots, 'leaves': lambda g: g.leaves, 'loop_nodes': lambda g: g.loop_nodes,
	'get_tree_str': lambda g: g.get_tree_str(), 'get_graphviz_str': lambda g: g.get_graphviz_str(), 'node_styles': lambda g: g.node_styles,
	'edge_styles': lambda g: g.edge_styles, '__graph__': lambda g: g.__graph__(),
	'header': lambda g: g.get_graphviz_header(direction='BT'), 'source': lambda g: g.get_graphviz_source(pad=3).source, 'copy': lambda g: described(g.copy()),
	'add': lambda g: described(g.add(g, add_values_function=lambda x, y: x)), 'similar': lambda g: g.is_similar_to(g), 'pickle': lambda g: list(g.__getstate__()),
	'similar to others': lambda g: similar_to_others(g), 'sum with another': lambda g: [described(x.add(y, add_values_function=lambda a, b: a)) for x, y in ((g, other_of(g)), (other_of(g), g))],
	'converted': lambda g: described(type(g)(g)), 'in': lambda g: 'absent' in g, 'keys': lambda g: list(g.nodes_dict)
}
NODE = {
	'children': lambda n: n.children, 'parents': lambda n: n.parents, 'siblings': lambda n: n.siblings, 'co_parents': lambda n: n.co_parents,
	'ancestors': lambda n: n.ancestors, 'descendants': lambda n: n.descendants, 'outward_edges': lambda n: n.outward_edges,
	'inward_edges': lambda n: n.inward_edges, 'edges': lambda n: n.edges, 'outward_edge_ids': lambda n: n.outward_edge_ids,
	'inward_edge_ids': lambda n: n.inward_edge_ids, 'num_descendants': lambda n: n.num_descendants, 'is_in_loop': lambda n: n.is_in_loop(),
	'has_children': lambda n: n.has_children(), 'has_parents': lambda n: bool(n.has_parents()), 'tree': lambda n: n.get_tree_str(),
	'text': lambda n: n.get_graphviz_str(), 'str': lambda n: (str(n), repr(n)), 'label': lambda n: (n.label, n.display_label(), n.display_label_or_value()),
	'hash': lambda n: hash(n), 'compare': lambda n: [(n == x, n != x, n < x, n > x, n <= x, n >= x) for x in n.graph.nodes], 'similar': lambda n: n.is_similar_to(n), 'loop with itself': lambda n: n.is_in_loop_with(n), 'index': lambda n: n.index,
	'num_outward_edges': lambda n: n.num_outward_edges, 'style': lambda n: (n.has_style(), None if n.style is None else n.style.get_graphviz_str())
}
ABOUT = {
	'get_children': lambda g, n: g.get_children(n), 'get_parents': lambda g, n: g.get_parents(n), 'get_siblings': lambda g, n: g.get_siblings(n),
	'get_spouses': lambda g, n: g.get_spouses(n), 'get_ancestors': lambda g, n: g.get_ancestors(n), 'get_descendants': lambda g, n: g.get_descendants(n),
	'ancestors list': lambda g, n: g.get_ancestors(n, distance=False), 'descendants list': lambda g, n: g.get_descendants(n, distance=False),
	'get_outward_edges': lambda g, n: g.get_outward_edges(n), 'get_inward_edges': lambda g, n: g.get_inward_edges(n), 'get_edges': lambda g, n: g.get_edges(n),
	'numbers': lambda g, n: (g.num_children(n), g.num_parents(n), g.num_siblings(n), g.num_spouses(n)),
	'has': lambda g, n: (g.has_children(n), g.has_parents(n), g.has_siblings(n), g.has_spouses(n)), 'loop': lambda g, n: g.is_node_in_loop(n),
	'get_node': lambda g, n: g.get_node(n).name, 'get_node_name': lambda g, n: g.get_node_name(n), 'in': lambda g, n: n in g,
	'filter': lambda g, n: described(g.filter(nodes=[n])), 'filter out': lambda g, n: described(g.filter(nodes=[n], direction='to', filter_type='exclude'))
}
EDGE = {
	'is_in_loop': lambda e: e.is_in_loop(), 'text': lambda e: e.get_graphviz_str(), 'str': lambda e: (str(e), repr(e)), 'hash': lambda e: hash(e),
	'label': lambda e: (e.label, e.display_label_or_value()), 'ends': lambda e: (e.start.name, e.end.name, e.id, e.raw_id),
	'similar': lambda e: e.is_similar_to(e), 'style': lambda e: (e.has_style(), None if e.style is None else e.style.get_graphviz_str())
}
QUERIES = [('graph', k) for k in sorted(GRAPH)] + [('node', k) for k in sorted(NODE)] + [('about', k) for k in sorted(ABOUT)] + [('edge', k) for k in sorted(EDGE)]


LISTS = {
	'nodes', 'edges', 'roots', 'absolute_roots', 'leaves', 'loop_nodes', 'children', 'parents', 'siblings', 'co_parents', 'ancestors', 'descendants', 'outward_edges',
	'inward_edges', 'outward_edge_ids', 'inward_edge_ids', 'get_children', 'get_parents', 'get_siblings', 'get_spouses', 'ancestors list', 'descendants list',
	'get_outward_edges', 'get_inward_edges', 'get_edges'
}


def described(g):
	return [n.name for n in g.nodes], [e.id for e in g.edges]


def plain(x):
	"""an answer as something that does not change with it"""
	from abstract import Edge, Node
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	if isinstance(x, Node):
		return ('node', x.name, id(x))
	if isinstance(x, Edge):
		return ('edge', x.id, id(x))
	if isinstance(x, (NodeStyle, EdgeStyle)):
		return x.get_graphviz_str()
	if isinstance(x, dict):
		return [(plain(k), plain(v)) for k, v in x.items()]
	if isinstance(x, (list, tuple)):
		return [plain(y) for y in x]
	return repr(x)


def spoil(x, how):
	if isinstance(x, dict):
		for k, v in list(x.items()):
			# a value is the user's own object
			if k != 'value' and isinstance(v, (list, dict)):
				spoil(v, how)
		if how != 1:
			x.clear()
	elif isinstance(x, list):
		if how == 0:
			x.clear()
		elif how == 1:
			x.reverse()
		else:
			x.append('something else')


def run(case, rec):
	if 'graph' in case:
		g, m = make(case['graph'])
	elif 'program' in case:
		w = World(case['program']['names'], case['program'].get('args'))
		w.run(case['program'])
		g, m = w.g, w.m
	else:
		g, m = build(case['shape'])
	if case['rendered']:
		with sut('rendering'):
			g.render()
	with sut('describing'):
		before = fingerprint(g), g.get_graphviz_str(), g.get_tree_str()
	names = list(m.nodes)
	asked = 0
	for q, k, how in case['queries']:
		kind, name = QUERIES[q % len(QUERIES)]
		if (kind in ('node', 'about') and not names) or (kind == 'edge' and not m.edges):
			continue
		with sut(f'finding what to ask {kind} {name}'):
			if kind == 'graph':
				f = lambda: GRAPH[name](g)
			elif kind == 'edge':
				i = list(m.edges)[k % len(m.edges)]
				edge = g.edges_dict[i]
				f = lambda: EDGE[name](edge)
			else:
				node = g.get_node(names[k % len(names)])
				f = (lambda: NODE[name](node)) if kind == 'node' else (lambda: ABOUT[name](g, node if k % 2 else node.name))
		what = f'{kind} {name}'
		with warnings.catch_warnings(record=True) as caught:
			warnings.simplefilter('always')
			with sut(what):
				answer = f()
		check(not caught, lambda: f'{what} warned: {caught[0].message}')
		first = plain(answer)
		if name in LISTS:
			with sut(what + ' twice'):
				twin = f()
		check(name not in LISTS or isinstance(answer, list), lambda: f'{what} gave {answer!r}, which is no list')
		spoil(answer, how)
		if name in LISTS:
			same(plain(twin), first, f'another answer to {what} after one was changed')
		with sut(what + ' again'):
			same(plain(f()), first, f'the second answer to {what}')
		asked += 1
		rec.label(what)
		if case['often']:
			with sut('describing'):
				same(fingerprint(g), before[0], f'the graph after {what}')
	with sut('describing'):
		same((fingerprint(g), g.get_graphviz_str(), g.get_tree_str()), before, f'the graph after {case["queries"]}')
	if case.get('shape', {}).get('via') not in ('graph', 'add'):
		# (those list edges by start node)
		check_state(g, m, 'after all queries', payloads=False)
	rec.nontrivial(len(names) >= 2 and len(m.edges) >= 1 and asked >= 5)


queries = st.lists(st.tuples(st.integers(0, len(QUERIES) - 1), st.integers(0, 20), st.integers(0, 2)).map(list), min_size=8, max_size=25)
rest = {'queries': queries, 'rendered': st.booleans(), 'often': st.booleans()}
STREAMS = [
	Stream('settings', st.fixed_dictionaries({'graph': styled_graphs(removals=True), **rest}), 300, 4000),
	Stream('shapes', st.fixed_dictionaries({'shape': shapes(max_nodes=10), **rest}), 300, 4000),
	Stream('histories', st.fixed_dictionaries({'program': programs(max_ops=20), **rest}), 150, 2000),
]


def FIXED(tier):
	for how in range(3):
		yield {'graph': big_case(100 + how), 'queries': [[q, 37 * q, how] for q in range(len(QUERIES))], 'rendered': how == 1, 'often': False}
	# every query on a graph with loops, several edges between two nodes, and a node of its own
	shape = {
		'names': list('abcdefg'), 'kind': 'fixed', 'via': 'names', 'remove_nodes': [], 'remove_edges': [], 'late': [],
		'edges': [[0, 1], [1, 2], [2, 0], [2, 3], [3, 4], [3, 4], [4, 4], [0, 5], [5, 3]]
	}
	for how in range(3):
		for k in range(7):
			yield {'shape': shape, 'queries': [[q, k, how] for q in range(len(QUERIES))], 'rendered': how == 1, 'often': True}
