"""C23: any graph can be rendered"""
from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import exhaustive, joined, programs, shapes
from styled import big_case, make, parse_dot, styled_graphs
from world import World, build, check_state

ID = 'C23'
RULE = (
	'A case is a graph (every graph of up to 3 nodes; loops, loops led into, ladders, dense graphs, long chains in both orders; results of histories '
	'with renders in between; graphs with settings, styles and overrides) rendered with both stylists, then rendered again, then edited and rendered '
	'again. Oracle: no exception within the limit of CPU time, everything is styled, the same text again and for an equally built graph, nothing but '
	'styles changes, and what was shown before keeps its look when the graph grows. Non-trivial: at least one edge.'
)

STYLED = {'color', 'fillcolor', 'fontname', 'fontcolor', 'fontsize', 'shape', 'style'}
EDGE_STYLED = {'color', 'fontname', 'fontcolor', 'fontsize', 'arrowsize', 'penwidth'}


def look(g, m, what):
	with sut(f'rendering {what}'):
		text = g.render().source
	dot = parse_dot(text, what)
	same(len(dot.nodes), len(m.nodes), f'number of nodes in the text of {what}')
	same(len(dot.edges), len(m.edges), f'number of edges in the text of {what}')
	for name, attributes in dot.nodes:
		missing = STYLED - set(attributes)
		check(not missing, lambda: f'node {name!r} of {what} has no {sorted(missing)}')
	for t, h, attributes in dot.edges:
		missing = EDGE_STYLED - set(attributes)
		check(not missing, lambda: f'edge {t!r} -> {h!r} of {what} has no {sorted(missing)}')
	with sut(f'styles of {what}'):
		for node in g.nodes:
			check(node.has_style() and node.style is not None, f'node {node.name!r} of {what} has no style after rendering')
		for edge in g.edges:
			check(edge.has_style() and edge.style is not None, f'edge {edge.id} of {what} has no style after rendering')
		same(list(g.node_styles), list(m.nodes), f'names of node_styles of {what}')
		same(len(g.edge_styles), len(m.edges), f'number of edge_styles of {what}')
	with sut(f'rendering {what} again'):
		same(g.render().source, text, f'second text of {what}')
	return text, dot


def construct(case):
	if 'graph' in case:
		return make(case['graph'])
	elif 'program' in case:
		w = World(case['program']['names'], case['program'].get('args'), stylist=case['stylist'])
		w.run(case['program'])
		return w.g, w.m
	elif 'shape' in case:
		return build(case['shape'], stylist=case['stylist']) if case['shape']['via'] in ('names', 'nodes', 'ctor') else build(case['shape'])
	return big(case)


def big(case):
	from abstract import Graph
	from world import Model
	n = case['n']
	kind = case['big']
	if kind == 'chain':
		names, edges = [f'n{i}' for i in range(n)], [(i, i + 1) for i in range(n - 1)]
	elif kind == 'reversed chain':
		names, edges = [f'n{i}' for i in range(n)], [(i + 1, i) for i in range(n - 1)]
	elif kind == 'ladder':
		names = [f'n{i}' for i in range(2 * n)]
		edges = [(2 * i + a, 2 * i + 2 + b) for i in range(n - 1) for a in (0, 1) for b in (0, 1)]
	elif kind == 'reversed ladder':
		names = [f'n{i}' for i in range(2 * n)]
		edges = [(2 * i + 2 + b, 2 * i + a) for i in range(n - 1) for a in (0, 1) for b in (0, 1)]
	elif kind == 'complete dag':
		names, edges = [f'n{i}' for i in range(n)], [(i, j) for i in range(n) for j in range(i + 1, n)]
	elif kind == 'complete':
		names, edges = [f'n{i}' for i in range(n)], [(i, j) for i in range(n) for j in range(n)]
	elif kind == 'loop with tail':
		names = [f'n{i}' for i in range(n)]
		edges = [(i, i + 1) for i in range(n - 1)] + [(n // 2, 0)]
	elif kind == 'star':
		names, edges = [f'n{i}' for i in range(n)], [(0, i) for i in range(1, n)]
	elif kind == 'inward star':
		names, edges = [f'n{i}' for i in range(n)], [(i, 0) for i in range(1, n)]
	elif kind == 'nothing':
		names, edges = [f'n{i}' for i in range(n)], []
	m = Model()
	settings = case.get('settings', {})
	with sut(f'building {kind}'):
		g = Graph(stylist=case['stylist'], **settings)
		for x in names:
			g.add_node(x)
			m.add_node(x)
		for a, b in edges:
			g.connect(names[a], names[b])
			m.add_edge(names[a], names[b])
	return g, m


def run(case, rec):
	g, m = construct(case)
	if case.get('copied'):
		with sut('copying'):
			g = g.copy()
	if 'graph' in case:
		settings = case['graph']['settings']
	else:
		settings = case.get('settings') or (case.get('program') or case.get('shape') or {}).get('args') or {}
	text, dot = look(g, m, 'the graph')
	large = 'big' in case
	if not large:
		check_state(g, m, 'after rendering')
	twin, _ = construct(case)
	with sut('rendering an equally built graph'):
		same(twin.render().source, text, 'the text of an equally built graph')
	# grow
	growing = case.get('grow', 0)
	names = list(m.nodes)
	if growing:
		with sut('growing'):
			for k in range(growing):
				new = f'new {k}'
				g.add_node(new)
				m.add_node(new)
				if names:
					x = names[(7 * k + growing) % len(names)]
					a, b = (new, x) if k % 2 else (x, new)
					g.connect(a, b, id='new')
					m.add_edge(a, b, 'new')
		_, later = look(g, m, 'the graph that has grown')
		automatic = not any(k in settings for k in ('node_style', 'edge_style', 'style_overwrite_allowed', 'stylist'))
		if automatic and case.get('stylist', 'pensieve') == 'pensieve':
			for (name, before), (_, after) in zip(dot.nodes, later.nodes):
				same(after, before, f'the look of node {name!r} after the graph has grown')
			def key(e):
				return (e[0], e[1], sorted(e[2].items()))
			old, new = sorted(map(key, dot.edges)), sorted(map(key, later.edges))
			for e in old:
				check(e in new, lambda: f'edge {e} looks different after the graph has grown')
	if case.get('shrink') and names:
		with sut('shrinking'):
			for k in case['shrink']:
				x = list(m.nodes)[k % len(m.nodes)]
				if len(m.nodes) > 1:
					g.remove_node(x)
					m.remove_node(x)
		look(g, m, 'the graph that has shrunk')
	rec.nontrivial(len(m.edges) > 0)
	rec.label(case.get('big', 'program' if 'program' in case else 'settings' if 'graph' in case else 'shape'), str(settings.get('stylist', case.get('stylist'))))


stylist = st.sampled_from(['pensieve', 'pensieve', 'random'])
grow = st.integers(0, 3)
shrink = st.lists(st.integers(0, 20), max_size=2)
rest = {'stylist': stylist, 'grow': grow, 'shrink': shrink}
STREAMS = [
	Stream('shapes', st.fixed_dictionaries({'shape': shapes(max_nodes=12, vias=('names', 'ctor', 'nodes', 'copy', 'dict')), **rest}), 400, 5000),
	Stream('settings', st.fixed_dictionaries({'graph': styled_graphs(removals=True), 'grow': grow, 'shrink': shrink}), 400, 5000),
	Stream('histories', st.fixed_dictionaries({'program': programs(max_ops=30), **rest}), 200, 2500),
]


def FIXED(tier):
	for stylist in ('pensieve', 'random'):
		for chain in (True, False):
			yield {'graph': big_case(120, {'stylist': stylist, 'ordering': chain}, chain=chain), 'grow': 3, 'shrink': [0, 5]}
	for stylist in ('pensieve', 'random'):
		for kind, n in (
			('nothing', 0), ('nothing', 1), ('nothing', 60), ('chain', 600), ('reversed chain', 600), ('ladder', 30), ('reversed ladder', 30),
			('complete dag', 22), ('complete', 8), ('loop with tail', 60), ('star', 60), ('inward star', 60)
		):
			yield {'big': kind, 'n': n, 'stylist': stylist, 'grow': 2}
		for n in (0, 1, 3):
			for shape in ('auto', 'Automatic', 'circle'):
				yield {'big': 'chain', 'n': n, 'stylist': stylist, 'settings': {'node_style': {'shape': shape}, 'edge_style': {'arrow_size': 2}}}
		yield {'big': 'reversed chain', 'n': 600, 'stylist': stylist, 'copied': True}
		yield {'big': 'chain', 'n': 1200, 'stylist': stylist, 'shrink': [3]} if tier == 'thorough' else {'big': 'chain', 'n': 4, 'stylist': stylist}


def extra(tier, seed):
	for n in range(0, 4):
		for shape in exhaustive(n, n < 3 or tier == 'thorough'):
			for stylist in ('pensieve', 'random'):
				yield f'all graphs of {n} nodes', {'shape': shape, 'stylist': stylist, 'grow': 1}
	for shape in joined():
		for stylist in ('pensieve', 'random'):
			yield 'names put together', {'shape': shape, 'stylist': stylist, 'grow': 1}
