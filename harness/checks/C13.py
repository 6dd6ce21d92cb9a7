"""C13: sums of graphs"""
from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import rewired
from styled import edge_id, edge_overrides, hexes, node_overrides, make, parse_dot, squeeze, styled_graphs
from large import check_large, edges_of, large_cases
from world import Model, World, check_state, fingerprint, ids, same_set, same_value

ID = 'C13'
RULE = (
	'A case is two or three graphs with overlapping names, payloads whose values can be added (also two parts of large graphs, up to 3,000 nodes, 10,000 when thorough), or a graph and itself or its copy, or something else that offers a dictionary, or a graph that changes between sums with what it was at first; tooltips, styles, overrides and settings, and how values '
	'are combined (default or one of several functions); the sum is compared with a union computed from the two models, rendering included, and '
	'the operands with themselves before. Non-trivial: the graphs share a node and one of them has a node that the other does not have, or a graph is added to itself.'
)

FUNCTIONS = {
	'pair': lambda x, y: [x, y], 'left': lambda x, y: x, 'right': lambda x, y: y, 'constant': lambda x, y: 0
}


def default(x, y):
	if x is None:
		return y
	if y is None:
		return x
	return x + y


def union(a, b, f):
	"""payload of both: label, tooltip and style of the left one unless it has none"""
	result = dict(a)
	for k in b:
		if k not in result:
			result[k] = b[k]
		else:
			x, y = result[k], b[k]
			result[k] = {'value': f(x['value'], y['value']), 'label': x['label'] or y['label'], 'tooltip': x['tooltip'] or y['tooltip'], 'style': x['style'] or y['style']}
	return result


def describe(case, g):
	"""nodes and edges of a graph as {name: payload}, {id: payload}; made from the case, styles as they render"""
	with sut('reading styles'):
		node_style = {n.name: None if n.style is None else n.style.get_graphviz_str() for n in g.nodes}
		edge_style = {e.id: None if e.style is None else e.style.get_graphviz_str() for e in g.edges}
	nodes = {
		n['name']: {'value': n['value'], 'label': n['label'], 'tooltip': n['tooltip'], 'style': node_style[n['name']]}
		for n in case['nodes'] if n['name'] in node_style
	}
	edges = {}
	for e in case['edges']:
		i = edge_id(case, e)
		if i not in edge_style:
			continue  # removed
		edges[i] = {'value': e['value'], 'label': e['label'], 'tooltip': e['tooltip'], 'style': edge_style[i]}
	return nodes, edges


def compare(s, nodes, edges, what):
	with sut(f'reading {what}'):
		same(ids(s.nodes), list(nodes), f'nodes of {what}')
		check([type(x) for x in ids(s.nodes)] == [type(x) for x in nodes], f'types of names of {what}')
		found = s.edges_dict
		same_set(list(found), list(edges), f'edges of {what}')
		same_set([e.id for e in s.edges], list(edges), f'edges of {what}')
		for name, p in nodes.items():
			node = s.get_node(name)
			same_value(node.value, p['value'], f'value of node {name!r} of {what}')
			same(node.label, str(p['label']) if p['label'] else str(name), f'label of node {name!r} of {what}')
			same(None if node.style is None else node.style.get_graphviz_str(), p['style'], f'style of node {name!r} of {what}')
		for i, p in edges.items():
			edge = found[i]
			same_value(edge.value, p['value'], f'value of edge {i} of {what}')
			same(edge.label, p['label'], f'label of edge {i} of {what}')
			same(None if edge.style is None else edge.style.get_graphviz_str(), p['style'], f'style of edge {i} of {what}')
		dot = parse_dot(s.get_graphviz_str(), what)
		same([a.get('tooltip') for _, a in dot.nodes], [p['tooltip'] for p in nodes.values()], f'tooltips of nodes of {what}')
		by_edge = sorted((squeeze(t), squeeze(h), str(a.get('tooltip'))) for t, h, a in dot.edges)
		same(
			by_edge, sorted((squeeze(str(i[0])), squeeze(str(i[1])), str(p['tooltip'])) for i, p in edges.items()), f'tooltips of edges of {what}'
		)


class Other:
	"""not a graph, but something that offers a dictionary like one, without what is not there and with parameters of its own"""

	def __init__(self, g, kept):
		self.dictionary = dict(g.__graph__())
		self.dictionary['nodes'] = {k: dict({a: x for a, x in p.items() if x is not None or a in kept}, weight=i) for i, (k, p) in enumerate(self.dictionary['nodes'].items())}
		self.dictionary['edges'] = [[a, b, dict({k: x for k, x in p.items() if k == 'id' or x is not None or k in kept}, weight=i)] for i, (a, b, p) in enumerate(self.dictionary['edges'])]

	def __graph__(self):
		return self.dictionary


def large(case, rec):
	"""two halves of a large graph that share their middle"""
	from abstract import Graph
	n = case['n']
	parts = [range(0, 2 * n // 3), range(n // 3, n)]
	graphs, models = [], []
	with sut('building'):
		for part in parts:
			g, m = Graph(), Model()
			for i in part:
				g.add_node(i, value=i)
				m.add_node(i, value=i)
			for a, b in edges_of(case['long'], n):
				if a in part and b in part:
					g.connect(a, b, value=1)
					m.add_edge(a, b, value=1)
			graphs.append(g)
			models.append(m)
		s = graphs[0] + graphs[1]
	shared = set(models[0].nodes) & set(models[1].nodes)
	expected = models[0].copy()
	for i in models[1].nodes:
		if i not in expected.nodes:
			expected.add_node(i)
	both = set(models[0].edges) & set(models[1].edges)
	what = f'the sum of two parts of a {case["long"]} of {n} nodes'
	with sut(f'reading {what}'):
		same(ids(s.nodes), list(expected.nodes), f'nodes of {what}')
		found = s.edges_dict
		check(set(found) == set(models[0].edges) | set(models[1].edges), f'edges of {what}')
		for node in s.nodes:
			same(node.value, node.name * (2 if node.name in shared else 1), f'value of {node.name} of {what}')
		for i, e in found.items():
			same(e.value, 2 if i in both else 1, f'value of edge {i} of {what}')
		for g, m in zip(graphs, models):
			check_large(g, m, f'a part after adding')
	rec.nontrivial()
	rec.label(f'{case["long"]} of {n}')


def changed(case, rec):
	"""sums of a graph that changes between them with another one, or with what it was at first"""
	world = World(case['program']['names'], case['program']['args'])
	f = FUNCTIONS[case['function']]
	asked = []

	def payloads(m):
		return [{i: {k: p[k] for k in ('value', 'label')} for i, p in things.items()} for things in (m.nodes, m.edges)]

	def combined(a, b):
		result = dict(a)
		for i, y in b.items():
			x = a.get(i)
			result[i] = y if x is None else {'value': f(x['value'], y['value']), 'label': x['label'] or y['label']}
		return result

	def ask(w):
		if not asked:
			with sut('copying'):
				asked.append((w.g.copy(), w.m.copy()))
		other, model = asked[0]
		with sut('adding'):
			sums = [(w.g.add(other, add_values_function=f), w.m, model), (other.add(w.g, add_values_function=f), model, w.m)]
		for k, (s, x, y) in enumerate(sums):
			what = f'the sum of a graph after {w.log} and what it was at first' + (' (the other way round)' if k else '')
			(n1, e1), (n2, e2) = payloads(x), payloads(y)
			nodes, edges = combined(n1, n2), combined(e1, e2)
			with sut(f'reading {what}'):
				same(ids(s.nodes), list(nodes), f'nodes of {what}')
				found = s.edges_dict
				same_set(list(found), list(edges), f'edges of {what}')
				for name, p in nodes.items():
					same_value(s.get_node(name).value, p['value'], f'value of {name!r} of {what}')
					same(s.get_node(name).label, str(p['label']) if p['label'] else str(name), f'label of {name!r} of {what}')
				for i, p in edges.items():
					same_value(found[i].value, p['value'], f'value of {i} of {what}')
					same(found[i].label, p['label'], f'label of {i} of {what}')
		asked.append(None)

	world.run(case['program'], ask)
	check_state(world.g, world.m, f'the graph that was added during {world.log}')
	check_state(*asked[0], f'the graph that was added to another during {world.log}')
	rec.nontrivial(len(asked) >= 3 and len(world.m.nodes) >= 2)
	rec.label(case['function'])


def FIXED(tier):
	yield from large_cases(tier, orders=(False,))


def run(case, rec):
	if 'long' in case:
		return large(case, rec)
	if 'program' in case:
		return changed(case, rec)
	cases_ = list(case['graphs'])
	graphs = [make(c)[0] for c in cases_]
	if case['rendered']:
		with sut('rendering'):
			graphs[0].render()
	if case.get('again'):
		# the same graph, or a copy of it, once more
		with sut('copying'):
			graphs.insert(1, graphs[0] if case['again'] == 'self' else graphs[0].copy())
		cases_.insert(1, cases_[0])
	described = [describe(c, g) for c, g in zip(cases_, graphs)]
	if case.get('tuples'):
		for g, (n, e) in zip(graphs, described):
			for item, p in [(g.get_node(name), p) for name, p in n.items()] + [(edge, e[edge.id]) for edge in g.edges]:
				if isinstance(p['value'], list):
					with sut('setting a value'):
						item.value = p['value'] = tuple(p['value'])
	with sut('asking the operands'):
		before = [(fingerprint(g), g.get_graphviz_str()) for g in graphs]
	f = FUNCTIONS.get(case['function'], default)
	nodes, edges = described[0]
	s = graphs[0]
	for k, (g, (n2, e2)) in enumerate(zip(graphs[1:], described[1:])):
		with sut('adding'):
			if case.get('other') and k == len(graphs) - 2:
				# a value that is not there is not combined
				g = Other(g, ['label', 'tooltip'] + (['value'] if f is not default else []))
			s = s + g if case['function'] is None else s.add(g, add_values_function=f) if case['by name'] else s.add(other=g, add_values_function=f)
		nodes, edges = union(nodes, n2, f), union(edges, e2, f)
	what = f'the sum ({case["function"]})'
	compare(s, nodes, edges, what)
	if case.get('other'):
		with sut('parameters of nodes and edges of the sum'):
			for i, name in enumerate(described[-1][0]):
				same(s.get_node(name)['weight'], i, f'weight of node {name!r} of {what}, which the right operand says')
			for i, (a, b, p) in enumerate(g.dictionary['edges']):
				same(s.edges_dict[(a, b, p['id'])]['weight'], i, f'weight of edge {(a, b, p["id"])} of {what}, which the right operand says')
	for k, g in enumerate(graphs):
		check(s is not g or len(graphs) == 1, 'the sum is one of the graphs')
		with sut('asking the operands'):
			same((fingerprint(g), g.get_graphviz_str()), before[k], f'operand {k} after adding')
	with sut('rendering the sum'):
		dot = parse_dot(s.render().source, what)
	same(dot.strict, bool(case['graphs'][0]['settings'].get('strict', False)), 'strict')
	same(dot.attributes.get('ordering'), parse_dot(before[0][1], 'the left operand').attributes.get('ordering'), 'ordering')
	for k, g in enumerate(graphs):
		with sut('asking the operands'):
			same((fingerprint(g), g.get_graphviz_str()), before[k], f'operand {k} after rendering the sum')
	# overrides: those of the right one count
	overrides, colours, edge_colours, edge_overrides_ = {}, {}, {}, {}
	for c, (n, e) in zip(cases_, described):
		for i, style in c['node_styles']:
			overrides[c['nodes'][i]['name']] = style
		for i, colour in c.get('node_colours', []):
			colours[c['nodes'][i]['name']] = colour
		for i, colour in c.get('edge_colours', []):
			x = edge_id(c, c['edges'][i])
			if x in e:
				edge_colours[x] = colour
		for i, style in c['edge_styles']:
			x = edge_id(c, c['edges'][i])
			if x in e:
				edge_overrides_[x] = style
	# what was removed from a graph is not shown but can be in another one
	removed = {n['name'] for c, (found, _) in zip(cases_, described) for n in c['nodes'] if n['name'] not in found}
	overrides = {k: x for k, x in overrides.items() if k not in removed}
	with sut('colours of the sum'):
		for name, colour in colours.items():
			if name in nodes and name not in removed:
				same(s.get_node(name).style.colour.hexadecimal, colour, f'colour of {name!r} in the rendered sum')
		for i, colour in edge_colours.items():
			same(s.edges_dict[i].style.colour.hexadecimal, colour, f'colour of edge {i} in the rendered sum')
	for (name, p), (_, attributes) in zip(nodes.items(), dot.nodes):
		for attribute, key in (('shape', 'shape'), ('text_size', 'fontsize'), ('font', 'fontname')):
			if attribute in overrides.get(name, {}):
				same(attributes.get(key), str(overrides[name][attribute]), f'{attribute} of {name!r} in the rendered sum')
	with sut('texts of edges of the sum'):
		edges_of_sum = s.edges_dict
		shown = {i: parse_dot('digraph {' + edges_of_sum[i].get_graphviz_str() + '}').edges[0][2] for i in edge_overrides_}
	for i, style in edge_overrides_.items():
		for attribute, key in (('text_size', 'fontsize'), ('font', 'fontname'), ('arrow_size', 'arrowsize'), ('line_width', 'penwidth')):
			if attribute in style:
				same(shown[i].get(key), str(style[attribute]), f'{attribute} of edge {i} in the rendered sum')
	with sut('changing the sum'):
		s.add_node('only in the sum')
		if nodes:
			s.connect('only in the sum', list(nodes)[0])
			s.remove_node(list(nodes)[-1])
	for k, g in enumerate(graphs):
		with sut('asking the operands'):
			same((fingerprint(g), g.get_graphviz_str()), before[k], f'operand {k} after changing the sum')
	names = [set(n) for n, _ in described]
	rec.nontrivial(bool(names[0] & names[1]) and (names[0] != names[1] or 'again' in case))
	if case.get('again'):
		rec.label('added to ' + ('itself' if case['again'] == 'self' else 'a copy'))
	rec.label(
		str(case['function']), f'{len(graphs)} graphs', 'shared edge' if set(described[0][1]) & set(described[1][1]) else 'no shared edge',
		'overrides' if overrides else 'no overrides', 'colours' if colours or edge_colours else 'no colours',
		*(['removed'] if any(len(c['nodes']) > len(n) or len(c['edges']) > len(e) for c, (n, e) in zip(cases_, described)) else [])
	)


numbers = st.one_of(st.none(), st.sampled_from([0, 1, -1, 5, 0.5, 0.0, 100]), st.integers(-1000, 1000))
texts = st.one_of(st.none(), st.sampled_from(['', 'x', 'yz']), st.text(max_size=3))
lists = st.one_of(st.none(), st.sampled_from([[], [1], [2, 3], [None]]))


def share(draw, first, c, values):
	"""the same edges in both graphs, each with colours and styles of its own"""
	if len(c['nodes']) < 2 or len(first['nodes']) < 2:
		return
	for x in (first, c):
		x['nodes'][0]['name'], x['nodes'][1]['name'] = first['nodes'][0]['name'], first['nodes'][1]['name']
	names = [n['name'] for n in c['nodes']]
	if len(set(map(repr, names))) < len(names):
		for i, n in enumerate(c['nodes'][2:]):
			n['name'] = f'other {i}' if isinstance(n['name'], str) else 1000 + i
	shared = [(0, 1, None), (1, 0, None)][:draw(st.integers(1, 2))]
	# with texts and values of their own, of nodes with themselves as well
	rich = draw(st.booleans())
	if rich:
		shared.append((0, 0, draw(st.sampled_from([None, 0, 'x']))))
	for x in (first, c):
		for i, (a, b, key) in enumerate(shared):
			at = [k for k, e in enumerate(x['edges']) if (e['start'], e['end']) == (a, b) and type(e['id']) is type(key) and e['id'] == key]
			if not at:
				some = st.sampled_from([None, 'one', 'another', 'a third'])
				x['edges'].append({
					'start': a, 'end': b, 'id': key, 'label': draw(some) if rich else None, 'value': draw(values) if rich else None, 'tooltip': draw(some) if rich else None,
					'style': None, 'params': {}
				})
				at = [len(x['edges']) - 1]
			for k, kind in (('edge_colours', hexes), ('edge_styles', edge_overrides)):
				if draw(st.booleans()) and at[0] not in [j for j, _ in x.setdefault(k, [])]:
					x[k].append([at[0], draw(kind)])
			for k, kind in (('node_colours', hexes), ('node_styles', node_overrides)):
				if i < 2 and draw(st.booleans()) and i not in [j for j, _ in x.setdefault(k, [])]:
					x[k].append([i, draw(kind)])


@st.composite
def cases(draw):
	values = draw(st.sampled_from([numbers, numbers, texts, lists]))
	# the same kind of names so that they overlap
	style = draw(st.sampled_from(['plain', 'plain', 'ints', 'digits', 'ambiguous']))
	# edge styles as overrides would be keyed by ids; both kinds are kept
	n = draw(st.sampled_from([2, 2, 2, 3]))
	small = draw(st.sampled_from([0, 2, 2, 3]))
	graphs = []
	for _ in range(n):
		c = draw(styled_graphs(max_nodes=6, values=values, styles=(style,), removals=True, min_nodes=small))
		# converters change tooltips of nobody but labels in the text; they are not part of a sum
		c['frozen'] = c['frozen_edges'] = []
		if graphs and draw(st.booleans()):
			share(draw, graphs[0], c, values)
		graphs.append(c)
	again = draw(st.sampled_from([None, None, None, 'self', 'copy']))
	return {
		**({'again': again, 'graphs': graphs[:draw(st.integers(1, 2))]} if again else {'graphs': graphs}), 'function': draw(st.sampled_from([None, None, 'pair', 'left', 'right', 'constant', 'default'])), 'by name': draw(st.booleans()),
		'rendered': draw(st.booleans()), 'other': draw(st.integers(0, 3)) == 0, 'tuples': values is lists and draw(st.booleans())
	}


STREAMS = [
	Stream('sums', cases(), 700, 7000),
	Stream('asked after changes', st.fixed_dictionaries({'program': rewired(payloads=True), 'function': st.sampled_from(sorted(FUNCTIONS))}), 120, 1500),
]
