"""C24: styles given by the user"""
from hypothesis import strategies as st

from core import Stream, check, same, sut
from styled import big_case, clone, edge_id, edge_overrides, hexes, node_overrides, opacity, parse_dot, settings_to_kwargs, styled_graphs
from world import key

ID = 'C24'
RULE = (
	'A case is a graph whose nodes and edges have own styles (dictionaries or shared style objects), none, or are named in overrides of style (either) or '
	'colour (texts or objects), which may have been given differently before, with or without global styles (dictionary or object) and either stylist. It is rendered twice and compared, attribute by attribute, '
	'with the same graph without overrides: what was asked for is shown on the node or edge that was named, and nothing else differs; style objects '
	'of the user stay as they were. Non-trivial: an override, a global style or an explicit style is there, and at least 2 nodes.'
)

NODE_KEYS = {
	'shape': 'shape', 'text_size': 'fontsize', 'font': 'fontname', 'shape_style': 'style', 'fill_colour': 'fillcolor', 'border_colour': 'color',
	'text_colour': 'fontcolor', 'opacity': 'opacity'
}
EDGE_KEYS = {
	'text_size': 'fontsize', 'font': 'fontname', 'arrow_size': 'arrowsize', 'line_width': 'penwidth', 'label_style': 'lblstyle', 'text_colour': 'fontcolor'
}

STALE = {
	'node_styles': {'shape': 'octagon', 'text_size': 77, 'fill_colour': '#010203', 'font': 'stale'}, 'edge_styles': {'text_size': 78, 'font': 'stale', 'arrow_size': 7},
	'node_colours': '#a0b1c2', 'edge_colours': '#a0b1c3'
}


def construct(case, overridden):
	from abstract import Graph
	from colouration import Colour
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	c = case['graph']
	settings = dict(c['settings'])
	settings['style_overwrite_allowed'] = case['allowed']
	kwargs = settings_to_kwargs(settings)
	objects = []

	def colour(x):
		return Colour(x) if case['colour objects'] else x

	def as_object(cls, spec):
		style = cls(**spec)
		objects.append(style)
		return style

	with sut('building the graph'):
		for k, cls in (('node_style', NodeStyle), ('edge_style', EdgeStyle)):
			if k in kwargs and case['global objects']:
				kwargs[k] = as_object(cls, kwargs[k])
			elif k in kwargs:
				kwargs[k] = dict(kwargs[k])
		palette = [as_object(NodeStyle, s) if c['as_objects'] else dict(s) for s in c['palette']]
		epalette = [as_object(EdgeStyle, s) if c['as_objects'] else dict(s) for s in c['epalette']]
		d = {'nodes': {}, 'edges': []}
		for n in c['nodes']:
			d['nodes'][n['name']] = {'label': n['label'], 'value': n['value'], 'style': None if n['style'] is None else palette[n['style'] % len(palette)]}
		ids = [edge_id(c, e) for e in c['edges']]
		for e, (s, t, raw) in zip(c['edges'], ids):
			d['edges'].append([s, t, {
				'id': raw, 'label': e['label'], 'value': e['value'], 'style': None if e['style'] is None else epalette[e['style'] % len(epalette)]
			}])
		if overridden:
			if case['node_styles']:
				d['node_styles'] = {c['nodes'][i]['name']: as_object(NodeStyle, s) if case['override objects'] else dict(s) for i, s in case['node_styles']}
			if case['node_colours']:
				d['node_colours'] = {c['nodes'][i]['name']: colour(x) for i, x in case['node_colours']}
			if case['absent']:
				d.setdefault('node_styles', {})['not in the graph'] = {'shape': 'hexagon'}
				d.setdefault('node_colours', {})['not in the graph'] = '#0f1e2d'

			def name(i):
				# an edge can be named without its id if it is the only one
				return ids[i][:2] if case['short'] and sum(x[:2] == ids[i][:2] for x in ids) == 1 else ids[i]

			if case['edge_styles']:
				d['edge_styles'] = {name(i): as_object(EdgeStyle, s) if case['override objects'] else dict(s) for i, s in case['edge_styles']}
			if case['edge_colours']:
				d['edge_colours'] = {name(i): colour(x) for i, x in case['edge_colours']}
		g = Graph(**kwargs)
		if overridden and case['again']:
			# given before, for the same ones and differently; the last one counts
			final = {k: d.pop(k) for k in ('node_styles', 'node_colours', 'edge_styles', 'edge_colours') if k in d}
			for k, x in final.items():
				d[k] = {n: STALE[k] if case['again'] != 'colour objects' or 'styles' in k else Colour(STALE[k]) for n in x}
			if case['again'] == 'rendered':
				# the first time after a rendering
				for k in final:
					del d[k]
			g.append(d)
			if case['again'] == 'rendered':
				g.render()
			g.append(dict(final, nodes={}, edges=[[s, t, {'id': raw, 'if_edge_exists': 'ignore'}] for s, t, raw in ids]))
		else:
			g.append(d)
	return g, ids, objects, (palette, epalette)


def attributes(g, ids, what):
	"""{name: attributes}, {id: attributes}; read from the text of each node and edge"""
	with sut(f'rendering {what}'):
		source = g.render().source
	with sut(f'text of nodes and edges of {what}'):
		edges = g.edges_dict
		nodes = {n.name: parse_dot('digraph {' + n.get_graphviz_str() + '}').nodes[0][1] for n in g.nodes}
		edges = {i: parse_dot('digraph {' + edges[i].get_graphviz_str() + '}').edges[0][2] for i in ids}
	dot = parse_dot(source, what)
	same([a for _, a in dot.nodes], list(nodes.values()), f'attributes of nodes in the text of {what}')
	same(
		sorted((repr(sorted(a.items())) for _, _, a in dot.edges)), sorted(repr(sorted(a.items())) for a in edges.values()),
		f'attributes of edges in the text of {what}'
	)
	return source, nodes, edges


def equal(found, expected, attribute):
	if expected is None:
		return True
	# colours can have an opacity
	return (found or '')[:7] == str(expected) if 'colour' in attribute else found == str(expected)


def compare(actual, base, wanted, coloured, globals_, keys, what):
	"""wanted: {key: override}; globals_: attributes that a global style decides"""
	for k, before in base.items():
		after = actual[k]
		style = wanted.get(k, {})
		for attribute, value in style.items():
			if attribute in keys and attribute not in globals_ and not (k in coloured and 'colour' in attribute):
				check(equal(after.get(keys[attribute]), value, attribute), lambda: (
					f'{what} {k!r} was given {attribute} {value!r} but shows {after.get(keys[attribute])!r}'
				))
		if 'opacity' in style and 'opacity' not in globals_:
			# it is part of every colour
			before, after = dict(before), dict(after)
			for attribute in ('color', 'fillcolor', 'fontcolor'):
				if attribute in after and not k in coloured:
					check(abs(opacity(after[attribute]) - style['opacity']) < 0.01, lambda: (
						f'{what} {k!r} was given opacity {style["opacity"]} but shows {attribute} {after[attribute]}'
					))
				for x in (before, after):
					if attribute in x:
						x[attribute] = x[attribute][:7]
		changed = {keys[a] for a in style if a in keys}
		if k in coloured:
			changed |= {'color', 'fillcolor', 'fontcolor'}
		for attribute in set(before) | set(after):
			if attribute not in changed:
				same(after.get(attribute), before.get(attribute), f'{attribute} of {what} {k!r}, which nothing was to change')


def run(case, rec):
	c = case['graph']
	settings = c['settings']
	base, ids, _, _ = construct(case, False)
	g, ids, objects, (palette, epalette) = construct(case, True)
	with sut('reading styles'):
		before = [s.get_graphviz_str() for s in objects]
	_, base_nodes, base_edges = attributes(base, ids, 'the graph without overrides')
	source, nodes, edges = attributes(g, ids, 'the graph')
	names = [n['name'] for n in c['nodes']]
	node_styles = {names[i]: s for i, s in case['node_styles']}
	edge_styles = {ids[i]: s for i, s in case['edge_styles']}
	node_colours = {names[i]: x for i, x in case['node_colours']}
	edge_colours = {ids[i]: x for i, x in case['edge_colours']}
	node_global, edge_global = settings.get('node_style') or {}, settings.get('edge_style') or {}
	# an object decides every attribute
	node_decided = set(NODE_KEYS) if node_global and case['global objects'] else set(node_global)
	edge_decided = set(EDGE_KEYS) if edge_global and case['global objects'] else set(edge_global)
	if 'node_style' in settings and case['global objects']:
		node_decided = set(NODE_KEYS)
	if 'edge_style' in settings and case['global objects']:
		edge_decided = set(EDGE_KEYS) | {'opacity'}
	if case['override objects']:
		# an object decides every attribute
		for what, found, base_found, wanted, coloured, decided in (
			('node', nodes, base_nodes, node_styles, node_colours, node_decided), ('edge', edges, base_edges, edge_styles, edge_colours, edge_decided)
		):
			for k in list(wanted):
				spec = wanted.pop(k)
				if not decided and k not in coloured:
					shown = parse_dot('digraph { a [' + style_text(what, spec) + '] }').nodes[0][1]
					for attribute, value in shown.items():
						same(found[k].get(attribute), value, f'{attribute} of {what} {k!r} with an override {what.capitalize()}Style({spec})')
				found, base_found = [{x: y for x, y in z.items() if x != k} for z in (found, base_found)]
			if what == 'node':
				compare(found, base_found, {}, node_colours, node_decided, NODE_KEYS, 'node')
			else:
				compare(found, base_found, {}, edge_colours, edge_decided, EDGE_KEYS, 'edge')
	else:
		compare(nodes, base_nodes, node_styles, node_colours, node_decided, NODE_KEYS, 'node')
		compare(edges, base_edges, edge_styles, edge_colours, edge_decided, EDGE_KEYS, 'edge')
	if not ('node_style' in settings and case['global objects']):
		for name, colour in node_colours.items():
			with sut('reading a colour'):
				same(g.get_node(name).style.colour.hexadecimal, colour, f'colour of node {name!r}')
	if not ('edge_style' in settings and case['global objects']):
		for i, colour in edge_colours.items():
			check((edges[i].get('color') or '')[:7] == colour, lambda: f'edge {i} was given colour {colour} but shows {edges[i].get("color")}')
	# a colour decides all others
	for what, found, given, decided in (('node', nodes, node_colours, node_decided), ('edge', edges, edge_colours, edge_decided)):
		if not any('colour' in x for x in decided):
			for k, colour in given.items():
				possible = [by_colour(what, {'colour': colour, **more}) for more in ([{}, {'lighter_fill': False}] if what == 'node' else [{}])]
				check(by_colour(what, None, found[k]) in possible, lambda: (
					f'{what} {k!r} was given colour {colour} but shows {by_colour(what, None, found[k])}, and not {possible}'
				))
	# global styles are on everything
	for what, found, given, keys, coloured in (('node', nodes, node_global, NODE_KEYS, {}), ('edge', edges, edge_global, EDGE_KEYS, {})):
		for k, a in found.items():
			for attribute, value in given.items():
				if attribute == 'shape' and automatic(value):
					automatic_shape(a, names, k)
				elif attribute in keys:
					check(equal(a.get(keys[attribute]), value, attribute), lambda: (
						f'the global {what} style has {attribute} {value!r} but {what} {k!r} shows {a.get(keys[attribute])!r}'
					))
	# own styles are kept, also with permission to overwrite them if nothing is to take their place
	replaced = case['allowed'] and settings.get('stylist') == 'random'
	if not replaced and not (case['allowed'] and 'node_style' in settings):
		for n in c['nodes']:
			if n['style'] is not None:
				own(n['name'], c['palette'][n['style'] % len(palette)], base_nodes[n['name']], node_decided, NODE_KEYS, 'node')
	if not replaced and not (case['allowed'] and 'edge_style' in settings):
		for e, i in zip(c['edges'], ids):
			if e['style'] is not None:
				own(i, c['epalette'][e['style'] % len(epalette)], base_edges[i], edge_decided, EDGE_KEYS, 'edge')
	# again, and later
	with sut('rendering again'):
		same(g.render().source, source, 'the second text')
	for s, text in zip(objects, before):
		with sut('reading styles'):
			same(s.get_graphviz_str(), text, 'a style object of the user after rendering')
	if case['absent']:
		with sut('adding the node that an override named'):
			g.add_node('not in the graph', if_node_exists='ignore')
			g.render()
			found = parse_dot('digraph {' + g.get_node('not in the graph').get_graphviz_str() + '}').nodes[0][1]
		if automatic(node_global.get('shape')) and not case['global objects']:
			automatic_shape(found, names + ['not in the graph'], 'not in the graph')
			with sut('the text of all nodes'):
				for n in g.nodes:
					automatic_shape(parse_dot('digraph {' + n.get_graphviz_str() + '}').nodes[0][1], names + ['not in the graph'], n.name)
		if 'shape' not in node_decided:
			same(found.get('shape'), 'hexagon', 'shape of a node that was added after an override named it')
		if not ('node_style' in settings and case['global objects']):
			with sut('reading a colour'):
				same(g.get_node('not in the graph').style.colour.hexadecimal, '#0f1e2d', 'colour of a node that was added after a colour was given for its name')
	overrides = bool(case['node_styles'] or case['edge_styles'] or edge_styles or node_colours or edge_colours)
	explicit = any(n['style'] is not None for n in c['nodes'] + c['edges'])
	rec.nontrivial((overrides or explicit or node_global or edge_global) and len(names) >= 2)
	for flag, label in (
		(case['node_styles'], 'node overrides'), (case['edge_styles'], 'edge overrides'), (case['override objects'], 'override objects'), (node_colours, 'node colours'), (edge_colours, 'edge colours'),
		(node_global, 'global node style'), (automatic(node_global.get('shape')), 'automatic shape'), (edge_global, 'global edge style'), (explicit, 'own styles'), (c['as_objects'], 'style objects'), (case['again'], 'given before' if case['again'] != 'rendered' else 'given after a rendering')
	):
		if flag:
			rec.label(label)


def style_text(what, spec):
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	with sut(f'the text of a style of {spec}'):
		return (NodeStyle if what == 'node' else EdgeStyle)(**spec).get_graphviz_str()


def by_colour(what, spec, shown=None):
	"""the colours that are shown, or those that follow from a colour"""
	if shown is None:
		shown = parse_dot('digraph { a [' + style_text(what, spec) + '] }').nodes[0][1]
	return {k: shown[k][:7] for k in ('color', 'fillcolor', 'fontcolor') if k in shown}


def automatic(shape):
	return isinstance(shape, str) and shape.startswith('auto')


def automatic_shape(found, names, k):
	short = all(len(str(n)) < 3 for n in names)
	check((found.get('shape') == 'circle') == short, lambda: (
		f'node {k!r} shows shape {found.get("shape")} with automatic shapes and names {"shorter than 3" if short else "of 3 or more"} characters'
	))


def own(k, spec, found, decided, keys, what):
	for attribute, value in spec.items():
		if attribute in keys and attribute not in decided:
			check(equal(found.get(keys[attribute]), value, attribute), lambda: (
				f'{what} {k!r} has its own style with {attribute} {value!r} but shows {found.get(keys[attribute])!r}'
			))


@st.composite
def cases(draw):
	c = draw(styled_graphs(max_nodes=6, overrides=False, min_nodes=1))
	# those that this property is about, each in half of the cases
	for k in ('node_style', 'edge_style'):
		if k in c['settings'] and draw(st.booleans()):
			del c['settings'][k]
	c['frozen'] = c['frozen_edges'] = []
	global_objects = draw(st.booleans())
	if not global_objects and draw(st.integers(0, 3)) == 0:
		c['settings']['node_style'] = dict(c['settings'].get('node_style', {}), shape=draw(st.sampled_from(['auto', 'automatic'])))

	def some(count, values):
		if count == 0 or not draw(st.booleans()):
			return []
		return [list(x) for x in draw(st.lists(st.tuples(st.integers(0, count - 1), values), max_size=3, unique_by=lambda x: x[0]))]

	allowed = draw(st.booleans())
	return {
		'graph': c, 'allowed': allowed, 'global objects': global_objects, 'short': draw(st.booleans()), 'absent': draw(st.booleans()),
		'again': draw(st.sampled_from(['', '', '', 'texts', 'colour objects', 'rendered'])),
		'override objects': draw(st.integers(0, 3)) == 0, 'colour objects': draw(st.integers(0, 3)) == 0,
		'node_styles': some(len(c['nodes']), node_overrides), 'edge_styles': some(len(c['edges']), edge_overrides),
		'node_colours': some(len(c['nodes']), hexes), 'edge_colours': some(len(c['edges']), hexes)
	}


STREAMS = [Stream('overrides', cases(), 700, 10000)]


def FIXED(tier):
	for n in (60, 201):
		for allowed in (False, True):
			for stylist in ('pensieve', 'random'):
				c = big_case(n, {'stylist': stylist}, overrides=False)
				c['frozen'] = c['frozen_edges'] = []
				last = len(c['edges']) - 1
				yield {
					'graph': c, 'allowed': allowed, 'global objects': False, 'short': True, 'absent': True, 'again': '', 'override objects': False, 'colour objects': False,
					'node_styles': [[0, {'shape': 'circle'}], [n // 2, {'text_size': 33, 'text_colour': '#123456'}], [n - 1, {'font': 'times', 'fill_colour': '#654321'}]],
					'edge_styles': [[0, {'text_size': 21}], [last // 2, {'arrow_size': 2}], [last, {'font': 'times', 'line_width': 4}]],
					'node_colours': [[1, '#a01020'], [n - 2, '#10a020']], 'edge_colours': [[1, '#a02010'], [last - 1, '#1020a0']]
				}
