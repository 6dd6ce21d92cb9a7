"""C37: stylists with base styles"""
from colouration import Colour
from hypothesis import strategies as st

from C35 import even, near, reference, scheme_of
from core import Stream, check, same, sut
from styled import edge_id, edge_style_specs, graph_settings, make, node_style_specs, parse_dot, styled_graphs

ID = 'C37'
RULE = (
	'A case is a graph in which some nodes and edges have styles, a stylist (pensieve, or random with a seed), base styles for nodes and edges or none, '
	'and ratios. After the stylist is applied, every style is compared with one made from the attributes of the base and the colour found (arrows scaled), '
	'styles of users and the base with what they were, colours without a base with those of the reference of C35 with these ratios; then it is applied '
	'again, with more nodes, after the base was changed, and the graph rendered. Non-trivial: a base style and a node or edge without style next to one with a style.'
)

COLOURS = ('colour', 'fill_colour', 'border_colour', 'text_colour')


def text_of(style):
	return style.get_graphviz_str()


def call(case, g, node_style, edge_style, seed=None):
	from abstract.styling import stylize_randomly, stylize_with_pensieve
	kwargs = dict(case['ratios'])
	if node_style is not None or case['pass none']:
		kwargs['node_style'] = node_style
	if edge_style is not None or case['pass none']:
		kwargs['edge_style'] = edge_style
	if case['stylist'] == 'random':
		seed = case['seed'] if seed is None else seed
		if seed is not None:
			kwargs['seed'] = seed
		return stylize_randomly(graph=g, **kwargs)
	return stylize_with_pensieve(graph=g, **kwargs)


def bases(case):
	from abstract.styling.EdgeStyle import EdgeStyle
	from abstract.styling.NodeStyle import NodeStyle
	node_style = None if case['node_base'] is None else NodeStyle(**case['node_base'])
	edge_style = None if case['edge_base'] is None else EdgeStyle(**case['edge_base'])
	return node_style, edge_style


def expected_node(case, colour):
	from abstract.styling.NodeStyle import NodeStyle
	return NodeStyle(colour=colour, **{k: v for k, v in (case['node_base'] or {}).items() if k not in COLOURS})


def expected_edge(case, colour, value):
	from abstract.styling.EdgeStyle import EdgeStyle
	spec = {k: v for k, v in (case['edge_base'] or {}).items() if k not in COLOURS}
	if isinstance(value, (int, float)):
		spec['arrow_size'] = spec.get('arrow_size', 0.5) * value
	return EdgeStyle(colour=colour, **spec)


def styles(g):
	return {n.name: n.style for n in g.nodes}, {e.id: e.style for e in g.edges}


def texts(found):
	return [{k: None if s is None else text_of(s) for k, s in d.items()} for d in found]


def compare(case, g, m, own_nodes, own_edges, what):
	"""own: the texts of styles that have to be as they were"""
	found_nodes, found_edges = styles(g)
	reach = m.closure()
	loop = {n for n in m.nodes if n in reach[n]}
	base = [n for n in m.nodes if all(p in loop for p in m.parents(n))]
	for n in m.nodes:
		style = found_nodes[n]
		check(style is not None, f'{what}: node {n!r} has no style')
		if n in own_nodes:
			same(text_of(style), own_nodes[n], f'{what}: style of node {n!r}, which had one')
		elif case['node_base'] is None and case['stylist'] == 'pensieve' and n not in base:
			# without a base, all but the colours comes from one of the roots that it descends from
			wanted = []
			for x in base:
				if n in reach[x]:
					wanted.append(found_nodes[x].copy())
					wanted[-1].reset_colours()
					wanted[-1].colour = Colour(style.colour)
			found = text_of(style)
			wanted = [text_of(x) for x in wanted]
			check(found in wanted, lambda: f'{what}: style of node {n!r}: got {found}, expected one of {wanted}')
		else:
			same(text_of(style), text_of(expected_node(case, Colour(style.colour))), f'{what}: style of node {n!r}')
	ratio = case['ratios'].get('edge_darkness_ratio', 0.1)
	for i in m.edges:
		style = found_edges[i]
		check(style is not None, f'{what}: edge {i} has no style')
		if i in own_edges:
			same(text_of(style), own_edges[i], f'{what}: style of edge {i}, which had one')
		else:
			same(text_of(style), text_of(expected_edge(case, Colour(style.colour), m.edges[i]['value'])), f'{what}: style of edge {i}')
			start = found_nodes[i[0]].colour
			near(style.colour.hexadecimal, (start if ratio == 0 else start.darken(ratio=ratio)).hexadecimal, f'{what}: colour of edge {i}', 1)
	every = [id(x) for n, x in found_nodes.items() if n not in own_nodes] + [id(x) for i, x in found_edges.items() if i not in own_edges]
	check(len(set(every)) == len(every), f'{what}: two automatic styles are one object')


def run_seeds(case, rec):
	"""seeds make a difference"""
	from abstract import Graph
	from abstract.styling import stylize_randomly
	found = {}
	for seed in range(case['seeds']):
		with sut(f'applying the random stylist with seed {seed}'):
			g = Graph()
			for n in range(case['nodes']):
				g.add_node(n)
			stylize_randomly(graph=g, seed=seed)
			colours = tuple(n.style.colour.hexadecimal for n in g.nodes)
		check(colours not in found, lambda: f'colours of {case["nodes"]} nodes are the same with seeds {found[colours]} and {seed}')
		found[colours] = seed
	rec.label('seeds')


def FIXED(tier):
	return [{'seeds': 50, 'nodes': 40}]


def run(case, rec):
	if 'seeds' in case:
		return run_seeds(case, rec)
	c = case['graph']
	g, m = make(c)
	with sut('the styles before'):
		before = styles(g)
	allowed = bool(c['settings'].get('style_overwrite_allowed')) and case['stylist'] == 'random'
	texts_before = texts(before)
	own_nodes = {} if allowed else {n: t for n, t in texts_before[0].items() if t is not None}
	own_edges = {i: t for i, t in texts_before[1].items() if t is not None}
	with sut('making the base styles'):
		node_style, edge_style = bases(case)
		base_texts = [None if s is None else text_of(s) for s in (node_style, edge_style)]
	structure = [[n.name for n in g.nodes], [e.id for e in g.edges]]

	def base_unchanged(what):
		with sut('reading the base styles'):
			same([None if s is None else text_of(s) for s in (node_style, edge_style)], base_texts, f'base styles after {what}')

	with sut('applying the stylist'):
		call(case, g, node_style, edge_style)
	with sut('reading styles'):
		compare(case, g, m, own_nodes, own_edges, 'after the stylist')
		first = texts(styles(g))
		base_unchanged('the stylist')
		same([[n.name for n in g.nodes], [e.id for e in g.edges]], structure, 'nodes and edges after the stylist')
		# styles that users gave are the very objects
		for n in own_nodes:
			check(g.get_node(n).style is before[0][n], f'style of node {n!r} was replaced')
		for i in own_edges:
			check(g.get_node(i[0]).get_outward_edge(i).style is before[1][i], f'style of edge {i} was replaced')
	colours = {n: s.colour for n, s in styles(g)[0].items()}
	scheme = scheme_of({'scheme': None}) if 'colour_scheme' not in c['settings'] else scheme_of({
		'scheme': c['settings']['colour_scheme'][7:].split(',') if c['settings']['colour_scheme'].startswith('scheme:') else c['settings']['colour_scheme']
	})
	distinct = len(set(scheme)) == len(scheme)
	reach = m.closure()
	loop = {n for n in m.nodes if n in reach[n]}
	base = [n for n in m.nodes if all(p in loop for p in m.parents(n))]
	unstyled = [n for n in m.nodes if n not in own_nodes]
	if case['stylist'] == 'random':
		if distinct:
			even([colours[n].hexadecimal for n in unstyled], scheme, 'nodes')
	else:
		turns = [n for n in base if n not in own_nodes]
		if distinct:
			even([colours[n].hexadecimal for n in turns], scheme, 'roots')
		if node_style is None and not own_nodes:
			# the reference of C35, with these ratios
			divergence, pale = case['ratios'].get('divergence_ratio', 0.05), case['ratios'].get('pale_ratio', 0.05)
			find = reference(g, m, reach, base, pale)
			for n in m.nodes:
				if n not in base:
					near(colours[n].hexadecimal, find(n, divergence).hexadecimal, f'colour of {n!r} with ratios {divergence} and {pale}', 3)
			rec.label('ratios')
	# the same graph again gives the same
	if case['again'] == 'same':
		other, _ = make(c)
		with sut('applying the stylist to the same graph'):
			other_bases = bases(case)
			call(case, other, *other_bases)
			same(texts(styles(other)), first, 'styles of the same graph')
	elif case['again'] == 'seeds' and case['stylist'] == 'random':
		import random
		state = random.getstate()
		other, _ = make(c)
		with sut('applying the stylist with another state of the random module'):
			random.seed(case['chance'])
			expected_state = random.getstate()
			call(case, other, *bases(case))
			same(random.getstate() == expected_state, True, 'the global state of the random module is left alone')
			random.setstate(state)
			same(texts(styles(other)), first, 'styles with another state of the random module')
	# once more changes nothing, even with other base styles, unless styles may be overwritten
	with sut('applying the stylist again'):
		if case['other bases'] and not allowed:
			call(case, g, None if case['other bases'] == 1 else node_style, None)
		else:
			call(case, g, node_style, edge_style)
		same(texts(styles(g)), first, 'styles after the stylist was applied again')
		base_unchanged('the second time')
	# what is added later gets styles of the same base
	kept = dict(zip(('nodes', 'edges'), first))
	names = list(m.nodes)
	with sut('adding nodes and edges'):
		for k, value in enumerate(case['later']):
			g.add_node(f'later {k}')
			m.add_node(f'later {k}')
			if names:
				i = (names[k % len(names)], f'later {k}', None)
				g.connect(i[0], i[1], value=value)
				m.add_edge(*i, value=value)
	if case['later']:
		with sut('applying the stylist to more'):
			call(case, g, node_style, edge_style)
			compare(case, g, m, {} if allowed else kept['nodes'], kept['edges'], 'with more')
			base_unchanged('more was added')
	# a change of the base afterwards has no effect on the graph
	last = texts(styles(g))
	with sut('changing the base styles'):
		if node_style is not None:
			node_style.complement({'shape': 'octagon', 'text_size': 77, 'font': 'symbol'})
			node_style.colour = '#13579b'
		if edge_style is not None:
			edge_style.complement({'arrow_size': 7.5, 'line_width': 11})
			edge_style.colour = '#13579b'
		same(texts(styles(g)), last, 'styles after the base styles were changed')
	# the same texts are found in the graph's
	special = [k for k in ('node_style', 'edge_style') if k in c['settings']] + [k for k in ('node_styles', 'edge_styles', 'node_colours', 'edge_colours') if c.get(k)]
	if not special and not c['settings'].get('style_overwrite_allowed'):
		with sut('rendering'):
			text = g.render().source
		dot = parse_dot(text)
		same(texts(styles(g)), last, 'styles after rendering')
		expected = sorted(sorted(parse_dot(f'digraph {{ x [{t}] }}').nodes[0][1].items()) for t in last[0].values())
		style_keys = ('color', 'fillcolor', 'fontname', 'fontcolor', 'fontsize', 'opacity', 'shape', 'style')
		found = sorted(sorted((k, v) for k, v in a.items() if k in style_keys) for _, a in dot.nodes)
		same(found, expected, 'attributes of nodes in the text')
		rec.label('rendered')
	based = case['node_base'] is not None or case['edge_base'] is not None
	rec.nontrivial(based and bool(unstyled) and bool(own_nodes or own_edges))
	rec.label(case['stylist'], 'base' if based else 'no base', *(['overwriting'] if allowed else []), *(['inherits'] if any(n not in base for n in unstyled) else []))


ratio = st.sampled_from([0, 0.05, 0.1, 0.25, 0.5])


@st.composite
def cases(draw, max_nodes=7, **kwargs):
	values = st.one_of(st.none(), st.integers(0, 9), st.sampled_from([0.5, 2.5, 'x', '2', [2]]))
	graph = draw(styled_graphs(max_nodes=max_nodes, values=values, styles=('plain', 'ints', 'digits', 'text'), **kwargs))
	graph['frozen'] = []
	graph['frozen_edges'] = []
	if draw(st.integers(0, 2)) == 0:
		graph['settings']['style_overwrite_allowed'] = True
	share = draw(st.sampled_from(['own', 'some', 'none']))
	if share != 'own':
		for x in graph['nodes'] + graph['edges']:
			if share == 'none' or draw(st.booleans()):
				x['style'] = None
	return {
		'graph': graph, 'stylist': draw(st.sampled_from(['pensieve', 'pensieve', 'random'])), 'seed': draw(st.one_of(st.none(), st.integers(0, 100))),
		'node_base': draw(st.one_of(st.none(), node_style_specs, node_style_specs)), 'edge_base': draw(st.one_of(st.none(), edge_style_specs, edge_style_specs)),
		'pass none': draw(st.booleans()),
		'ratios': draw(st.fixed_dictionaries({}, optional={'pale_ratio': ratio, 'divergence_ratio': ratio, 'edge_darkness_ratio': ratio})),
		'again': draw(st.sampled_from(['same', 'seeds'])), 'chance': draw(st.integers(0, 99)), 'other bases': draw(st.integers(0, 2)),
		'later': draw(st.lists(values, max_size=3))
	}


@st.composite
def without_base(draw):
	case = draw(cases(overrides=False))
	case['node_base'] = None
	for x in case['graph']['nodes']:
		x['style'] = None
	return case


STREAMS = [Stream('bases', cases(), 500, 6000), Stream('no base', without_base(), 250, 3000), Stream('bigger', cases(max_nodes=20), 60, 800)]
