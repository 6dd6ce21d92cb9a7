"""C14: graphs and dictionaries"""
import copy
import warnings
from collections import OrderedDict, defaultdict

from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import edge_sets, joined_programs, labels, name_pools, plain_values, rewired
from styled import big_case, edge_overrides, edge_style_specs, hexes, make, node_overrides, node_style_specs, parse_dot, safe_text, settings_to_kwargs, styled_graphs
from large import large_cases, large_graph
from world import World, check_state, fingerprint, ids, same_set, same_value
from C13 import compare, describe
from C24 import EDGE_KEYS, NODE_KEYS
from C34 import decode

ID = 'C14'
RULE = (
	'Cases: (graph) a graph with random settings, payloads, styles and overrides is converted to a dictionary or another graph in seven ways, '
	'up to three times, with or without a colour scheme, and compared with the original, rendered text included; (dict) a dictionary or an object with __graph__ in every documented '
	'form (nodes as list, tuple or dictionary, edges as pairs or triples, dictionaries of several kinds, settings, overrides) is turned into a graph and compared with what it says; '
	'(choices) a dictionary names a stylist, a colour scheme or permission to overwrite, and the constructor is given others, none or nothing; (list) several dictionaries and graphs are appended to one graph; (bad) malformed ones are refused; (large) graphs of up to 3,000 nodes, 10,000 when thorough, are converted; (changed) a graph changes between conversions. '
	'Non-trivial: at least 2 nodes and an edge.'
)


class Wrapper:
	"""an object that is not a graph but can be turned into one"""

	def __init__(self, dictionary):
		self.dictionary = dictionary

	def __graph__(self):
		return self.dictionary


def run(case, rec):
	globals()['run_' + case['kind']](case, rec)
	rec.label(case['kind'])


def run_large(case, rec):
	g, m = large_graph(case)
	for way in WAYS:
		what = f'a {case["long"]} of {case["n"]} nodes after conversion ({way})'
		with sut(f'converting to {what}'):
			c = convert(g, way)
			same(ids(c.nodes), list(m.nodes), f'nodes of {what}')
			check(set(c.edges_dict) == set(m.edges) and len(c.edges_dict) == len(m.edges), f'edges of {what}')
			check(c.is_similar_to(g) is True, f'{what} is not similar to the original')
	rec.nontrivial()


WAYS = ['graph', 'obj', 'wrapper', 'from_dict', 'append', 'dict', 'list']
BY_CONSTRUCTOR = ['graph', 'obj', 'wrapper', 'dict']
# settings of a graph that its dictionary does not say
NOT_SAID = ['stylist', 'style_overwrite_allowed', 'node_label_converter', 'edge_label_converter']


def is_html(label):
	return label.startswith('<') and label.endswith('>')


def convert(g, way, **kwargs):
	from abstract import Graph
	if way == 'graph':
		return Graph(g, **kwargs)
	if way == 'obj':
		return Graph(obj=g, direction='LR', **kwargs)
	if way == 'wrapper':
		return Graph(obj=Wrapper(g.__graph__()), **kwargs)
	if way == 'from_dict':
		return Graph.from_dict(g.__graph__())
	if way == 'dict':
		return Graph(g.__graph__(), **kwargs)
	if way == 'list':
		return Graph().append([g])
	empty = Graph()
	result = empty.append(g)
	check(result is empty, 'append did not return the graph')
	return result


def values(case, g, nodes, edges):
	"""gives some nodes and edges values that are tuples, sets and other objects"""
	for k, kind in case.get('values', ()):
		items = [(g.get_node(name), p) for name, p in nodes.items()] + [(e, edges[e.id]) for e in g.edges]
		if items:
			item, p = items[k % len(items)]
			with sut('setting a value'):
				item.value = p['value'] = decode(kind)


def run_graph(case, rec):
	g, m = make(case['graph'])
	settings = case['graph']['settings']
	if case['rendered']:
		with sut('rendering'):
			g.render()
	nodes, edges = describe(case['graph'], g)
	values(case, g, nodes, edges)
	with sut('asking the original'):
		before = fingerprint(g), g.get_graphviz_str()
	c = g
	# the colours of the scheme are kept where no other scheme is given, which None says
	scheme = dict(case['scheme'])
	keeps = scheme == {'colour_scheme': None} and all(way in BY_CONSTRUCTOR for way in case['ways'])
	decides = scheme.get('colour_scheme') is not None and case['ways'][-1] in BY_CONSTRUCTOR
	with warnings.catch_warnings(record=True) as caught:
		warnings.simplefilter('always')
		for way in case['ways']:
			with sut(f'converting ({way}, {scheme})'):
				c = convert(c, way, **settings_to_kwargs(scheme))
	check(not caught, lambda: f'converting warned: {caught[0].message}')
	what = f'the converted graph ({case["ways"]})'
	compare(c, nodes, edges, what)
	with sut('asking both'):
		same((fingerprint(g), g.get_graphviz_str()), before, 'the original after converting')
		header = parse_dot(c.get_graphviz_str(), what)
		original = parse_dot(before[1], 'the original')
		same(header.strict, original.strict, f'strict of {what}')
		same(header.attributes.get('ordering'), original.attributes.get('ordering'), f'ordering of {what}')
		label = settings.get('label', '\nPowered by Abstract')
		if label is None:
			check('label' not in header.attributes, f'label of {what}: {header.attributes.get("label")!r}')
		else:
			same(header.attributes.get('label'), label if label.startswith('\n') or is_html(label) else '\n' + label, f'label of {what}')
			same(header.attributes.get('href'), settings.get('label_url', 'https://github.com/idin/abstract'), f'URL of {what}')
	# rendered alike, as far as settings of the text are part of the dictionary
	# (a node with several parents inherits from them in the order of its inward edges, and a dictionary lists edges by start node)
	with sut('reading inward edges'):
		same_order = [[e.id for e in n.inward_edges] for n in g.nodes] == [[e.id for e in n.inward_edges] for n in c.nodes]
	rec.label('same order of inward edges' if same_order else 'other order of inward edges')
	if same_order and not any(k in settings for k in NOT_SAID) and ('colour_scheme' not in settings or keeps or decides or case['rendered']) and (keeps or decides or not scheme):
		rec.label('drawn alike', *(['scheme kept'] if keeps and 'colour_scheme' in settings else []), *(['scheme given'] if decides else []))
		with sut('rendering both'):
			if decides and not case['rendered']:
				# as if the original had been made with it
				g, _ = make(dict(case['graph'], settings=dict(settings, **scheme)))
				values(case, g, nodes, edges)
			a, b = parse_dot(g.render().source), parse_dot(c.render().source)
		same(b.nodes, a.nodes, f'rendered nodes of {what}')
		# edges come in the order of their start nodes
		same(sorted(b.edges, key=repr), sorted(a.edges, key=repr), f'rendered edges of {what}')
	rec.nontrivial(len(nodes) >= 2 and len(edges) >= 1)


def run_dict(case, rec):
	from abstract import Graph
	d, nodes, edges = dictionary(case)
	# what the graph is before, where the dictionary says nothing
	d = dress(d, case['form'])
	base = dict(case['base'], style_overwrite_allowed=case['dict']['allowed']) if case['as'] == 'append' else {}
	given = copy.deepcopy(d)

	def make_graph():
		with sut(f'making a graph from {d}'):
			if case['as'] == 'dict':
				return Graph(d)
			elif case['as'] == 'object':
				return Graph(obj=Wrapper(d), background_colour='#123456')
			elif case['as'] == 'from_dict':
				return Graph.from_dict(d)
			g = Graph(**base)
			check(g.append(d) is g, 'append did not return the graph')
			return g

	with warnings.catch_warnings(record=True) as caught:
		warnings.simplefilter('always')
		g = make_graph()
	check(not caught, lambda: f'making a graph from {d} warned: {caught[0].message}')
	read(g, nodes, edges, f'the graph of {d}'[:600])
	spec = dict(base, **case['dict'])
	with sut('rendering'):
		dot = parse_dot(g.render().source)
	same(dot.strict, bool(spec.get('strict', False)), 'strict')
	if 'ordering' in spec:
		with sut('ordering'):
			plain = Graph(ordering=spec['ordering'])
			same(dot.attributes.get('ordering'), parse_dot(plain.get_graphviz_str()).attributes.get('ordering'), 'ordering')
	direction = (spec.get('direction') or 'LR').upper()
	same(dot.attributes.get('rankdir', 'TB'), direction, 'direction')
	if 'label' in spec:
		if spec['label'] is None:
			check('label' not in dot.attributes, 'a label is shown')
		else:
			label = spec['label']
			if 'label' in case['dict'] and not label.startswith('\n') and not is_html(label):
				label = '\n' + label
			same(dot.attributes.get('label'), label, 'label')
	if 'label_url' in spec and spec.get('label', '') is not None:
		same(dot.attributes.get('href'), spec['label_url'], 'URL')
	if 'tooltip' in spec:
		same(dot.attributes.get('tooltip'), spec['tooltip'], 'tooltip')
	names = list(nodes)
	for k, items, keys in (
		('global_node_style', dot.nodes, NODE_KEYS), ('graph_node_style', dot.nodes, NODE_KEYS),
		('global_edge_style', dot.edges, EDGE_KEYS), ('graph_edge_style', dot.edges, EDGE_KEYS)
	):
		for attribute, value in (spec.get(k) or {}).items():
			if attribute in keys:
				for item in items:
					found = item[-1].get(keys[attribute]) or ''
					same(found[:7] if 'colour' in attribute else found, str(value), f'{attribute} of {item[:-1]}, given for all by {k}')
	covered = {a for k in spec if k.startswith('g') for a in spec[k]}
	for i, style in spec['node_styles']:
		attributes = dot.nodes[i][1]
		for k, key in (('shape', 'shape'), ('text_size', 'fontsize'), ('font', 'fontname'), ('fill_colour', 'fillcolor'), ('border_colour', 'color')):
			if k in style and k not in covered and not (k.endswith('colour') and any(j == i for j, _ in spec['node_colours'])):
				found = attributes.get(key) or ''
				# colours can have an opacity
				same(found[:7] if k.endswith('colour') else found, str(style[k]), f'{k} of {names[i]!r}')
	ids_ = list(edges)
	with sut('texts of edges'):
		found = g.edges_dict
		by_edge = {i: parse_dot('digraph {' + found[i].get_graphviz_str() + '}').edges[0][2] for i in ids_}
	for i, style in spec['edge_styles']:
		for k, key in (('text_size', 'fontsize'), ('font', 'fontname'), ('arrow_size', 'arrowsize'), ('line_width', 'penwidth')):
			if k in style and k not in covered:
				same(by_edge[ids_[i]].get(key), str(style[k]), f'{k} of edge {ids_[i]}')
	for i, colour in spec['node_colours'] if not covered else []:
		with sut('colour of a node'):
			same(g.get_node(names[i]).style.colour.hexadecimal, colour, f'colour of {names[i]!r}')
	for i, colour in spec['edge_colours'] if not covered else []:
		same(by_edge[ids_[i]].get('color', '')[:7], colour, f'colour of edge {ids_[i]}')
	# the dictionary is the user's, who can use it again, whatever happens to the graph
	check(d == given, lambda: f'the dictionary {given} is {d} after a graph was made from it')
	with sut('text'):
		source = g.render().source
	with sut('appending more'):
		g.append({
			'nodes': {'yet another': {'value': 1}}, 'edges': [['yet another', 'yet another', {'id': 'loop'}]],
			'node_styles': {'yet another': {'shape': 'circle'}}, 'node_colours': {'yet another': '#ff0000'},
			'edge_styles': {('yet another', 'yet another'): {'text_size': 20}}, 'edge_colours': {('yet another', 'yet another'): '#00ff00'}
		})
		g.render()
		for name in names:
			g.get_node(name)['more'] = 1
	check(d == given, lambda: f'the dictionary {given} is {d} after the graph that was made from it changed')
	with sut('making a second graph'):
		same(make_graph().render().source, source, f'the text of a second graph of {d}')
	rec.nontrivial(len(nodes) >= 2 and len(edges) >= 1)
	rec.label('nodes as dictionary' if spec['nodes as dict'] else 'nodes as list', case['as'])


def read(g, nodes, edges, what):
	with sut(f'reading {what}'):
		same(ids(g.nodes), list(nodes), f'nodes of {what}')
		found = g.edges_dict
		same_set(list(found), list(edges), f'edges of {what}')
		for name, p in nodes.items():
			same_value(g.get_node(name).value, p.get('value'), f'value of {name!r} of {what}')
			same(g.get_node(name).label, str(p.get('label') or name), f'label of {name!r} of {what}')
		for i, p in edges.items():
			same_value(found[i].value, p.get('value'), f'value of {i} of {what}')
			same(found[i].label, p.get('label'), f'label of {i} of {what}')


def dictionary(case):
	"""the dictionary to give, and the nodes and edges it says"""
	spec = case['dict']
	names = spec['names']
	node_payloads = spec['payloads'] if spec['nodes as dict'] else [{} for _ in names]
	nodes = {n: p for n, p in zip(names, node_payloads)}
	edges, given = {}, []
	for a, b, p in spec['edges']:
		payload = dict(p or {})
		i = (names[a], names[b], payload.pop('id', None))
		edges[i] = payload
		item = [names[a], names[b]] if p is None else [names[a], names[b], dict(p)]
		given.append(tuple(item) if spec['tuples'] else item)
	d = {'nodes': {n: dict(p) for n, p in nodes.items()} if spec['nodes as dict'] else list(names), 'edges': given}
	for k in ('strict', 'ordering', 'label', 'label_url', 'tooltip', 'direction', 'global_node_style', 'graph_node_style', 'global_edge_style', 'graph_edge_style'):
		if k in spec:
			d[k] = spec[k]
	edge_keys = list(edges)

	def edge_key(i):
		full = edge_keys[i]
		alone = sum(x[:2] == full[:2] for x in edge_keys) == 1
		return full[:2] if alone and not spec['full ids'] else full

	for k in ('node_styles', 'node_colours'):
		if spec[k]:
			d[k] = {names[i]: x for i, x in spec[k]}
	for k in ('edge_styles', 'edge_colours'):
		if spec[k]:
			d[k] = {edge_key(i): x for i, x in spec[k]}
	if spec['allowed']:
		d['style_overwrite_allowed'] = True
	return d, nodes, edges


class Mapping(dict):
	"""a dictionary of the user's own kind"""


def dress(d, form):
	"""the same dictionary, made of other kinds of containers"""
	if form == 'plain':
		return d
	kind = {'ordered': OrderedDict, 'own': Mapping, 'default': lambda x: defaultdict(dict, x)}[form]

	def deep(x):
		return kind({k: v if k == 'value' else deep(v) for k, v in x.items()}) if isinstance(x, dict) else x
	result = deep(d)
	if not isinstance(d['nodes'], dict):
		result['nodes'] = tuple(d['nodes'])
	result['edges'] = tuple(type(e)(deep(x) for x in e) for e in d['edges'])
	return result


def run_changed(case, rec):
	"""a graph that is converted, changed, and converted again"""
	world = World(case['program']['names'], case['program']['args'])
	count = [0]

	def ask(w):
		count[0] += 1
		for way in case['ways']:
			what = f'the graph converted ({way}) after {w.log}'
			with sut(what):
				c = convert(w.g, way)
			read(c, w.m.nodes, w.m.edges, what)
			with sut('changing what was made by converting'):
				for x in c.nodes + c.edges:
					x.label, x.value = 'changed', 'changed'

	world.run(case['program'], ask)
	check_state(world.g, world.m, f'the graph that was converted during {world.log}')
	rec.nontrivial(count[0] >= 2 and len(world.m.nodes) >= 2)


def run_choices(case, rec):
	"""a dictionary names a stylist, a colour scheme and a permission, which count where the constructor is given none"""
	from abstract import Graph
	names = case['names']
	n = len(names)
	d = {'nodes': list(names), 'edges': [[names[a % n], names[b % n], {'id': k}] for k, (a, b) in enumerate(case['edges'])]} if n else {'nodes': [], 'edges': []}
	named = dict(d, **case['named'])
	given = case['given']
	expected = {
		'colour_scheme': given.get('colour_scheme', 'pensieve2') or case['named'].get('colour_scheme'),
		'stylist': given.get('stylist', 'pensieve') or case['named'].get('stylist') or 'pensieve',
		'style_overwrite_allowed': case['named'].get('style_overwrite_allowed', given.get('style_overwrite_allowed', False))
	}
	if expected['colour_scheme'] is None:
		# nothing names one
		expected['colour_scheme'] = given['colour_scheme'] = 'pastel19'
	what = f'Graph({named}, {given})'
	with sut(what):
		g = Graph(Wrapper(named) if case['wrapped'] else named, **given)
		other = Graph(d, **expected)
		a, b = g.render().source, other.render().source
	same(a, b, f'the text of {what}, where {expected} count')
	rec.nontrivial(n >= 2 and bool(case['named']))
	if n:
		def overwrite(graph):
			graph.get_node(names[0]).style = {'shape': 'octagon'}
		if expected['style_overwrite_allowed']:
			with sut(f'changing a style in {what}'):
				overwrite(g)
				same(parse_dot('digraph {' + g.get_node(names[0]).get_graphviz_str() + '}').nodes[0][1].get('shape'), 'octagon', f'the shape that was set in {what}')
		else:
			with raises(f'changing a style in {what}', RuntimeError):
				overwrite(g)


def run_list(case, rec):
	from abstract import Graph
	nodes, edges = {}, {}
	given = []
	for item in case['items']:
		d, n, e = dictionary({'dict': item})
		given.append(Wrapper(d) if item['allowed'] else d)
		for target, source in ((nodes, n), (edges, e)):
			for k, p in source.items():
				p = {x: y for x, y in p.items() if y is not None}
				target.setdefault(k, {}).update(p)
	if case['tuple']:
		given = tuple(given)
	with sut('appending a list'):
		g = Graph(style_overwrite_allowed=True)
		if case['nested']:
			result = g.append([given])
		else:
			result = g.append(given)
		check(result is g, 'append did not return the graph')
	read(g, nodes, edges, 'a graph that was appended to')
	rec.nontrivial(len(nodes) >= 2 and len(edges) >= 1 and len(case['items']) > 1)


def run_bad(case, rec):
	from abstract import Graph
	what = case['what']
	rec.label(f'bad {what}')
	if what == 'not a dictionary':
		for obj in (5, 'text', 3.5, object()):
			with raises(f'append({obj!r})', TypeError):
				Graph().append(obj)
			with raises(f'Graph({obj!r})', TypeError):
				Graph(obj)
	elif what == 'edge length':
		for edge in ([], ['a'], ['a', 'b', {}, 1], ('a',), ('a', 'b', {}, {}, {})):
			with raises(f'an edge {edge}', ValueError):
				Graph({'nodes': ['a', 'b'], 'edges': [edge]})
	elif what == 'absent node':
		for edge in (['a', 'c'], ['c', 'a', {}], ['c', 'c']):
			with raises(f'an edge {edge} to an absent node', KeyError):
				Graph.from_dict({'nodes': ['a', 'b'], 'edges': [edge]})
	rec.nontrivial()


graph_labels = st.one_of(st.none(), safe_text, safe_text, st.sampled_from(['<a <b>bold</b> label>', '\nline', '<>', '']))


@st.composite
def labelled_graphs(draw):
	case = draw(styled_graphs(removals=True))
	if draw(st.integers(0, 3)) == 0:
		case['settings']['label'] = draw(graph_labels)
	if draw(st.booleans()):
		# what a dictionary does not say, so that the converted graph can be drawn like the original
		for k in NOT_SAID:
			case['settings'].pop(k, None)
		if draw(st.booleans()):
			case['settings'].pop('colour_scheme', None)
	return case


odd_values = st.one_of(
	st.sampled_from(['tuple', 'set', 'bytes', 'frozenset', 'complex', 'range', 'type', 'text', 'number', 'nested']).map(lambda k: {'kind': k}), st.integers(0, 3).map(lambda n: {'thing': n})
)


@st.composite
def conversions(draw):
	case = {'kind': 'graph', 'graph': draw(labelled_graphs()), 'ways': draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)), 'rendered': draw(st.booleans()), 'scheme': {}}
	if draw(st.integers(0, 2)) == 0:
		case['graph']['frozen'] = case['graph']['frozen_edges'] = []
		case['values'] = draw(st.lists(st.tuples(st.integers(0, 15), odd_values), min_size=1, max_size=3))
	if draw(st.integers(0, 3)) == 0:
		case['scheme'] = {'colour_scheme': draw(st.sampled_from([None, None, 'pastel19']))}
		if draw(st.integers(0, 3)) > 0:
			# where it makes a difference
			for k in NOT_SAID:
				case['graph']['settings'].pop(k, None)
			case['ways'] = draw(st.lists(st.sampled_from(BY_CONSTRUCTOR), min_size=1, max_size=2))
			case['rendered'] = False
	return case


bases = st.fixed_dictionaries({}, optional={
	'strict': st.booleans(), 'ordering': st.booleans(), 'label': graph_labels, 'label_url': st.just('http://example.org'),
	'tooltip': safe_text, 'direction': st.sampled_from(['LR', 'TB', 'RL'])
})


@st.composite
def dicts(draw, max_nodes=7, styles=('plain', 'plain', 'ints', 'digits', 'text', 'alike', 'big')):
	n = draw(st.integers(0, max_nodes))
	names = draw(name_pools(size=n, styles=styles))
	_, edges = draw(edge_sets(n))
	payload = st.fixed_dictionaries({}, optional={'label': labels, 'value': plain_values, 'tooltip': safe_text, 'style': node_style_specs})
	epayload = st.fixed_dictionaries({}, optional={'label': labels, 'value': plain_values, 'tooltip': safe_text, 'style': edge_style_specs})
	counts, result = {}, []
	for a, b in edges:
		k = counts.get((a, b), 0)
		counts[(a, b)] = k + 1
		p = draw(st.one_of(st.none(), epayload))
		if k > 0:
			p = dict(p or {}, id=k)
		elif p is not None and draw(st.booleans()):
			p = dict(p, id=draw(st.sampled_from([None, 'e', 0])))
		result.append([a, b, p])
	spec = {
		'names': names, 'payloads': [draw(payload) for _ in names], 'nodes as dict': draw(st.booleans()), 'edges': result, 'tuples': draw(st.booleans()),
		'allowed': draw(st.booleans()), 'full ids': draw(st.booleans())
	}
	spec.update(draw(st.fixed_dictionaries({}, optional={
		'strict': st.booleans(), 'ordering': st.booleans(), 'label': graph_labels, 'label_url': st.just('http://example.com'),
		'tooltip': safe_text, 'direction': st.sampled_from(['LR', 'TB', 'bt', 'RL'])
	})))

	def some(count, values):
		if count == 0 or not draw(st.booleans()):
			return []
		return [list(x) for x in draw(st.lists(st.tuples(st.integers(0, count - 1), values), max_size=2, unique_by=lambda x: x[0]))]

	for what, overrides in (('node', node_overrides), ('edge', edge_overrides)):
		if draw(st.integers(0, 5)) == 0:
			spec[draw(st.sampled_from(['global', 'graph'])) + f'_{what}_style'] = draw(overrides)
	spec['node_styles'] = some(n, node_overrides)
	spec['edge_styles'] = some(len(result), edge_overrides)
	spec['node_colours'] = some(n, hexes)
	spec['edge_colours'] = some(len(result), hexes)
	return spec


STREAMS = [
	Stream('graph', conversions(), 400, 5000),
	Stream('dict', st.fixed_dictionaries({
		'kind': st.just('dict'), 'dict': dicts(), 'as': st.sampled_from(['dict', 'object', 'from_dict', 'append', 'append']), 'base': bases,
		'form': st.sampled_from(['plain', 'plain', 'ordered', 'own', 'default'])
	}), 500, 6000),
	Stream('choices', st.fixed_dictionaries({
		'kind': st.just('choices'), 'names': name_pools(max_size=6, styles=('plain', 'ints')), 'wrapped': st.booleans(),
		'edges': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), max_size=5),
		'named': st.fixed_dictionaries({}, optional={
			'stylist': st.sampled_from(['random', 'pensieve', 'random']), 'colour_scheme': st.sampled_from(['pensieve', 'pastel19']), 'style_overwrite_allowed': st.booleans()
		}),
		'given': st.fixed_dictionaries({}, optional={
			'stylist': st.sampled_from(['random', 'pensieve', None, None]), 'colour_scheme': st.sampled_from(['pensieve2', 'pastel19', None, None]), 'style_overwrite_allowed': st.booleans()
		})
	}), 120, 1500),
	Stream('asked after changes', st.fixed_dictionaries({
		'kind': st.just('changed'), 'program': rewired(payloads=True), 'ways': st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)
	}), 150, 1500),
	Stream('list', st.fixed_dictionaries({
		'kind': st.just('list'), 'items': st.lists(dicts(max_nodes=4, styles=('plain',)).map(
			lambda d: dict(d, payloads=[{k: v for k, v in p.items() if k != 'style'} for p in d['payloads']])
		), min_size=0, max_size=3), 'tuple': st.booleans(), 'nested': st.booleans()
	}), 200, 2000),
]


def FIXED(tier):
	for k, way in enumerate(WAYS):
		yield {'kind': 'graph', 'graph': big_case(60 + 20 * k, {'strict': True} if k % 2 else {}), 'ways': [way], 'rendered': k % 3 == 0, 'scheme': {}}
	for k, program in enumerate(joined_programs()):
		yield {'kind': 'changed', 'program': dict(program, **{'args': {}, 'each': True, 'ask at': [2, len(program['ops'])]}), 'ways': WAYS[k % 3::3]}
	for case in large_cases(tier, orders=(False,)):
		yield dict(case, kind='large')
	for way in BY_CONSTRUCTOR:
		for again in [[], ['dict']]:
			for own in ({}, {'colour_scheme': 'pastel19'}):
				for scheme in (None, 'scheme:#ff0000,#00ff00'):
					thing = {'label': None, 'value': None, 'tooltip': None, 'style': None, 'params': {}}
					yield {'kind': 'graph', 'ways': [way] + again, 'rendered': False, 'scheme': {'colour_scheme': scheme}, 'graph': {
						'settings': own, 'nodes': [dict(thing, name=x) for x in 'abc'], 'edges': [dict(thing, start=0, end=1, id=None)], 'palette': [{}], 'epalette': [{}],
						'kind': 'sparse', 'node_styles': [], 'edge_styles': [], 'as_objects': False, 'frozen': [], 'frozen_edges': []
					}}
	# long lists
	for n, nested in ((25, False), (120, True)):
		items = [{
			'names': [f'n{k}', f'n{k + 1}', f'm{k}'], 'payloads': [{}, {'value': k}, {'label': f'label {k}'}], 'nodes as dict': k % 3 > 0, 'edges': [[0, 1, None], [0, 2, {'id': k, 'value': k}]], 'tuples': k % 2 == 0,
			'allowed': k % 5 == 0, 'full ids': False, 'node_styles': [], 'edge_styles': [], 'node_colours': [], 'edge_colours': []
		} for k in range(n)]
		yield {'kind': 'list', 'items': items, 'tuple': nested, 'nested': nested}
	# either name of a style for all nodes with either name of one for all edges
	for node in (None, 'global_node_style', 'graph_node_style'):
		for edge in (None, 'global_edge_style', 'graph_edge_style'):
			for way in ('dict', 'object', 'from_dict', 'append'):
				spec = {
					'names': ['a', 'b'], 'payloads': [{}, {}], 'nodes as dict': False, 'edges': [[0, 1, None]], 'tuples': False, 'allowed': False, 'full ids': False,
					'node_styles': [], 'edge_styles': [], 'node_colours': [], 'edge_colours': []
				}
				if node is not None:
					spec[node] = {'shape': 'hexagon', 'text_size': 17}
				if edge is not None:
					spec[edge] = {'font': 'times', 'text_size': 19}
				yield {'kind': 'dict', 'dict': spec, 'as': way, 'base': {}, 'form': 'plain'}
	for what in ('not a dictionary', 'edge length', 'absent node'):
		yield {'kind': 'bad', 'what': what}
