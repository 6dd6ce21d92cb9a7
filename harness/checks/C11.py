"""C11: copies are independent"""
import copy
import pickle

from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import PARAMETERS, ops
from styled import edge_overrides, hexes, make, node_overrides, styled_graphs
from world import Model, World, fingerprint

ID = 'C11'
RULE = (
	'A case is a graph with settings, payloads, styles and overrides, a way to get another graph from it (copy, deep copy, pickle, filter, '
	'conversion, dictionary, sum), and up to 12 operations on one of the two (structure, payloads, parameters, overriding styles and colours, rendering; changing styles in place; with deep copies also '
	'changing values and parameters in place); all that is public about the other graph, including its text for Graphviz, is compared '
	'before and after, and its rendered text with that of an equal one of which nothing was changed; also with styles that the user gave to a graph (to it, its nodes and edges, as overrides) and changes in place after another one was made from it. Non-trivial: an operation changed the first of the two graphs.'
)
DEEP = ['copy', 'deepcopy', 'copy.copy', 'pickle', 'filter', 'filter all']
SHALLOW = ['graph', 'dict', 'add', 'add right', 'append']


def derive(g, way):
	from abstract import Graph
	return {
		'copy': lambda: g.copy(), 'deepcopy': lambda: copy.deepcopy(g), 'copy.copy': lambda: copy.copy(g), 'pickle': lambda: pickle.loads(pickle.dumps(g)),
		'filter': lambda: g.filter(filter_type='exclude'),
		'filter all': lambda: g.filter(nodes=[n.name for n in g.nodes]),
		'graph': lambda: Graph(g), 'dict': lambda: Graph.from_dict(g.__graph__()), 'add': lambda: g + Graph(), 'add right': lambda: Graph() + g,
		'append': lambda: Graph().append(g)
	}[way]()


def parameters(item):
	result = []
	for k in PARAMETERS + ['list']:
		try:
			result.append((k, repr(item[k])))
		except LookupError:
			pass
	return result


def snapshot(g):
	with sut('looking at the other graph'):
		result = fingerprint(g)
		result['text'] = g.get_graphviz_str()
		result['tree'] = g.get_tree_str()
		result['graph of nodes'] = [n.graph is g for n in g.nodes] + [e.graph is g for e in g.edges]
		result['order'] = [n.name for n in g.nodes]
		result['parameters'] = [parameters(x) for n in g.nodes for x in [n] + n.outward_edges]
		return result


def pair(case):
	g, m = make(case['graph'])
	with sut(f'deriving ({case["way"]})'):
		if case['rendered']:
			g.render()
		h = derive(g, case['way'])
	return (h, g) if case['change derived'] else (g, h)


def run(case, rec):
	if 'used' in case:
		return given(case, rec)
	changed, other = pair(case)
	before_other, before_changed = snapshot(other), snapshot(changed)
	names = [n['name'] for n in case['graph']['nodes']] + ['new']
	w = World(names)
	w.g = changed
	w.m = Model()
	with sut('reading'):
		for n in changed.nodes:
			w.m.add_node(n.name, label=None, value=n.value)
		for n in changed.nodes:
			for e in n.outward_edges:
				w.m.add_edge(*e.id)
	for op in case['ops']:
		if op[0] == 'in place':
			# a value is shared by graphs that are made from each other
			if case['way'] in DEEP or op[2] in ('parameter', 'style', 'edge style', 'freeze', 'background'):
				in_place(w, op[1], op[2])
		elif op[0] == 'override':
			override(w, *op[1:])
		elif op[0] in ('copy', 'pickle'):
			continue
		else:
			frozen_safe(w, op)
	after_other = snapshot(other)
	for k in before_other:
		same(after_other[k], before_other[k], f'{k} of the other graph ({case["way"]}) after {case["ops"]}')
	rec.nontrivial(snapshot(changed) != before_changed)
	# what it looks like when it is rendered, compared with a pair of which nothing was changed
	_, untouched = pair(case)
	with sut('rendering the other graph'):
		same(other.render().source, untouched.render().source, f'the rendered text of the other graph ({case["way"]}) after {case["ops"]}')
	rec.label(case['way'])


def given_graph(case):
	"""a graph with styles that the user has at hand, as objects or dictionaries"""
	from abstract import Graph
	from abstract.styling.EdgeStyle import EdgeStyle
	from abstract.styling.NodeStyle import NodeStyle

	def node_style():
		return NodeStyle(**case['node']) if case['objects'] else dict(case['node'])

	def edge_style():
		return EdgeStyle(**case['edge']) if case['objects'] else dict(case['edge'])

	given = {'graph node': node_style(), 'graph edge': edge_style(), 'node': NodeStyle(**case['node']), 'edge': EdgeStyle(**case['edge']), 'override node': node_style(), 'override edge': edge_style()}
	used = {k: x if k in case['used'] else None for k, x in given.items()}
	with sut(f'a graph with styles for {case["used"]}'):
		g = Graph(node_style=used['graph node'], edge_style=used['graph edge'])
		g.add_node('a', style=used['node'])
		g.add_node('b')
		g.connect('a', 'b', style=used['edge'])
		if used['override node']:
			g.append({'nodes': [], 'edges': [], 'node_styles': {'b': used['override node']}})
		if used['override edge']:
			g.append({'nodes': ['c'], 'edges': [('b', 'c')], 'edge_styles': {('b', 'c'): used['override edge']}})
	if case['rendered']:
		with sut('rendering'):
			g.render()
	return g, {k: x for k, x in used.items() if x is not None}


def given(case, rec):
	"""styles that the user gave to a graph and changes later are not those of graphs made from it"""
	results = []
	for change in (True, False):
		g, used = given_graph(case)
		with sut(f'deriving ({case["way"]})'):
			h = derive(g, case['way'])
		if change:
			with sut('changing a style in place'):
				for k, x in used.items():
					if k in case['changed']:
						if isinstance(x, dict):
							x['text_size'] = 77
						else:
							x.complement({'text_size': 77})
		with sut('rendering'):
			text = h.get_graphviz_str()
			results.append((text, h.render().source))
	same(results[0], results[1], f'texts of the graph made ({case["way"]}) from one whose styles {case["changed"]} (of {case["used"]}) were changed in place afterwards')
	rec.nontrivial(bool(set(case['changed']) & set(used)))
	rec.label(case['way'])


def frozen_safe(w, op):
	try:
		w.apply(op)
	except Exception as e:
		# frozen values and the like: whether the operation works is not the question here
		if 'frozen' not in str(e):
			raise


def override(w, i, node_style, edge_style, colour):
	"""styles and colours for a node and its edges by name, which only the next rendering shows"""
	name = w.present(i)
	if name is None:
		return
	with sut('overriding styles'):
		d = {'nodes': {}, 'edges': []}
		if node_style:
			d['node_styles'] = {name: dict(node_style)}
		if colour:
			d['node_colours'] = {name: colour}
		edges = [e.id for e in w.g.get_node(name).outward_edges]
		# only edges of the dictionary can be named
		d['edges'] = [[a, b, {'id': i, 'if_edge_exists': 'ignore'}] for a, b, i in edges]
		if edges and edge_style:
			d['edge_styles'] = {x: dict(edge_style) for x in edges}
		if edges and colour:
			d['edge_colours'] = {x: colour for x in edges}
		w.g.append(d)


def in_place(w, i, what):
	name = w.present(i)
	if name is None:
		return
	with sut(f'changing {what} in place'):
		node = w.g.get_node(name)
		if what == 'value':
			if isinstance(node.value, list):
				node.value.append('changed')
			elif isinstance(node.value, dict):
				node.value['changed'] = 1
		elif what == 'edge value':
			for e in node.outward_edges:
				if isinstance(e.value, list):
					e.value.append('changed')
				elif isinstance(e.value, dict):
					e.value['changed'] = 1
		elif what == 'parameter':
			node.set('weight', 'changed')
		elif what == 'list parameter':
			for item in [node] + list(node.outward_edges):
				try:
					item['list'].append('changed')
				except LookupError:
					pass
		elif what == 'style' and node.style is not None:
			node.style.text_colour = '#010203'
			node.style.complement({'text_size': 77})
		elif what == 'edge style':
			for e in node.outward_edges:
				if e.style is not None:
					e.style.complement({'text_size': 77})
		elif what == 'freeze':
			node.freeze()
		elif what == 'background':
			w.g.background_colour = '#010203'


in_places = st.tuples(st.just('in place'), st.integers(0, 10), st.sampled_from(
	['value', 'value', 'value', 'edge value', 'edge value', 'list parameter', 'parameter', 'style', 'style', 'edge style', 'freeze', 'background']
)).map(list)
overriding = st.tuples(
	st.just('override'), st.integers(0, 10), node_overrides, edge_overrides, st.one_of(st.none(), hexes)
).map(list)
operation = st.one_of(ops(), ops(), in_places, overriding)


mutable = st.sampled_from([[], [1], {}, {'k': 1}, [1, [2]], {'k': [1]}, None, 1])


@st.composite
def cases(draw):
	n = draw(st.integers(1, 12))
	return {
		'graph': draw(st.one_of(styled_graphs(max_nodes=6, min_nodes=1), styled_graphs(max_nodes=6, min_nodes=1, values=mutable))), 'way': draw(st.sampled_from(DEEP + SHALLOW)), 'rendered': draw(st.booleans()),
		'change derived': draw(st.booleans()), 'ops': draw(st.lists(operation, min_size=n, max_size=n))
	}


@st.composite
def shared(draw):
	"""values that can be changed in place, in deep copies"""
	n = draw(st.integers(1, 6))
	return {
		'graph': draw(styled_graphs(max_nodes=5, min_nodes=1, values=mutable, overrides=False)), 'way': draw(st.sampled_from(DEEP)),
		'rendered': draw(st.booleans()), 'change derived': draw(st.booleans()), 'ops': draw(st.lists(in_places, min_size=n, max_size=n))
	}


@st.composite
def overrides(draw):
	"""graphs that have overriding styles and colours and are given more"""
	c = draw(styled_graphs(max_nodes=4, min_nodes=2))
	for k, n, values in (('node_styles', c['nodes'], node_overrides), ('edge_styles', c['edges'], edge_overrides), ('node_colours', c['nodes'], hexes), ('edge_colours', c['edges'], hexes)):
		if n and not c.get(k):
			c[k] = [[draw(st.integers(0, len(n) - 1)), draw(values)]]
	return {
		'graph': c, 'way': draw(st.sampled_from(DEEP + SHALLOW)), 'rendered': draw(st.booleans()),
		'change derived': draw(st.booleans()), 'ops': draw(st.lists(overriding, min_size=1, max_size=3))
	}


PLACES = ['graph node', 'graph edge', 'node', 'edge', 'override node', 'override edge']
styles_given = st.fixed_dictionaries({
	'node': node_overrides, 'edge': edge_overrides, 'objects': st.booleans(), 'rendered': st.booleans(), 'way': st.sampled_from(DEEP + SHALLOW),
	'used': st.lists(st.sampled_from(PLACES), min_size=1, unique=True).map(sorted), 'changed': st.lists(st.sampled_from(PLACES), min_size=1, unique=True).map(sorted)
})

STREAMS = [Stream('pairs', cases(), 600, 8000), Stream('overrides', overrides(), 150, 2000), Stream('changes in place', shared(), 300, 3000), Stream('styles given', styles_given, 250, 2500)]
