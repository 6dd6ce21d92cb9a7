"""C10: copies are faithful"""
import copy
import pickle

from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import joined_programs, programs, rewired
from styled import MANY, big_case, make, styled_graphs
from large import check_large, large_cases, large_graph
from world import World, check_state, fingerprint

ID = 'C10'
RULE = (
	'A case is a graph with random settings (all constructor arguments, label converters, colour schemes, stylists, global styles), payloads, '
	'parameters, tooltips, styles and overrides, optionally rendered first, or the result of a history, or large (up to 3,000 nodes, 10,000 when thorough), or one that changes between copies; it is copied, deep-copied, passed to copy.copy, or pickled with '
	'every protocol, once or twice; structure, payloads, styles, settings, text for Graphviz before and after rendering, and later behaviour are '
	'compared with the original. Non-trivial: at least 2 nodes, an edge, and a setting, style, override or parameter.'
)

WAYS = ['copy', 'deepcopy', 'copy.copy', 'pickle 2', 'pickle 3', 'pickle 4', 'pickle 5', 'filter']


def duplicate(g, way):
	if way == 'copy':
		return g.copy()
	elif way == 'deepcopy':
		return copy.deepcopy(g)
	elif way == 'copy.copy':
		return copy.copy(g)
	elif way == 'filter':
		return g.filter(filter_type='exclude')
	return pickle.loads(pickle.dumps(g, protocol=int(way[-1])))


def large(case, rec):
	g, m = large_graph(case)
	before = fingerprint(g)
	for way in ('copy', 'deepcopy', 'pickle 2', 'pickle 5'):
		with sut(f'{way} of a {case["long"]} of {case["n"]} nodes'):
			c = duplicate(g, way)
		check_large(c, m, f'the copy ({way})')
		with sut('comparing'):
			check(fingerprint(c) == before, f'the copy ({way}) of a {case["long"]} of {case["n"]} nodes is not the same')
			check(c.is_similar_to(g) is True, 'the copy is not similar to the original')
	rec.nontrivial()
	rec.label(f'{case["long"]} of {case["n"]}')


def changed(case, rec):
	"""a graph that changes between copies, which are kept and stay what they were"""
	world = World(case['program']['names'], case['program']['args'])
	kept = []

	def ask(w):
		for way in case['ways']:
			what = f'the copy ({way}) after {w.log}'
			with sut(what):
				c = duplicate(w.g, way)
				check(c is not w.g and not any(c is x for x, _, _ in kept), f'{what} is a graph there already was')
			check_state(c, w.m, what)
			with sut(f'comparing {what}'):
				before = fingerprint(w.g)
				after = fingerprint(c)
				for k in before:
					same(after[k], before[k], f'{k} of {what}')
			kept.append((c, after, what))

	world.run(case['program'], ask)
	for c, before, what in kept:
		with sut(f'asking {what} at the end'):
			after = fingerprint(c)
		for k in before:
			same(after[k], before[k], f'{k} of {what}, at the end of {world.log}')
	check_state(world.g, world.m, f'the graph that was copied during {world.log}')
	rec.nontrivial(len(kept) >= 2 and len(world.m.nodes) >= 2)
	rec.label(*case['ways'])


def FIXED(tier):
	for k, way in enumerate(WAYS):
		yield {'graph': big_case(60 + 20 * k, {'stylist': 'random', 'strict': False} if k % 2 else {}), 'rendered': k % 3 == 0, 'ways': [way]}
	# a scheme of more colours than the library has, with enough roots to use them all twice
	thing = {'label': None, 'value': None, 'tooltip': None, 'style': None, 'params': {}}
	for k, way in enumerate(WAYS):
		for stylist in ('pensieve', 'random'):
			yield {'graph': {
				'settings': {'colour_scheme': 'scheme:' + ','.join(MANY), 'stylist': stylist}, 'nodes': [dict(thing, name=f'n{i}') for i in range(2 * len(MANY))],
				'edges': [dict(thing, start=0, end=1, id=None)], 'palette': [{}], 'epalette': [{}],
				'kind': 'roots', 'node_styles': [], 'edge_styles': [], 'as_objects': False, 'frozen': [], 'frozen_edges': []
			}, 'rendered': False, 'ways': [way]}
	yield from large_cases(tier, orders=(True,))
	for k, program in enumerate(joined_programs()):
		for way in WAYS[k % 2::2]:
			yield {'program': program, 'rendered': k % 3 == 0, 'ways': [way]}


def run(case, rec):
	if 'long' in case:
		return large(case, rec)
	if 'changes' in case:
		return changed(case, rec)
	if 'graph' in case:
		g, m = make(case['graph'])
		rich = bool(case['graph']['settings']) or any(n['style'] is not None or n['params'] for n in case['graph']['nodes'])
	else:
		w = World(case['program']['names'], case['program'].get('args'))
		w.run(case['program'])
		g, m = w.g, w.m
		rich = any(p['params'] or p['label'] or p['value'] is not None for p in list(m.nodes.values()) + list(m.edges.values()))
	if case['rendered']:
		with sut('rendering'):
			g.render()
	with sut('asking the original'):
		before = fingerprint(g)
		plain = g.get_graphviz_str()
		header = g.get_graphviz_header(direction='BT', height=3, width=4, pad=0.5)
		tree = g.get_tree_str()
	c = g
	for way in case['ways']:
		with sut(f'copying ({way})'):
			c = duplicate(c, way)
	check(c is not g and type(c) is type(g), f'the copy is {type(c)}')
	check_state(c, m, f'the copy ({case["ways"]})')
	with sut('asking the copy'):
		after = fingerprint(c)
		for k in before:
			same(after[k], before[k], f'{k} of the copy')
		same(c.get_graphviz_str(), plain, 'text for Graphviz of the copy')
		same(c.get_graphviz_header(direction='BT', height=3, width=4, pad=0.5), header, 'header of the copy')
		same(c.get_tree_str(), tree, 'tree of the copy')
		check(c.is_similar_to(g) is True and g.is_similar_to(c) is True, 'the copy is not similar to the original')
		for x, y in zip(g.nodes, c.nodes):
			check(x is not y, f'node {x} is shared with the copy')
			same(y.display_label(), x.display_label(), f'shown label of {x}')
	same_fingerprint = fingerprint(g)
	same(same_fingerprint, before, 'the original after copying')
	# both go on in the same way
	with sut('rendering the original'):
		expected = g.render().source
	with sut('rendering the copy'):
		found = c.render().source
	same(found, expected, 'rendered text of the copy')
	removed = [n['name'] for n in case.get('graph', {}).get('nodes', []) if n['name'] not in m.nodes]
	with sut('changing both'):
		for h in (g, c):
			for name in removed:
				h.add_node(name)
			h.add_node('a new node', value=1)
			if m.nodes:
				h.connect('a new node', list(m.nodes)[0], id='new')
		same(fingerprint(c), fingerprint(g), 'the copy after the same change')
		same(c.render().source, g.render().source, 'rendered text after the same change')
	for x, y in zip(g.nodes, c.nodes):
		if x.is_frozen:
			with raises('changing the value of a frozen node of a copy', RuntimeError):
				y.value = 'changed'
	for x, y in zip(g.edges, c.edges):
		if x.is_frozen:
			with raises('changing the value of a frozen edge of a copy', RuntimeError):
				y.value = 'changed'
	rec.nontrivial(len(m.nodes) >= 2 and len(m.edges) >= 1 and rich)
	rec.label(*case['ways'])


ways = st.lists(st.sampled_from(WAYS), min_size=1, max_size=2)
STREAMS = [
	Stream('graphs with settings', st.fixed_dictionaries({'graph': styled_graphs(removals=True), 'rendered': st.booleans(), 'ways': ways}), 500, 6000),
	Stream('histories', st.fixed_dictionaries({'program': programs(max_ops=25), 'rendered': st.booleans(), 'ways': ways}), 200, 2500),
	Stream('copied after changes', st.fixed_dictionaries({'changes': st.just(True), 'program': rewired(payloads=True), 'ways': ways}), 120, 1500),
]
