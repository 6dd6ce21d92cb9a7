"""C36: graphs of a user's own class"""
import copy
import pickle

from hypothesis import strategies as st

import C17
from core import Stream, check, same, sut
from gen import programs
from styled import big_case, make, parse_dot, styled_graphs
from world import World, check_state, fingerprint, same_set

ID = 'C36'
RULE = (
	'A case is (derived) a history of operations, or a graph with settings and styles, on a graph of a class that a user derived from Graph, from which '
	'others are made in one to three of twelve ways, or (made) a graph made by one of the class methods from generated arguments. The result is of the '
	"user's class, has its methods, holds what the model says, renders like a Graph with the same content, and takes part in sums with a Graph, "
	'of which the left one decides the class. Non-trivial: at least 2 nodes and an edge.'
)

WAYS = ['copy', 'deepcopy', 'copy.copy', 'pickle', 'filter', 'filter all', 'add', 'add plain', 'own(g)', 'own(obj=g)', 'append', 'from_dict']
CLASSES = {}


def classes():
	"""classes of a user: one with a method, one derived from that, and a second one beside it"""
	global Own, Further, Other
	if not CLASSES:
		from abstract import Graph

		class Own(Graph):
			def number_of_nodes(self):
				return len(self.nodes)

		class Further(Own):
			colour = 'blue'

			def number_of_nodes(self):
				return super().number_of_nodes()

		class Other(Graph):
			def __init__(self, *args, **kwargs):
				super().__init__(*args, **kwargs)
				self.made = True

		for c in (Own, Further, Other):
			c.__qualname__ = c.__name__
			CLASSES[c.__name__] = c
	return CLASSES


def derive(g, way, cls):
	from abstract import Graph
	return {
		'copy': lambda: g.copy(), 'deepcopy': lambda: copy.deepcopy(g), 'copy.copy': lambda: copy.copy(g),
		'pickle': lambda: pickle.loads(pickle.dumps(g)), 'filter': lambda: g.filter(filter_type='exclude'),
		'filter all': lambda: g.filter(nodes=[n.name for n in g.nodes]), 'add': lambda: g + cls(), 'add plain': lambda: g.add(Graph()),
		'own(g)': lambda: cls(g), 'own(obj=g)': lambda: cls(obj=g), 'append': lambda: cls().append(g), 'from_dict': lambda: cls.from_dict(g.__graph__())
	}[way]()


def own(g, cls, what):
	check(type(g) is cls, lambda: f'{what} is a {type(g)}, not a {cls}')
	if cls.__name__ != 'Other':
		with sut(what):
			same(g.number_of_nodes(), len(g.nodes), f'a method of the class of {what}')


def content(g, m, what):
	"""conversions and sums list edges by start nodes"""
	with sut(what):
		same([n.name for n in g.nodes], list(m.nodes), f'nodes of {what}')
		same_set([e.id for e in g.edges], list(m.edges), f'edges of {what}')
		for n in g.nodes:
			check(n.graph is g, lambda: f'node {n} of {what} is not in it')
			same(n.value, m.nodes[n.name]['value'], f'value of {n} of {what}')
			same_set([c.name for c in n.children], [e[1] for e in m.edges if e[0] == n.name and type(e[0]) is type(n.name)], f'children of {n} of {what}')


def run(case, rec):
	from abstract import Graph
	cls = classes()[case['class']]
	rec.label(case['class'])
	if case['kind'] == 'made':
		return made(case, cls, rec)
	if 'program' in case:
		w = World(case['program']['names'], case['program'].get('args'), graph_class=cls)
		w.run(case['program'])
		g, m = w.g, w.m
		check_state(g, m, f'a graph of class {cls.__name__}')
	else:
		g, m = make(case['graph'], graph_class=cls)
	own(g, cls, 'the graph')
	with sut('rendering'):
		for way in case['ways']:
			before = fingerprint(g)
			c = derive(g, way, cls)
			same(fingerprint(g), before, f'the graph that another was made from ({way})')
			g = c
			own(g, cls, f'the result of {way}')
			rec.label(way)
		content(g, m, f'the result of {case["ways"]}')
		total = Graph() + g
		check(type(total) is Graph, lambda: f'the sum of a Graph and a {cls.__name__} is a {type(total)}')
		content(total, m, f'the sum of a Graph and a {cls.__name__}')
		check(g.is_similar_to(g.copy()) is True, 'not similar to a copy')
		parse_dot(g.render().source)
	rec.nontrivial(len(m.nodes) >= 2 and len(m.edges) >= 1)


def made(case, cls, rec):
	from abstract import Graph

	def both(make_one, what):
		with sut(f'{what} of {cls.__name__}'):
			a = make_one(cls)
		with sut(what):
			b = make_one(Graph)
		own(a, cls, what)
		with sut(f'comparing {what}'):
			same(fingerprint(a), fingerprint(b), f'{what} of {cls.__name__} and of Graph')
			same(a.render().source, b.render().source, f'the text of {what} of {cls.__name__} and of Graph')
		return a

	rows, way = case['rows'], case['way']
	rec.label(way)
	if way == 'from_lists':
		g = both(lambda k: k.from_lists(start=[r[0] for r in rows], end=[r[1] for r in rows], edge=[r[2] for r in rows], strict=case['strict']), way)
	elif way == 'from_object':
		n = 1 + max([0] + [x for r in rows for x in r[3:]])
		obj = C17.things({'hashes': list(range(n)), 'edges': [r[3:] for r in rows]})[0]
		g = both(lambda k: k.from_object(obj, **case['limits'], strict=case['strict']), way)
	elif way == 'from_indented_text':
		lines, level = [], -1
		for r in rows:
			level = min(level + 1, r[3])
			lines.append('\t' * level + r[0])
		g = both(lambda k: k.from_indented_text('the root', lines, **({'indent': '\t'} if case['strict'] else {})), way)
	elif way == 'from_dict':
		names = list(dict.fromkeys(x for r in rows for x in r[:2]))
		pairs = list(dict.fromkeys((r[0], r[1]) for r in rows))
		g = both(lambda k: k.from_dict({'nodes': names, 'edges': pairs, 'strict': case['strict']}), way)
	else:
		g = both(lambda k: k.random(num_nodes=len(rows), seed=case['seed'], strict=case['strict'], cycle=case['seed'] % 2 == 0, **case['random']), way)
	rec.nontrivial(len(g.nodes) >= 2 and len(g.edges) >= 1)


kinds = st.sampled_from(['Own', 'Further', 'Other'])
ways = st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)
small = st.integers(0, 4)
rows = st.lists(st.tuples(st.sampled_from('abcd'), st.sampled_from('abcd'), st.sampled_from([None, 'x', 'y']), small, small).map(list), max_size=7, unique_by=lambda r: (r[3], r[4]))
STREAMS = [
	Stream('histories', st.fixed_dictionaries({'kind': st.just('derived'), 'class': kinds, 'program': programs(max_ops=15, max_names=6), 'ways': ways}), 200, 2500),
	Stream('graphs with settings', st.fixed_dictionaries({'kind': st.just('derived'), 'class': kinds, 'graph': styled_graphs(max_nodes=6), 'ways': ways}), 200, 2500),
	Stream('class methods', st.fixed_dictionaries({
		'kind': st.just('made'), 'class': kinds, 'way': st.sampled_from(['from_lists', 'from_object', 'from_indented_text', 'from_dict', 'random']),
		'rows': rows, 'strict': st.booleans(), 'seed': st.integers(0, 50),
		'limits': st.fixed_dictionaries({}, optional={'max_depth': st.integers(0, 3), 'max_height': st.integers(0, 3)}),
		'random': st.fixed_dictionaries({}, optional={'start_index': st.integers(0, 12), 'connection_probability': st.sampled_from([0, 0.3, 1]), 'ordering': st.booleans()})
	}), 300, 3000),
]


def FIXED(tier):
	for k, way in enumerate(WAYS):
		yield {'kind': 'derived', 'class': ['Own', 'Further', 'Other'][k % 3], 'graph': big_case(80 + k), 'ways': [way]}
