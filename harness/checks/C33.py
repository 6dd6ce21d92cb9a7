"""C33: arrows of edges"""
import math

from hypothesis import strategies as st

from core import Stream, check, same, sut
from styled import big_case, edge_id, make, parse_dot, settings_to_kwargs, styled_graphs
from world import Number

ID = 'C33'
RULE = (
	'A case is a graph whose edges have values (numbers of any size, sign and class, text, lists, booleans, nothing), own styles, overrides or none, rendered '
	'with either stylist, copied or converted in between and changed afterwards; the size of every arrow, read from the text, is compared with half the '
	'number that the edge has as value, a half without one, or what a style says. Non-trivial: two edges with different numbers as values.'
)

numbers = st.one_of(
	st.integers(-5, 20), st.floats(0, 10, allow_nan=False), st.sampled_from([0, 1, 2, 0.5, 0.0, 3, 1000, 10 ** 9, 0.001, -1, 1.5]),
	st.floats(-1e6, 1e6, allow_nan=False, allow_infinity=False)
)
values = st.one_of(numbers, numbers, st.none(), st.sampled_from(['2', 'x', [2], {}, '', True]))


class Real(float):
	"""a number of a user's own kind, as other libraries have"""


def arrow(g, i, what):
	with sut(f'text of {what}'):
		text = g.get_node(i[0]).get_outward_edge(i).get_graphviz_str()
	found = parse_dot('digraph {' + text + '}', what).edges[0][2].get('arrowsize')
	try:
		return float(found)
	except (TypeError, ValueError):
		return found


def expected_of(value):
	return 0.5 * value if isinstance(value, (int, float)) else 0.5


def compare(g, m, styled, wanted, what):
	for i in m.edges:
		found = arrow(g, i, f'edge {i} of {what}')
		target = wanted[i]
		check(
			isinstance(found, float) and math.isclose(found, target, rel_tol=1e-6, abs_tol=1e-9),
			lambda: f'arrow of edge {i} of {what}: got {found!r}, expected {target!r} ({styled.get(i, "automatic")}; value {m.edges[i]["value"]!r})'
		)


def run(case, rec):
	from abstract import Graph
	c = case['graph']
	g, m = make(c)
	if case.get('own'):
		# numbers of a class of the user's own
		with sut('setting values'):
			for e in g.edges:
				if type(e.value) in (int, float) and not e.is_frozen:
					e.value = Number(e.value) if type(e.value) is int else Real(e.value)
	styled = {}
	for e in c['edges']:
		if e['style'] is not None:
			styled[edge_id(c, e)] = c['epalette'][e['style'] % len(c['epalette'])].get('arrow_size', 0.5)
	for i, style in c['edge_styles']:
		if 'arrow_size' in style:
			styled[edge_id(c, c['edges'][i])] = style['arrow_size']
	wanted = {i: styled[i] if i in styled else expected_of(p['value']) for i, p in m.edges.items()}
	with sut('copying'):
		if case['way'] == 'copy':
			g = g.copy()
		elif case['way'] == 'convert':
			g = Graph(g, stylist=c['settings'].get('stylist', 'pensieve'))
		elif case['way'] == 'convert twice':
			g = Graph(Graph(g))
	with sut('rendering'):
		text = g.render().source
	compare(g, m, styled, wanted, 'the graph')
	numbers_ = [p['value'] for i, p in m.edges.items() if i not in styled and isinstance(p['value'], (int, float))]
	# more edges later; those that are there keep their arrows
	names = list(m.nodes)
	with sut('adding edges'):
		for k, value in enumerate(case['later']):
			if names:
				s, e = names[k % len(names)], names[(k * 3 + 1) % len(names)]
				i = (s, e, f'later {k}')
				g.connect(s, e, id=i[2], value=value)
				m.add_edge(s, e, i[2], value=value)
				wanted[i] = expected_of(value)
		later = g.render().source
		same(g.render().source, later, 'text rendered again')
	compare(g, m, styled, wanted, 'the graph after adding edges')
	rec.nontrivial(len(set(numbers_)) >= 2)
	rec.label(case['way'], c['settings'].get('stylist', 'pensieve'))


@st.composite
def cases(draw):
	c = draw(styled_graphs(max_nodes=6, values=values, min_nodes=1))
	for k in ('edge_style', 'node_style', 'style_overwrite_allowed'):
		c['settings'].pop(k, None)
	return {
		'graph': c, 'way': draw(st.sampled_from(['none', 'none', 'copy', 'convert', 'convert twice'])),
		'own': draw(st.integers(0, 4)) == 0, 'later': draw(st.lists(values, max_size=3))
	}


STREAMS = [Stream('arrows', cases(), 700, 10000)]


def FIXED(tier):
	for n in (40, 150):
		for stylist in ('pensieve', 'random'):
			for way in ('none', 'copy', 'convert'):
				yield {'graph': big_case(n, {'stylist': stylist}, numbers=True), 'way': way, 'later': [7, 0.5, None]}
