"""C15: graphs from lists"""
from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import labels, name_pools
from styled import parse_dot
from world import Model, check_state

ID = 'C15'
RULE = (
	'A case is three lists of equal length: start names, end names (any order, repeated pairs, self-loops) and edge labels (texts, numbers, none); the graph is compared with '
	'one edge per row, numbered by row, and nodes in order of first appearance. Non-trivial: a pair appears in two rows, or at least 4 rows.'
)


def run(case, rec):
	from abstract import Graph
	names = case['names']
	start = [names[a % len(names)] for a, _, _ in case['rows']]
	end = [names[b % len(names)] for _, b, _ in case['rows']]
	edge = [label for _, _, label in case['rows']]
	m = Model()
	for k, (s, e, label) in enumerate(zip(start, end, edge)):
		for n in (s, e):
			if n not in m.nodes:
				m.add_node(n)
		m.add_edge(s, e, k, label=label)
	if case.get('tuples'):
		start, end, edge = tuple(start), tuple(end), tuple(edge)
	given = start[:], end[:], edge[:]
	with sut(f'from_lists({given})'):
		kwargs = {} if case['strict'] is None else {'strict': case['strict']}
		if case['positional']:
			g = Graph.from_lists(start, end, edge, **kwargs)
		else:
			g = Graph.from_lists(start=start, end=end, edge=edge, **kwargs)
		check(isinstance(g, Graph), 'from_lists did not return a Graph')
	check_state(g, m, f'from_lists{given}'[:300], absent=names)
	same((start, end, edge), given, 'the lists given')
	with sut('the text for Graphviz'):
		# rendering takes long for large graphs
		dot = parse_dot(g.render().source if len(edge) <= 100 else g.get_graphviz_str())
	same(dot.strict, bool(case['strict']), 'strict')
	same(len(dot.edges), len(edge), 'edges in the rendered text')
	pairs = list(zip(start, end))
	rec.nontrivial(len(set(pairs)) < len(pairs) or len(pairs) >= 4)
	rec.label(f'rows {min(len(pairs) // 4 * 4, 20)}+')


# labels need not be text
row_labels = st.one_of(labels, labels, st.sampled_from(['', 0, 1, -1, 0.5, 0.0, False, True]))


@st.composite
def cases(draw, max_rows=25):
	n = draw(st.integers(0, max_rows))
	names = draw(name_pools(max_size=10, styles=('plain', 'digits', 'ints', 'mixed', 'weird', 'text', 'alike', 'big')))
	i = st.integers(0, len(names) - 1)
	return {
		'names': names, 'rows': [list(x) for x in draw(st.lists(st.tuples(i, i, row_labels), min_size=n, max_size=n))],
		'strict': draw(st.sampled_from([None, True, False])), 'positional': draw(st.booleans()), 'tuples': draw(st.booleans())
	}


def FIXED(tier):
	n = 350 if tier == 'quick' else 1000
	base = {'names': [f'n{i}' for i in range(n)], 'strict': None, 'positional': True}
	yield dict(base, rows=[[i, i + 1, None if i % 3 else f'row {i}'] for i in range(n)])
	yield dict(base, rows=[[i, 0, i] for i in range(n)][::-1])
	yield dict(base, names=['a', 'b', 'c'], rows=[[i * i, i // 2, None] for i in range(n)])


STREAMS = [Stream('rows', cases(), 700, 8000), Stream('many rows', cases(max_rows=80), 50, 800)]
