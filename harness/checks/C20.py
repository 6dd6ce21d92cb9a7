"""C20: the text for Graphviz lists exactly what the graph holds"""
from collections import Counter

from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import exhaustive, joined, programs, shapes
from styled import big_case, canonical, count_with_graphviz, edge_id, graph_settings, hostile, make, parse_dot, same_text, styled_graphs
from world import World, build

ID = 'C20'
RULE = (
	'A case is a graph (any strings as names, labels, tooltips and settings; or the result of a history; or a shape) turned into text with and '
	'without styling; the text is read back by an independent reader of the DOT grammar and by Graphviz itself (gc counts nodes and edges, dot -Tcanon '
	'for a sample) and the statements are compared with the model: nodes in order, edges as a multiset, ends that name listed nodes, the strict flag. '
	'Non-trivial: at least 2 nodes and an edge, or a name with a character that has a meaning in DOT.'
)


def judge(text, m, strict, what, sample):
	dot = parse_dot(text, what)
	same(dot.strict, bool(strict), f'strict flag of {what}')
	same(len(dot.nodes), len(m.nodes), f'number of node statements of {what}')
	ids = {}
	for (shown, attributes), name in zip(dot.nodes, m.nodes):
		same_text(shown, name, f'name of a node of {what}')
		ids[name] = shown
	same(len(set(ids.values())), len(ids), f'number of different node ids of {what}')
	found = Counter((t, h) for t, h, _ in dot.edges)
	expected = Counter((ids[s], ids[e]) for s, e, _ in m.edges)
	if found != expected:
		same(sorted((found - expected).items()), sorted((expected - found).items()), f'edges of {what} that should not be there / are missing')
	check(not dot.duplicate_attributes, f'attributes given twice in {what}: {dot.duplicate_attributes}')
	counts = count_with_graphviz(text)
	# Graphviz itself loses the newline of some names that are nearly nothing else
	if counts is not None and not any('\n' in str(n) for n in m.nodes):
		pairs = len(set((str(s), str(e)) for s, e, _ in m.edges)) if strict else len(m.edges)
		same(counts, (len(m.nodes), pairs), f'nodes and edges that Graphviz counts in {what}')
	if sample:
		canonical(text)


def run(case, rec):
	strict = False
	if 'graph' in case:
		g, m = make(case['graph'])
		strict = case['graph']['settings'].get('strict', False)
	elif 'program' in case:
		w = World(case['program']['names'], case['program'].get('args'), strict=case['strict'])
		w.run(case['program'])
		g, m, strict = w.g, w.m, case['strict']
	else:
		g, m = build(dict(case['shape'], args={k: v for k, v in case['shape'].get('args', {}).items() if k != 'strict'}))
	with sut('text without styles'):
		text = g.get_graphviz_str()
	judge(text, m, strict, 'the text without styles', False)
	with sut('source without styles'):
		same(g.get_graphviz_source().source, text if text.endswith('\n') else text + '\n', 'the source without styles')
	with sut('rendering'):
		text = g.render().source
	judge(text, m, strict, 'the rendered text', case.get('sample', False))
	special = any(c in str(n) for n in m.nodes for c in '"\\\n<>{}[];-')
	rec.nontrivial((len(m.nodes) >= 2 and len(m.edges) >= 1) or special)
	rec.label('strict' if strict else 'not strict', 'special characters' if special else 'ordinary characters', f'{min(len(m.edges), 10)}+ edges' if len(m.edges) >= 10 else 'few edges')


@st.composite
def hostile_graphs(draw):
	case = draw(styled_graphs(max_nodes=5, settings=graph_settings, min_nodes=1))
	for n in case['nodes']:
		for k in ('label', 'tooltip'):
			if draw(st.booleans()):
				n[k] = draw(hostile)
	for e in case['edges']:
		for k in ('label', 'tooltip', 'value'):
			if draw(st.booleans()):
				e[k] = draw(hostile)
	names = draw(st.lists(hostile, min_size=len(case['nodes']), max_size=len(case['nodes']), unique=True))
	for n, name in zip(case['nodes'], names):
		n['name'] = name
	for styles in (case['palette'], case['epalette'], [x for _, x in case['node_styles']], [x for _, x in case['edge_styles']]):
		for style in styles:
			if draw(st.integers(0, 3)) == 0:
				style['font'] = draw(hostile)
	for k in ('label', 'tooltip', 'rank_word'):
		if draw(st.booleans()):
			text = draw(hostile)
			# a label of the graph in angle brackets is HTML
			if not (text.startswith('<') or text.endswith('>')):
				case['settings'][k] = text
	return case


sample = st.integers(0, 4).map(lambda x: x == 0)
STREAMS = [
	Stream('any strings', st.fixed_dictionaries({'graph': hostile_graphs(), 'sample': sample}), 400, 6000),
	Stream('graphs with settings', st.fixed_dictionaries({'graph': styled_graphs(), 'sample': sample}), 200, 3000),
	# 1 and '1' are written alike
	Stream('histories', st.fixed_dictionaries({
		'program': programs(max_ops=30, styles=('plain', 'ints', 'digits', 'weird', 'text', 'alike', 'big')), 'strict': st.booleans(), 'sample': sample
	}), 250, 3000),
	Stream('shapes', st.fixed_dictionaries({'shape': shapes(max_nodes=14, styles=('plain', 'digits', 'ints', 'weird', 'text', 'ambiguous', 'alike', 'big')), 'sample': sample}), 200, 3000),
]


def extra(tier, seed):
	for n in range(0, 4 if tier == 'quick' else 5):
		for shape in exhaustive(n, n < 3):
			yield f'all graphs of {n} nodes', {'shape': shape}
	for shape in joined():
		yield 'names put together', {'shape': shape}


def FIXED(tier):
	for n in (60, 300) if tier == 'quick' else (60, 120, 300, 1000):
		for settings in ({}, {'strict': True, 'stylist': 'random'}):
			yield {'graph': big_case(n, settings), 'sample': n < 100}
