"""C21: shown labels and tooltips"""
from collections import Counter

from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import labels, plain_values
from styled import CONVERTERS, big_case, edge_id, hostile, make, parse_dot, safe_text, squeeze, styled_graphs

ID = 'C21'
RULE = (
	'A case is a graph whose nodes and edges have all combinations of label, value and tooltip (hostile text included), with or without label converters, '
	'followed by changes of labels and values between renders; after each step the labels and tooltips read back from the text, before and after '
	'styling, are compared with what the model says should be shown. Non-trivial: at least one label, edge value or tooltip is shown.'
)


def shown(text):
	return None if text is None else squeeze(str(text))


def node_text(name, p, convert):
	text = str(p['label']) if p['label'] else str(name)
	return shown(convert(text) if convert else text)


def edge_text(p, convert):
	if p['label'] is not None:
		return shown(convert(p['label']) if convert else p['label'])
	return shown(p['value'])


def judge(text, m, tips, converters, what):
	dot = parse_dot(text, what)
	same(len(dot.nodes), len(m.nodes), f'number of nodes of {what}')
	for (_, attributes), (name, p) in zip(dot.nodes, m.nodes.items()):
		same(shown(attributes.get('label')), node_text(name, p, converters[0]), f'label of node {name!r} in {what}')
		same(shown(attributes.get('tooltip')), shown(tips[0][name]), f'tooltip of node {name!r} in {what}')
	found = Counter((squeeze(t), squeeze(h), shown(a.get('label')), shown(a.get('tooltip'))) for t, h, a in dot.edges)
	expected = Counter(
		(shown(i[0]), shown(i[1]), edge_text(p, converters[1]), shown(tips[1][i])) for i, p in m.edges.items()
	)
	if found != expected:
		key = repr
		same(
			sorted((found - expected).items(), key=key), sorted((expected - found).items(), key=key),
			f'edges (start, end, label, tooltip) of {what} that should not be there / are missing'
		)


def run(case, rec):
	g, m = make(case['graph'])
	settings = case['graph']['settings']
	converters = [CONVERTERS.get(settings.get(k)) for k in ('node_label_converter', 'edge_label_converter')]
	tips = [
		{n['name']: n['tooltip'] for n in case['graph']['nodes']}, {edge_id(case['graph'], e): e['tooltip'] for e in case['graph']['edges']}
	]

	def look(what):
		with sut(f'text of {what}'):
			text = g.get_graphviz_str()
		judge(text, m, tips, converters, f'{what}, text')
		with sut(f'rendering {what}'):
			text = g.render().source
		judge(text, m, tips, converters, f'{what}, rendered')
		with sut('asking for shown labels'):
			for name, p in m.nodes.items():
				same(shown(g.get_node(name).display_label()), node_text(name, p, converters[0]), f'display_label of {name!r}')
			for i, e in g.edges_dict.items():
				same(shown(e.display_label_or_value()), edge_text(m.edges[i], converters[1]), f'display_label_or_value of {i}')
				same(e.label, m.edges[i]['label'], f'label of {i}, which is not converted')

	look('the graph')
	frozen = set(case['graph']['nodes'][k % len(case['graph']['nodes'])]['name'] for k in case['graph']['frozen']) if case['graph']['nodes'] else set()
	for kind, k, label, value in case['changes']:
		if kind == 'node' and m.nodes:
			name = list(m.nodes)[k % len(m.nodes)]
			with sut('changing a node'):
				g.get_node(name).label = label
				if name not in frozen:
					g.get_node(name).value = value
					m.nodes[name]['value'] = value
			m.nodes[name]['label'] = label
		elif kind == 'edge' and m.edges:
			i = list(m.edges)[k % len(m.edges)]
			with sut('changing an edge'):
				edge = g.get_node(i[0]).get_outward_edge(i)
				edge.label = label
				if not edge.is_frozen:
					edge.value = value
					m.edges[i]['value'] = value
			m.edges[i]['label'] = label
		elif kind == 'again' and m.nodes:
			name = list(m.nodes)[k % len(m.nodes)]
			with sut('adding the node again'):
				g.add_node(name, label=label, if_node_exists='ignore')
			if label is not None:
				m.nodes[name]['label'] = label
	if case['changes']:
		look('the changed graph')
	rec.nontrivial(
		any(p['label'] for p in m.nodes.values()) or any(t is not None for x in tips for t in x.values())
		or any(p['label'] is not None or p['value'] is not None for p in m.edges.values())
	)
	rec.label(*(f'{k} converter' for k, c in zip(('node', 'edge'), converters) if c), *(
		'edge shows ' + ('label' if p['label'] is not None else 'nothing' if p['value'] is None else 'value') for p in m.edges.values()
	))


text_labels = st.one_of(st.none(), labels, safe_text, hostile.filter(bool))
# shown as text
other_labels = st.sampled_from([0, 7, -3, 2.5, True])
tips = st.sampled_from([0, 12, 'a\rb', ''])
edge_values = st.one_of(st.none(), plain_values, st.sampled_from([0, 0.0, False, '', 1.5, [], 'value', -3]), hostile)


@st.composite
def cases(draw):
	case = draw(styled_graphs(max_nodes=6, min_nodes=1))
	for k in ('node_label_converter', 'edge_label_converter'):
		case['settings'].pop(k, None)
		if draw(st.booleans()):
			case['settings'][k] = draw(st.sampled_from(sorted(CONVERTERS)))
	for n in case['nodes']:
		n['label'] = draw(st.one_of(text_labels, text_labels, text_labels, other_labels.filter(bool)))
		n['tooltip'] = draw(st.one_of(st.none(), safe_text, hostile, tips))
	for e in case['edges']:
		e['label'] = draw(st.one_of(st.none(), text_labels, st.just(''), other_labels))
		e['value'] = draw(edge_values)
		e['tooltip'] = draw(st.one_of(st.none(), safe_text, hostile, tips))
	changes = st.tuples(st.sampled_from(['node', 'edge', 'edge', 'again']), st.integers(0, 20), text_labels, edge_values).map(list)
	return {'graph': case, 'changes': draw(st.lists(changes, max_size=4))}


STREAMS = [Stream('labels', cases(), 700, 10000)]


def FIXED(tier):
	for n in (60, 250):
		for settings in ({}, {'node_label_converter': 'bracket', 'edge_label_converter': 'upper'}):
			changes = [['node', n - 1, 'changed', 'changed'], ['node', n // 2, None, 5], ['edge', n, 'changed', 7], ['edge', 1, None, None], ['again', n - 2, 'given again', None]]
			yield {'graph': big_case(n, settings), 'changes': changes}
