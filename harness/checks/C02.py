"""C02: adding what exists already"""
import warnings

from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import edge_ids, hows, idx, joined, labels, params, plain_values, policies, programs
from styled import hexes
from world import World, check_state, same_value

ID = 'C02'
RULE = (
	'A case is a history of operations followed by a list of additions of names and edges that exist, each with a policy (default, warn, error, '
	'ignore) and optional label, value, style (for what has none), tooltip and parameters; after each, the identity of the result, the warnings, the styles, and the whole graph are compared with a model '
	'in which only given fields change. Non-trivial: at least one addition met an existing node or edge and gave a label or value.'
)


def rich(w, parts):
	"""adds nodes and edges with parameters and tooltips"""
	new = []
	w.tooltips = {}
	for i, (payload, params, tooltip, j, k) in enumerate(parts):
		name = f'rich {i}'
		kwargs = {**params, **({} if tooltip is None else {'tooltip': tooltip})}
		with sut(f'add_node({name!r}, **{payload}, **{kwargs})'):
			node = w.g.add_node(name, **payload, **kwargs)
		w.m.add_node(name, params=params, **payload)
		w.names = list(w.names) + [name]
		new.append(name)
		ends = (new[j % len(new)], new[k % len(new)], None)
		w.tooltips[name] = (node, tooltip)
		if ends not in w.m.edges:
			with sut(f'connect{ends} with {kwargs}'):
				edge = w.g.connect(ends[0], ends[1], **payload, **kwargs)
			w.m.add_edge(*ends, params=params, **payload)
			w.tooltips[ends] = (edge, tooltip)


def check_tooltips(w, what):
	for name, (thing, tooltip) in w.tooltips.items():
		with sut(f'{what}: text for Graphviz of {name!r}'):
			text = thing.get_graphviz_str()
		check((f'tooltip="{tooltip}"' in text) if tooltip is not None else ('tooltip=' not in text), lambda: (
			f'{what}: the tooltip of {name!r} was {tooltip!r}, the text is {text!r}'
		))


def with_style(extra, style, as_object, styles, key, policy, edge):
	"""a style can be given to what has none"""
	if style is None or styles[key] is not None:
		return extra
	from abstract.styling.EdgeStyle import EdgeStyle
	from abstract.styling.NodeStyle import NodeStyle
	with sut(f'making a style of {style}'):
		made = (EdgeStyle if edge else NodeStyle)(**style)
		if policy != 'error':
			styles[key] = made.get_graphviz_str()
	return {**extra, 'style': made if as_object else dict(style)}


def style_texts(w):
	with sut('reading the styles'):
		return {
			**{n.name: None if n.style is None else n.style.get_graphviz_str() for n in w.g.nodes},
			**{e.id: None if e.style is None else e.style.get_graphviz_str() for e in w.g.edges}
		}


def run(case, rec):
	w = World(case['program']['names'], case['program'].get('args'))
	w.run(case['program'])
	rich(w, case['rich'])
	before_payload = 0
	styles = style_texts(w)
	for kind, i, payload, policy, how, extra, style, as_object in case['again']:
		if kind == 'object':
			# a node of the graph itself is there already, nothing is said or done
			name = w.present(i)
			if name is None:
				continue
			with sut(f'adding the node {name!r} of the graph to the graph'), warnings.catch_warnings(record=True) as caught:
				warnings.simplefilter('always')
				node = w.g.get_node(name)
				result = w.g.add_node(node)
			check(result is node, f'adding the node {name!r} of the graph to the graph gave {result!r}')
			check(not caught, f'adding the node {name!r} of the graph to the graph warned')
			payload = {}
		elif kind == 'node':
			name = w.present(i)
			if name is None:
				continue
			extra = with_style(extra, style, as_object, styles, name, policy, False)
			k = w.names.index(name)
			w._add(k, payload, {}, policy, extra)
		else:
			edge_id = w.edge_at(i)
			if edge_id is None:
				continue
			extra = with_style(extra, style, as_object, styles, edge_id, policy, True)
			names = list(w.m.nodes)
			w._conn(names.index(edge_id[0]), names.index(edge_id[1]), edge_id[2], payload, {}, policy, how, extra)
		before_payload += any(v is not None for v in payload.values())
		rec.label(f'{kind} {policy}')
		check_state(w.g, w.m, f'after adding again ({kind}, {policy}, {payload}, {extra})')
		check_tooltips(w, f'after adding again ({kind}, {policy}, {payload}, {extra})')
		same(style_texts(w), styles, f'styles after adding again ({kind}, {policy}, {payload}, {extra})')
	rec.nontrivial(before_payload > 0)


payload = st.fixed_dictionaries({}, optional={'label': st.one_of(labels, labels, st.just('')), 'value': plain_values})
tips = st.sampled_from(['T1', 'T2', 'a tip'])
given = st.one_of(st.just({}), st.fixed_dictionaries({}, optional={'tooltip': tips, 'weight': plain_values, 'kind': plain_values, 'other': plain_values}))
some_style = st.one_of(st.none(), st.none(), st.fixed_dictionaries({}, optional={'colour': hexes, 'font': st.sampled_from(['arial', 'times']), 'text_size': st.integers(4, 40)}))
again = st.tuples(st.sampled_from(['node', 'node', 'edge', 'edge', 'object']), idx, payload, policies, hows, given, some_style, st.booleans()).map(list)
part = st.tuples(payload, params, st.one_of(st.none(), tips), idx, idx).map(list)
STREAMS = [
	Stream('again', st.fixed_dictionaries({
		'program': programs(max_ops=15, max_names=6, render=False), 'rich': st.lists(part, max_size=3), 'again': st.lists(again, min_size=1, max_size=8)
	}), 900, 9000)
]


def FIXED(tier):
	# the last, first and middle ones of many, with parallel edges of one pair
	for n in (30, 80):
		build = [['conn', k, k + 1, None, {'value': k}, {}, 'error', 0] for k in range(n - 1)] + [['conn', 0, 1, k, {'value': k}, {}, 'error', 0] for k in range(20)]
		for policy in (None, 'error', 'ignore'):
			yield {'program': {'names': [f'n{k}' for k in range(n)], 'first': n, 'ops': build}, 'rich': [], 'again': [
				[kind, k, {'value': 'new', 'label': 'new'}, policy, 0, {}, None, False] for kind, count in (('node', n), ('edge', n + 19)) for k in (0, count // 2, count - 1)
			]}
	for shape in joined(True):
		if shape['kind'] == 'alike':
			a, b = shape['edges'][:2]
			# one edge is there, the other is not or is, whatever the policy
			build = [['conn', a[0], a[1], None, {'value': 1}, {}, 'error', 0], ['conn', b[0], b[1], None, {'value': 2}, {}, 'error', 1]]
			for policy in (None, 'warn', 'error', 'ignore'):
				yield {'program': {'names': shape['names'], 'first': len(shape['names']), 'ops': build}, 'rich': [], 'again': [
					['edge', 0, {'value': 3}, policy, 0, {}, None, False], ['edge', 1, {'label': 'L'}, policy, 2, {}, None, False], ['node', 3, {'value': 4}, policy, 0, {}, None, False]
				]}
