"""C31: refused operations change nothing"""
import warnings

from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import ops, programs
from world import World, check_state, fingerprint

ID = 'C31'
RULE = (
	'A case is a history in which operations that must be refused are mixed with ordinary ones: names that are not there, names and styles of wrong '
	'types, nodes of other graphs, duplicates with the policy to raise, things removed twice, styles that may not be overwritten, objects that are no '
	'graphs, values that cannot be added. Each raises an exception of the right kind and the graph (all views, payloads, text) is what it was; the '
	'history goes on afterwards as the model says. Non-trivial: at least one node and three refusals.'
)

WRONG = [None, 2.5, ('a', 'b'), ['a'], object, {'a': 1}, b'a']


class Absent:
	pass


def refusals(w, kind, i, j):
	"""(what, function, types of exceptions) or None if the graph has nothing for it"""
	from abstract import Edge, Node
	g, m = w.g, w.m
	name, other = w.present(i), w.present(j)
	absent = ['not in the graph', 987654][i % 2]
	edge_id = w.edge_at(i)
	wrong = WRONG[j % len(WRONG)]
	NotFound = (KeyError, ValueError)
	if kind == 'connect absent':
		ends = [(absent, absent)] if name is None else [(name, absent), (absent, name), (absent, absent)]
		s, e = ends[j % len(ends)]
		return f'connect({s!r}, {e!r})', lambda: g.connect(s, e, label='x', value=1), NotFound
	if kind == 'connect wrong type':
		s, e = (wrong, wrong) if name is None else [(name, wrong), (wrong, name)][i % 2]
		return f'connect({s!r}, {e!r})', lambda: g.connect(s, e), (TypeError,)
	if kind == 'connect stranger':
		stranger = w.Graph().add_node(absent)
		if name is None:
			return 'connect of nodes of another graph', lambda: g.connect(stranger, stranger), NotFound
		node = g.get_node(name)
		return 'connect to a node of another graph', [
			lambda: g.connect(node, stranger), lambda: node.connect_to(stranger), lambda: node.connect_from(stranger), lambda: g.connect(stranger, name)
		][j % 4], NotFound
	if kind == 'remove absent':
		return f'remove_node({absent!r})', lambda: g.remove_node(absent), NotFound
	if kind == 'remove wrong type':
		return f'remove_node({wrong!r})', lambda: g.remove_node(wrong), (TypeError,)
	if kind == 'remove twice':
		if not w.removed:
			w.apply(['rm', i, j])
		if not w.removed:
			return None
		node, k, _ = w.removed[i % len(w.removed)]
		if k in m.nodes:
			return None
		return f'removing {node!r} again', [lambda: g.remove_node(node), lambda: g.remove_node(k)][j % 2], NotFound
	if kind == 'ask absent':
		f = [
			g.get_node, g.get_node_name, g.get_children, g.get_parents, g.get_ancestors, g.get_descendants, g.get_siblings, g.get_spouses, g.get_edges,
			g.get_outward_edges, g.get_inward_edges, g.is_node_in_loop, g.num_children, g.has_parents, g.has_children, lambda x: g.filter(nodes=[x]),
			lambda x: g.filter(nodes=[x], filter_type='exclude'), lambda x: g.are_nodes_in_same_loop(x, x), g.num_parents, g.num_siblings, g.has_siblings,
			g.num_spouses, g.has_spouses, lambda x: g.get_ancestors(x, distance=False), lambda x: g.get_descendants(x, distance=False),
			lambda x: g.filter(nodes=[x] if name is None else [name, x]), lambda x: g.are_nodes_in_same_loop(x if name is None else name, x)
		][j % 27]
		return f'{getattr(f, "__name__", "filter")}({absent!r})', lambda: f(absent), NotFound
	if kind == 'ask wrong type':
		f = [
			g.get_node, g.get_children, g.get_parents, g.get_descendants, g.get_edges, g.get_node_name, g.get_ancestors, g.get_siblings, g.get_spouses, g.is_node_in_loop, g.get_outward_edges
		][i % 11]
		return f'{f.__name__}({wrong!r})', lambda: f(wrong), (TypeError,)
	if kind == 'add wrong type':
		return f'add_node({wrong!r})', lambda: g.add_node(wrong, label='x'), (TypeError,)
	if kind == 'add wrong style':
		return 'add_node with a style that is none', lambda: g.add_node(absent, style=5), (TypeError,)
	if kind == 'add stranger':
		stranger = w.Graph().add_node(absent if name is None or j % 2 else name)
		return 'add_node of a node of another graph', lambda: g.add_node(stranger), (ValueError,)
	if kind == 'background':
		return 'a background that is no colour', lambda: setattr(g, 'background_colour', [5, None, 'no colour', object()][j % 4]), (TypeError, KeyError, ValueError)
	if kind == 'new with wrong style':
		bad = [5, 'red', {'not an attribute': 1}, ['red'], {'shape': 'box', 'colours': 'red'}][i % 5]
		acts = [lambda: g.add_node(absent, label='x', style=bad), lambda: Node(name=absent, graph=g, style=bad)]
		if name is not None:
			a, b = g.get_node(name), g.get_node(other)
			acts += [
				lambda: g.connect(name, other, id='new', value=1, style=bad), lambda: a.connect_to(b, id='new', style=bad), lambda: a.connect_from(b, id='new', style=bad),
				lambda: Edge(graph=g, start=a, end=b, id='new', style=bad)
			]
			if a.style is None:
				acts.append(lambda: setattr(a, 'style', bad))
		return f'style {bad!r} of something new', acts[j % len(acts)], (TypeError,)
	if kind == 'append bad':
		bad = [5, 'text', None, object(), 2.5][j % 5]
		return f'append({bad!r})', lambda: g.append(bad), (TypeError,)
	if kind == 'sum':
		if name is None or any(p['value'] is not None for p in m.nodes.values()):
			return None
		h = g.copy()
		h.get_node(name).value = 1
		stranger = w.Graph()
		stranger.add_node(name, value='a')

		def refuse(x, y):
			raise ArithmeticError('no')

		if j % 2:
			return 'a sum of values that cannot be added', lambda: h + stranger, (TypeError,)
		return 'a sum with a function that raises', lambda: g.add(h, add_values_function=refuse), (ArithmeticError,)
	if name is None:
		return None
	if kind == 'add duplicate':
		return f'add_node({name!r}) again', lambda: g.add_node(name, label='changed', value='changed', if_node_exists='error'), NotFound
	if kind == 'style twice':
		node = g.get_node(name)
		if node.style is None:
			node.style = {'colour': '#0a0b0c'}
		return f'style of {name!r}', [
			lambda: setattr(node, 'style', {'shape': 'hexagon'}),
			lambda: g.add_node(name, style={'shape': 'hexagon'}, if_node_exists='ignore'),
			lambda: g.add_node(name, label='changed', value='changed', style={'shape': 'hexagon'}, if_node_exists='ignore'),
			lambda: g.add_node(name, label='changed', value='changed', style={'shape': 'hexagon'})
		][j % 4], (RuntimeError,)
	if kind == 'wrong style':
		node = g.get_node(name)
		return f'a style of {name!r} that is none', [
			lambda: setattr(node, 'style', 'red'), lambda: g.add_node(name, label='changed', value='changed', style='red', if_node_exists='ignore')
		][j % 2], (TypeError, RuntimeError)
	if kind == 'frozen':
		node = g.get_node(name)

		def act():
			node.freeze()
			try:
				if j % 3 == 0:
					node.value = 'changed'
				elif j % 3 == 1:
					g.add_node(name, label='changed', value='changed', if_node_exists='ignore')
				else:
					g.add_node(name, label='changed', value='changed', style=None if node.has_style() else {'shape': 'hexagon'}, if_node_exists='ignore')
			finally:
				node.unfreeze()
		return f'value of frozen {name!r}', act, (RuntimeError,)
	if kind == 'missing parameter':
		return f'a parameter that {name!r} does not have', lambda: g.get_node(name)['absent parameter'], (KeyError,)
	if kind == 'missing edge':
		return f'an edge that {name!r} does not have', [
			lambda: g.get_node(name).get_outward_edge((name, name, 'absent')), lambda: g.get_node(name).get_inward_edge((name, name, 'absent')),
			lambda: g.get_node(name).remove_outward_edge((name, name, 'absent')), lambda: g.get_node(name).remove_inward_edge((name, name, 'absent'))
		][j % 4], (KeyError,)
	if kind == 'rank':
		if other in m.children(name):
			return None
		return f'the rank of {other!r} below {name!r}', lambda: g.get_node(other).get_child_rank(parent=g.get_node(name)), (ValueError,)
	if edge_id is None:
		return None
	edge = w.real_edge(edge_id)
	if kind == 'connect duplicate':
		return f'connecting {edge_id} again', lambda: g.connect(
			edge_id[0], edge_id[1], id=edge_id[2], label='changed', value='changed', if_edge_exists='error'
		), NotFound
	if kind == 'edge style':
		if edge.style is None and j % 2:
			return 'a style that is none', lambda: setattr(edge, 'style', 5), (TypeError,)
		if edge.style is None:
			edge.style = {'colour': '#0a0b0c'}
		return f'style of {edge_id}', lambda: g.connect(
			edge_id[0], edge_id[1], id=edge_id[2], style={'colour': '#010203'}, if_edge_exists='ignore',
			**[{}, {'label': 'changed', 'value': 'changed'}][i % 2]
		), (RuntimeError,)
	if kind == 'frozen edge':
		def act():
			edge.freeze()
			try:
				if j % 3 == 0:
					edge.value = 'changed'
				else:
					g.connect(
						edge_id[0], edge_id[1], id=edge_id[2], label='changed', value='changed',
						style={'colour': '#010203'} if j % 3 == 1 and not edge.has_style() else None, if_edge_exists='ignore'
					)
			finally:
				edge.unfreeze()
		return f'value of frozen {edge_id}', act, (RuntimeError,)
	if kind == 'remove edge twice':
		h = g.copy()
		twin = h.get_node(edge_id[0]).get_outward_edge(edge_id)
		w.probe = h
		if i % 2:
			twin.remove_self()
		else:
			h.disconnect(twin)
		return f'removing {edge_id} twice', [lambda: twin.remove_self(), lambda: h.disconnect(twin)][j % 2], (ValueError, KeyError)
	if kind == 'compare':
		return 'comparing with something else', lambda: edge == name, (TypeError,)
	return None


KINDS = [
	'connect absent', 'connect wrong type', 'connect stranger', 'remove absent', 'remove wrong type', 'remove twice', 'ask absent', 'ask wrong type',
	'add wrong type', 'add wrong style', 'add stranger', 'append bad', 'sum', 'add duplicate', 'style twice', 'wrong style', 'frozen', 'missing parameter',
	'missing edge', 'rank', 'connect duplicate', 'edge style', 'remove edge twice', 'compare', 'frozen edge',
	'background', 'new with wrong style'
]


def run(case, rec):
	w = World(case['names'], case.get('args'))
	for i in range(case['first']):
		w.apply(['add', i, {}, {}, None])
	refused = 0
	for op in case['ops']:
		if op[0] != 'refuse':
			w.apply(op)
			continue
		_, k, i, j = op
		kind = KINDS[k % len(KINDS)]
		w.probe = None
		with sut('preparing'):
			prepared = refusals(w, kind, i, j)
		if prepared is None:
			continue
		what, f, types = prepared
		subject = w.probe or w.g
		with sut('describing'):
			before = fingerprint(subject), subject.get_graphviz_str()
		with warnings.catch_warnings():
			warnings.simplefilter('ignore')
			with raises(what, *types):
				f()
		with sut('describing'):
			same((fingerprint(subject), subject.get_graphviz_str()), before, f'the graph after {what} was refused')
		check_state(w.g, w.m, f'after {what} was refused', absent=['not in the graph', 987654])
		refused += 1
		rec.label(kind)
	check_state(w.g, w.m, 'at the end')
	rec.nontrivial(refused >= 3 and len(w.m.nodes) >= 1)


@st.composite
def cases(draw):
	program = draw(programs(max_ops=0, max_names=8))
	refuse = st.tuples(st.just('refuse'), st.integers(0, len(KINDS) - 1), st.integers(0, 40), st.integers(0, 40)).map(list)
	op = st.booleans().flatmap(lambda x: refuse if x else ops())
	return {'names': program['names'], 'first': program['first'], 'ops': draw(st.lists(op, min_size=4, max_size=30))}


STREAMS = [Stream('histories with refusals', cases(), 600, 8000)]


def FIXED(tier):
	# every refusal on a small graph
	for style in (0, 1):
		history = [
			['conn', 0, 1, None, {'label': 'L'}, {}, None, 0], ['conn', 1, 2, 'e', {'value': 1}, {}, None, 0], ['conn', 2, 0, None, {}, {}, None, 0],
			['conn', 3, 3, None, {}, {}, None, 0], ['rm', 4, 0]
		] + ([['render']] if style else [])
		for k in range(len(KINDS)):
			yield {'names': list('abcdef'), 'first': 6, 'ops': history + [['refuse', k, i, j] for i in range(5) for j in range(28)]}
