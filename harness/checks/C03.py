"""C03: removing takes away exactly what was asked for, and removed nodes can come back"""
from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import PARAMETERS, edge_ids, hows, idx, joined, labels, params, payload, plain_values, shapes
from world import World, build, check_state, ids

ID = 'C03'
RULE = (
	'A case is a graph (any shape, made in several ways) or a history, and a list of removals of nodes and edges in every way offered, with values, labels, parameters, styles and parallel edges of similar ids, with some '
	'removed nodes added back and connected again; after each step all views are compared with a model that drops exactly the node and its '
	'edges. Non-trivial: a node with edges or an edge with a parallel or reverse edge or a self-loop was removed.'
)


def run(case, rec):
	w = World(case['shape']['names'] or ['a'])
	w.g, w.m = build(case['shape'])
	ordered = case['shape']['via'] not in ('graph', 'add', 'dict', 'lists')
	interesting = False
	frozen, held = set(), {}
	for op in case['ops']:
		kind = op[0]
		if kind == 'rm':
			name = w.present(op[1])
			if name is not None and (w.m.out(name) or w.m.into(name)):
				interesting = True
				rec.label('node with edges')
		elif kind == 'rmedge':
			e = w.edge_at(op[1])
			if e is not None:
				if e[0] == e[1]:
					interesting = True
					rec.label('self-loop')
				if sum(x[:2] in (e[:2], e[1::-1]) for x in w.m.edges) > 1:
					interesting = True
					rec.label('parallel or reverse')
		if kind == 'style':
			name = w.present(op[1])
			if name is not None:
				with sut(f'giving {name!r} a style'):
					if w.g.get_node(name).style is None:
						w.g.get_node(name).style = dict(op[2])
			continue
		if kind == 'freeze':
			name = w.present(op[1])
			if name is not None:
				with sut(f'freezing {name!r}'):
					w.g.get_node(name).freeze()
				frozen.add(name)
			continue
		if kind == 'nvalue' and w.present(op[1]) in frozen or kind == 'add' and w.name(op[1]) in w.m.nodes or kind == 'copy' and w.removed:
			continue
		if kind == 'readd' and w.removed:
			frozen -= {w.removed[op[1] % len(w.removed)][1]} - set(w.m.nodes)
		before = look(w)
		n = len(w.removed)
		w.apply(op)
		if kind == 'rm' and len(w.removed) > n:
			# what was taken out keeps all it had, and takes it along when it comes back
			node, name, payload = w.removed[-1]
			same(own(node), before[name], f'{name!r} after it was removed')
			held[id(node)] = (node, before[name])
			frozen.discard(name)
		after = look(w)
		for node, name, payload in w.removed:
			with sut(f'looking at the removed {name!r}'):
				same(own(node), held[id(node)][1], f'the removed {name!r} after {op}')
		if kind == 'readd' and len(w.removed) < n:
			name = list(w.m.nodes)[-1]
			node = w.g.get_node(name)
			same(after[name], held[id(node)][1], f'{name!r} after it was added back')
			if node.is_frozen:
				frozen.add(name)
			rec.label('came back')
		if kind in ('rm', 'rmedge', 'rmedges', 'readd', 'conn'):
			for name in w.m.nodes:
				if name in before:
					same(after[name], before[name], f'what {name!r} holds after {op}')
		if ordered:
			check_state(w.g, w.m, f'after {op}', absent=[n for _, n, _ in w.removed])
		else:
			check_relations(w, op)
	rec.label(*w.counts)
	rec.nontrivial(interesting)


def own(node):
	with sut('looking at a node'):
		result = {
			'name': node.name, 'label': node.label, 'value': node.value, 'frozen': node.is_frozen,
			'style': None if node.style is None else node.style.get_graphviz_str(), 'parameters': {}
		}
		for k in PARAMETERS:
			try:
				result['parameters'][k] = node[k]
			except LookupError:
				pass
		return result


def look(w):
	return {name: own(w.g.get_node(name)) for name in w.m.nodes}


def check_relations(w, op):
	"""when the order of edges is not that of the model"""
	from world import same_set
	with sut('reading the graph'):
		same(ids(w.g.nodes), list(w.m.nodes), f'names after {op}')
		same_set([e.id for e in w.g.edges], list(w.m.edges), f'edges after {op}')
		for n in w.m.nodes:
			same_set([e.id for e in w.g.get_outward_edges(n)], w.m.out(n), f'outward edges of {n!r} after {op}')
			same_set([e.id for e in w.g.get_inward_edges(n)], w.m.into(n), f'inward edges of {n!r} after {op}')


op = st.one_of(
	st.tuples(st.just('rm'), idx, hows), st.tuples(st.just('rm'), idx, hows), st.tuples(st.just('rmedge'), idx, hows),
	st.tuples(st.just('rmedge'), idx, hows), st.tuples(st.just('rmedges'), idx), st.tuples(st.just('readd'), idx),
	st.tuples(st.just('conn'), idx, idx, edge_ids, payload, params, st.just('ignore'), hows),
	st.tuples(st.just('conn'), st.integers(0, 1), st.integers(0, 1), edge_ids, payload, params, st.just('ignore'), hows),
	st.tuples(st.just('readd'), idx), st.tuples(st.just('copy')), st.tuples(st.just('nvalue'), idx, plain_values), st.tuples(st.just('nlabel'), idx, labels),
	st.tuples(st.just('nparam'), idx, st.sampled_from(PARAMETERS), plain_values, hows),
	st.tuples(st.just('add'), idx, payload, params, st.just('ignore')), st.tuples(st.just('freeze'), idx), st.tuples(st.just('render')),
	st.tuples(st.just('style'), idx, st.sampled_from([{'shape': 'circle'}, {'colour': '#123456', 'text_size': 5}]))
).map(list)


@st.composite
def cases(draw, max_nodes=10, max_ops=12):
	n = draw(st.integers(1, max_ops))
	return {'shape': draw(shapes(max_nodes=max_nodes, edit=False)), 'ops': draw(st.lists(op, min_size=n, max_size=n))}


STREAMS = [
	Stream('removals', cases(), 1000, 10000),
	Stream('bigger', cases(max_nodes=20, max_ops=30), 100, 1500)
]


def FIXED(tier):
	for k, shape in enumerate(joined(True)):
		a = shape['edges'][0][0]
		yield {'shape': shape, 'ops': [['rmedge', 0, k], ['conn', *shape['edges'][0], None, {'value': 1}, {}, 'ignore', k % 6], ['rm', a, k], ['readd', 0], ['rmedge', 0, k + 1]]}
		yield {'shape': shape, 'ops': [['rm', a, k], ['readd', 0], ['rmedge', 1, k]]}
	# a node with many edges is removed, comes back without any and gets some again
	for k, n in enumerate((9, 10, 11, 33, 65, 101) if tier == 'quick' else (9, 10, 11, 16, 17, 33, 65, 101, 129, 257)):
		for edges in ([[0, i] for i in range(1, n)], [[i, 0] for i in range(1, n)], [[0, i] if i % 2 else [i, 0] for i in range(n)]):
			yield {
				'shape': {'names': [f'n{i}' for i in range(n)], 'kind': 'hub', 'via': 'names', 'edges': edges, 'remove_nodes': [], 'remove_edges': [], 'late': []},
				'ops': [['rm', 0, k], ['readd', 0], ['conn', 0, n - 1, None, {}, {}, 'ignore', 0], ['rmedges', 0]]
			}
	# parallel edges whose ids are alike
	ids_ = [None, 'None', 0, '0', '', 1, '1']
	for k, (x, y) in enumerate((x, y) for x in ids_ for y in ids_ if x is not y):
		for ends in ([0, 1], [0, 0]):
			yield {
				'shape': {'names': ['a', 'b'], 'kind': 'parallel', 'via': 'names', 'edges': [], 'remove_nodes': [], 'remove_edges': [], 'late': []},
				'ops': [['conn', *ends, x, {'value': 1}, {}, 'ignore', k % 6], ['conn', *ends, y, {'value': 2}, {}, 'ignore', 0], ['rmedge', 0, k], ['conn', *ends, x, {}, {}, 'ignore', 1], ['rm', 0, k], ['readd', 0]]
			}
