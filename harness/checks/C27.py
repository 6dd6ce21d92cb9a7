"""C27: similarity"""
import pickle

from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import exhaustive, joined
from styled import big_case, clone, edge_id, make, styled_graphs
from world import build, key

ID = 'C27'
RULE = (
	'A case is a graph with payloads, parameters and styles and one to four ways to change it (a node or edge more or less, another name, end, id, value, parameter '
	'or style, another setting of strict or ordering) or a rearrangement (other order of building, copy, pickle, dictionary); the graph is similar to '
	'itself and to rearrangements in both directions, and not to the changed one. All pairs of small graphs are compared as well. '
	'Graphs are also compared, changed in place and compared again. Non-trivial: a change was made or the rearrangement differs in order, and there are at least 2 nodes.'
)


def similar(a, b, expected, what):
	for x, y, direction in ((a, b, ''), (b, a, ' (the other way round)')):
		with sut(f'comparing with {what}{direction}'):
			found = x.is_similar_to(y)
		check(found is expected, lambda: f'a graph is {"" if found else "not "}similar to {what}{direction}')


def items(a, b, expected_same):
	"""nodes and edges of two graphs, one by one: the same name or ends and id, the same value, parameters and style"""
	for what, xs, ys, identity in (
		('node', list(a.nodes), list(b.nodes), lambda x: key(x.name)), ('edge', list(a.edges), list(b.edges), lambda x: key(x.id))
	):
		found = {}
		for x in xs:
			for y in ys:
				with sut(f'comparing {what}s {x.id!r} and {y.id!r}'):
					forth, back = x.is_similar_to(y), y.is_similar_to(x)
				check(bool(forth) is bool(back), lambda: f'{what} {x.id!r} is similar to {y.id!r}: {forth}, the other way round: {back}')
				if identity(x) != identity(y):
					check(not forth, lambda: f'{what} {x.id!r} is similar to {y.id!r}')
				else:
					found[identity(x)] = forth
		if expected_same:
			check(all(found.values()) and len(found) == len(xs), lambda: f'{what}s are not similar to those of an equal graph: {found}')
		elif expected_same is False and len(xs) == len(ys) and what in ('node', 'edge'):
			yield what, all(found.values()) and len(found) == len(xs)


def other_value(v, k):
	"""one that is not equal but may look alike"""
	others = [x for x in ('changed', str(v), None, 0, '', [v], repr(v), 'None', {}, -1) if x != v]
	if k % 2 and str(v) != v:
		return str(v)
	return others[k // 2 % len(others)]


def other_params(params, k):
	"""one more, one less or another value of one"""
	if not params or k % 3 == 0:
		return dict(params, changed=[1, None, '', 0][k // 3 % 4])
	name = sorted(params)[k % len(params)]
	if k % 3 == 1:
		return {x: v for x, v in params.items() if x != name}
	return dict(params, **{name: other_value(params[name], k // 3)})


def other_style(palette, style, k):
	"""another style: none, a new one, or one that differs in one attribute"""
	if style is None or k % 3 == 0:
		return {'colour': '#010203', 'text_size': 39}
	if k % 3 == 1:
		return None
	return dict(palette[style % len(palette)], text_size=41)


def change(case, kind, k):
	"""the case with one difference; None if there is nothing to change"""
	c = clone(case)
	nodes, edges = c['nodes'], c['edges']
	if kind == 'node more':
		nodes.insert(k % (len(nodes) + 1), {'name': 'one more', 'label': None, 'value': None, 'tooltip': None, 'style': None, 'params': {}})
		for e in edges:
			for end in ('start', 'end'):
				if e[end] >= k % len(nodes):
					e[end] += 1
		c['node_styles'] = [[i + (i >= k % len(nodes)), s] for i, s in c['node_styles']]
		c['frozen'] = c['frozen_edges'] = []
		return c
	if kind in ('strict', 'ordering'):
		c['settings'][kind] = not c['settings'].get(kind, kind == 'ordering')
		return c
	if kind == 'edge more':
		if not nodes:
			return None
		edges.append({
			'start': k % len(nodes), 'end': (k // 3) % len(nodes), 'id': 'one more', 'label': None, 'value': None, 'tooltip': None, 'style': None,
			'params': {}
		})
		return c
	if kind.startswith('edge'):
		if not edges:
			return None
		e = edges[k % len(edges)]
		if kind == 'edge less':
			edges.remove(e)
			c['edge_styles'], c['edge_colours'] = [], []
		elif kind == 'edge value':
			e['value'] = other_value(e['value'], k)
		elif kind == 'edge parameter':
			if any(i == k % len(edges) for i, _ in c['edge_styles'] + c.get('edge_colours', [])):
				return None  # made without parameters
			e['params'] = other_params(e['params'], k)
		elif kind == 'edge id':
			e['id'] = 'another id'
		elif kind == 'edge turned':
			if e['start'] == e['end']:
				return None
			e['start'], e['end'] = e['end'], e['start']
			e['id'] = 'another id' if any(x is not e and edge_id(c, x) == edge_id(c, e) for x in edges) else e['id']
		elif kind == 'edge style':
			# own numbers for all, as the palette grows
			for x in edges:
				x['style'] = None if x['style'] is None else x['style'] % len(c['epalette'])
			new = other_style(c['epalette'], e['style'], k)
			e['style'] = None if new is None else len(c['epalette'])
			c['epalette'] += [] if new is None else [new]
		return c
	if not nodes:
		return None
	n = nodes[k % len(nodes)]
	if kind == 'node value':
		n['value'] = other_value(n['value'], k)
	elif kind == 'node name':
		n['name'] = 'another name'
	elif kind == 'node parameter':
		n['params'] = other_params(n['params'], k)
	elif kind == 'node style':
		for x in nodes:
			x['style'] = None if x['style'] is None else x['style'] % len(c['palette'])
		new = other_style(c['palette'], n['style'], k)
		n['style'] = None if new is None else len(c['palette'])
		c['palette'] += [] if new is None else [new]
	elif kind == 'node less':
		i = nodes.index(n)
		for e in list(edges):
			if i in (e['start'], e['end']):
				return None
			for end in ('start', 'end'):
				if e[end] > i:
					e[end] -= 1
		del nodes[i]
		c['node_styles'], c['node_colours'] = [], []
		c['frozen'] = c['frozen_edges'] = []
	return c


KINDS = [
	'node more', 'node less', 'node name', 'node value', 'node parameter', 'node style', 'edge more', 'edge less', 'edge id', 'edge turned',
	'edge value', 'edge parameter', 'edge style', 'strict', 'ordering'
]


def permuted(case, order, edge_order):
	c = clone(case)
	new = [x for x in order if x < len(c['nodes'])]
	place = {old: i for i, old in enumerate(new)}
	c['nodes'] = [c['nodes'][i] for i in new]
	for e in c['edges']:
		e['start'], e['end'] = place[e['start']], place[e['end']]
	c['node_styles'], c['node_colours'] = [], []
	c['edge_styles'], c['edge_colours'] = [], []
	c['frozen'] = c['frozen_edges'] = []
	c['edges'] = [c['edges'][i] for i in edge_order if i < len(c['edges'])]
	return c


def run(case, rec):
	if 'pair' in case:
		a, b = (build(s)[0] for s in case['pair'])
		expected = case['pair'][0] == case['pair'][1]
		similar(a, b, expected, 'another small graph')
		rec.nontrivial(not expected)
		return
	c = case['graph']
	g, m = make(c)
	similar(g, g, True, 'itself')
	twin, _ = make(c)
	similar(g, twin, True, 'an equally built graph')
	for _ in items(g, twin, True):
		pass
	with sut('copying'):
		copies = [('its copy', g.copy()), ('its pickle', pickle.loads(pickle.dumps(g)))]
	for what, other in copies:
		similar(g, other, True, what)
	plain = permuted(c, range(len(c['nodes'])), range(len(c['edges'])))
	for order in [case['order'], sorted(case['order'], reverse=True)]:
		other = permuted(c, order, sorted(range(len(c['edges'])), key=lambda i: order.index(i % len(order))))
		similar(make(plain)[0], make(other)[0], True, 'the same built in another order')
	anything = False
	for kind, k in case['changes']:
		changed = change(c, kind, k)
		if changed is not None:
			anything = True
			differing = make(changed)[0]
			judged = dict(items(g, differing, False))
			if kind not in ('strict', 'ordering') and all(judged.get(w) is not None for w in ('node', 'edge')):
				check(not all(judged.values()), lambda: f'every node and edge is similar to one of a graph that differs by {kind}')
			if kind in ('node value', 'node parameter', 'node style'):
				check(judged['edge'], lambda: f'an edge is not similar to its equal in a graph that differs by {kind}')
			similar(g, differing, False, f'a graph that differs by {kind}')
			similar(g.copy(), make(changed)[0], False, f'a graph whose original differs by {kind}')
			rec.label(kind)
	if case['rendered']:
		with sut('rendering'):
			g.render()
			twin.render()
		similar(g, twin, True, 'an equally built graph after rendering both')
		similar(g, g.copy(), True, 'its copy after rendering')
	if case['later'] and c['nodes']:
		later(c, case, twin, g)
	rec.nontrivial(anything and len(c['nodes']) >= 2)


def later(c, case, twin, g):
	"""graphs that were compared, then changed, then compared again"""
	with sut('making two equal graphs'):
		(a, _), (b, _) = make(c), make(c)
		for x in list(a.nodes) + list(a.edges) + list(b.nodes) + list(b.edges):
			x.unfreeze()
	similar(a, b, True, 'an equally built graph')
	for what, k in case['later']:
		pairs = list(zip(a.edges, b.edges)) if what.startswith('edge') else list(zip(a.nodes, b.nodes))
		if not pairs:
			continue
		x, y = pairs[k % len(pairs)]
		if what.endswith('value'):
			value = other_value(x.value, k)

			def assign(z):
				z.value = value
		elif what.endswith('parameter'):
			def assign(z):
				z['changed later'] = k
		else:
			if x.style is None:
				continue

			def assign(z):
				# in place; the style may be that of other things, too
				z.style.complement({'text_size': 50 + k})
		with sut(f'changing {what}'):
			if what.endswith('parameter') and (k, 'changed later') in seen_parameters(x):
				continue
			if what.endswith('style') and f'fontsize"="{50 + k}"' in x.style.get_graphviz_str():
				continue
			assign(x)
		similar(a, b, False, f'an equally built graph after the {what} of {x.id!r} was changed')
		check(not x.is_similar_to(y), lambda: f'{what} of {x.id!r} was changed but it is still similar to its equal')
		with sut(f'changing {what} of the other graph'):
			assign(y)
		similar(a, b, True, f'an equally built graph after the {what} of {x.id!r} was changed in both')


def seen_parameters(x):
	try:
		return [(x['changed later'], 'changed later')]
	except KeyError:
		return []


CASE = st.fixed_dictionaries({
	'graph': styled_graphs(max_nodes=6), 'changes': st.lists(st.tuples(st.one_of(st.sampled_from(KINDS), st.sampled_from(['node value', 'node parameter', 'edge value', 'edge parameter'])), st.integers(0, 100)).map(list), min_size=1, max_size=4), 'rendered': st.booleans(),
	'order': st.permutations(range(6)), 'later': st.lists(st.tuples(st.sampled_from(['node value', 'node parameter', 'node style', 'edge value', 'edge parameter', 'edge style']), st.integers(0, 40)).map(list), max_size=4)
})
STREAMS = [Stream('changes', CASE, 700, 10000)]


def extra(tier, seed):
	for n in (1, 2) if tier == 'quick' else (1, 2, 3):
		graphs = list(exhaustive(n, n < 3))
		for a in graphs:
			for b in graphs:
				yield f'pairs of graphs of {n} nodes', {'pair': [a, b]}
	for shape in joined(True):
		if shape['kind'] == 'alike':
			yield 'names put together', {'pair': [dict(shape, edges=shape['edges'][:1]), dict(shape, edges=shape['edges'][1:2])]}
			yield 'names put together', {'pair': [dict(shape, edges=shape['edges'][:1]), shape]}
			yield 'names put together', {'pair': [shape, dict(shape, edges=shape['edges'][1:])]}


def FIXED(tier):
	# one difference, at the start, in the middle or at the end of a large graph
	n = 90
	for k, kind in enumerate(KINDS):
		for place in (0, 45, 89) if tier == 'thorough' else (89,) if k % 3 else (0, 45):
			changes = [[kind, place + (90 * k if kind.startswith('node') else 0)]]
			if kind.startswith('edge'):
				changes = [[kind, place if place < 89 else len(big_case(n)['edges']) - 1]]
			yield {'graph': big_case(n, overrides=False), 'changes': changes, 'rendered': k == 0, 'order': list(range(n))[::-1], 'later': [['edge value', 89]] if k == 1 else []}
