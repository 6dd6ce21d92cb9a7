"""C35: automatic colours"""
from colouration import Colour, Scheme
from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import edge_sets, name_pools
from styled import hexes
from world import Model

ID = 'C35'
RULE = (
	'A case is a graph without styles (random shapes, parallel edges, loops led into), a colour scheme (of the library, of 1 to 6 random colours) and a '
	'stylist. Rendered colours are compared with a reference: roots (and nodes whose parents are all in loops) take turns through the scheme, every '
	'other node gets its colour from its parents and its place among their children; and with the same graph with other names, other order of '
	'edges, a copy, and after unrelated things were added; some graphs are rendered, changed, and rendered again (growth). Non-trivial: at least two roots or a node that inherits.'
)


def spread(n):
	if n == 1:
		return [0]
	half = n // 2
	result = [-x / half for x in range(1, half + 1)] + [x / half for x in range(1, half + 1)]
	return sorted(result if n % 2 == 0 else [0] + result)


def near(found, expected, what, tolerance=2):
	a, b = ([int(x[i:i + 2], 16) for i in (1, 3, 5)] for x in (found[:7], expected[:7]))
	check(all(abs(x - y) <= tolerance for x, y in zip(a, b)), lambda: f'{what}: got {found}, expected about {expected}')


def build(case, names=None, edge_order=None, extra=0):
	from abstract import Graph
	names = names or case['names']
	kwargs = {'stylist': case['stylist']}
	if isinstance(case['scheme'], list):
		kwargs['colour_scheme'] = Scheme(colours=[Colour(x) for x in case['scheme']], normalize_lightness=None)
	elif case['scheme'] is not None:
		kwargs['colour_scheme'] = case['scheme']
	m = Model()
	with sut('building the graph'):
		g = Graph(**kwargs)
		for n in names:
			g.add_node(n)
			m.add_node(n)
		counts, given = {}, []
		for a, b in case['edges']:
			k = counts.get((a, b), 0)
			counts[(a, b)] = k + 1
			given.append((names[a], names[b], None if k == 0 else k))
		for i in edge_order if edge_order is not None else range(len(given)):
			a, b, k = given[i]
			g.connect(a, b, id=k)
			m.add_edge(a, b, k)
	return g, m


def colours(g, what):
	with sut(f'rendering {what}'):
		g.render()
	with sut(f'colours of {what}'):
		return [n.style.colour.hexadecimal for n in g.nodes], {e.id: e.style.colour.hexadecimal for e in g.edges}


def scheme_of(case):
	if isinstance(case['scheme'], list):
		scheme = Scheme(colours=[Colour(x) for x in case['scheme']], normalize_lightness=None)
	else:
		scheme = Scheme(name=case['scheme'] or 'pensieve2')
	return [c.hexadecimal for c in scheme.colours]


def even(used, scheme, what):
	"""no colour of the scheme is used more than once more than another"""
	counts = {c: 0 for c in scheme}
	for c in used:
		check(c in counts, lambda: f'{what} has colour {c}, which is not in the scheme {scheme}')
		counts[c] += 1
	check(max(counts.values()) - min(counts.values()) <= 1, lambda: f'{what} use the colours of the scheme unevenly: {counts}')


def reference(g, m, reach, base, pale=0.05):
	"""the colour that a node should have, from those of the nodes that inherit nothing"""
	expected = {}
	names = list(m.nodes)

	def find(n, ratio):
		if n in base:
			# as it is, not rounded to a text: near white and black that makes a difference
			return Colour(g.get_node(n).style.colour)
		if (n, ratio) not in expected:
			parents = m.parents(n)
			if len(parents) == 1:
				p = parents[0]
				children = sorted(m.children(p), key=names.index)
				colour = find(p, ratio).increase_hue(amount=ratio * spread(len(children))[children.index(n)])
				colour.saturation = colour.saturation * 3 / 4
			else:
				colour = Colour.mix(colours=[find(p, 0) for p in parents if p not in reach[n] or n not in reach[p]]).pale(ratio=pale)
			expected[(n, ratio)] = colour
		return expected[(n, ratio)]

	return find


def grow(case, rec):
	"""what is added after the graph was rendered inherits from what is there then"""
	g, m = build(case)
	colours(g, 'the graph')
	for number, changes in enumerate(case['growth']):
		old = list(m.nodes)
		fresh = []
		with sut(f'changing the graph with {changes}'):
			for kind, i, j in changes:
				names = list(m.nodes)
				if kind == 'replace':
					# both ends of an edge are removed and come back
					pairs = [(p, c) for p, c, _ in m.edges if p != c and not m.parents(p)]
					for p, c in pairs[i % len(pairs):][:1] if pairs else []:
						for n in (p, c):
							g.remove_node(n)
							m.remove_node(n)
							g.add_node(n)
							m.add_node(n)
							fresh = [x for x in fresh if x != n] + [n]
						g.connect(p, c)
						m.add_edge(p, c, None)
					continue
				elif kind == 'again' and names:
					# another node of the same name, at the end
					# mostly one that others inherit from
					roots = [n for n in names if not m.parents(n) and m.children(n)]
					name = (roots if roots and j % 4 else names)[i % len(roots if roots and j % 4 else names)]
					g.remove_node(name)
					m.remove_node(name)
					fresh = [n for n in fresh if n != name]
				else:
					name = f'new {number} {len(fresh)} {len(names)}'
				g.add_node(name)
				m.add_node(name)
				fresh.append(name)
				parents = {'root': [], 'again': [], 'child': [i], 'mixed': [i, j], 'below': [-1], 'below and': [-1, i]}[kind]
				for k in parents:
					if names and names[k % len(names)] in m.nodes:
						p = names[k % len(names)]
						if (p, name, None) not in m.edges:
							g.connect(p, name)
							m.add_edge(p, name, None)
		kept = {n: g.get_node(n).style.colour.hexadecimal for n in old if n in m.nodes and n not in fresh}
		colours(g, 'the graph with more')
		reach = m.closure()
		names = list(m.nodes)
		loop = {n for n in names if n in reach[n]}
		base = [n for n in names if all(p in loop for p in m.parents(n))]
		find = reference(g, m, reach, base)
		with sut('reading colours'):
			for n, colour in kept.items():
				same(g.get_node(n).style.colour.hexadecimal, colour, f'colour of {n!r} after {changes}')
		for n in fresh:
			ancestors = [x for x in names if n in reach[x]]
			if n not in base and all(x in base or x in fresh for x in ancestors):
				near(g.get_node(n).style.colour.hexadecimal, find(n, 0.05).hexadecimal, f'colour of {n!r}, added after rendering, with {changes}', 3)
				rec.nontrivial()
	rec.label('growth')


def run(case, rec):
	if 'growth' in case:
		return grow(case, rec)

	g, m = build(case)
	nodes, edges = colours(g, 'the graph')
	names = list(m.nodes)
	scheme = scheme_of(case)
	distinct = len(set(scheme)) == len(scheme)
	reach = m.closure()
	loop = {n for n in names if n in reach[n]}
	base = [n for n in names if all(p in loop for p in m.parents(n))]
	by_name = dict(zip(names, nodes))
	inherit = [n for n in names if n not in base]
	if case['stylist'] == 'random':
		if distinct:
			even(nodes, scheme, 'nodes')
	else:
		if distinct:
			even([by_name[n] for n in base], scheme, 'roots')
			for i, n in enumerate(base):
				same(by_name[n], scheme[i % len(scheme)], f'colour of {n!r}, number {i} of those that take turns through {scheme}')
		find = reference(g, m, reach, base)
		for n in inherit:
			near(by_name[n], find(n, 0.05).hexadecimal, f'colour of {n!r}', 3)
	for i, colour in edges.items():
		near(colour, Colour(g.get_node(i[0]).style.colour).darken(ratio=0.1).hexadecimal, f'colour of edge {i}', 2)
	for i in edges:
		for j in edges:
			if i[0] == j[0] and type(i[0]) is type(j[0]):
				same(edges[i], edges[j], f'colours of edges {i} and {j}, which start at the same node')
	# names do not matter
	other, _ = build(case, names=[f'name {(i * 7 + 3) % 101} {i}' for i in range(len(names))])
	same(colours(other, 'the graph with other names')[0], nodes, 'colours with other names')
	# what is added later does not matter
	with sut('adding something else'):
		g.add_node('unrelated')
		g.add_node('unrelated child')
		g.connect('unrelated', 'unrelated child')
		for n in names[:2]:
			g.add_node(f'child of {n}')
			g.connect(n, f'child of {n}')
	later = colours(g, 'the graph with more')
	same(later[0][:len(names)], nodes, 'colours after more was added')
	same({i: later[1][i] for i in edges}, edges, 'colours of edges after more was added')
	if case['stylist'] == 'pensieve':
		# the order in which edges were added does not matter as long as every node has its parents in the same order
		order = sorted(range(len(case['edges'])), key=lambda i: case['edges'][i][1])
		another, _ = build(case, edge_order=order)
		same(colours(another, 'the graph with other order of edges')[0], nodes, 'colours with other order of edges')
		# a node that was added first but is unrelated takes a colour of the scheme; a copy is the same
	with sut('copying'):
		copied = build(case)[0].copy()
	same(colours(copied, 'the copy')[0], nodes, 'colours of a copy')
	rec.nontrivial(len(base) >= 2 or len(inherit) >= 1)
	rec.label(case['stylist'], case['kind'], 'inherits' if inherit else 'nothing inherits', 'scheme repeats' if len(base) > len(scheme) else 'scheme suffices')
	if any(len(m.parents(n)) > 1 for n in inherit):
		rec.label('mixed')


EXTREME = ['#fffffe', '#fefeff', '#010100', '#ffffff', '#000000', '#808180', '#ff0000', '#7f7f7f']


@st.composite
def cases(draw, max_nodes=9):
	n = draw(st.integers(1, max_nodes))
	kind, edges = draw(edge_sets(n))
	return {
		'names': draw(name_pools(size=n)), 'kind': kind, 'edges': [list(e) for e in edges], 'stylist': draw(st.sampled_from(['pensieve', 'pensieve', 'random'])),
		'scheme': draw(st.one_of(
			st.none(), st.sampled_from(['pensieve', 'pastel19', 'pastel15']), st.lists(hexes, min_size=1, max_size=6, unique=True),
			st.lists(st.sampled_from(EXTREME), min_size=1, max_size=3, unique=True)
		))
	}


@st.composite
def many_roots(draw):
	case = draw(cases(max_nodes=4))
	n = draw(st.integers(5, 40))
	case['names'] = [f'r{i}' for i in range(n)]
	case['edges'] = [[a, b] for a, b in draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=4)) if a != b]
	case['kind'] = 'many roots'
	return case


@st.composite
def growing(draw):
	case = draw(cases(max_nodes=5))
	case['stylist'] = 'pensieve'
	change = st.tuples(st.sampled_from(['root', 'again', 'again', 'child', 'child', 'below', 'below', 'below and', 'mixed', 'replace', 'replace']), st.integers(0, 9), st.integers(0, 9)).map(list)
	case['growth'] = draw(st.lists(st.lists(change, min_size=1, max_size=4), min_size=1, max_size=3))
	return case


STREAMS = [Stream('growth', growing(), 300, 3000), Stream('colours', cases(), 500, 7000), Stream('bigger', cases(max_nodes=20), 80, 1000), Stream('many roots', many_roots(), 80, 1000)]


def FIXED(tier):
	# stars of every size: one over many, many over one, and one over many over one
	for n in list(range(1, 26)) + ([40, 64] if tier == 'quick' else [33, 40, 50, 64, 65, 80]):
		base = {'names': [f's{i}' for i in range(n + 1)], 'stylist': 'pensieve', 'scheme': ['#4060c0', '#c06040', '#30a050']}
		yield dict(base, kind='star', edges=[[0, i] for i in range(1, n + 1)])
		if n <= 25:
			yield dict(base, kind='star', edges=[[i, 0] for i in range(1, n + 1)])
			yield dict(base, kind='star', edges=[[0, i] for i in range(1, n)] + [[i, n] for i in range(1, n)])
