"""C17: graphs from objects with parents and children"""
from hypothesis import strategies as st

from core import Stream, check, same, sut
from gen import edge_sets
from large import edges_of
from styled import parse_dot
from world import ids, same_set

ID = 'C17'
RULE = (
	'A case is a set of objects that know their parents and children (any relation: trees, diamonds, loops, self-loops; identities are hashes, large, '
	'negative or 0), one of them, and limits on depth and height; the graph is compared with the object, its descendants and ancestors within the '
	'limits (breadth first over the relation) and the relations among each. Non-trivial: there are descendants and ancestors, or a limit leaves something out.'
)


class Thing:
	def __init__(self, name, hash_):
		self.name = name
		self.hash = hash_
		self.children = []
		self.parents = []

	def __hash__(self):
		return self.hash

	def __str__(self):
		return {3: f' thing  {self.name} ', 4: 'a thing', 5: f'two\nlines {self.name}'}.get(self.name % 7, f'thing {self.name}')

	def __children__(self):
		return list(self.children)

	def __parents__(self):
		return list(self.parents)


def large_objects(n):
	"""long lines, long ways back and wide levels of objects"""
	for kind in ('chain', 'cycle', 'back', 'wide', 'layers', 'far loops', 'ladder'):
		for start in (0, n // 2, n - 1):
			for limit in (None, n // 4):
				yield {
					'hashes': [7 * i + 5 for i in range(n)], 'edges': [list(e) for e in edges_of(kind, n)], 'start': start, 'max_depth': limit, 'max_height': limit
				}


def things(case):
	result = [Thing(i, h) for i, h in enumerate(case['hashes'])]
	for a, b in case['edges']:
		result[a].children.append(result[b])
		result[b].parents.append(result[a])
	return result


def within(start, edges, limit, up):
	"""indices reached in at most `limit` steps, with distances, the start left out"""
	found = {start: 0}
	frontier = [start]
	d = 0
	while frontier and (limit is None or d < limit):
		d += 1
		following = []
		for x in frontier:
			for a, b in edges:
				y = a if up and b == x else b if not up and a == x else None
				if y is not None and y not in found:
					found[y] = d
					following.append(y)
		frontier = following
	del found[start]
	return found


def run(case, rec):
	from abstract import Graph
	if case.get('fresh'):
		from C18 import things as make_things
	else:
		make_things = things
	objects = make_things(case)
	start = case['start'] % len(objects)
	kwargs = {k: case[k] for k in ('max_depth', 'max_height', 'strict') if case[k] is not None}
	down = within(start, case['edges'], case['max_depth'], False)
	up = within(start, case['edges'], case['max_height'], True)
	with sut(f'from_object (of {case["edges"]} at {start}, {kwargs})'):
		g = Graph.from_object(objects[start], **kwargs) if case['positional'] else Graph.from_object(obj=objects[start], **kwargs)
	expected_nodes = {start} | set(down) | set(up)
	below, above = {start} | set(down), {start} | set(up)
	expected_edges = {(a, b) for a, b in case['edges'] if a in below and b in below or a in above and b in above}
	name = {i: hash(objects[i]) for i in range(len(objects))}
	with sut('reading the graph'):
		same_set(ids(g.nodes), [name[i] for i in expected_nodes], 'nodes')
		same_set([e.id for e in g.edges], [(name[a], name[b], None) for a, b in expected_edges], 'edges')
		for i in expected_nodes:
			same(g.get_node(name[i]).label, str(objects[i]), 'label')
		strict = parse_dot(g.get_graphviz_str()).strict
		if len(objects) < 50:
			g.render()
			g.get_tree_str()
	same(strict, bool(case['strict']), 'strict')
	everything = set(within(start, case['edges'], None, False)) | set(within(start, case['edges'], None, True)) | {start}
	rec.nontrivial(bool(up) and bool(down) or expected_nodes != everything)
	rec.label(f'nodes {min(len(expected_nodes), 8)}', f'limits {sum(case[k] is not None for k in ("max_depth", "max_height"))}')


@st.composite
def cases(draw, max_nodes=9):
	n = draw(st.integers(1, max_nodes))
	_, edges = draw(edge_sets(n, max_parallel=False))
	source = draw(st.sampled_from([
		list(range(n)), [i + 1000000007 for i in range(n)], [-i - 2 for i in range(n)], [(i * 7919 + 13) % 1000003 for i in range(n)]
	]))
	limit = st.one_of(st.none(), st.integers(0, 4))
	return {
		'hashes': list(source), 'edges': [list(e) for e in edges], 'start': draw(st.integers(0, n - 1)), 'max_depth': draw(limit), 'max_height': draw(limit),
		'strict': draw(st.sampled_from([None, True, False])), 'positional': draw(st.booleans())
	}


def FIXED(tier):
	for case in large_objects(80 if tier == 'quick' else 300):
		yield dict(case, strict=None, positional=True)


@st.composite
def valued(draw):
	"""objects that are made anew whenever they are asked for"""
	return dict(draw(cases()), fresh=True)


STREAMS = [Stream('objects', cases(), 900, 10000), Stream('more objects', cases(max_nodes=20), 60, 800), Stream('objects made anew', valued(), 200, 2000)]
