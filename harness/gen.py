"""strategies of names, data, programs (histories of operations) and graph shapes; every case is JSON-able"""
from hypothesis import strategies as st

PLAIN = list('abcdefghijklmnopqrst')
DIGITS = [str(i) for i in range(8, 28)]
INTS = [0, 1, 2, 3, -1, 5, 10, 7, 100, 4, 12, 6, 8, 9, 11, 13, 14, 15, 16, 17]
MIXED = ['1', 1, 'a', 0, '0', 'b', 2, '2', -1, '-1', 'c', 10, '10', 'd', 3, '3', 'e', 4, '4', 'f']
WEIRD = [
	'', ' ', 'a b', 'node', 'graph', 'edge', 'strict', 'é', '日本', '🕸', '"', 'say "hi"', "it's", 'a;b', '{x}', '[y]', 'a->b',
	'<b>', 'a\\b', 'line\nbreak', 'tab\t', 'None', 'x' * 40, '#', '//', '/* */', 'a:b', '%s', '{0}', 'A', 'a', 'root', '*', 'Node:a',
]
# names that are put together from others and what may stand between them
AMBIGUOUS = [a + s + b for s in ('-', '->', ',', ' ', '_', '', '|', ':', '/', '.') for a, b in (('a', 'b'), ('b', 'c'), ('a', 'b' + s + 'c'))]
AMBIGUOUS = ['a', 'b', 'c'] + AMBIGUOUS

# names that are alike but for case, spaces, zeros, the form of a letter or an end that comes late
ALIKE = [
	'a', 'A', 'a ', ' a', 'a\t', 'a\n', 'ab', 'aB', '1', '01', '1.0', '+1', '1 ', '\u00e9', 'e\u0301', '\u0391', 'ss', '\u00df', '\uff11', 'a\u200b', 'I', 'i', '\u0130',
	'x' * 60, 'x' * 60 + '1', 'x' * 60 + '2', 'long name ' * 30 + 'a', 'long name ' * 30 + 'b', '10000000000', '10000000001', 'a_b', 'a-b', 'a b', 'a  b', "a'", 'a"'
]
BIG = [2 ** 31, 2 ** 31 + 1, 2 ** 53, 2 ** 53 + 1, 2 ** 64, 2 ** 64 + 1, -2 ** 63, -2 ** 63 - 1, 10 ** 20, 10 ** 20 + 1, 257, 1000003]

name_text = st.text(st.characters(blacklist_categories=('Cs', 'Cc')), min_size=0, max_size=6)


def _distinct(xs):
	result = []
	for x in xs:
		if x not in result:
			result.append(x)
	return result


@st.composite
def name_pools(draw, size=None, max_size=12, styles=('plain', 'plain', 'digits', 'ints', 'mixed', 'weird', 'text', 'ambiguous', 'alike', 'big')):
	"""distinct names; as keys 1 and '1' are distinct"""
	n = size if size is not None else draw(st.integers(1, max_size))
	style = draw(st.sampled_from(styles))
	if style == 'text':
		names = _distinct(draw(st.lists(name_text, min_size=n, max_size=n)))
		i = 0
		while len(names) < n:
			if f'n{i}' not in names:
				names.append(f'n{i}')
			i += 1
		return names
	if style == 'ambiguous':
		# names that share one separator
		k = draw(st.integers(0, 9))
		few = ['a', 'b', 'c'] + AMBIGUOUS[3 + 3 * k:6 + 3 * k]
		names = _distinct(list(draw(st.permutations(few))))[:n]
		return names + [x for x in PLAIN[3:] + DIGITS if x not in names][:n - len(names)]
	source = {'plain': PLAIN, 'digits': DIGITS, 'ints': INTS, 'mixed': MIXED, 'weird': WEIRD, 'alike': ALIKE, 'big': BIG}[style]
	if style == 'alike' and n < len(source):
		# next to each other
		k = draw(st.integers(0, len(source) - n))
		source = source[k:k + n]
	while len(source) < n:
		source = source + [f'x{len(source)}']
	if draw(st.booleans()):
		return source[:n]
	return draw(st.permutations(source))[:n]


plain_values = st.one_of(
	st.none(), st.sampled_from([0, 1, 2, -1, 0.5, 0.0, '', 'v', False, True, 3, 10]), st.integers(-1000, 1000),
	st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\0'), max_size=3), st.sampled_from([[], [1], {}, {'k': 1}, [1, [2]]]),
	st.sampled_from([' ', ' v ', 'L', 'l', '0', 'label', 'v' * 100, 10 ** 12, 2 ** 53 + 1, 0.1, -2.5, 1e-9, 1e6, [0] * 12, {'k': {'k': [1, {}]}, 'l': None}, [None], [[]], {'': 0}])
)
labels = st.one_of(st.none(), st.none(), st.sampled_from(['L', 'label', 'two words', 'é', 'A', '0', 'x"y', '']), st.text('abc XYZ', min_size=1, max_size=5), st.sampled_from([' ', ' L', 'l', 'two  spaces', 'two\nlines', 'two\r\nlines', 'a\rb', 'a\tb', 'a label of some length ' * 8, 'None', '0.0', 'L' * 65]))
edge_ids = st.one_of(st.none(), st.none(), st.none(), st.sampled_from([0, 1, 2, -1, '', '0', '1', 'e', 'edge1', 'None', 'b', 'c', 'E', 'e ', 'x' * 60 + '1', 'x' * 60 + '2', 2 ** 53, 2 ** 53 + 1, 12, 100]))
policies = st.sampled_from([None, 'warn', 'error', 'ignore'])
hows = st.integers(0, 5)
idx = st.integers(0, 40)
payload = st.fixed_dictionaries({}, optional={'label': labels, 'value': plain_values})
PARAMETERS = ['weight', 'kind', 'p', 'tag', '_p', '_value', '_graph', '__x', 'Tag', 'été']
params = st.one_of(st.just({}), st.just({}), st.dictionaries(st.sampled_from(PARAMETERS), plain_values, max_size=2))


def ops(render=True, copies=True):
	choices = []

	def add(weight, strategy):
		choices.extend([strategy] * weight)

	add(5, st.tuples(st.just('add'), idx, payload, params, policies))
	add(2, st.tuples(st.just('ctor'), idx, payload, params))
	add(9, st.tuples(st.just('conn'), idx, idx, edge_ids, payload, params, policies, hows))
	add(2, st.tuples(st.just('ector'), idx, idx, edge_ids, payload, params))
	add(2, st.tuples(st.just('rm'), idx, hows))
	add(2, st.tuples(st.just('rmedge'), idx, hows))
	add(1, st.tuples(st.just('rmedges'), idx))
	add(2, st.tuples(st.just('readd'), idx))
	add(1, st.tuples(st.just('nlabel'), idx, labels))
	add(1, st.tuples(st.just('nvalue'), idx, plain_values))
	add(1, st.tuples(st.just('elabel'), idx, labels))
	add(1, st.tuples(st.just('evalue'), idx, plain_values))
	add(1, st.tuples(st.just('nparam'), idx, st.sampled_from(PARAMETERS), plain_values, hows))
	add(1, st.tuples(st.just('eparam'), idx, st.sampled_from(PARAMETERS), plain_values, hows))
	add(1, st.tuples(st.just('chain'), idx, st.integers(1, 12), st.booleans()))
	add(1, st.tuples(st.just('fan'), idx, st.integers(1, 12), st.booleans()))
	if copies:
		add(1, st.tuples(st.just('copy')))
		add(1, st.tuples(st.just('pickle')))
	if render:
		add(1, st.tuples(st.just('render')))
	return st.one_of(*choices).map(list)


# settings that make no difference to what a graph holds
neutral = st.one_of(*[st.just({})] * 3, st.fixed_dictionaries({}, optional={
	'strict': st.sampled_from([True, True, False]), 'ordering': st.booleans(), 'direction': st.sampled_from(['LR', 'TB', 'RL']),
	'label': st.sampled_from([None, 'label']), 'label_location': st.just('top'), 'tooltip': st.just('tip'), 'colour_scheme': st.sampled_from(['pastel19', 'pensieve']),
	'nodesep': st.just(1), 'style_overwrite_allowed': st.booleans(), 'stylist': st.just('random'), 'edge_style': st.just({'text_size': 9})
}))


@st.composite
def programs(draw, max_ops=40, max_names=12, render=True, copies=True, styles=None, min_ops=0):
	names = draw(name_pools(max_size=max_names) if styles is None else name_pools(max_size=max_names, styles=styles))
	n = draw(st.integers(min_ops, max_ops))
	op = ops(render=render, copies=copies)
	# most graphs need nodes before anything else can happen
	first = draw(st.integers(0, len(names)))
	return {
		'names': names, 'first': first, 'args': draw(neutral),
		'ops': draw(st.lists(op, min_size=n, max_size=n))
	}


@st.composite
def changing(draw, max_ops=14, max_names=6):
	"""small histories that mostly change relations, for asking the same questions after every step"""
	names = draw(name_pools(max_size=max_names, styles=('plain', 'digits', 'ints', 'mixed')))
	small = st.integers(0, max_names - 1)
	conn = st.tuples(st.just('conn'), small, small, st.sampled_from([None, None, None, 1]), st.just({}), st.just({}), st.just('ignore'), hows)
	op = st.one_of(
		conn, conn, conn, conn, st.tuples(st.just('rmedge'), idx, hows), st.tuples(st.just('rmedge'), idx, hows), st.tuples(st.just('rm'), small, hows),
		st.tuples(st.just('readd'), small), st.tuples(st.just('add'), small, st.just({}), st.just({}), st.just('ignore')),
		st.tuples(st.just('rmedges'), small), st.tuples(st.just('render')), st.tuples(st.just('move'), idx, small, small),
		st.tuples(st.just('move'), idx, small, small), st.tuples(st.just('turn'), idx), st.tuples(st.just('turn'), idx), st.tuples(st.sampled_from(['copy', 'pickle']))
	).map(list)
	n = draw(st.integers(2, max_ops))
	return {'names': names, 'first': draw(st.integers(1, len(names))), 'args': draw(neutral), 'each': True, 'ask': draw(st.sampled_from([[True], [True], [True, False], [False, True, True]])), 'ops': draw(st.lists(op, min_size=n, max_size=n))}


@st.composite
def rewired(draw, max_names=6, changes=5, payloads=False):
	"""a graph that is asked about, changed a little while the numbers of things mostly stay, and asked again"""
	names = draw(name_pools(size=draw(st.integers(2, max_names)), styles=('plain', 'digits', 'ints', 'mixed')))
	n = len(names)
	_, edges = draw(edge_sets(n))
	small = st.integers(0, n - 1)
	ops = [['conn', a, b, None, {}, {}, 'ignore', 0] for a, b in edges]
	asked = [len(ops)]
	change = st.one_of(
		st.tuples(st.just('swap'), idx, idx), st.tuples(st.just('swap'), idx, idx), st.tuples(st.just('move'), idx, small, small), st.tuples(st.just('move'), idx, small, small),
		st.tuples(st.just('turn'), idx), st.tuples(st.just('rmedge'), idx, hows), st.tuples(st.just('readd'), small), st.tuples(st.just('rm'), small, hows)
	).map(list)
	if payloads:
		change = st.one_of(change, change, st.one_of(
			st.tuples(st.just('nlabel'), small, labels), st.tuples(st.just('nvalue'), small, plain_values), st.tuples(st.just('elabel'), idx, labels),
			st.tuples(st.just('evalue'), idx, plain_values), st.tuples(st.just('nparam'), small, st.sampled_from(PARAMETERS), plain_values, hows),
			st.tuples(st.just('eparam'), idx, st.sampled_from(PARAMETERS), plain_values, hows)
		).map(list))
	for _ in range(draw(st.integers(1, changes))):
		ops.extend(draw(st.lists(change, min_size=1, max_size=2)))
		asked.append(len(ops))
	return {'names': names, 'first': n, 'args': draw(neutral), 'each': True, 'ask at': asked, 'ops': ops}


# shapes: graphs as such, for questions about relations

@st.composite
def edge_sets(draw, n, max_parallel=True):
	"""pairs of node indices 0..n-1"""
	kind = draw(st.sampled_from([
		'sparse', 'sparse', 'dense', 'dag', 'dag', 'tree', 'chain', 'cycle', 'lollipop', 'diamonds', 'sccs', 'star', 'complete', 'bipartite', 'none'
	]))
	rank = draw(st.permutations(range(n)))
	edges = []
	if kind == 'none' or n == 0:
		pass
	elif kind in ('sparse', 'dense', 'dag'):
		m = draw(st.integers(0, {'sparse': n + 2, 'dense': 3 * n, 'dag': 2 * n}[kind]))
		for _ in range(m):
			a = draw(st.integers(0, n - 1))
			b = draw(st.integers(0, n - 1))
			if kind == 'dag':
				if a == b:
					continue
				a, b = min(a, b), max(a, b)
			edges.append((a, b))
	elif kind == 'tree':
		for b in range(1, n):
			edges.append((draw(st.integers(max(0, b - 4), b - 1)), b))
	elif kind == 'chain':
		edges = [(i, i + 1) for i in range(n - 1)]
	elif kind == 'cycle':
		edges = [(i, (i + 1) % n) for i in range(n)]
	elif kind == 'lollipop':
		k = draw(st.integers(1, n))
		edges = [(i, i + 1) for i in range(n - 1)] + [(k - 1, 0)]
		if draw(st.booleans()):
			edges.append((n - 1, draw(st.integers(0, n - 1))))
	elif kind == 'diamonds':
		i = 0
		while i + 3 < n:
			edges += [(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]
			i += 3
	elif kind == 'sccs':
		# cycles joined by single edges
		i = 0
		previous = None
		while i < n:
			k = min(n - i, draw(st.integers(1, 4)))
			edges += [(i + j, i + (j + 1) % k) for j in range(k) if k > 1 or draw(st.booleans())]
			if previous is not None and draw(st.integers(0, 3)) > 0:
				edges.append((previous + draw(st.integers(0, i - previous - 1)), i + draw(st.integers(0, k - 1))))
			previous = i
			i += k
	elif kind == 'star':
		c = draw(st.integers(0, n - 1))
		out = draw(st.booleans())
		edges = [(c, i) if out else (i, c) for i in range(n) if i != c]
	elif kind == 'complete':
		m = min(n, 6)
		edges = [(i, j) for i in range(m) for j in range(m) if i != j]
	elif kind == 'bipartite':
		half = n // 2
		edges = [(i, j) for i in range(half) for j in range(half, n) if draw(st.booleans())]
	extra = draw(st.integers(0, 3))
	if n > 0 and draw(st.integers(0, 2)) == 0:
		for _ in range(extra):
			edges.append((draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))))
	edges = [(rank[a], rank[b]) for a, b in edges]
	if len(edges) > 1 and draw(st.booleans()):
		edges = draw(st.permutations(edges))
	if not max_parallel:
		edges = _distinct(edges)
	return kind, edges


VIAS = ['names', 'names', 'nodes', 'ctor', 'copy', 'pickle', 'dict', 'graph', 'add', 'lists', 'copycopy', 'filter']


@st.composite
def shapes(draw, max_nodes=12, vias=tuple(VIAS), styles=('plain', 'plain', 'digits', 'ints', 'mixed', 'weird', 'text', 'ambiguous', 'alike', 'big'), edit=True, min_nodes=0):
	n = draw(st.integers(min_nodes, max_nodes))
	names = draw(name_pools(size=n, styles=styles))
	kind, edges = draw(edge_sets(n))
	case = {
		'names': names, 'kind': kind, 'edges': [list(e) for e in edges], 'via': draw(st.sampled_from(vias)),
		'args': draw(neutral), 'remove_nodes': [], 'remove_edges': [], 'late': []
	}
	if edit and draw(st.integers(0, 2)) == 0 and n > 0:
		case['remove_edges'] = draw(st.lists(st.integers(0, 30), max_size=3))
		case['remove_nodes'] = draw(st.lists(st.integers(0, 30), max_size=2))
		case['late'] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30)), max_size=3))]
	return case


def exhaustive(n, self_loops, mixed=False):
	"""every directed graph with n nodes; with names that are alike as text in every other one if they may be mixed"""
	pairs = [(i, j) for i in range(n) for j in range(n) if self_loops or i != j]
	for bits in range(1 << len(pairs)):
		yield {
			'names': (MIXED if mixed and (bits ^ bits >> 3) & 1 else PLAIN)[:n], 'kind': f'all{n}', 'via': 'names', 'remove_nodes': [], 'remove_edges': [], 'late': [],
			'edges': [list(p) for k, p in enumerate(pairs) if bits >> k & 1]
		}


def joined(mixed=False):
	"""graphs whose edges are alike where names are put together, or are alike as text if they may be mixed"""
	kinds = [(['a', 'b', 'c'] + AMBIGUOUS[3 + 3 * k:6 + 3 * k], [[3, 2], [0, 4]]) for k in range(10)]
	if mixed:
		kinds.append((MIXED[:2] + MIXED[3:5] + MIXED[6:8], [[0, 3], [1, 2]]))
		kinds.append((MIXED[:2] + MIXED[3:5] + MIXED[6:8], [[0, 2], [0, 3], [1, 2], [1, 3]]))
	for names, alike in kinds:
		n = len(names)
		for kind, edges in (('alike', alike), ('alike', alike[::-1]), ('complete', [[i, j] for i in range(n) for j in range(n) if i != j])):
			yield {'names': names, 'kind': kind, 'via': 'names', 'remove_nodes': [], 'remove_edges': [], 'late': [], 'edges': edges}


def joined_programs():
	"""histories of such graphs: built, one of the edges removed in every way, its start removed, everything connected again"""
	for k, shape in enumerate(joined(True)):
		build = [['conn', a, b, None, {'value': i}, {'weight': i}, 'error', i % 6] for i, (a, b) in enumerate(shape['edges'])]
		yield {
			'names': shape['names'], 'first': len(shape['names']), 'ops': build + [['rmedge', 0, k], ['evalue', 0, 'changed'], ['copy'], ['rm', shape['edges'][1][0], k]] + [
				['add', shape['edges'][1][0], {}, {}, None]] + [op[:6] + ['ignore', k % 6] for op in build]
		}
