"""C09: the tree as text"""
from core import Stream, check, same, sut
from gen import changing, exhaustive, joined, programs, shapes, rewired
from world import World, build, expected_label, ids

ID = 'C09'
RULE = (
	'A case is a graph (every directed graph of up to 3 nodes with self-loops, 4 when thorough; random shapes built in 12 ways, with labels; '
	'histories; long chains); the text of the whole graph and of each node is compared with a reference that draws every root, every node below '
	'its parent, every edge once, and marks nodes drawn before with an asterisk. Some histories are asked about after every step, some (asked after changes) after changes that leave the numbers of nodes and edges as they were. Non-trivial: some node is marked.'
)


def reference(node, label, children, indentation, already, prefix=''):
	"""explicit stack, so that long graphs are no problem"""
	lines = []
	todo = [(node, prefix, indentation)]
	while todo:
		n, prefix, indentation = todo.pop()
		if n in already:
			lines.append(prefix + label[n] + '*')
			continue
		lines.append(prefix + label[n])
		if children[n]:
			already.add(n)
		below = []
		for k, c in enumerate(children[n]):
			if k == len(children[n]) - 1:
				below.append((c, indentation + '\u2514 ', indentation + '  '))
			else:
				below.append((c, indentation + '\u251c ', indentation + '\u2502 '))
		todo.extend(reversed(below))
	return lines


def run(case, rec):
	if 'ops' in case:
		w = World(case['names'], case.get('args'))
		w.run(case, after_each=(lambda w: trees(w.g, w.m, case, rec)) if case.get('each') else None)
		g, m = w.g, w.m
	else:
		g, m = build(case)
		for k, text in enumerate(case.get('labels', [])):
			if m.nodes:
				name = list(m.nodes)[k % len(m.nodes)]
				with sut('setting a label'):
					g.get_node(name).label = text
				m.nodes[name]['label'] = text
	trees(g, m, case, rec)


def trees(g, m, case, rec):
	with sut('asking for children'):
		label = {n: expected_label(n, m.nodes[n]['label']) for n in m.nodes}
		children = {n: ids(g.get_children(n)) for n in m.nodes}
		for n in m.nodes:
			if sorted(map(repr, children[n])) != sorted(map(repr, m.children(n))):
				return rec.label('children differ')  # another property's business
		roots = ids(g.roots)
	with sut('get_tree_str'):
		text = g.get_tree_str()
	already = set()
	parts = ['\n'.join(reference(r, label, children, '', already)) + '\n' for r in roots]
	marked = False
	compare(text, '\n'.join(parts), 'the tree')
	lines = text.split('\n')
	if all('\n' not in x for x in label.values()):
		drawn = sum(1 for line in lines if line)
		check('' in label.values() or drawn == len(roots) + len(m.edges), f'{drawn} lines for {len(roots)} roots and {len(m.edges)} edges')
	for n in list(m.nodes)[:case.get('single', 12)]:
		with sut(f'get_tree_str of {n!r}'):
			text = g.get_node(n).get_tree_str()
			again = g.get_node(n).get_tree_str()
		already = set()
		compare(text, '\n'.join(reference(n, label, children, '', already)) + '\n', f'the tree of {n!r}')
		same(again, text, f'the tree of {n!r}, asked for again')
		marked = marked or '*\n' in text
	rec.nontrivial(marked)
	rec.label(f'lines {min(len(lines) // 5 * 5, 30)}+')


def compare(actual, expected, what):
	if actual.rstrip('\n') != expected.rstrip('\n'):
		from core import Violation
		raise Violation(f'{what}:\n{actual[:800]}\nexpected:\n{expected[:800]}')


from hypothesis import strategies as st
from gen import labels


@st.composite
def labelled(draw, **kwargs):
	case = draw(shapes(**kwargs))
	case['labels'] = draw(st.lists(st.one_of(labels, labels, labels, st.sampled_from([5, -1, 2.5, True])), max_size=4))
	return case


STREAMS = [
	Stream('asked after every step', changing(), 120, 1500),
	Stream('asked after changes', rewired(), 150, 2000),
	Stream('shapes', labelled(), 700, 8000),
	Stream('histories', programs(max_ops=30, render=False), 300, 3000),
	Stream('bigger', labelled(max_nodes=30), 60, 600)
]


def FIXED(tier):
	for n in (300, 1300):
		names = [f'n{i}' for i in range(n)]
		yield {'names': names, 'via': 'names', 'kind': 'chain', 'edges': [[i, i + 1] for i in range(n - 1)], 'single': 1}
	n = 40  # very many paths
	yield {'names': [f'n{i}' for i in range(n)], 'via': 'names', 'kind': 'ladder', 'edges': [[i, j] for i in range(n) for j in (i + 1, i + 2) if j < n]}


def extra(tier, seed):
	for n in (0, 1, 2, 3):
		for case in exhaustive(n, True, mixed=True):
			yield 'all graphs', case
	for case in joined(True):
		yield 'names put together', case
	if tier == 'thorough':
		for case in exhaustive(4, False, mixed=True):
			yield 'all graphs', case
