"""C16: graphs from indented text"""
from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from world import Model, check_state, ids

ID = 'C16'
RULE = (
	'A case is an outline: levels that go down one at a time and up by any amount, contents, empty lines, and an indentation (tab, 1 to 8 spaces, '
	'other characters) given or to be inferred, with or without line ends (of Unix or Windows); the graph is compared with the tree of the outline. Malformed outlines '
	'(a level skipped, part of an indentation) must be refused, also where only a line more or a smaller indentation makes the same lines malformed. Non-trivial: at least 3 lines and a return to a lower level, or a malformed line.'
)

ENDS = ['', '\n', '\r\n']


def run(case, rec):
	from abstract import Graph
	unit = case['unit']
	lines, parents, levels = [], [], []
	stack = []
	level = 0
	contents = []
	for k, (wanted, content, empty) in enumerate(case['lines']):
		if empty and k != case['bad']:
			# an empty line is at the level of the line before it
			lines.append('')
			contents.append('')
		else:
			level = min(wanted, len(stack))
			text = content
			lines.append(unit * level + text)
			contents.append(text)
			stack[level:] = [k]
		parents.append(stack[level - 1] if level > 0 else None)
		levels.append(level)
		lines[-1] += ENDS[case['ends']]
	given = list(lines)
	as_given = tuple(lines) if case.get('tuple') else lines
	kwargs = {'indent': unit} if case['given'] else {}
	if case['bad'] is not None and case['bad'] < len(lines):
		return malformed(Graph, case, lines, levels, kwargs, rec)
	with sut(f'from_indented_text({lines}, {kwargs})'):
		g = Graph.from_indented_text('the root', as_given, **kwargs) if case['positional'] else Graph.from_indented_text(root='the root', lines=as_given, **kwargs)
	m = Model()
	m.add_node('root', label='the root')
	for k in range(len(lines)):
		m.add_node(str(k), label=f'line {k}')
		m.add_edge('root' if parents[k] is None else str(parents[k]), str(k))
	check_state(g, m, f'the graph of {lines}'[:500])
	same(lines, given, 'the lines given')
	if len(unit) > 1 and len(set(unit)) == 1 and max(levels + [0]) > 0:
		# with a smaller indentation the first line of level 1 skips a level; and what was said before does not matter
		with raises(f'from_indented_text({lines}, indent={unit[0]!r})'[:500], ValueError):
			Graph.from_indented_text('the root', lines, indent=unit[0])
		with sut('the same lines again'):
			again = Graph.from_indented_text('the root', lines, indent=unit)
		check_state(again, m, f'the graph of {lines}, made again'[:500])
	if case['ends'] == 0:
		# the list can change afterwards
		lines.append('one more')
		with sut('one more line'):
			again = Graph.from_indented_text('the root', lines, **kwargs)
		same(ids(again.get_node('root').children)[-1:], [str(len(lines) - 1)], f'the last child of the root of {lines}'[:500])
		same(ids(again.nodes), ['root'] + [str(k) for k in range(len(lines))], f'nodes of {lines}'[:500])
		lines.pop()
	with sut('reading the tree'):
		same(ids(g.roots), ['root'], 'roots')
		same(len(g.get_tree_str().rstrip('\n').split('\n')), len(lines) + 1, 'lines of the tree')
		if len(lines) <= 100:
			g.render()
	parsed = parse(lines, unit if case['given'] else None)
	if parsed is not None:
		same(parsed, list(zip(range(len(lines)), levels, contents, parents)), f'parsed {lines}')
	rec.nontrivial(len(lines) >= 3 and any(b < a for a, b in zip(levels, levels[1:])))
	rec.label(f'unit {unit!r}', f'depth {max(levels + [0])}', 'given' if case['given'] else 'inferred')


def parse(lines, indent):
	try:
		from abstract.parse_indentations_function import parse_indentations
	except ImportError:
		return None
	with sut('parse_indentations'):
		return [tuple(x) for x in parse_indentations(lines, indent=indent)]


def malformed(Graph, case, lines, levels, kwargs, rec):
	k = case['bad']
	unit = case['unit']
	known = case['given'] or any(levels[i] > 0 and lines[i].strip('\r\n') for i in range(k))
	ends = ENDS[case['ends']]
	if case['how'] == 'skip' or len(unit) == 1 or unit[0] not in ' \t' or not known:
		# two levels below the line before
		depth = max([0] + [levels[i] + 1 for i in range(k) if lines[i].strip('\r\n')][-1:]) + 1
		if not known:
			# the first indentation there is defines the unit, so that only a later one can be too deep
			return rec.label('nothing to skip')
		lines[k] = unit * depth + 'x' + ends
	else:
		lines[k] = unit * levels[k] + unit[:-1] + 'x' + ends
	rec.label(f'malformed {case["how"]}')
	with raises(f'from_indented_text({lines}, {kwargs})', ValueError):
		Graph.from_indented_text('the root', lines, **kwargs)
	rec.nontrivial()


content = st.one_of(
	st.sampled_from(['a', 'b c', 'two  spaces', 'x    y', 'é', '- item', '"q"', '1', 'a\tb', 'trailing ', 'a' * 30, 'key:', '# c', '...', '0', '-', 'a, b;', '* x', '\\n', '{}']),
	st.text(st.characters(blacklist_categories=('Cs', 'Cc', 'Zs', 'Zl', 'Zp'), blacklist_characters='>.|'), min_size=1, max_size=6)
)


@st.composite
def cases(draw, max_lines=20, bad=False):
	n = draw(st.integers(1 if bad else 0, max_lines))
	deepen = draw(st.booleans())
	lines = []
	level = 0
	for _ in range(n):
		level = draw(st.integers(max(0, level - 3), level + 1)) if not deepen else draw(st.sampled_from([level + 1, level + 1, level, level, 0, max(0, level - 1)]))
		level = min(level, 9)
		lines.append([level, draw(content), draw(st.integers(0, 9)) == 0])
	unit = draw(st.sampled_from(['\t', ' ', '  ', '   ', '    ', '        ', '\t\t', ' \t', '  \t', '\t ', '..', '>', '|']))
	if draw(st.integers(0, 3)) == 0:
		# the same in every line
		same_content = draw(content)
		lines = [[k, same_content, empty] for k, _, empty in lines]
	if '.' in unit:
		lines = [[k, x.replace('.', ','), empty] for k, x, empty in lines]
	return {
		'lines': lines, 'unit': unit, 'given': draw(st.booleans()) or unit[0] not in ' \t', 'ends': draw(st.sampled_from([0, 0, 1, 1, 2])),
		'positional': draw(st.booleans()), 'tuple': draw(st.integers(0, 3)) == 0, 'bad': draw(st.integers(0, n - 1)) if bad else None, 'how': draw(st.sampled_from(['skip', 'part']))
	}


def FIXED(tier):
	n = 300 if tier == 'quick' else 900
	base = {'unit': '\t', 'given': False, 'ends': 1, 'positional': True, 'bad': None, 'how': 'skip'}
	yield dict(base, lines=[[k, f'line {k}', False] for k in range(n)])
	yield dict(base, lines=[[k if k < n // 2 else n - k, f'line {k}', k % 50 == 7] for k in range(n)], unit='  ')
	yield dict(base, lines=[[k % 2, f'line {k}', False] for k in range(n)], given=True)
	yield dict(base, lines=[[int(k > 0), f'line {k}', False] for k in range(n)])


STREAMS = [
	Stream('outlines', cases(), 800, 9000), Stream('malformed', cases(bad=True), 300, 3000), Stream('long', cases(max_lines=70), 60, 800)
]
