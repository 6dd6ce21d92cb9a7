"""graphs with settings, styles, tooltips and overrides, described by JSON"""
import re

from hypothesis import strategies as st

from core import sut
from gen import edge_sets, labels, name_pools, plain_values
from world import Model

hexes = st.one_of(
	st.sampled_from(['#ff0000', '#00ff00', '#0000ff', '#123456', '#abcdef', '#808080', '#000000', '#ffffff']),
	st.integers(0, 0xffffff).map('#{:06x}'.format)
)
shapes_ = st.sampled_from(['box', 'circle', 'ellipse', 'diamond', 'plaintext', 'hexagon'])

node_style_specs = st.fixed_dictionaries({}, optional={
	'colour': hexes, 'fill_colour': hexes, 'border_colour': hexes, 'text_colour': hexes, 'opacity': st.sampled_from([None, 1, 0.5, 0, 0.25]),
	'font': st.sampled_from(['arial', 'times', 'helvetica', 'courier new']), 'text_size': st.integers(4, 40), 'shape': shapes_,
	'shape_style': st.sampled_from(['filled', 'rounded', 'rounded, filled', 'dashed']), 'lighter_fill': st.booleans()
})
edge_style_specs = st.fixed_dictionaries({}, optional={
	'colour': hexes, 'text_colour': hexes, 'opacity': st.sampled_from([1, 0.5, 0, 0.25]),
	'font': st.sampled_from(['arial', 'times', 'helvetica']), 'text_size': st.integers(4, 40),
	'arrow_size': st.sampled_from([0.5, 1, 2, 0.25, 0]), 'label_style': st.sampled_from(['below', 'above']), 'line_width': st.integers(0, 5)
})
# overrides are dictionaries of the attributes of a style
node_overrides = st.fixed_dictionaries({}, optional={
	'shape': shapes_, 'text_size': st.integers(4, 40), 'font': st.sampled_from(['arial', 'times']), 'shape_style': st.sampled_from(['filled', 'dashed']),
	'fill_colour': hexes, 'border_colour': hexes, 'text_colour': hexes, 'opacity': st.sampled_from([0, 0.25, 0.5, 1])
})
edge_overrides = st.fixed_dictionaries({}, optional={
	'text_size': st.integers(4, 40), 'font': st.sampled_from(['arial', 'times']), 'arrow_size': st.sampled_from([0.25, 1, 2, 0]),
	'line_width': st.integers(0, 5), 'label_style': st.sampled_from(['above', 'below']), 'text_colour': hexes, 'opacity': st.sampled_from([0, 0.25, 0.5, 1])
})

safe_text = st.text(st.characters(blacklist_categories=('Cs', 'Cc'), blacklist_characters='\\"<>'), min_size=1, max_size=8)

# more colours than anything has by itself
MANY = [f'#{(37 * k) % 256:02x}{(91 * k) % 256:02x}{(53 * k + 17) % 256:02x}' for k in range(1, 14)]

graph_settings = st.fixed_dictionaries({}, optional={
	'direction': st.sampled_from(['LR', 'TB', 'RL', 'BT', 'lr', 'tb']), 'label': st.one_of(st.none(), st.just(''), safe_text),
	'label_url': st.one_of(st.none(), st.just('http://example.com/x')), 'tooltip': st.one_of(st.none(), safe_text),
	'label_location': st.sampled_from(['top', 'bottom', 't', 'b']), 'font_size': st.integers(5, 30), 'font': st.sampled_from(['arial', 'times']),
	'label_colour': st.sampled_from(['red', 'blue', '#123456']), 'label_background_colour': st.sampled_from([None, None, 'yellow', '#654321']),
	'background_colour': hexes, 'strict': st.booleans(), 'ordering': st.booleans(),
	'colour_scheme': st.sampled_from(['pensieve2', 'pensieve', 'pastel19', 'scheme:#ff0000,#00ff00,#0000ff', 'scheme:#123456', 'scheme:' + ','.join(MANY)]),
	'stylist': st.sampled_from(['pensieve', 'pensieve', 'random']), 'style_overwrite_allowed': st.booleans(),
	'node_label_converter': st.sampled_from(['upper', 'bracket', 'length']), 'edge_label_converter': st.sampled_from(['upper', 'bracket']),
	'nodesep': st.sampled_from([0.5, 1, 2]), 'splines': st.sampled_from(['ortho', 'line']), 'rank_word': safe_text,
	'node_style': node_overrides, 'edge_style': edge_overrides
})


# converters have to be found by name to be pickled
def upper(x):
	return str(x).upper()


def bracket(x):
	return f'[{x}]'


def length(x):
	return f'{len(str(x))} characters'


CONVERTERS = {'upper': upper, 'bracket': bracket, 'length': length}


def settings_to_kwargs(settings):
	from colouration import Colour, Scheme
	kwargs = dict(settings)
	for k in ('node_label_converter', 'edge_label_converter'):
		if k in kwargs:
			kwargs[k] = CONVERTERS[kwargs[k]]
	scheme = kwargs.get('colour_scheme')
	if scheme is not None and scheme.startswith('scheme:'):
		kwargs['colour_scheme'] = Scheme(colours=[Colour(x) for x in scheme[7:].split(',')], normalize_lightness=None)
	return kwargs


@st.composite
def styled_graphs(draw, max_nodes=8, settings=graph_settings, values=plain_values, styles=('plain', 'plain', 'ints', 'digits', 'weird', 'text', 'ambiguous', 'alike', 'big'), overrides=True, min_nodes=0, removals=False):
	n = draw(st.integers(min_nodes, max_nodes))
	names = draw(name_pools(size=n, styles=styles))
	kind, edges = draw(edge_sets(n))
	tooltips = st.one_of(st.none(), st.none(), safe_text, st.just(''))
	some_params = st.sampled_from([{}, {}, {'weight': 1}, {'kind': 'x', 'list': [1]}])
	nodes = []
	palette = draw(st.lists(node_style_specs, min_size=1, max_size=2))
	epalette = draw(st.lists(edge_style_specs, min_size=1, max_size=2))
	pick_style = st.one_of(st.none(), st.none(), st.integers(0, 1))
	for name in names:
		nodes.append({
			'name': name, 'label': draw(labels), 'value': draw(values), 'tooltip': draw(tooltips), 'style': draw(pick_style),
			'params': draw(some_params)
		})
	result = []
	counts = {}
	for a, b in edges:
		k = counts.get((a, b), 0)
		counts[(a, b)] = k + 1
		result.append({
			'start': a, 'end': b, 'id': draw(st.sampled_from([None, None, 0, 'e'])) if k == 0 else k + 1,
			'label': draw(labels), 'value': draw(values), 'tooltip': draw(tooltips), 'style': draw(pick_style), 'params': draw(some_params)
		})
	case = {
		'settings': draw(settings), 'nodes': nodes, 'edges': result, 'palette': palette, 'epalette': epalette, 'kind': kind,
		'node_styles': [], 'edge_styles': [], 'as_objects': draw(st.booleans()), 'frozen': draw(st.lists(st.integers(0, 10), max_size=2)),
		'frozen_edges': draw(st.lists(st.integers(0, 10), max_size=1))
	}
	if overrides and n > 0 and draw(st.booleans()):
		case['node_styles'] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), node_overrides), max_size=3, unique_by=lambda x: x[0]))]
		if result:
			case['edge_styles'] = [
				list(x) for x in draw(st.lists(st.tuples(st.integers(0, len(result) - 1), edge_overrides), max_size=3, unique_by=lambda x: x[0]))
			]
		if draw(st.integers(0, 2)) == 0:
			case['node_colours'] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), hexes), max_size=2, unique_by=lambda x: x[0]))]
			if result:
				case['edge_colours'] = [
					list(x) for x in draw(st.lists(st.tuples(st.integers(0, len(result) - 1), hexes), max_size=2, unique_by=lambda x: x[0]))
				]
	if removals and n > 0 and draw(st.integers(0, 2)) == 0:
		case['remove_edges'] = draw(st.lists(st.integers(0, 30), max_size=3))
		case['remove_nodes'] = draw(st.lists(st.integers(0, 30), max_size=1))
	return case


def big_case(n, settings=None, overrides=True, numbers=False, chain=True):
	"""a graph of many nodes with all that they can have, for what only many of them meet"""
	def thing(k):
		return {
			'label': [None, f'label {k}', None, 'the same label'][k % 4], 'value': k if numbers or k % 3 else None if k % 2 else f'value {k}', 'tooltip': [None, None, f'tip {k}'][k % 3],
			'style': [None, 0, None, None, 1][k % 5], 'params': [{}, {'weight': k}, {'kind': f'kind {k}', 'list': [k]}][k % 3]
		}
	nodes = [dict(thing(k), name=k if k % 7 == 3 else f'node {k}') for k in range(n)]
	pairs = [(k, k + 1, None) for k in range(n - 1)] if chain else []
	pairs += [(0, k, 'fan') for k in range(2, n, 3)] + [(k, n - 1, 'fan') for k in range(1, n, 5)] + [(k, k // 2, 2) for k in range(10, n, 10)] + [(k, k, None) for k in range(7, n, 29)]
	edges = [dict(thing(k + 1), start=a, end=b, id=i) for k, (a, b, i) in enumerate(pairs)]
	last = len(edges) - 1
	return {
		'settings': dict(settings or {}), 'nodes': nodes, 'edges': edges, 'kind': 'big', 'as_objects': n % 2 == 0, 'frozen': [0, n // 2], 'frozen_edges': [last // 3],
		'palette': [{'colour': '#4060a0', 'text_size': 14}, {'shape': 'hexagon', 'fill_colour': '#ddeecc'}], 'epalette': [{'colour': '#a06040', 'line_width': 3}, {'arrow_size': 2}],
		'node_styles': [[0, {'shape': 'circle'}], [n // 2, {'text_size': 33}], [n - 1, {'font': 'times', 'shape': 'diamond'}]] if overrides else [],
		'edge_styles': [[0, {'text_size': 21}], [last, {'font': 'times', 'line_width': 4}]] if overrides else [],
		'node_colours': [[1, '#a01020'], [n - 2, '#10a020']] if overrides else [], 'edge_colours': [[1, '#a02010'], [last - 1, '#1020a0']] if overrides else []
	}


def edge_id(case, e):
	return (case['nodes'][e['start']]['name'], case['nodes'][e['end']]['name'], e['id'])


def make(case, graph_class=None):
	"""the graph and its model (payloads as well)"""
	from abstract import Graph
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	kwargs = settings_to_kwargs(case['settings'])
	m = Model()
	with sut('building the graph'):
		palette = [NodeStyle(**s) if case['as_objects'] else dict(s) for s in case['palette']]
		epalette = [EdgeStyle(**s) if case['as_objects'] else dict(s) for s in case['epalette']]

		def style(k, styles):
			return None if k is None else styles[k % len(styles)]

		g = (graph_class or Graph)(**kwargs)
		overrides = {'nodes': {}, 'edges': []}  # for nodes
		if case['node_styles']:
			overrides['node_styles'] = {case['nodes'][i]['name']: dict(s) for i, s in case['node_styles']}
		for n in case['nodes']:
			g.add_node(n['name'], label=n['label'], value=clone(n['value']), tooltip=n['tooltip'], style=style(n['style'], palette), **clone(n['params']))
			m.add_node(n['name'], label=n['label'], value=n['value'], params=n['params'])
		if case.get('node_colours'):
			overrides['node_colours'] = {case['nodes'][i]['name']: x for i, x in case['node_colours']}
		edge_styles = dict((i, s) for i, s in case['edge_styles'])
		edge_colours = dict((i, x) for i, x in case.get('edge_colours', []))
		if case['node_styles'] or case.get('node_colours'):
			g.append(overrides)
		for i, e in enumerate(case['edges']):
			s, t, raw = edge_id(case, e)
			if i in edge_styles or i in edge_colours:
				# only a dictionary can give overrides for edges
				d = {}
				if i in edge_styles:
					d['edge_styles'] = {(s, t, raw): dict(edge_styles[i])}
				if i in edge_colours:
					d['edge_colours'] = {(s, t, raw): edge_colours[i]}
				g.append({
					'nodes': {},
					'edges': [[s, t, {
						'id': raw, 'label': e['label'], 'value': clone(e['value']), 'tooltip': e['tooltip'], 'style': style(e['style'], epalette),
						**clone(e['params'])
					}]], **d
				})
			else:
				g.connect(
					s, t, id=raw, label=e['label'], value=clone(e['value']), tooltip=e['tooltip'], style=style(e['style'], epalette), **clone(e['params'])
				)
			m.add_edge(s, t, raw, label=e['label'], value=e['value'], params=e['params'])
		for k in case['frozen']:
			if case['nodes']:
				g.get_node(case['nodes'][k % len(case['nodes'])]['name']).freeze()
		for k in case.get('frozen_edges', []):
			if case['edges']:
				s, t, raw = edge_id(case, case['edges'][k % len(case['edges'])])
				g.get_node(s).get_outward_edge((s, t, raw)).freeze()
		# what was given a style of its own, a style as override or a colour can be removed
		special = [edge_id(case, case['edges'][i]) for i in list(edge_styles) + list(edge_colours)]
		for k in case.get('remove_edges', []):
			if m.edges:
				i = list(m.edges)[k % len(m.edges)]
				if k % 2 and special:
					i = special[k // 2 % len(special)]
				if i in m.edges:
					g.get_node(i[0]).get_outward_edge(i).remove_self()
					del m.edges[i]
		for k in case.get('remove_nodes', []):
			name = list(m.nodes)[k % len(m.nodes)]
			g.remove_node(name)
			m.remove_node(name)
	return g, m


def clone(x):
	import copy
	return copy.deepcopy(x)


# a reader of the DOT language (https://graphviz.org/doc/info/lang.html), written from its grammar

TOKEN = re.compile(r'''
	(?P<space>\s+|//[^\n]*|/\*.*?\*/)
	|(?P<string>"(?:\\.|[^"\\])*")
	|(?P<arrow>->|--)
	|(?P<punct>[{}\[\];,=:+])
	|(?P<id>[A-Za-z_\x80-\U0010ffff][A-Za-z_0-9\x80-\U0010ffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))
	|(?P<html><)
''', re.X | re.S)


def unescape(text):
	"""backslash quote is a quote, backslash newline is nothing; every other backslash stays, with the character after it"""
	return re.sub(r'\\(.)', lambda m: {'"': '"', '\n': ''}.get(m.group(1), m.group()), text, flags=re.S)


class DotError(Exception):
	pass


def tokens(text):
	i = 0
	result = []
	while i < len(text):
		match = TOKEN.match(text, i)
		if not match:
			raise DotError(f'not DOT at {text[i:i + 40]!r}')
		kind = match.lastgroup
		if kind == 'html':
			depth, j = 0, i
			while j < len(text):
				if text[j] == '<':
					depth += 1
				elif text[j] == '>':
					depth -= 1
					if depth == 0:
						break
				j += 1
			else:
				raise DotError('HTML string does not end')
			result.append(('html', text[i:j + 1]))
			i = j + 1
			continue
		if kind == 'string':
			# the only escape of the language itself is \" ; backslash newline joins lines
			result.append(('value', unescape(match.group()[1:-1])))
		elif kind == 'id':
			result.append(('word', match.group()))
		elif kind != 'space':
			result.append((match.group(), match.group()))
		i = match.end()
	return result


class Dot:
	"""a parsed graph: header, attributes, nodes in order, edges in order"""

	def __init__(self, text):
		self.toks = tokens(text)
		self.i = 0
		self.strict = False
		self.attributes = {}
		self.nodes = []  # (id, attributes)
		self.edges = []  # (tail, head, attributes)
		self.duplicate_attributes = []
		if self.peek() == ('word', 'strict'):
			self.strict = True
			self.next()
		if self.next() != ('word', 'digraph'):
			raise DotError('not a digraph')
		if self.peek()[0] in ('word', 'value'):
			self.next()
		self.block()
		if self.i != len(self.toks):
			raise DotError(f'text after the graph: {self.toks[self.i:self.i + 3]}')

	def peek(self, k=0):
		return self.toks[self.i + k] if self.i + k < len(self.toks) else ('end', None)

	def next(self):
		t = self.peek()
		if t[0] == 'end':
			raise DotError('ends too early')
		self.i += 1
		return t

	def expect(self, kind):
		t = self.next()
		if t[0] != kind:
			raise DotError(f'{t} instead of {kind}')

	def value(self):
		kind, text = self.next()
		if kind not in ('word', 'value', 'html'):
			raise DotError(f'{(kind, text)} is not an ID')
		return text

	def block(self):
		self.expect('{')
		while self.peek()[0] != '}':
			self.statement()
			if self.peek()[0] == ';':
				self.next()
		self.expect('}')

	def statement(self):
		kind, text = self.peek()
		if kind == '{':
			return self.block()
		if kind == 'word' and text.lower() in ('graph', 'node', 'edge') and self.peek(1)[0] == '[':
			self.next()
			attributes = self.attribute_lists()
			if text.lower() == 'graph':
				self.attributes.update(attributes)
			else:
				raise DotError('defaults for nodes or edges are not understood')
			return
		if kind == 'word' and text.lower() == 'subgraph':
			self.next()
			if self.peek()[0] in ('word', 'value'):
				self.next()
			return self.block()
		if kind == 'word' and text.lower() in ('graph', 'node', 'edge', 'digraph', 'strict'):
			raise DotError(f'keyword {text} as an ID')
		first = self.value()
		if self.peek()[0] == '=':
			self.next()
			self.attributes[first] = self.value()
			return
		path = [first]
		while self.peek()[0] == '->':
			self.next()
			path.append(self.value())
		attributes = self.attribute_lists() if self.peek()[0] == '[' else {}
		if len(path) == 1:
			self.nodes.append((first, attributes))
		else:
			for a, b in zip(path, path[1:]):
				self.edges.append((a, b, attributes))

	def attribute_lists(self):
		result = {}
		while self.peek()[0] == '[':
			self.next()
			while self.peek()[0] != ']':
				k = self.value()
				self.expect('=')
				v = self.value()
				if k in result:
					self.duplicate_attributes.append(k)
				result[k] = v
				if self.peek()[0] in (',', ';'):
					self.next()
			self.expect(']')
		return result


def parse_dot(text, what='the text for Graphviz'):
	from core import Violation
	try:
		return Dot(text)
	except DotError as e:
		raise Violation(f'{what} is not valid: {e}\n{text[:1500]}')


def squeeze(text):
	"""runs of backslashes as one: how many are needed depends on what follows"""
	return re.sub(r'\\+', r'\\', text)


# text that is likely to break a string of Graphviz
hostile = st.one_of(
	st.sampled_from([
		'"', '\\', '\\"', '\\\\', 'a\\', 'a\\"b', '"; x [', '"]', '" -> "', '\n', 'a\nb', '\\\n', '\\n', '\\l', '\\N', '<b>x</b>', '<', '>', '&amp;', '&',
		'//', '/*', '#x', '{', '}', '[', ']', ';', ',', '=', '->', 'é', '日本', '🕸', "'", '%', '\t', ' ', 'node', 'edge', 'graph', 'strict', '\\\\"', '"\\'
	]),
	st.text('ab"\\\n <>{}[];=,', max_size=8),
	st.text(st.characters(blacklist_categories=('Cs', 'Cc')), max_size=6)
)


def opacity(colour):
	"""of a colour as #rrggbb or #rrggbbaa"""
	return int(colour[7:9], 16) / 255 if len(colour) == 9 else 1


def count_with_graphviz(text):
	"""(nodes, edges) as Graphviz itself reads the text; None if it is not installed"""
	import shutil
	import subprocess
	from core import Violation
	gc = shutil.which('gc')
	if gc is None:
		return None
	result = subprocess.run([gc, '-n', '-e'], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
	words = result.stdout.split()
	if result.returncode != 0 or result.stderr or len(words) < 2 or not words[0].isdigit():
		raise Violation(f'Graphviz does not read the text: {result.stderr.decode()[:300]} {result.stdout.decode()[:200]}\n{text[:1500]}')
	return int(words[0]), int(words[1])


def canonical(text):
	"""the text has to be accepted by dot, with labels parsed"""
	import subprocess
	from core import Violation
	try:
		result = subprocess.run(['/usr/bin/dot', '-Tcanon'], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
	except subprocess.TimeoutExpired:
		return  # dot makes a layout as well, which can take long
	if result.returncode < 0 and b'syntax error' not in result.stderr:
		return  # ended by a signal: some layouts, such as with splines=ortho and a huge nodesep, are too much for it
	if result.returncode != 0 or b'syntax error' in result.stderr:
		raise Violation(f'dot does not accept the text: {result.stderr.decode()[:300]}\n{text[:1500]}')


def same_text(shown, text, what):
	"""text between quotes, as Graphviz would show it"""
	from core import Violation
	text = str(text)
	if (shown != text) if '\\' not in text else (squeeze(shown) != squeeze(text)):
		raise Violation(f'{what}: got {shown!r:.300}, expected {text!r:.300}')
