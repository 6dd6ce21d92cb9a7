"""C26: style objects"""
import copy
import pickle

from hypothesis import strategies as st

from core import Stream, check, same, sut
from styled import edge_overrides, edge_style_specs, hexes, hostile, node_overrides, node_style_specs, opacity, parse_dot, squeeze

ID = 'C26'
RULE = (
	'A case is a style of a node or edge with any of its attributes given, changed by a history of steps (attributes set, complemented with a '
	'dictionary or another style, colours reset or inverted, copied, deep-copied, pickled); it shows what was asked for, copies show the same as the '
	'original and go on in the same way without changing each other, a node or edge that has the style shows it after every step, inverting explicit colours gives their complement, the others derived from these, and twice gives them back. '
	'Non-trivial: at least one attribute is given and at least one step is made.'
)

SHOWN = {
	'node': {
		'shape': 'shape', 'text_size': 'fontsize', 'font': 'fontname', 'shape_style': 'style', 'fill_colour': 'fillcolor', 'border_colour': 'color',
		'text_colour': 'fontcolor'
	},
	'edge': {
		'text_size': 'fontsize', 'font': 'fontname', 'arrow_size': 'arrowsize', 'line_width': 'penwidth', 'label_style': 'lblstyle',
		'text_colour': 'fontcolor', 'colour': 'color'
	}
}


def duplicate(style, way):
	if way == 'copy':
		return style.copy()
	elif way == 'copy.copy':
		return copy.copy(style)
	elif way == 'deepcopy':
		return copy.deepcopy(style)
	return pickle.loads(pickle.dumps(style, protocol=int(way[-1])))


WAYS = ['copy', 'copy.copy', 'deepcopy', 'pickle 2', 'pickle 4', 'pickle 5']


def shown(style):
	with sut('the text of a style'):
		text = style.get_graphviz_str()
	return parse_dot('digraph { a [' + text + '] }').nodes[0][1]


def shows(found, attribute, value):
	if 'colour' in attribute:
		return (found or '')[:7] == value
	elif isinstance(value, str):
		# quotes around it are not part of the text
		return found is not None and squeeze(found) == squeeze(value.strip('"'))
	return found == str(value)


def channels(colour):
	return [int(colour[i:i + 2], 16) for i in (1, 3, 5)]


def near(found, expected, tolerance, what):
	check(
		found is not None and all(abs(x - y) <= tolerance for x, y in zip(channels(found), expected)),
		lambda: f'{what}: got {found}, expected about {expected}'
	)


def step(style, op, arg, cls):
	if op == 'complement':
		style.complement(dict(arg))
	elif op == 'complement object':
		style.complement(cls(**arg))
	elif op == 'reset':
		style.reset_colours()
		style.colour = arg
	elif op == 'invert':
		style = style.invert_colours()
	elif op == 'text':
		style.text_colour = arg
	elif op == 'fill':
		style.fill_colour = arg
	elif op == 'border':
		style.border_colour = arg
	elif op == 'colour':
		style.colour = arg
	else:
		style = duplicate(style, op)
	return style


def wear(style, kind):
	"""a graph with something that has the style; what that shows"""
	from abstract import Graph
	with sut('giving a style'):
		g = Graph()
		g.add_node('a', style=style if kind == 'node' else None)
		g.add_node('b')
		edge = g.connect('a', 'b', style=style if kind == 'edge' else None)

	def read():
		with sut(f'the text of a {kind} with a style'):
			item = g.get_node('a') if kind == 'node' else edge
			dot = parse_dot('digraph {' + item.get_graphviz_str() + '}')
		found = dict(dot.nodes[0][1] if kind == 'node' else dot.edges[0][2])
		if kind == 'node':
			found.pop('label', None)
		return found

	same(read(), shown(style), f'what a {kind} with the style shows')
	return read


def run(case, rec):
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	kind, spec = case['kind'], case['spec']
	cls = NodeStyle if kind == 'node' else EdgeStyle
	keys = SHOWN[kind]
	with sut(f'making a style of {spec}'):
		style = cls(**spec)
	for attribute, value in spec.items():
		if attribute in keys:
			found = shown(style).get(keys[attribute])
			check(
				shows(found, attribute, value),
				lambda: f'a style with {attribute} {value!r} shows {found!r}'
			)
	if 'colour' in spec:
		with sut('colour'):
			same(style.colour.hexadecimal, spec['colour'], 'colour of the style')
	explicit, lighter = given(spec, kind), spec.get('lighter_fill', True)
	worn = wear(style, kind)
	for op, arg in case['steps']:
		before = shown(style)
		with sut(f'copying ({case["way"]}) before {op}'):
			other = duplicate(style, case['way'])
		check(other is not style and type(other) is cls, f'{case["way"]} gave {other!r}')
		same(shown(other), before, f'text of a copy ({case["way"]}) before {op}')
		old = style
		with sut(f'{op} {arg}'):
			style = step(style, op, arg, cls)
		if op == 'invert' or op in WAYS:
			check(style is not old, f'{op} gave the same style')
			same(shown(old), before, f'the style that was asked for {op}')
		same(shown(other), before, f'a copy ({case["way"]}) after {op} {arg} of the original')
		# nodes and edges that have the style show it as it is now
		same(worn(), shown(old), f'what a {kind} with the style shows after {op} {arg}')
		if style is not old:
			worn = wear(style, kind)
		with sut(f'{op} {arg} of a copy ({case["way"]})'):
			continued = step(other, op, arg, cls)
		same(shown(continued), shown(style), f'a copy ({case["way"]}) after {op} {arg}')
		if op == 'complement':
			for attribute, value in arg.items():
				if attribute in keys:
					found = shown(style).get(keys[attribute])
					check(
						shows(found, attribute, value),
						lambda: f'a style complemented with {attribute} {value!r} shows {found!r}'
					)
			for attribute, key in keys.items():
				if attribute not in arg:
					found, wanted = shown(style).get(key), before.get(key)
					if 'colour' in attribute and 'opacity' in arg:
						check(abs(opacity(found) - arg['opacity']) < 0.01, lambda: f'{attribute} with opacity {arg["opacity"]}: {found}')
						found, wanted = found[:7], wanted[:7]
					same(found, wanted, f'{attribute} after complementing with {arg}')
		elif op == 'complement object':
			same(shown(style), shown(cls(**arg)), f'a style complemented with a style of {arg}')
		elif op in ('text', 'fill', 'border'):
			key = {'text': 'fontcolor', 'fill': 'fillcolor', 'border': 'color'}[op]
			same(shown(style).get(key, '')[:7], arg, f'{op} colour')
			same({k: v for k, v in shown(style).items() if k != key}, {k: v for k, v in before.items() if k != key}, f'the rest after setting the {op} colour')
		elif op == 'reset':
			with sut('colours of a style after resetting them'):
				fresh = cls(colour=arg, **{k: v for k, v in spec.items() if k == 'lighter_fill'})
				same(style.colour.hexadecimal, arg, 'colour after resetting')
				# all are derived from the new colour
				if not any(o.startswith('complement object') for o, _ in case['steps']):
					same(
						{k: v[:7] for k, v in shown(style).items() if 'color' in k}, {k: v[:7] for k, v in shown(fresh).items() if 'color' in k},
						'colours after resetting'
					)
		elif op == 'invert':
			inversion(old, style, kind, explicit, lighter)
		if op == 'complement object':
			explicit, lighter = given(arg, kind), arg.get('lighter_fill', True)
		elif op == 'complement':
			explicit |= given(arg, kind)
			lighter = arg.get('lighter_fill', lighter)
		elif op == 'reset':
			explicit = set()
		elif op in ('text', 'fill', 'border'):
			explicit.add(f'{op}_colour')
	rec.nontrivial(bool(spec) and bool(case['steps']))
	rec.label(kind, case['way'], *(op for op, _ in case['steps']))


def given(spec, kind):
	"""colours other than the main one that are given, not derived from it"""
	return {x for x in (('text_colour',) if kind == 'edge' else ('text_colour', 'fill_colour', 'border_colour')) if x in spec}


def inversion(old, new, kind, explicit, lighter):
	with sut('colours'):
		near(new.colour.hexadecimal, [255 - x for x in channels(old.colour.hexadecimal)], 1, 'inverted colour')
		twice = new.invert_colours()
		near(twice.colour.hexadecimal, channels(old.colour.hexadecimal), 2, 'colour inverted twice')
	with sut('colours'):
		for attribute in explicit:
			a, b, c = (getattr(x, attribute).hexadecimal for x in (old, new, twice))
			near(b, [255 - x for x in channels(a)], 1, f'inverted {attribute}')
			near(c, channels(a), 2, f'{attribute} inverted twice')
		# and those that were not given go with the others
		derived = type(new)(colour=new.colour, **{x: getattr(new, x) for x in explicit}, **({'lighter_fill': lighter} if kind == 'node' else {}))
	same(
		{k: v[:7] for k, v in shown(new).items() if 'color' in k}, {k: v[:7] for k, v in shown(derived).items() if 'color' in k},
		f'colours after inverting, {explicit or "none"} given'
	)
	before, after = shown(old), shown(new)
	same({k: v for k, v in after.items() if 'color' not in k}, {k: v for k, v in before.items() if 'color' not in k}, 'all but colours after inverting')


@st.composite
def cases(draw):
	kind = draw(st.sampled_from(['node', 'edge']))
	specs, overrides = (node_style_specs, node_overrides) if kind == 'node' else (edge_style_specs, edge_overrides)
	steps = [
		st.tuples(st.just('complement'), overrides), st.tuples(st.just('complement object'), specs), st.tuples(st.just('reset'), hexes),
		st.tuples(st.just('invert'), st.none()), st.tuples(st.just('invert'), st.none()), st.tuples(st.just('text'), hexes),
		st.tuples(st.sampled_from(WAYS), st.none()), st.tuples(st.just('colour'), hexes)
	]
	if kind == 'node':
		steps += [st.tuples(st.sampled_from(['fill', 'border']), hexes)]
	spec = draw(specs)
	if draw(st.integers(0, 3)) == 0:
		for k in ('font', 'shape_style') if kind == 'node' else ('font', 'label_style'):
			if draw(st.booleans()):
				spec[k] = draw(hostile)
	return {
		'kind': kind, 'spec': spec, 'steps': [list(x) for x in draw(st.lists(st.one_of(*steps), max_size=5))], 'way': draw(st.sampled_from(WAYS))
	}


STREAMS = [Stream('styles', cases(), 1200, 20000)]
