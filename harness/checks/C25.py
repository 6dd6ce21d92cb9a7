"""C25: styles are not overwritten and frozen values do not change, unless that was allowed"""
import copy
import warnings

from hypothesis import strategies as st

from core import Stream, Violation, check, raises, same, sut
from gen import plain_values
from styled import edge_id, edge_style_specs, make, node_style_specs, styled_graphs
from world import same_value

ID = 'C25'
RULE = (
	'A case is a graph, some of whose nodes and edges have styles, with or without permission to overwrite, and a history of attempts to set a style '
	'(dictionary, object, nothing, a wrong type; as attribute or by adding or connecting again), to set values of things that are or were frozen, to '
	'freeze, unfreeze, render and copy; each attempt is allowed or refused as the model says, and a refused one changes nothing. '
	'Non-trivial: an attempt was refused, or an overwrite allowed.'
)


def text(style):
	return None if style is None else style.get_graphviz_str()


class State:
	def __init__(self, g, ids, names):
		self.names, self.ids = names, ids
		self.g = g
		self.read()

	def things(self):
		return [('node', n) for n in self.names] + [('edge', i) for i in self.ids]

	def get(self, thing):
		kind, k = thing
		return self.g.get_node(k) if kind == 'node' else self.g.get_node(k[0]).get_outward_edge(k)

	def read(self):
		with sut('reading'):
			self.styles = {t: text(self.get(t).style) for t in self.things()}
			self.values = {t: copy.deepcopy(self.get(t).value) for t in self.things()}
			self.frozen = {t: self.get(t).is_frozen for t in self.things()}

	def compare(self, what):
		with sut(f'reading after {what}'):
			for t in self.things():
				x = self.get(t)
				same(text(x.style), self.styles[t], f'style of {t} after {what}')
				same(x.has_style(), self.styles[t] is not None, f'has_style of {t} after {what}')
				same_value(x.value, self.values[t], f'value of {t} after {what}')
				same(x.is_frozen, self.frozen[t], f'whether {t} is frozen after {what}')
			for kind, found in (('node', self.g.node_styles), ('edge', self.g.edge_styles)):
				expected = {t[1]: style for t, style in self.styles.items() if t[0] == kind and style is not None}
				same({k: text(style) for k, style in found.items()}, expected, f'{kind}_styles after {what}')


def run(case, rec):
	from abstract.styling.NodeStyle import NodeStyle
	from abstract.styling.EdgeStyle import EdgeStyle
	c = dict(case['graph'])
	c['settings'] = dict(c['settings'], style_overwrite_allowed=case['allowed'])
	g, m = make(c)
	allowed = case['allowed']
	s = State(g, list(m.edges), list(m.nodes))
	if not s.names:
		return
	refused = overwritten = 0
	for op, k, way, spec, value in case['ops']:
		things = s.things()
		t = things[k % len(things)]
		x = s.get(t)
		cls = NodeStyle if t[0] == 'node' else EdgeStyle
		if op == 'style':
			spec = {a: v for a, v in spec.items() if t[0] == 'node' or a in ('colour', 'text_size', 'font')}
			with sut('making a style'):
				style = cls(**spec)
			what = f'setting the style of {t} to {spec} (way {way}, overwriting {"" if allowed else "not "}allowed)'
			given = dict(spec) if way % 2 else style

			def act():
				if way < 2:
					x.style = given
				elif t[0] == 'node':
					s.g.add_node(t[1], style=given, if_node_exists='ignore')
				else:
					s.g.connect(t[1][0], t[1][1], id=t[1][2], style=given, if_edge_exists='ignore')

			if s.styles[t] is not None and not allowed:
				refused += 1
				with raises(what, RuntimeError):
					act()
			else:
				overwritten += s.styles[t] is not None
				with sut(what):
					act()
					s.styles[t] = text(style)
		elif op == 'own':
			# the very style it has
			own = x.style
			if own is None:
				continue
			what = f'setting the style of {t} to the style it has (way {way}, overwriting {"" if allowed else "not "}allowed)'

			def act():
				if way < 2:
					x.style = own
				elif t[0] == 'node':
					s.g.add_node(t[1], style=own, if_node_exists='ignore')
				else:
					s.g.connect(t[1][0], t[1][1], id=t[1][2], style=own, if_edge_exists='ignore')

			if not allowed:
				refused += 1
				with raises(what, RuntimeError):
					act()
			else:
				with sut(what):
					act()
		elif op == 'nothing':
			# no style is given: there is nothing to overwrite with
			what = f'setting the style of {t} to None'
			try:
				x.style = None
			except RuntimeError:
				check(s.styles[t] is not None and not allowed, f'{what} was refused')
			except Exception as e:
				raise Violation(f'{what} raised {e!r}') from None
		elif op == 'wrong':
			what = f'setting the style of {t} to something that is not a style'
			other = EdgeStyle() if t[0] == 'node' else NodeStyle()
			refused += 1
			with raises(what, TypeError if s.styles[t] is None or allowed else RuntimeError):
				x.style = [5, 'red', [], other, ('colour', 'red'), 2.5][way + k % 3]
		elif op in ('value', 'frozen value'):
			if op == 'frozen value':
				with sut('freezing'):
					x.freeze()
				s.frozen[t] = True
			what = f'setting the value of {t}, which is {"" if s.frozen[t] else "not "}frozen'
			if s.frozen[t]:
				refused += 1
				with raises(what, RuntimeError):
					x.value = value
				if value is not None and way > 0:
					# a style that could be given, and a label, do not come through either
					other = {'label': x.label, 'style': None}
					if way > 1:
						other['style'] = cls(**{a: v for a, v in spec.items() if t[0] == 'node' or a in ('colour', 'text_size', 'font')})
					with raises(what + ' by adding again', RuntimeError):
						if t[0] == 'node':
							s.g.add_node(t[1], value=value, if_node_exists='ignore', style=other['style'], label='refused' if way > 2 else None)
						else:
							s.g.connect(t[1][0], t[1][1], id=t[1][2], value=value, if_edge_exists='ignore', style=other['style'], label='refused' if way > 2 else None)
					same(x.label, other['label'], f'label after {what} by adding again')
			else:
				with sut(what):
					x.value = value
				s.values[t] = value
		elif op in ('freeze', 'unfreeze'):
			what = op
			with sut(what):
				getattr(x, op)()
			s.frozen[t] = op == 'freeze'
		elif op == 'render':
			what = 'rendering'
			with sut(what):
				s.g.render()
				for t in things:
					new = s.get(t).style
					check(new is not None, f'{t} has no style after rendering')
					# without permission only overrides and global styles change what was there
					if s.styles[t] is None or allowed or case['overridden']:
						s.styles[t] = text(new)
		elif op == 'copy':
			what = 'copying'
			with sut(what):
				s.g = s.g.copy()
		s.compare(what)
		rec.label(op)
	rec.nontrivial(refused > 0 or overwritten > 0)
	rec.label('allowed' if allowed else 'not allowed', *(['refused'] if refused else []), *(['overwritten'] if overwritten else []))


ops = st.tuples(
	st.sampled_from(['style', 'style', 'style', 'style', 'wrong', 'own', 'nothing', 'value', 'value', 'value', 'frozen value', 'frozen value', 'freeze', 'freeze', 'unfreeze', 'render', 'copy']),
	st.integers(0, 20), st.integers(0, 3), node_style_specs, plain_values
).map(list)


@st.composite
def cases(draw):
	c = draw(styled_graphs(max_nodes=4, min_nodes=1))
	if draw(st.booleans()):
		c['settings'].pop('node_style', None)
		c['settings'].pop('edge_style', None)
		c['node_styles'], c['edge_styles'], c['node_colours'], c['edge_colours'] = [], [], [], []
	overridden = bool(c.get('node_colours') or c.get('edge_colours') or c['node_styles'] or c['edge_styles'] or 'node_style' in c['settings'] or 'edge_style' in c['settings'])
	return {'graph': c, 'allowed': draw(st.booleans()), 'overridden': overridden, 'ops': draw(st.lists(ops, min_size=1, max_size=12))}


STREAMS = [Stream('attempts', cases(), 700, 10000)]
