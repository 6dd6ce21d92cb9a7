"""C34: what nodes and edges hold"""
import copy
import pickle

from hypothesis import strategies as st

from core import Stream, check, raises, same, sut
from gen import labels, name_pools, plain_values
from world import Model, Number, Text, check_payloads, same_value

ID = 'C34'
RULE = (
	'A case is a history of adding nodes and edges with any parameters, values and labels, setting and getting them in both ways, asking for absent '
	'ones, adding again, removing and adding back, rendering, copying and pickling; every parameter of every node and edge is compared with a '
	'dictionary per item after each step, absent ones are refused, and objects are the very ones that were given. '
	'Non-trivial: two items hold different things under the same name, and something was set after it was there.'
)

KEYS = ['weight', 'kind', 'p', 'tag', 'size', 'colour', 'data', 'x', '_p', '_value', '__x', 'Tag']
OTHER_KEYS = KEYS + ['name', 'value', 'label', 'id', 'style', 'two words', '', 'é']
SETTABLE = OTHER_KEYS + [0, 1, (1, 'a'), None, '0', '1', 'None', "(1, 'a')"]


class Thing:
	"""an object with identity"""

	def __init__(self, n):
		self.n = n

	def __eq__(self, other):
		return isinstance(other, Thing) and self.n == other.n

	def __hash__(self):
		return hash(self.n)

	def __repr__(self):
		return f'Thing({self.n})'


def decode(x):
	if isinstance(x, dict) and 'thing' in x:
		return Thing(x['thing'])
	if isinstance(x, dict) and 'kind' in x:
		return {'tuple': (1, 'a'), 'set': {1, 2}, 'bytes': b'abc', 'frozenset': frozenset('ab'), 'complex': 1 + 2j, 'range': range(3), 'type': int, 'text': Text('x'), 'number': Number(3), 'nested': ([1], {'a': (2,)})}[x['kind']]
	return copy.deepcopy(x)


def key(x):
	return tuple(x) if isinstance(x, list) else x


class State:
	def __init__(self, names):
		from abstract import Graph
		self.names = names
		self.g = Graph()
		self.items = {}  # ('node', name) or ('edge', id): {'label', 'value', 'params'}
		self.identical = True
		self.removed = []

	def get(self, item):
		kind, k = item
		return self.g.get_node(k) if kind == 'node' else self.g.get_node(k[0]).get_outward_edge(k)

	def pick(self, k):
		items = list(self.items)
		return items[k % len(items)] if items else None

	def compare(self, what):
		m = Model()
		m.nodes = {k[1]: p for k, p in self.items.items() if k[0] == 'node'}
		m.edges = {k[1]: p for k, p in self.items.items() if k[0] == 'edge'}
		check_payloads(self.g, m, what)
		for item, p in self.items.items():
			with sut(f'parameters of {item} after {what}'):
				x = self.get(item)
				for k in SETTABLE:
					if k in p['params']:
						found = x.get(k), x[k]
						for f in found:
							same_value(f, p['params'][k], f'parameter {k!r} of {item} after {what}')
							if self.identical:
								check(f is p['params'][k], lambda: f'parameter {k!r} of {item} after {what} is another object')
				if self.identical:
					check(x.value is p['value'], lambda: f'value of {item} after {what} is another object')
			for k in SETTABLE:
				if k not in p['params']:
					with raises(f'get({k!r}) of {item} after {what}', KeyError):
						x.get(k)
					with raises(f'[{k!r}] of {item} after {what}', KeyError):
						x[k]


def run(case, rec):
	with sut('Graph()'):
		s = State(case['names'])
	changes = 0
	for op in case['ops']:
		what = op[0]
		if what == 'add':
			_, i, label, value, params, again = op
			name = s.names[i % len(s.names)]
			params = {k: decode(v) for k, v in params.items()}
			value = decode(value)
			item = ('node', name)
			if item in s.items:
				with sut(f'adding {name!r} again'):
					s.g.add_node(name, label=label, value=value, if_node_exists='ignore', **(params if again else {}))
				p = s.items[item]
				if label is not None:
					p['label'] = label
				if value is not None:
					p['value'] = value
				changes += 1
			else:
				with sut(f'adding {name!r} with {params}'):
					s.g.add_node(name, label=label, value=value, **params)
				s.items[item] = {'label': label, 'value': value, 'params': dict(params)}
				# the dictionary that was given is not kept
				params['later'] = 1
		elif what == 'connect':
			_, i, j, id, label, value, params = op
			names = [k[1] for k in s.items if k[0] == 'node']
			if not names:
				continue
			a, b = names[i % len(names)], names[j % len(names)]
			item = ('edge', (a, b, id))
			value = decode(value)
			params = {k: decode(v) for k, v in params.items()}
			with sut(f'connecting {item} with {params}'):
				s.g.connect(a, b, id=id, label=label, value=value, if_edge_exists='ignore', **params)
			if item in s.items:
				p = s.items[item]
				if label is not None:
					p['label'] = label
				if value is not None:
					p['value'] = value
				changes += 1
			else:
				s.items[item] = {'label': label, 'value': value, 'params': dict(params)}
				params['later'] = 1
		elif what == 'set':
			_, i, k, value, way = op
			item = s.pick(i)
			if item is None:
				continue
			k, value = key(k), decode(value)
			with sut(f'setting {k!r} of {item}'):
				x = s.get(item)
				if way % 2:
					x[k] = value
				else:
					x.set(k, value)
			changes += k in s.items[item]['params']
			s.items[item]['params'][k] = value
		elif what in ('label', 'value'):
			item = s.pick(op[1])
			if item is None:
				continue
			v = decode(op[2])
			with sut(f'setting the {what} of {item}'):
				setattr(s.get(item), what, v)
			s.items[item][what] = v
			changes += 1
		elif what == 'remove':
			item = s.pick(op[1])
			if item is None:
				continue
			with sut(f'removing {item}'):
				x = s.get(item)
				if item[0] == 'edge':
					x.remove_self()
				else:
					s.g.remove_node(x)
			if item[0] == 'node':
				s.items = {k: p for k, p in s.items.items() if k[0] == 'node' or item[1] not in k[1][:2]}
				s.removed.append((x, item, s.items[item]))
			del s.items[item]
		elif what == 'back':
			if not s.removed or s.removed[-1][1] in s.items:
				continue
			x, item, p = s.removed.pop()
			with sut(f'adding {item} back'):
				s.g.add_node(x)
			s.items[item] = p
		elif what in ('copy', 'pickle', 'render'):
			with sut(what):
				if what == 'copy':
					old, s.g = s.g, s.g.copy()
				elif what == 'pickle':
					old, s.g = s.g, pickle.loads(pickle.dumps(s.g))
				else:
					s.g.render()
			if what != 'render':
				s.identical = False
				s.removed = []
				# what is set in the original from now on is not seen in the copy
				with sut('setting parameters of the original'):
					for x in old.nodes + old.edges:
						for k in KEYS:
							x[k] = 'set in the original'
		s.compare(f'{what} {op[1:]}')
		rec.label(what)
	different = any(
		p['params'].get(k, 0) != q['params'].get(k, 0) for p in s.items.values() for q in s.items.values() for k in p['params']
	)
	rec.nontrivial(different and changes > 0)


values = st.one_of(plain_values, st.sampled_from([' ', '\t', '\n', ' a ', 'A', 'None', 'True', '0', '1.0', '\x00', 'x' * 300]), st.integers(0, 3).map(lambda n: {'thing': n}), st.sampled_from(['tuple', 'set', 'bytes', 'frozenset', 'complex', 'range', 'type', 'text', 'number', 'nested']).map(lambda k: {'kind': k}))
idx = st.integers(0, 30)
params = st.dictionaries(st.sampled_from(KEYS[:3] * 3 + KEYS), values, max_size=3)
ids = st.sampled_from([None, None, None, 0, 'e'])


def weighted(*pairs):
	return st.one_of(*[s for n, s in pairs for _ in range(n)]).map(list)


ops = weighted(
	(4, st.tuples(st.just('add'), idx, labels, values, params, st.booleans())), (4, st.tuples(st.just('connect'), idx, idx, ids, labels, values, params)),
	(7, st.tuples(st.just('set'), idx, st.sampled_from(KEYS[:3] * 6 + [list(k) if isinstance(k, tuple) else k for k in SETTABLE]), values, st.integers(0, 1))),
	(1, st.tuples(st.just('label'), idx, labels)), (1, st.tuples(st.just('value'), idx, values)), (1, st.tuples(st.just('remove'), idx)),
	(1, st.tuples(st.just('back'))), (1, st.tuples(st.sampled_from(['copy', 'pickle', 'render'])))
)
STREAMS = [
	Stream('histories', st.fixed_dictionaries({'names': name_pools(max_size=4), 'ops': st.integers(8, 25).flatmap(lambda n: st.lists(ops, min_size=n, max_size=n))}), 700, 8000)
]
