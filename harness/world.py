"""the reference model of a graph, an interpreter that applies the same operations to it and to the real graph, and oracles"""
import pickle
import warnings

from core import Violation, check, raises, same, sut


def sut_import():
	import abstract
	return abstract


class Model:
	"""what a graph should contain; plain dictionaries, no cleverness"""

	def __init__(self):
		self.nodes = {}  # name: payload, in the order they were added
		self.edges = {}  # (start, end, id): payload, in the order they were added

	def copy(self):
		other = Model()
		other.nodes = {k: _copy(v) for k, v in self.nodes.items()}
		other.edges = {k: _copy(v) for k, v in self.edges.items()}
		return other

	def add_node(self, name, label=None, value=None, params=None):
		self.nodes[name] = {'label': label, 'value': value, 'params': dict(params or {})}

	def add_edge(self, start, end, id=None, label=None, value=None, params=None):
		self.edges[(start, end, id)] = {'label': label, 'value': value, 'params': dict(params or {})}

	def remove_node(self, name):
		self.edges = {k: v for k, v in self.edges.items() if k[0] != name and k[1] != name}
		return self.nodes.pop(name)

	def out(self, name):
		return [e for e in self.edges if e[0] == name and type(e[0]) is type(name)]

	def into(self, name):
		return [e for e in self.edges if e[1] == name and type(e[1]) is type(name)]

	def children(self, name):
		return [e[1] for e in self.out(name)]

	def parents(self, name):
		return [e[0] for e in self.into(name)]

	# relations; plain reachability over the edge list
	def successors(self):
		result = {n: {} for n in self.nodes}
		for s, e, _ in self.edges:
			result[s][e] = None
		return {n: list(x) for n, x in result.items()}

	def predecessors(self):
		result = {n: {} for n in self.nodes}
		for s, e, _ in self.edges:
			result[e][s] = None
		return {n: list(x) for n, x in result.items()}

	@staticmethod
	def distances(neighbours, name):
		"""length of the shortest walk with at least one edge to every node it leads to; a node is at a distance to itself only in a loop"""
		result = {}
		frontier = [name]
		d = 0
		while frontier:
			d += 1
			following = []
			for x in frontier:
				for y in neighbours[x]:
					if y not in result:
						result[y] = d
						following.append(y)
			frontier = following
		return result

	def closure(self):
		neighbours = self.successors()
		return {n: self.distances(neighbours, n) for n in self.nodes}


def _copy(payload):
	return {'label': payload['label'], 'value': payload['value'], 'params': dict(payload['params'])}


def key(x):
	"""sorts names of different types"""
	return (type(x).__name__, repr(x))


def ids(nodes):
	return [n.name for n in nodes]


def same_set(actual, expected, what):
	a = sorted(actual, key=key)
	e = sorted(expected, key=key)
	if a != e:
		raise Violation(f'{what}: got {a!r:.600}, expected {e!r:.600}')


def same_value(actual, expected, what):
	if type(actual) is not type(expected) or actual != expected:
		raise Violation(f'{what}: got {actual!r:.300}, expected {expected!r:.300}')


def expected_label(name, label):
	return str(label) if label else str(name)


def check_state(g, m, what='state', payloads=True, absent=()):
	"""every public view of the graph shows what the model holds"""
	with sut(f'{what}: reading the graph'):
		nodes = g.nodes
		names = [n.name for n in nodes]
		same(names, list(m.nodes), f'{what}: names of the nodes')
		check([type(x) for x in names] == [type(x) for x in m.nodes], lambda: f'{what}: types of names {names}')
		same(list(g.nodes_dict), names, f'{what}: keys of nodes_dict')
		by_name = dict(zip(names, nodes))
		for name, node in by_name.items():
			check(g.nodes_dict[name] is node, lambda: f'{what}: nodes_dict[{name!r}] is another object')
			check(g.get_node(name) is node, lambda: f'{what}: get_node({name!r}) is another object')
			check(g.get_node(node) is node, lambda: f'{what}: get_node(node {name!r}) is another object')
			same_value(g.get_node_name(name), name, f'{what}: get_node_name(name)')
			same_value(g.get_node_name(node), name, f'{what}: get_node_name(node)')
			check((name in g) is True, lambda: f'{what}: {name!r} is not in the graph')
			check((node in g) is True, lambda: f'{what}: node {name!r} is not in the graph')
			check(node.graph is g, lambda: f'{what}: the graph of node {name!r} is not the graph')
			same_value(node.id, name, f'{what}: id')
		for name in absent:
			if name not in m.nodes:
				check((name in g) is False, lambda: f'{what}: absent {name!r} is in the graph')

		edges = g.edges
		same_set([e.id for e in edges], list(m.edges), f'{what}: ids of the edges')
		edges_dict = g.edges_dict
		same_set(list(edges_dict), list(m.edges), f'{what}: keys of edges_dict')
		by_id = {e.id: e for e in edges}
		out = {n: [] for n in names}
		into = {n: [] for n in names}
		for i in m.edges:
			out[i[0]].append(i)
			into[i[1]].append(i)
		for i, edge in by_id.items():
			check(edges_dict[i] is edge, lambda: f'{what}: edges_dict has another object for {i}')
			check(edge.start is by_name[i[0]], lambda: f'{what}: start of {i} is {edge.start!r}, another object')
			check(edge.end is by_name[i[1]], lambda: f'{what}: end of {i} is {edge.end!r}, another object')
			same_value(edge.raw_id, i[2], f'{what}: raw id of {i}')
			check(edge.graph is g, lambda: f'{what}: the graph of edge {i} is not the graph')
		for name, node in by_name.items():
			for view, wanted in [
				([e.id for e in node.outward_edges], out[name]), (list(node.outward_edge_ids), out[name]),
				(list(node.outward_edges_dict), out[name]), ([e.id for e in g.get_outward_edges(name)], out[name]),
				([e.id for e in node.inward_edges], into[name]), (list(node.inward_edge_ids), into[name]),
				(list(node.inward_edges_dict), into[name]), ([e.id for e in g.get_inward_edges(node)], into[name]),
				([e.id for e in g.get_edges(name)], out[name] + into[name])
			]:
				if view != wanted:
					raise Violation(f'{what}: edges of {name!r}: got {view!r:.500}, expected {wanted!r:.500}')
			same_set([e.id for e in node.edges], set(out[name]) | set(into[name]), f'{what}: edges of {name!r}')
			same(node.num_outward_edges, len(out[name]), f'{what}: number of outward edges of {name!r}')
			for i in out[name]:
				check(node.get_outward_edge(i) is by_id[i], lambda: f'{what}: get_outward_edge({i}) is another object')
			for i in into[name]:
				check(node.get_inward_edge(i) is by_id[i], lambda: f'{what}: get_inward_edge({i}) is another object')
		if payloads:
			check_payloads(g, m, what, by_name, by_id)
	return by_name, by_id


def check_payloads(g, m, what, by_name=None, by_id=None):
	with sut(f'{what}: reading labels, values and parameters'):
		by_name = by_name or g.nodes_dict
		by_id = by_id or g.edges_dict
		for name, p in m.nodes.items():
			node = by_name[name]
			same_value(node.value, p['value'], f'{what}: value of node {name!r}')
			same(node.label, expected_label(name, p['label']), f'{what}: label of node {name!r}')
			for k, v in p['params'].items():
				same_value(node[k], v, f'{what}: parameter {k} of node {name!r}')
		for i, p in m.edges.items():
			edge = by_id[i]
			same_value(edge.value, p['value'], f'{what}: value of edge {i}')
			same(edge.label, p['label'], f'{what}: label of edge {i}')
			for k, v in p['params'].items():
				same_value(edge[k], v, f'{what}: parameter {k} of edge {i}')


def fingerprint(g):
	"""everything public about a graph that can be compared with =="""
	return {
		'nodes': [(n.name, n.label, repr(n.value), None if n.style is None else n.style.get_graphviz_str(), n.index) for n in g.nodes],
		'edges': [
			(e.id, e.label, repr(e.value), None if e.style is None else e.style.get_graphviz_str())
			for n in g.nodes for e in n.outward_edges
		],
		'in': [[e.id for e in n.inward_edges] for n in g.nodes],
		'frozen': [n.is_frozen for n in g.nodes] + [e.is_frozen for n in g.nodes for e in n.outward_edges],
		'background': g.background_colour.hexadecimal,
		'dot': None
	}


class Text(str):
	"""text of a user's own kind, as other libraries have"""


class Number(int):
	"""a number of a user's own kind"""


def own_kind(name):
	"""the same name as an object of another class, which is equal to it"""
	return Text(name) if type(name) is str else Number(name) if type(name) is int else name


class World:
	"""a real graph and its model, with the same operations applied to both"""

	def __init__(self, names, args=None, graph_class=None, **graph_args):
		abstract = sut_import()
		self.Node, self.Edge, self.Graph = abstract.Node, abstract.Edge, graph_class or abstract.Graph
		self.names = names
		with sut('Graph()'):
			self.g = self.Graph(**{**(args or {}), **graph_args})
		self.m = Model()
		self.removed = []  # (node object, name, payload)
		self.log = []
		self.counts = {}

	def name(self, i):
		return self.names[i % len(self.names)]

	def present(self, i):
		names = list(self.m.nodes)
		return names[i % len(names)] if names else None

	def edge_at(self, i):
		edges = list(self.m.edges)
		return edges[i % len(edges)] if edges else None

	def real_edge(self, i):
		with sut(f'finding edge {i}'):
			return self.g.get_node(i[0]).get_outward_edge(i)

	def count(self, what):
		self.counts[what] = self.counts.get(what, 0) + 1

	def apply(self, op):
		getattr(self, '_' + op[0])(*op[1:])

	def run(self, program, after_each=None):
		for i in range(program.get('first', 0)):
			self.apply(['add', i, {}, {}, None])
			if after_each and 'ask at' not in program:
				after_each(self)
		for op in program['ops']:
			self.log.append(op)
			self.apply(op)
			ask = program.get('ask', [True])
			if after_each and (len(self.log) in program['ask at'] if 'ask at' in program else ask[len(self.log) % len(ask)]):
				after_each(self)

	# operations
	def _add(self, i, payload, params, policy, extra=None):
		name = self.name(i)
		kwargs = {**payload, **(extra or {})}
		if policy is not None:
			kwargs['if_node_exists'] = policy
		if name in self.m.nodes:
			self.count('duplicate node')
			existing = self.g.get_node(name)
			with warnings.catch_warnings(record=True) as caught:
				warnings.simplefilter('always')
				if policy == 'error':
					with raises(f'add_node of an existing name with {kwargs}', KeyError, ValueError):
						self.g.add_node(name, **kwargs)
				else:
					with sut(f'add_node({name!r}, **{kwargs})'):
						result = self.g.add_node(name, **kwargs)
					check(result is existing, f'add_node of the existing {name!r} returned {result!r}, not the existing node')
					self.update(self.m.nodes[name], payload)
			self.check_warnings(caught, policy, f'add_node of the existing {name!r}')
		else:
			with warnings.catch_warnings(record=True) as caught:
				warnings.simplefilter('always')
				with sut(f'add_node({name!r}, **{kwargs}, **{params})'):
					result = self.g.add_node(name, **kwargs, **params)
			check(len(caught) == 0, f'add_node of the new {name!r} warned')
			self.m.add_node(name, params=params, **payload)
			with sut('add_node'):
				check(result is self.g.get_node(name), f'add_node({name!r}) returned {result!r}, not the node of the graph')

	@staticmethod
	def update(target, payload):
		for k, v in payload.items():
			if v is not None:
				target[k] = v

	@staticmethod
	def check_warnings(caught, policy, what):
		if policy in (None, 'warn'):
			check(len(caught) >= 1, f'{what} with policy {policy} did not warn')
		else:
			check(len(caught) == 0, f'{what} with policy {policy} warned')

	def _ctor(self, i, payload, params):
		name = self.name(i)
		if name in self.m.nodes:
			return
		self.count('constructor')
		with sut(f'Node(graph, {name!r}, **{payload})'):
			node = self.Node(graph=self.g, name=name, **payload, **params)
		self.m.add_node(name, params=params, **payload)
		with sut('get_node'):
			check(self.g.get_node(name) is node, f'Node({name!r}) is not the node of the graph')

	def _conn(self, i, j, id, payload, params, policy, how, extra=None):
		start, end = self.present(i), self.present(j)
		if start is None:
			return
		kwargs = dict(payload)
		if id is not None or how % 2:
			kwargs['id'] = id
		if policy is not None:
			kwargs['if_edge_exists'] = policy
		edge_id = (start, end, id)
		exists = edge_id in self.m.edges
		kwargs.update((extra or {}) if exists else params)
		s, e = self.g.get_node(start), self.g.get_node(end)

		def connect():
			if how == 0:
				return self.g.connect(start, end, **kwargs)
			elif how == 1:
				return self.g.connect(start=s, end=e, **kwargs)
			elif how == 2:
				return self.g.connect(start=own_kind(start), end=e, **kwargs)
			elif how == 3:
				return self.g.connect(start=s, end=end, **kwargs)
			elif how == 4:
				return s.connect_to(e, **kwargs)
			else:
				return e.connect_from(s, **kwargs)

		what = f'connecting {edge_id} (way {how}, {kwargs})'
		if start == end:
			self.count('self-loop')
		if exists:
			self.count('duplicate edge')
			existing = self.real_edge(edge_id)
			with warnings.catch_warnings(record=True) as caught:
				warnings.simplefilter('always')
				if policy == 'error':
					with raises(what, ValueError, KeyError):
						connect()
				else:
					with sut(what):
						result = connect()
					check(result is existing, f'{what} returned {result!r}, not the existing edge')
					self.update(self.m.edges[edge_id], payload)
			self.check_warnings(caught, policy, what)
		else:
			if any(e[:2] == edge_id[:2] for e in self.m.edges):
				self.count('parallel edge')
			with warnings.catch_warnings(record=True) as caught:
				warnings.simplefilter('always')
				with sut(what):
					result = connect()
			check(len(caught) == 0, f'{what} warned although the edge is new')
			self.m.add_edge(start, end, id, params=params, **payload)
			with sut(what):
				same(result.id, edge_id, f'{what}: id of the result')

	def _ector(self, i, j, id, payload, params):
		start, end = self.present(i), self.present(j)
		if start is None or (start, end, id) in self.m.edges:
			return
		self.count('constructor')
		with sut(f'Edge({start!r}, {end!r}, {id!r}, **{payload})'):
			self.Edge(graph=self.g, start=self.g.get_node(start), end=self.g.get_node(end), id=id, **payload, **params)
		self.m.add_edge(start, end, id, params=params, **payload)

	def _rm(self, i, how):
		name = self.present(i)
		if name is None:
			return
		node = self.g.get_node(name)
		self.count('remove node with edges' if self.m.out(name) or self.m.into(name) else 'remove node')
		with sut('reading the edges of a node'):
			edges = list(node.edges)
		with sut(f'remove_node({name!r}, way {how})'):
			self.g.remove_node((name if how < 3 else own_kind(name)) if how % 2 else node)
			check(node.graph is None, f'removed node {name!r} still has a graph')
			check(len(node.outward_edges) == 0 and len(node.inward_edges) == 0, f'removed node {name!r} still has edges')
			for edge in edges:
				check(edge.graph is None, f'an edge of the removed node {name!r} still has a graph')
		self.removed.append((node, name, self.m.remove_node(name)))

	def _rmedge(self, i, how):
		edge_id = self.edge_at(i)
		if edge_id is None:
			return
		self.count('remove edge')
		edge = self.real_edge(edge_id)
		with sut(f'removing edge {edge_id} (way {how})'):
			if how % 2:
				self.g.disconnect(edge)
			else:
				edge.remove_self()
			check(edge.graph is None, f'removed edge {edge_id} still has a graph')
		del self.m.edges[edge_id]

	def _rmedges(self, i):
		name = self.present(i)
		if name is None:
			return
		self.count('remove edges')
		with sut(f'remove_edges of {name!r}'):
			edges = list(self.g.get_node(name).edges)
			self.g.get_node(name).remove_edges()
			for edge in edges:
				check(edge.graph is None, f'an edge removed from node {name!r} still has a graph')
		self.m.edges = {k: v for k, v in self.m.edges.items() if name not in k[:2]}

	def _readd(self, i):
		if not self.removed:
			return
		k = i % len(self.removed)
		node, name, payload = self.removed[k]
		if name in self.m.nodes:
			self.count('re-add refused')
			with raises(f'adding a removed node {name!r} although another has its name', ValueError, KeyError):
				self.g.add_node(node)
		else:
			self.count('re-add')
			del self.removed[k]
			with sut(f'adding the removed node {name!r} back'):
				result = self.g.add_node(node)
			check(result is node, f'adding the removed node {name!r} back returned {result!r}')
			self.m.nodes[name] = payload

	def _nlabel(self, i, label):
		name = self.present(i)
		if name is not None:
			with sut('setting the label of a node'):
				self.g.get_node(name).label = label
			self.m.nodes[name]['label'] = label

	def _nvalue(self, i, value):
		name = self.present(i)
		if name is not None:
			with sut('setting the value of a node'):
				self.g.get_node(name).value = value
			self.m.nodes[name]['value'] = value

	def _elabel(self, i, label):
		edge_id = self.edge_at(i)
		if edge_id is not None:
			with sut('setting the label of an edge'):
				self.real_edge(edge_id).label = label
			self.m.edges[edge_id]['label'] = label

	def _evalue(self, i, value):
		edge_id = self.edge_at(i)
		if edge_id is not None:
			with sut('setting the value of an edge'):
				self.real_edge(edge_id).value = value
			self.m.edges[edge_id]['value'] = value

	def _nparam(self, i, k, v, how):
		name = self.present(i)
		if name is not None:
			with sut('setting a parameter of a node'):
				node = self.g.get_node(name)
				if how % 2:
					node[k] = v
				else:
					node.set(k, v)
			self.m.nodes[name]['params'][k] = v

	def _eparam(self, i, k, v, how):
		edge_id = self.edge_at(i)
		if edge_id is not None:
			with sut('setting a parameter of an edge'):
				edge = self.real_edge(edge_id)
				if how % 2:
					edge[k] = v
				else:
					edge.set(k, v)
			self.m.edges[edge_id]['params'][k] = v

	def _chain(self, i, n, backwards):
		steps = [i + k for k in range(n)]
		for k in steps:
			if self.name(k) not in self.m.nodes:
				self._add(k, {}, {}, None)
		for a, b in zip(steps, steps[1:]):
			a, b = (b, a) if backwards else (a, b)
			self._link(self.name(a), self.name(b))

	def _fan(self, i, n, inwards):
		for k in range(n):
			if self.name(i + k) not in self.m.nodes:
				self._add(i + k, {}, {}, None)
		for k in range(1, n):
			a, b = self.name(i), self.name(i + k)
			self._link(b, a) if inwards else self._link(a, b)

	def _link(self, a, b):
		if (a, b, None) not in self.m.edges:
			with sut(f'connect({a!r}, {b!r})'):
				self.g.connect(a, b)
			self.m.add_edge(a, b)

	def _move(self, i, j, k):
		"""an edge goes and another comes; the numbers of nodes and edges stay"""
		edge_id = self.edge_at(i)
		if edge_id is not None:
			self._rmedge(i, j)
			self._link(self.present(j), self.present(k))

	def _swap(self, i, j):
		"""two edges exchange their ends; what every node has stays in number"""
		first, second = self.edge_at(i), self.edge_at(j)
		if first is not None and first != second:
			self._rmedge(i, j)
			self._rmedge(list(self.m.edges).index(second), i)
			self._link(first[0], second[1])
			self._link(second[0], first[1])

	def _turn(self, i):
		edge_id = self.edge_at(i)
		if edge_id is not None:
			self._rmedge(i, 0)
			self._link(edge_id[1], edge_id[0])

	def _copy(self):
		self.count('copy')
		with sut('copy'):
			self.g = self.g.copy()

	def _pickle(self):
		self.count('pickle')
		with sut('pickle'):
			self.g = pickle.loads(pickle.dumps(self.g))

	def _render(self):
		self.count('render')
		with sut('render'):
			self.g.render()


def build(shape, **graph_args):
	"""the graph of a shape, made the way `via` says, and its model"""
	abstract = sut_import()
	Graph, Node, Edge = abstract.Graph, abstract.Node, abstract.Edge
	names = shape['names']
	via = shape.get('via', 'names')
	m = Model()
	for name in names:
		m.add_node(name)
	counts = {}
	for a, b in shape['edges']:
		k = counts.get((a, b), 0)
		counts[(a, b)] = k + 1
		m.add_edge(names[a], names[b], None if k == 0 else k)
	with sut(f'building the graph ({via})'):
		if via == 'dict':
			g = Graph.from_dict({'nodes': list(names), 'edges': [[s, e] if i is None else [s, e, {'id': i}] for s, e, i in m.edges]})
		elif via == 'lists' and all(any(n in e[:2] for e in m.edges) for n in names):
			# names in order of first appearance, edges numbered
			edges = list(m.edges)
			g = Graph.from_lists(start=[e[0] for e in edges], end=[e[1] for e in edges], edge=[None] * len(edges))
			fresh = Model()
			for e in edges:
				for n in e[:2]:
					if n not in fresh.nodes:
						fresh.add_node(n)
			for k, e in enumerate(edges):
				fresh.add_edge(e[0], e[1], k)
			m = fresh
		else:
			g = Graph(**{**shape.get('args', {}), **graph_args})
			for name in names:
				if via == 'ctor':
					Node(graph=g, name=name)
				else:
					g.add_node(name)
			for s, e, i in m.edges:
				if via == 'ctor':
					Edge(graph=g, start=g.get_node(s), end=g.get_node(e), id=i)
				elif via == 'nodes':
					g.get_node(s).connect_to(g.get_node(e), id=i)
				else:
					g.connect(s, e, id=i)
			if via == 'copy':
				g = g.copy()
			elif via == 'copycopy':
				g = g.copy().copy()
			elif via == 'pickle':
				g = pickle.loads(pickle.dumps(g))
			elif via == 'graph':
				g = Graph(g)
			elif via == 'add':
				g = g + Graph()
			elif via == 'filter':
				g = g.filter(filter_type='exclude')
		# later changes
		for k in shape.get('remove_edges', []):
			if m.edges:
				i = list(m.edges)[k % len(m.edges)]
				g.get_node(i[0]).get_outward_edge(i).remove_self()
				del m.edges[i]
		for k in shape.get('remove_nodes', []):
			if m.nodes:
				n = list(m.nodes)[k % len(m.nodes)]
				g.remove_node(n)
				m.remove_node(n)
		for a, b in shape.get('late', []):
			if m.nodes:
				s, e = list(m.nodes)[a % len(m.nodes)], list(m.nodes)[b % len(m.nodes)]
				if (s, e, None) not in m.edges:
					g.connect(s, e)
					m.add_edge(s, e)
	return g, m
