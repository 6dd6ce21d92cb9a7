"""graphs of thousands of nodes, for limits that small graphs do not meet; described by {'long': kind, 'n': size, 'reverse': order}"""
from core import Violation, sut
from world import Model, check_state, ids, same_set

KINDS = ['chain', 'cycle', 'comb', 'ladder', 'back', 'wide', 'layers', 'far loops']


def edges_of(kind, n):
	if kind == 'chain':
		edges = [(i, i + 1) for i in range(n - 1)]
	elif kind == 'cycle':
		edges = [(i, (i + 1) % n) for i in range(n)]
	elif kind == 'comb':
		edges = [(i, i + 1) for i in range(0, n // 2)] + [(i, n - 1 - i) for i in range(n // 2)]
	elif kind == 'ladder':  # very many paths
		edges = [(i, j) for i in range(0, n - 2, 2) for j in (i + 2, i + 3)] + [(i, j) for i in range(1, n - 2, 2) for j in (i + 1, i + 2)]
	elif kind == 'back':
		# a chain with ways back and forth over long distances
		edges = [(i, i + 1) for i in range(n - 1)] + [(n - 2, 1), (n - 3, n // 2), (3 * n // 4, n // 4), (0, n - 1), (1, n // 3)]
	elif kind == 'wide':
		# one over all others over one
		edges = [(0, i) for i in range(1, n - 1)] + [(i, n - 1) for i in range(1, n - 1)]
	elif kind == 'layers':
		k = 10
		edges = [(i, j) for i in range(n) for j in range(i // k * k + k, min(n, i // k * k + 2 * k))]
	elif kind == 'far loops':
		# loops of three, joined by long lines
		edges = [(i, i + 1) for i in range(n - 1)] + [(i + 2, i) for i in range(0, n - 2, 50)]
	return [e for e in dict.fromkeys(edges) if 0 <= e[0] < n and 0 <= e[1] < n]


def large_graph(case):
	from abstract import Graph
	n, reverse = case['n'], case['reverse']
	edges = edges_of(case['long'], n)
	nodes = list(range(n))[::-1] if reverse else list(range(n))
	edges = edges[::-1] if reverse else edges
	m = Model()
	with sut(f'building a {case["long"]} of {n} nodes'):
		g = Graph()
		for i in nodes:
			g.add_node(i)
			m.add_node(i)
		for a, b in edges:
			g.connect(a, b)
			m.add_edge(a, b)
	return g, m


def reach(start, neighbours):
	seen, todo = set(), [start]
	while todo:
		for y in neighbours[todo.pop()]:
			if y not in seen:
				seen.add(y)
				todo.append(y)
	return seen


def components(m):
	"""{node: number of its group of mutually reachable nodes} (Tarjan, without recursion)"""
	succ = m.successors()
	order, low, group, stack, on = {}, {}, {}, [], set()
	for root in m.nodes:
		if root in order:
			continue
		order[root] = low[root] = len(order)
		stack.append(root)
		on.add(root)
		work = [(root, iter(succ[root]))]
		while work:
			v, it = work[-1]
			for w in it:
				if w not in order:
					order[w] = low[w] = len(order)
					stack.append(w)
					on.add(w)
					work.append((w, iter(succ[w])))
					break
				elif w in on:
					low[v] = min(low[v], order[w])
			else:
				work.pop()
				if work:
					low[work[-1][0]] = min(low[work[-1][0]], low[v])
				if low[v] == order[v]:
					while True:
						w = stack.pop()
						on.discard(w)
						group[w] = order[v]
						if w == v:
							break
	return group


def some_nodes(n):
	return sorted({0, 1, 2, n // 4, n // 3, n // 2, n - 2, n - 1} & set(range(n)))


# of the size asked for: some kinds have many more edges or slow questions
PART = {'ladder': 3, 'comb': 2, 'layers': 8, 'wide': 8}


def large_cases(tier, quick=3000, thorough=10000, kinds=KINDS, small=300, orders=(False, True)):
	for kind in kinds:
		for n in (small, quick) if tier == 'quick' else (small, quick, thorough):
			for reverse in orders:
				yield {'long': kind, 'n': n // PART.get(kind, 1), 'reverse': reverse}


def check_large(g, m, what):
	"""like check_state, without the list of all edges, which takes the square of their number"""
	if len(m.edges) <= 400:
		return check_state(g, m, what)
	with sut(f'reading {what}'):
		by_name = g.nodes_dict
		if ids(g.nodes) != list(m.nodes) or list(by_name) != list(m.nodes):
			same_set(ids(g.nodes), list(m.nodes), f'nodes of {what}')
			raise Violation(f'nodes of {what} are not in order')
		by_id = g.edges_dict
		if set(by_id) != set(m.edges) or len(by_id) != len(m.edges):
			raise Violation(f'edges of {what}: {list(set(m.edges) - set(by_id))[:5]} are missing, {list(set(by_id) - set(m.edges))[:5]} should not be there')
		out, into = {n: [] for n in m.nodes}, {n: [] for n in m.nodes}
		for i in m.edges:
			out[i[0]].append(i)
			into[i[1]].append(i)
		for name, node in by_name.items():
			if [e.id for e in node.outward_edges] != out[name] or [e.id for e in node.inward_edges] != into[name]:
				raise Violation(f'edges of {name!r} of {what}: got {[e.id for e in node.edges]!r:.300}')
			if node.graph is not g or g.get_node(name) is not node or name not in g:
				raise Violation(f'node {name!r} of {what} is not the node of the graph')
		for i, edge in by_id.items():
			if edge.graph is not g or edge.start is not by_name[i[0]] or edge.end is not by_name[i[1]]:
				raise Violation(f'the ends of edge {i} of {what} are not the nodes of the graph')
