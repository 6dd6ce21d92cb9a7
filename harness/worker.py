"""
reads cases from standard input and writes everything that can be asked about each of their graphs; run by the check of C32 under different seeds of
the hash function and of the random module
"""
import json
import os
import random
import sys
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import colouration
import graphviz
# what was compiled before is not read, in case the source changed within a second
sys.pycache_prefix = '/nonexistent/compiled'
import abstract
sys.pycache_prefix = None


def answers(case):
	from abstract import Graph
	from styled import make
	from world import World, build
	if 'graph' in case:
		g = make(case['graph'])[0]
		h = make(case['other'])[0]
	elif 'program' in case:
		w = World(case['program']['names'], case['program'].get('args'))
		w.run(case['program'])
		g, h = w.g, w.g.copy()
	else:
		g, h = build(case['shape'])[0], build(case['other shape'])[0]

	def names(nodes):
		return [repr(n.name) for n in nodes]

	def relations(x):
		return [
			[
				names(f(n.name)) for f in (
					x.get_children, x.get_parents, x.get_siblings, x.get_spouses, lambda k: x.get_ancestors(k, distance=False),
					lambda k: x.get_descendants(k, distance=False)
				)
			] + [names(n.co_parents), names(n.siblings)] + [[d, names(f)] for d, f in x.get_ancestors(n).items()] + [[d, names(f)] for d, f in x.get_descendants(n).items()]
			for n in x.nodes
		]

	def everything(x):
		return {
			'nodes': names(x.nodes), 'edges': [repr(e.id) for e in x.edges], 'edges_dict': [repr(i) for i in x.edges_dict], 'roots': names(x.roots),
			'loops': names(x.loop_nodes), 'leaves': names(x.leaves), 'tree': x.get_tree_str(), 'text': x.get_graphviz_str(), 'relations': relations(x),
			'dictionary': [repr(k) for k in x.__graph__()['nodes']] + [repr(e[:2] + [e[2]['id'], e[2]['label'], e[2]['value']]) for e in x.__graph__()['edges']],
			'rendered': x.render().source
		}

	result = {}
	total = g.add(h, add_values_function=lambda a, b: [a, b])
	result['sum'] = everything(total)
	result['converted'] = everything(Graph(g))
	if g.nodes:
		result['filtered'] = [everything(g.filter(nodes=[g.nodes[0]], direction=d, filter_type=t)) for d in ('to', 'from', 'to_and_from') for t in ('include', 'exclude')]
	result['copy'] = everything(g.copy())
	result['itself'] = everything(g)
	result['similar'] = [g.is_similar_to(h), g.is_similar_to(g.copy())]
	return result


def main():
	random.seed(int(sys.argv[1]))
	results = []
	with warnings.catch_warnings():
		warnings.simplefilter('ignore')
		for case in json.load(sys.stdin):
			try:
				results.append(answers(case))
			except Exception as e:
				results.append({'failed': f'{type(e).__name__}: {e}'[:300]})
	json.dump(results, sys.stdout)


if __name__ == '__main__':
	main()
