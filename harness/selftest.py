"""what the checks need is there and the harness itself works; nothing has to be built"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import hypothesis
import graphviz
import colouration
import core
import gen
import styled
import world

# the reader of DOT understands what its grammar allows
dot = styled.Dot('strict digraph G { graph [a = 1, b="x\\"y"]; rankdir="LR" { "n" [label="l"] m } "n" -> m [w=2]; /* c */ }')
assert dot.strict and dot.nodes == [('n', {'label': 'l'}), ('m', {})] and dot.edges == [('n', 'm', {'w': '2'})], (dot.nodes, dot.edges)
assert dot.attributes == {'a': '1', 'b': 'x"y', 'rankdir': 'LR'}, dot.attributes
# the model
m = world.Model()
for name in 'abc':
	m.add_node(name)
m.add_edge('a', 'b')
m.add_edge('b', 'c')
m.add_edge('c', 'b')
assert m.closure() == {'a': {'b': 1, 'c': 2}, 'b': {'c': 1, 'b': 2}, 'c': {'b': 1, 'c': 2}}, m.closure()
print(f'Python {sys.version.split()[0]}, Hypothesis {hypothesis.__version__}: ready')
