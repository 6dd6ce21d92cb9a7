"""C30: rendered files and images"""
import contextlib
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import types

from hypothesis import strategies as st

from core import Stream, check, same, sut
from styled import make, parse_dot, styled_graphs

ID = 'C30'
RULE = (
	'A case is a graph with settings and styles rendered to a file (svg, png, pdf, dot, or no extension; names with spaces, dots or other letters; a full or relative path, text or object) '
	'with or without direction, size and padding, and to an SVG text (also as HTML of a notebook, with a stand-in for IPython). Everything is written in a scratch directory and nothing is opened. The file is '
	'there, has the format of its extension, and draws as many nodes and edges as the graph has, from a source with the attributes asked for; the source that is returned is that of a render '
	'without a path; an SVG text is what Graphviz makes of that source; the directory has no other files than the image and its source. Non-trivial: at least one node.'
)
CASE_CPU_SECONDS = 90

MAGIC = {'svg': b'<?xml', 'png': b'\x89PNG\r\n\x1a\n', 'pdf': b'%PDF', 'dot': b'', 'gv': b'', 'jpg': b'\xff\xd8', 'gif': b'GIF8'}


def drawn(svg):
	return len(re.findall(r'class="node"', svg)), len(re.findall(r'class="edge"', svg))


def by_graphviz(text):
	return subprocess.run(['dot', '-Tsvg'], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode()


def element(svg):
	return svg[svg.find('<svg'):].strip()


@contextlib.contextmanager
def notebook():
	"""a stand-in for IPython, of which only the class for HTML is used"""
	class HTML:
		def __init__(self, data=None):
			self.data = data

	names = ['IPython', 'IPython.core', 'IPython.core.display', 'IPython.display']
	before = {k: sys.modules.get(k) for k in names}
	for k in names:
		sys.modules[k] = types.ModuleType(k)
		sys.modules[k].HTML = HTML
	sys.modules['IPython'].core, sys.modules['IPython'].display = sys.modules['IPython.core'], sys.modules['IPython.display']
	sys.modules['IPython.core'].display = sys.modules['IPython.core.display']
	try:
		yield
	finally:
		for k, x in before.items():
			if x is None:
				del sys.modules[k]
			else:
				sys.modules[k] = x


@contextlib.contextmanager
def inside(folder):
	before = os.getcwd()
	os.chdir(folder)
	try:
		yield
	finally:
		os.chdir(before)


@contextlib.contextmanager
def variables(**values):
	"""what names in a path could stand for, which they should not"""
	before = {k: os.environ.get(k) for k in values}
	os.environ.update(values)
	try:
		yield
	finally:
		for k, x in before.items():
			if x is None:
				del os.environ[k]
			else:
				os.environ[k] = x


def expected_counts(m, strict):
	pairs = len(set(e[:2] for e in m.edges)) if strict else len(m.edges)
	return len(m.nodes), pairs


def run(case, rec):
	g, m = make(case['graph'])
	strict = bool(case['graph']['settings'].get('strict', False))
	kwargs = dict(case['kwargs'])
	plain = {k: v for k, v in kwargs.items() if k not in ('height', 'width')}
	with sut('rendering without a path'):
		twin = g.copy()
		wanted = twin.render(**plain).source
	folder = tempfile.mkdtemp(prefix='abstract-')
	try:
		if case['kind'] == 'svg text':
			with sut('get_svg'):
				svg = g.get_svg(**plain)
			same(element(svg), element(by_graphviz(wanted)), 'the image of get_svg')
			check('<svg' in svg and svg.rstrip().endswith('</svg>'), f'get_svg gave {svg[:200]!r}')
			same(drawn(svg), expected_counts(m, strict), 'nodes and edges drawn by get_svg')
			with sut('_repr_html_'):
				html = g._repr_html_()
			same(drawn(html), expected_counts(m, strict), 'nodes and edges drawn by _repr_html_')
			same(element(html), element(by_graphviz(twin.render().source)), 'the image of _repr_html_')
			with sut('get_html'), notebook():
				same(g.get_html(**plain).data, svg, 'the text that get_html shows')
			rec.nontrivial(len(m.nodes) >= 1)
			rec.label('svg text', *kwargs)
			return
		inner = case['name'] + ('.' + case['kind'] if case['kind'] else '')
		path = os.path.join(folder, inner)
		# where the files will be
		where = folder
		if inner.startswith('sub/'):
			os.mkdir(os.path.join(folder, 'sub'))
			where = os.path.normpath(os.path.dirname(path))
		what = f'render({inner!r}, {kwargs})'
		if case['there']:
			# files of these names, which are replaced
			for name in {path if case['kind'] else path + '.pdf', os.path.splitext(path)[0]}:
				with open(name, 'w') as f:
					f.write('something else ' * case['there'])
			what += ' where there was a file'
		with sut(what):
			if case['path'] == 'relative':
				with inside(folder), variables(HOME=folder + '/home', NAME='other'):
					source = g.render(path=inner, view=False, **kwargs)
			else:
				with variables(HOME=folder + '/home', NAME='other'):
					source = g.render(path=pathlib.Path(path) if case['path'] == 'object' else path, view=False, **kwargs)
			same(source.source, wanted, f'the source that {what} returned')
		extension = case['kind'] or 'pdf'
		image = path if case['kind'] else path + '.pdf'
		check(os.path.isfile(image), lambda: f'{what} did not write {os.path.basename(image)!r} but {sorted(os.listdir(folder))}')
		with open(image, 'rb') as f:
			content = f.read()
		check(len(content) > 0 and content.startswith(MAGIC[extension]), f'{what} wrote {content[:20]!r}, which is not {extension}')
		others = set(os.listdir(where)) - {'sub', os.path.basename(image), os.path.splitext(os.path.basename(path))[0]}
		check(not others, f'{what} also wrote {sorted(others)}')
		if extension == 'svg':
			text = content.decode()
			same(drawn(text), expected_counts(m, strict), f'nodes and edges drawn by {what}')
		# what was drawn is what render shows without a path, in the size asked for
		with open(os.path.splitext(path)[0], 'r', encoding='utf-8', newline='') as f:
			dot, without = parse_dot(f.read(), f'the source of {what}'), parse_dot(wanted)
		attributes = dict(dot.attributes)
		size = attributes.pop('size', None)
		for k in ('ratio', 'dpi'):
			attributes.pop(k, None)
		same(attributes, without.attributes, f'attributes of the graph in the source of {what}')
		same((dot.strict, dot.nodes, dot.edges), (without.strict, without.nodes, without.edges), f'nodes and edges in the source of {what}')
		height, width = kwargs.get('height'), kwargs.get('width')
		asked = ','.join(str(x) for x in (width, height) if x is not None)
		same(size, f'{asked}!' if asked else None, f'size in the source of {what}')
		check(where == folder or os.listdir(folder) == ['sub'], lambda: f'{what} also wrote {sorted(os.listdir(folder))}')
		check(os.path.isdir(folder) and len(os.listdir(folder)) >= 1, 'nothing written')
	finally:
		shutil.rmtree(folder)
	rec.nontrivial(len(m.nodes) >= 1)
	rec.label(case['kind'] or 'no extension', *kwargs)


@st.composite
def cases(draw, kinds=('svg', 'svg', 'svg', 'png', 'pdf', 'dot', '', 'gif')):
	c = draw(styled_graphs(max_nodes=5, styles=('plain', 'ints', 'weird')))
	for k in ('splines',):
		c['settings'].pop(k, None)
	return {
		'graph': c, 'kind': draw(st.sampled_from(kinds)),
		'path': draw(st.sampled_from(['text', 'text', 'object', 'relative'])), 'there': draw(st.sampled_from([0, 0, 1, 10000])), 'name': draw(st.sampled_from(['graph', 'two words', 'a.b', 'é 日本', 'x-1_2', '.hidden', "it's", 'CAPS', 'a..b', 'a...', 'sub/../graph', './graph', 'sub/graph', ' led by a space', '~', '$NAME', '${NAME}-1', '%NAME%', '%d', '*', '[a]'])),
		'kwargs': draw(st.fixed_dictionaries({}, optional={
			'direction': st.sampled_from(['LR', 'TB', 'bt']), 'pad': st.sampled_from([0.1, 1, 0]), 'height': st.sampled_from([3, 5.5]), 'width': st.sampled_from([4, 2.5]),
			'dpi': st.sampled_from([72, 150])
		}))
	}


STREAMS = [
	Stream('files', cases().filter(lambda c: c['name'] not in ('.hidden', 'a.b', 'a..b', 'a...') or c['kind']), 170, 1800),
	Stream('texts', cases(kinds=('svg text',)), 80, 800)
]


def FIXED(tier):
	# every direction and padding, given or not, in images of the same graph
	thing = {'label': None, 'value': None, 'tooltip': None, 'style': None, 'params': {}}
	graph = {
		'settings': {}, 'nodes': [dict(thing, name=x) for x in 'abc'], 'edges': [dict(thing, start=0, end=1, id=None), dict(thing, start=0, end=2, id=None)], 'palette': [{}], 'epalette': [{}],
		'kind': 'sparse', 'node_styles': [], 'edge_styles': [], 'as_objects': False, 'frozen': [], 'frozen_edges': []
	}
	for settings in ({}, {'direction': 'RL'}, {'direction': 'LR', 'label': 'title'}):
		for direction in (None, 'TB', 'LR', 'bt'):
			for pad in (None, 0, 1):
				kwargs = {k: x for k, x in (('direction', direction), ('pad', pad)) if x is not None}
				yield {'graph': dict(graph, settings=settings), 'kind': 'svg text', 'path': 'text', 'there': 0, 'name': 'graph', 'kwargs': kwargs}
	for kwargs in ({'height': 3}, {'width': 4}, {'height': 3, 'width': 4}, {'dpi': 72}, {'pad': 0}, {'direction': 'LR', 'pad': 1}):
		yield {'graph': graph, 'kind': 'svg', 'path': 'relative', 'there': 1, 'name': 'graph', 'kwargs': kwargs}
	for name in (' led by a space', '~', '$NAME', '${NAME}-1', '%d', 'two words', 'é 日本', 'CAPS', 'a.b', 'sub/graph', 'a&b;c'):
		for path in ('relative', 'text', 'object'):
			yield {'graph': graph, 'kind': 'dot' if path == 'text' else 'svg', 'path': path, 'there': 0, 'name': name, 'kwargs': {}}
