"""C22: settings of the graph and of the call appear in the text"""
import pickle
from xml.etree import ElementTree

from hypothesis import strategies as st

from core import Stream, Violation, check, same, sut
from gen import edge_sets
from styled import canonical, graph_settings, hexes, hostile, parse_dot, safe_text, settings_to_kwargs, squeeze

ID = 'C22'
RULE = (
	'A case is a graph made with random settings (direction, label and its font, size, colour, place and URL, tooltip, background, strict, further '
	'attributes of Graphviz) and one or more calls with random direction, pad, height and width; the attributes read back from the text of each call '
	'are compared with what settings and arguments say, and with those of a call without arguments afterwards. Settings are also changed later and judged again. Non-trivial: at least two settings or '
	'arguments are not the default.'
)

DEFAULTS = {
	'label': '\nPowered by Abstract', 'label_url': 'https://github.com/idin/abstract', 'label_location': 'bottom', 'font_size': 10, 'font': 'helvetica',
	'label_colour': 'deepskyblue3', 'background_colour': '#FAFAFA', 'direction': 'LR', 'tooltip': None, 'strict': False, 'ordering': True
}

TEXTS = ('tooltip', 'rank_word', 'fontname', 'fontcolor', 'href')


def ordering_of(setting):
	from abstract import Graph
	with sut(f'Graph(ordering={setting})'):
		return parse_dot(Graph(ordering=setting).get_graphviz_str()).attributes.get('ordering')


def is_html(label):
	return label.startswith('<') and label.endswith('>')


def run(case, rec):
	from abstract import Graph
	settings = case['settings']
	with sut(f'Graph(**{settings})'):
		g = Graph(**settings_to_kwargs(settings))
		for i in range(case['nodes']):
			if i in case['rich']:
				g.add_node(f'n{i}', label='a label', value=0, tooltip='a tip', style={'shape': 'circle'}, kind='x')
			else:
				g.add_node(f'n{i}')
		for a, b in case['edges']:
			g.connect(f'n{a}', f'n{b}', if_edge_exists='ignore')
	s = dict(DEFAULTS)
	s.update(settings)
	if case['background'] is not None:
		with sut('setting the background'):
			g.background_colour = case['background']
			same(g.background_colour.hexadecimal, case['background'], 'the background')
		s['background_colour'] = case['background']
	with sut(f'{case["as"]} of the graph'):
		if case['as'] == 'copy':
			g = g.copy()
		elif case['as'] == 'pickle':
			g = pickle.loads(pickle.dumps(g))
		elif case['as'] == 'filter':
			g = g.filter(filter_type='exclude')
	for call in case['calls'] + [{'by': 'render'}]:
		judge(g, s, settings, call, case['sample'])
	loose = False
	for change in case['later']:
		loose = loose or 'label' in change
		with sut(f'changing {change}'):
			for k, v in change.items():
				if k == 'background_colour':
					g.background_colour = v
				else:
					g.append({'nodes': [], 'edges': [], k: v})
		s.update(change)
		for call in case['calls'] + [{'by': 'render'}]:
			judge(g, s, settings, call, case['sample'], loosely=loose)
	rec.nontrivial(len(settings) + sum(len(c) - 1 for c in case['calls']) >= 2)
	rec.label(case['as'], *(c['by'] for c in case['calls']), *settings)


def text_of(element):
	"""what is shown: br starts a new line, line ends in the source are spaces"""
	result = (element.text or '').replace('\n', ' ')
	for child in element:
		result += '\n' if child.tag.lower() == 'br' else text_of(child)
		result += (child.tail or '').replace('\n', ' ')
	return result


def lines(text):
	"""without the space around lines and before and after the text"""
	return '\n'.join(' '.join(line.split()) for line in text.split('\n')).strip()


def judge_background(html, label, colour, what):
	"""a label with a background is a table with one cell"""
	check(html is not None and html.startswith('<') and html.endswith('>'), f'the label of {what} is no HTML: {html!r}')
	try:
		table = ElementTree.fromstring(f'<label>{html[1:-1]}</label>')
	except ElementTree.ParseError as e:
		raise Violation(f'the label of {what} is not valid: {e}: {html!r}')
	same([e.get(k) for e in table.iter() for k in e.keys() if k.lower() == 'bgcolor'], [colour], f'background of the label of {what}')
	same(lines(text_of(table)), lines(label), f'text of the label of {what}')
	# which is also shown when pointed at
	for shown in [e.get(k) for e in table.iter() for k in e.keys() if k.lower() in ('title', 'tooltip')]:
		same(' '.join(shown.split()), ' '.join(label.split()), f'what the cell of the label of {what} shows when pointed at')


def judge(g, s, settings, call, sample, loosely=False):
	kwargs = {k: v for k, v in call.items() if k != 'by'}
	what = f'{call["by"]}({kwargs}) of a graph with {settings}'
	with sut(what):
		if call['by'] == 'render':
			kwargs = {k: v for k, v in kwargs.items() if k not in ('height', 'width')}  # those are for files
			text = g.render(**kwargs).source
		elif call['by'] == 'str':
			text = g.get_graphviz_str(**kwargs)
		elif call['by'] == 'source':
			text = g.get_graphviz_source(**kwargs).source
		else:
			text = g.get_graphviz_header(**kwargs) + '}'
	dot = parse_dot(text, what)
	a = dot.attributes
	expected = {'bgcolor': s['background_colour'].lower()}
	label = s['label']
	found = {k: squeeze(v) if k in TEXTS else v.lower() if k == 'bgcolor' else v for k, v in a.items()}
	if label is not None:
		background = s.get('label_background_colour')
		if background is not None and not is_html(label):
			judge_background(found.pop('label', None), label, background, what)
		else:
			expected['label'] = squeeze(label)
			if 'label' in found:
				found['label'] = squeeze(found['label'])
			if loosely:
				# a label that came with a dictionary is in a line of its own
				expected['label'] = expected['label'].lstrip('\n')
				found['label'] = found.get('label', '').lstrip('\n')
		if s['label_location'] is not None:
			expected['labelloc'] = s['label_location'][0]
		for key, setting in (('fontsize', 'font_size'), ('fontname', 'font'), ('fontcolor', 'label_colour'), ('href', 'label_url')):
			if s[setting] is not None:
				expected[key] = squeeze(str(s[setting]))
		if s['label_url'] is not None:
			expected['target'] = '_blank'
	if s['tooltip'] is not None:
		expected['tooltip'] = squeeze(s['tooltip'])
	for k in ('nodesep', 'splines', 'rank_word', 'Damping', 'K', 'URL_word'):
		if k in settings:
			expected[k] = squeeze(str(settings[k]))
	direction = (kwargs.get('direction') or s['direction']).upper()
	if direction != 'TB':
		expected['rankdir'] = direction
	pad = kwargs.get('pad', 0.1)
	if pad is not None:
		expected['pad'] = str(pad)
	height, width = kwargs.get('height'), kwargs.get('width')
	if height is not None and width is not None:
		expected.update(size=f'{width},{height}!', ratio='fill')
	elif height is not None or width is not None:
		expected.update(size=f'{height or width}!', ratio='fill')
	# of the two values of this setting one is shown
	found.pop('ordering', None)
	shown = ordering_of(True), ordering_of(False)
	check(shown[0] != shown[1], f'the text of a graph with ordering is that of one without: {shown}')
	same(a.get('ordering'), shown[0 if s['ordering'] else 1], f'ordering of {what}')
	if found.get('rankdir') == 'TB':
		found.pop('rankdir')
	same(found, expected, f'attributes of {what}')
	same(dot.strict, bool(s['strict']), f'strict of {what}')
	if sample:
		canonical(text)


call = st.fixed_dictionaries(
	{'by': st.sampled_from(['render', 'str', 'source', 'header'])},
	optional={
		'direction': st.sampled_from([None, 'LR', 'TB', 'RL', 'BT', 'tb', 'rl']), 'pad': st.sampled_from([None, 0, 0.1, 1, 2.5, 0.123456789, 12]),
		'dpi': st.sampled_from([72, 300, 600]), 'height': st.sampled_from([None, 1, 2.5, 10, 0.5, 3.14159265358979, 1234567]), 'width': st.sampled_from([None, 3, 7.5, 0.25, 2.71828182845905, 100])
	}
)


@st.composite
def cases(draw):
	settings = draw(graph_settings)
	if draw(st.booleans()):
		settings['label'] = draw(st.one_of(
			st.none(), safe_text, hostile.filter(lambda x: not is_html(x)), st.just('two\nlines & more'), st.just('a much longer label, of more than one & of <some> words'), st.just('\n<a> & b'), st.just('<<b>bold</b>>'),
			st.just('<a <i>label</i><br/> of two lines>')
		))
	if draw(st.booleans()):
		settings['tooltip'] = draw(st.one_of(st.none(), hostile))
	if 'nodesep' in settings and draw(st.booleans()):
		settings['nodesep'] = draw(st.sampled_from([0, 1, 0.5, 1e-7, 123456789.125, True, False]))
	for k, x in (('Damping', 0.9), ('K', 2), ('URL_word', 'Mixed Case')):
		# attributes of Graphviz can have capital letters
		if draw(st.integers(0, 9)) == 0:
			settings[k] = x
	if 'rank_word' in settings and draw(st.booleans()):
		settings['rank_word'] = draw(hostile)
	settings.pop('label_background_colour', None)
	# (two characters are allowed nowhere in HTML)
	if draw(st.booleans()) and not set(settings.get('label') or '') & {'\ufffe', '\uffff'}:
		settings['label_background_colour'] = draw(st.sampled_from(['red', '#123456', 'lightgrey']))
	for k in ('font', 'label_url', 'label_colour', 'font_size', 'label_location'):
		x = draw(st.integers(0, 11))
		if x == 0:
			settings[k] = None
		elif x < 3 and k == 'font_size':
			settings[k] = draw(st.sampled_from([0, 1, 12.5, 7.25, 100]))
		elif x == 1 and k in ('font', 'label_url'):
			settings[k] = draw(hostile)
	n = draw(st.integers(0, 4))
	_, edges = draw(edge_sets(n))
	return {
		'settings': settings, 'nodes': n, 'rich': draw(st.lists(st.integers(0, 3), max_size=2)), 'edges': [list(e) for e in edges], 'calls': draw(st.lists(call, max_size=3)),
		'later': draw(st.lists(st.fixed_dictionaries({}, optional={
			'background_colour': hexes, 'label': st.one_of(st.none(), safe_text, st.just('<a <b>bold</b> label>'), st.just('another & label')), 'tooltip': st.one_of(st.none(), hostile),
			'label_url': st.one_of(st.none(), st.just('https://example.com/?a=1&b=2')), 'direction': st.sampled_from(['LR', 'TB', 'RL', 'BT']), 'strict': st.booleans(), 'ordering': st.booleans()
		}), max_size=2)),
		'as': draw(st.sampled_from(['made', 'made', 'made', 'copy', 'pickle', 'filter'])), 'background': draw(st.one_of(st.none(), hexes)), 'sample': draw(st.integers(0, 5)) == 0
	}


STREAMS = [Stream('settings', cases(), 800, 10000)]
