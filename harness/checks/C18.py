"""C18: ancestors and descendants of objects"""
from hypothesis import strategies as st

from core import Stream, check, same, sut
from C17 import Thing, cases, large_objects, within

ID = 'C18'
RULE = (
	'A case is a set of objects that know their parents and children (trees, diamonds, loops, self-loops, repeated relations, hashes that collide; chains of up to 3,000 and 6 other large kinds of up to 2,000), one '
	'of them, and a limit; the list and the groups by distance are compared with breadth-first search over the relation. '
	'Non-trivial: something is reached in two ways, or the limit leaves something out.'
)


class Valued(Thing):
	"""equal to others of the same value, of which there is one; hashes may be the same for different ones"""
	def __eq__(self, other):
		return isinstance(other, Valued) and self.name == other.name

	__hash__ = Thing.__hash__


class Fresh(Valued):
	"""whose relatives are made anew whenever they are asked for"""
	def anew(self):
		result = Fresh(self.name, self.hash)
		result.children, result.parents = self.children, self.parents
		return result

	def __children__(self):
		return [x.anew() for x in self.children]

	def __parents__(self):
		return [x.anew() for x in self.parents]


def things(case):
	cls = Fresh if case.get('fresh') else Valued if case.get('valued') else Thing
	hashes = case['hashes']
	if case.get('collide'):
		# different objects may well have the same hash
		hashes = [hashes[i % case['collide']] for i in range(len(hashes))]
	result = [cls(i, h) for i, h in enumerate(hashes)]
	for a, b in case['edges']:
		result[a].children.append(result[b])
		result[b].parents.append(result[a])
	return result


def run(case, rec):
	from abstract import get_ancestors, get_descendants
	if 'chain' in case:
		n = case['chain']
		case = dict(case, hashes=list(range(n)), edges=[[i, i + 1] for i in range(n - 1)])
		objects = things(case)
		start = case['start'] % n
		down = {i: i - start for i in range(start + 1, n) if case['max_depth'] is None or i - start <= case['max_depth']}
		up = {i: start - i for i in range(start) if case['max_height'] is None or start - i <= case['max_height']}
		all_down, all_up = n - 1 - start, start
	else:
		objects = things(case)
		for a, b in case.get('again', []):
			# a relation may be listed twice
			objects[a].children.append(objects[b])
			objects[b].parents.append(objects[a])
		start = case['start'] % len(objects)
		down = within(start, case['edges'], case['max_depth'], False)
		up = within(start, case['edges'], case['max_height'], True)
		all_down, all_up = len(within(start, case['edges'], None, False)), len(within(start, case['edges'], None, True))
	obj = objects[start]
	relations = [(list(map(id, o.children)), list(map(id, o.parents))) for o in objects]
	number = {o.name: i for i, o in enumerate(objects)}
	for what, function, limit_name, limit, expected in [
		('descendants', get_descendants, 'max_depth', case['max_depth'], down), ('ancestors', get_ancestors, 'max_height', case['max_height'], up)
	]:
		kwargs = {} if limit is None and case['positional'] else {limit_name: limit}
		with sut(f'{what} of {start} in {case["edges"][:30]} ({kwargs})'):
			flat = function(obj, distance=False, **kwargs)
			grouped = function(obj=obj, distance=True, **kwargs)
			default = function(obj, **kwargs)
			flat = [number[x.name] for x in flat]
			groups = {k: sorted(number[x.name] for x in v) for k, v in grouped.items()}
			default = {k: sorted(number[x.name] for x in v) for k, v in default.items()}
		same(sorted(flat), sorted(expected), f'{what} of {start} in {case["edges"][:30]} ({kwargs})')
		wanted = {}
		for i, d in expected.items():
			wanted.setdefault(d, []).append(i)
		wanted = {k: sorted(v) for k, v in wanted.items()}
		# an empty group says nothing wrong
		same({k: v for k, v in groups.items() if v}, wanted, f'{what} by distance of {start} in {case["edges"][:30]} ({kwargs})')
		same({k: v for k, v in default.items() if v}, wanted, f'{what} of {start} by default')
	same([(list(map(id, o.children)), list(map(id, o.parents))) for o in objects], relations, 'relations of the objects afterwards')
	left_out = len(down) < all_down or len(up) < all_up
	merges = len(case['edges']) >= len(objects)
	rec.nontrivial(left_out or merges)
	rec.label('limit matters' if left_out else 'no limit', f'depth {min(max(list(down.values()) + [0]), 6)}')


@st.composite
def with_repeats(draw, **kwargs):
	case = draw(cases(**kwargs))
	if case['edges'] and draw(st.booleans()):
		case['again'] = [draw(st.sampled_from(case['edges'])) for _ in range(2)]
	if draw(st.integers(0, 2)) == 0:
		case['valued'] = draw(st.booleans())
		case['fresh'] = draw(st.booleans())
		case['collide'] = draw(st.integers(1, len(case['hashes'])))
	return case


STREAMS = [Stream('objects', with_repeats(), 1500, 15000), Stream('more objects', with_repeats(max_nodes=25), 150, 2000)]


def FIXED(tier):
	for case in large_objects(700 if tier == 'quick' else 2000):
		yield dict(case, positional=True)
	n = 1500 if tier == 'quick' else 3000
	for start in (0, n // 2, n - 1):
		for limit in (None, 0, 1, n // 3):
			yield {'chain': n, 'start': start, 'max_depth': limit, 'max_height': limit, 'positional': True}
