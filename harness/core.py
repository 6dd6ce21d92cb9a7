"""
Runs one property check: generates cases with Hypothesis, judges each with the property's oracle, shrinks the first failure,
writes it as a replay file and rewrites the evidence file.

A check module has
	ID			the property
	RULE		what a case is and what makes it non-trivial
	STREAMS		list of Stream: a strategy of JSON-able cases, how many to run in each tier
	run(case, rec)	raises Violation if the property does not hold for the case; rec.nontrivial()/rec.label() classify it
and optionally
	FIXED		list of cases that are always run first (regressions and deterministic extremes)
	KNOWN		see known()
"""
import contextlib
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
CASE_CPU_SECONDS = 90


class Violation(Exception):
	pass


class Hang(BaseException):
	pass


@contextlib.contextmanager
def sut(what):
	"""the code under test runs inside this: whatever it raises is a violation, not an error of the harness"""
	try:
		yield
	except Violation:
		raise
	except Exception as e:
		frames = traceback.extract_tb(e.__traceback__)
		where = ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(frames[-3:]))
		raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:300]} [{where}]') from None


def check(condition, message):
	if not condition:
		raise Violation(message() if callable(message) else message)


def same(actual, expected, what):
	if not (actual == expected):
		raise Violation(f'{what}: got {short(actual)}, expected {short(expected)}')


def short(x, n=600):
	try:
		text = repr(x)
	except Exception as e:
		text = f'<unprintable {type(x).__name__}: {type(e).__name__}>'
	return text if len(text) <= n else text[:n] + f'... ({len(text)} characters)'


@contextlib.contextmanager
def raises(what, *types):
	"""the code under test must raise one of these types"""
	types = types or (Exception,)
	try:
		yield
	except Violation:
		raise
	except types:
		return
	except Exception as e:
		raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:200]} rather than {"/".join(t.__name__ for t in types)}') from None
	raise Violation(f'{what} did not raise')


class Stream:
	def __init__(self, name, strategy, quick, thorough):
		self.name = name
		self.strategy = strategy
		self.n = {'quick': quick, 'thorough': thorough}


class Recorder:
	def __init__(self, rule):
		self.rule = rule
		self.evaluations = 0
		self.nontrivial_hashes = set()
		self.labels = {}
		self.streams = {}
		self.samples = {}
		self._nontrivial = False
		self._labels = set()
		self.skipped_for_time = 0

	# used by checks
	def nontrivial(self, condition=True):
		if condition:
			self._nontrivial = True

	def label(self, *names):
		self._labels.update(names)

	# used by the runner
	def begin(self):
		self._nontrivial = False
		self._labels = set()

	def end(self, stream, text):
		self.evaluations += 1
		self.streams[stream] = self.streams.get(stream, 0) + 1
		for label in self._labels:
			self.labels[label] = self.labels.get(label, 0) + 1
		if self._nontrivial:
			self.nontrivial_hashes.add(hashlib.sha1(text.encode()).digest())
			bucket = self.samples.setdefault(stream, [])
			if len(bucket) < 2 and 20 < len(text):
				bucket.append(text[:1500])


class FailureStop(Exception):
	pass


def _hang(signum, frame):
	raise Hang()


class Runner:
	def __init__(self, module, tier, seed):
		self.module = module
		self.tier = tier
		self.seed = seed
		self.rec = Recorder(module.RULE)
		self.best = None
		self.start = time.time()
		self.soft_limit = 240 if tier == 'quick' else 780
		self.known_lines = []

	def run_case(self, case, stream):
		"""returns None or the message of a violation"""
		text = json.dumps(case, sort_keys=True, default=str)
		self.current = (case, stream)
		self.rec.begin()
		signal.setitimer(signal.ITIMER_VIRTUAL, getattr(self.module, 'CASE_CPU_SECONDS', CASE_CPU_SECONDS))
		try:
			with warnings.catch_warnings():
				warnings.simplefilter('ignore')
				self.module.run(case, self.rec)
			message = None
		except Violation as e:
			message = str(e)
		except Hang:
			raise
		except (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, RecursionError) as e:
			# on a tree where the property holds every answer can be read: an answer of the wrong kind is no answer
			import traceback
			at = ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_tb(e.__traceback__)[-3:]))
			message = f'an answer could not be read: {type(e).__name__}: {str(e)[:300]} [{at}]'
		finally:
			signal.setitimer(signal.ITIMER_VIRTUAL, 0)
		self.rec.end(stream, text)
		if message is not None:
			if self.best is None or len(text) < self.best[0]:
				self.best = (len(text), case, stream, message)
		return message

	def run_stream(self, stream, index):
		import hypothesis
		from hypothesis import settings, HealthCheck, Phase
		n = int(stream.n[self.tier] * float(os.environ.get('VERIF_SCALE', '1')))
		if n <= 0:
			return
		try:
			import hypothesis.internal.conjecture.engine as engine
			engine.MAX_SHRINKING_SECONDS = 45
		except Exception:
			pass

		def one(case):
			if self.best is None and time.time() - self.start > self.soft_limit:
				self.rec.skipped_for_time += 1
				return
			message = self.run_case(case, stream.name)
			if message is not None:
				raise FailureStop('x')

		# for trials with many planted bugs only
		PHASES = (Phase.generate,) if os.environ.get('VERIF_SHRINK') == '0' else (Phase.generate, Phase.shrink)
		test = hypothesis.seed(self.seed * 1000 + index)(
			settings(
				max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
				suppress_health_check=list(HealthCheck), phases=PHASES, report_multiple_bugs=False,
				verbosity=hypothesis.Verbosity.quiet
			)(hypothesis.given(stream.strategy)(one))
		)
		try:
			test()
		except FailureStop:
			pass
		except hypothesis.errors.Flaky:
			if self.best is None:
				raise
		except BaseException as e:
			if isinstance(e, BaseExceptionGroup) and self.best is not None:
				return
			raise

	def shrink_lists(self, case, stream):
		"""for cases that no strategy made: leaves out steps of histories as long as the case still fails"""
		if os.environ.get('VERIF_SHRINK') == '0':
			return
		end = time.time() + 30
		for k, steps in case.items():
			if k not in ('ops', 'queries', 'steps', 'changes', 'calls') or not isinstance(steps, list):
				continue
			size = max(1, len(steps) // 2)
			while size >= 1 and time.time() < end:
				i = 0
				while i < len(steps) and time.time() < end:
					candidate = dict(case)
					candidate[k] = steps[:i] + steps[i + size:]
					try:
						fails = self.run_case(candidate, stream) is not None
					except Exception:
						fails = False
					if fails:
						case, steps = candidate, candidate[k]
					else:
						i += size
				size //= 2

	def explore(self):
		for case in getattr(self.module, 'FIXED', lambda tier: [])(self.tier):
			if self.run_case(case, 'fixed') is not None:
				self.shrink_lists(case, 'fixed')
				return
		for index, stream in enumerate(self.module.STREAMS):
			self.run_stream(stream, index)
			if self.best is not None:
				return
		extra = getattr(self.module, 'extra', None)
		if extra is not None:
			# enumerations and other cases that no strategy makes
			for name, case in extra(self.tier, self.seed):
				if time.time() - self.start > self.soft_limit:
					self.rec.skipped_for_time += 1
					continue
				if self.run_case(case, name) is not None:
					self.shrink_lists(case, name)
					return

	def write_evidence(self, violations):
		os.makedirs(EVIDENCE, exist_ok=True)
		rec = self.rec
		samples = [{'stream': s, 'case': c} for s, cs in sorted(rec.samples.items()) for c in cs][:8]
		evidence = {
			'property': self.module.ID,
			'tier': self.tier,
			'seed': self.seed,
			'level': 'exploration',
			'coverage': {
				'evaluations': rec.evaluations,
				'distinct_nontrivial': len(rec.nontrivial_hashes),
				'rule': rec.rule,
				'samples': samples,
				'streams': rec.streams,
				'labels': dict(sorted(rec.labels.items())),
				'not_run_for_lack_of_time': rec.skipped_for_time
			},
			'assumptions': getattr(self.module, 'ASSUMPTIONS', []),
			'wall_s': round(time.time() - self.start, 3),
			'violations': violations
		}
		path = os.path.join(EVIDENCE, f'{self.module.ID}.json')
		with open(path + '.tmp', 'w') as f:
			json.dump(evidence, f, indent=1, default=str)
		os.replace(path + '.tmp', path)

	def write_replay(self, case, stream, message):
		os.makedirs(REPLAYS, exist_ok=True)
		path = os.path.join(REPLAYS, f'{self.module.ID}-seed{self.seed}.json')
		with open(path, 'w') as f:
			json.dump({
				'property': self.module.ID, 'stream': stream, 'message': message, 'case': case,
				'how': f'python harness/run.py {self.module.ID} --replay {path}'
			}, f, indent=1, default=str)
		return path

	def main(self):
		signal.signal(signal.SIGVTALRM, _hang)
		violation = None
		try:
			self.explore()
			if self.best is not None:
				_, case, stream, message = self.best
				violation = (case, stream, message)
		except Hang:
			case, stream = self.current
			if self.best is not None:
				_, case, stream, message = self.best
			else:
				message = f'did not finish within {CASE_CPU_SECONDS} s of CPU time'
			violation = (case, stream, message)
		for line in self.known_lines:
			print(line)
		self.write_evidence(0 if violation is None else 1)
		if violation is None:
			print(
				f'{self.module.ID} held: {self.rec.evaluations} cases, {len(self.rec.nontrivial_hashes)} distinct non-trivial, '
				f'{time.time() - self.start:.1f} s'
			)
			return 0
		case, stream, message = violation
		path = self.write_replay(case, stream, message)
		print(f'case: {short(json.dumps(case, default=str), 1500)}')
		print(f'failure: {message[:1500]}')
		print(f'VIOLATION property={self.module.ID} replay={path}')
		return 1

	def replay(self, path):
		signal.signal(signal.SIGVTALRM, _hang)
		with open(path) as f:
			data = json.load(f)
		try:
			message = self.run_case(data['case'], data['stream'])
		except Hang:
			message = 'did not finish'
		if message is None:
			print(f'{self.module.ID}: replay passes')
			return 0
		print(f'failure: {message}')
		print(f'VIOLATION property={self.module.ID} replay={path}')
		return 1


def limit_memory():
	try:
		resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
	except (ValueError, OSError):
		pass
