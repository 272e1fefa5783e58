"""C23: sentence generation for every stream of random numbers."""
import io
import copy
import gzip
import errno
import random
import contextlib
from collections import Counter
from .. import core
from ..common import *

RUNS = (12000, 400000)
BUDGET = (35, 1200)
RULE = ('random binarized grammars (fan-out up to 3, unary rules, recursion) x '
	'streams of random numbers including 0, the largest value below 1 and values '
	'next to the cumulative rule weights x repeated generation with shared '
	'counters x grammar files in both formats, read with short reads and errors; '
	'derivations found by independent enumeration; distinct by grammar and stream')
REALPARTS = 'discodop.gen (all)'
STUBS = 'the random source; disk faults'
WORDS = list('abcdefgh')


class Stream(random.Random):
	"""A random source steered by the simulator; can be replayed."""

	def setup(self, sim, mode, tape=None):
		self.sim, self.mode, self.tape, self.out = sim, mode, tape, []
		self.marks = [0.0]
		self.limit = 1000
		return self

	def random(self):
		if self.tape is not None:
			x = self.tape.pop(0) if self.tape else 0.5
		elif self.mode == 0:
			x = super().random()
		else:
			k = self.sim.choose(6, 'stream')
			x = self.sim.choose(64, 'value') / 64
			if k == 1:
				x = 1 - 2.0 ** -53
			elif k == 2:
				x = (0.0, 5e-324, 2.0 ** -53)[self.sim.choose(3, 'tiny')]
			elif k >= 3:
				x = self.sim.pick(self.marks, 'mark')
				x = (x, x - 2.0 ** -53, x + 2.0 ** -53)[k - 3]
				x = min(max(x, 0.0), 1 - 2.0 ** -53)
		self.out.append(x)
		if len(self.out) > self.limit and self.mode:
			raise RecursionError('endless generation')
		return x

	def getrandbits(self, k):
		x, n = 0, 0
		while n < k:
			x = (x << 16) | int(self.random() * 65536)
			n += 16
		return x >> (n - k)


def steer(gen, stream):
	"""Route all module-level random functions through the stream."""
	orig = {}
	for name in ('random', 'uniform', 'choice', 'choices', 'randrange',
			'randint', 'sample', 'shuffle', 'getrandbits', 'triangular'):
		orig[id(getattr(random, name))] = name
		setattr(random, name, getattr(stream, name))
	for name, val in list(vars(gen).items()):
		if id(val) in orig or getattr(val, '__self__', None).__class__ is Stream:
			setattr(gen, name, getattr(stream, orig.get(id(val),
					getattr(val, '__name__', ''))))


class Ref:
	"""Enumerate derivations: rules as [((lhs, rhs...), yf, prob)]."""

	def __init__(self, rules, limit=200000):
		self.by = {}
		for rule, yf, p in rules:
			if p:  # rules without probability are never used
				self.by.setdefault(rule[0], []).append((rule, yf, p))
		self.memo = {}
		self.steps, self.limit = 0, limit

	def probs(self, label, args):
		"""Set of probabilities of derivations of ``args`` (tuple of tuples
		of words) from ``label``."""
		key = label, args
		if key in self.memo:
			return self.memo[key]
		self.memo[key] = set()  # unary cycles are not generated
		res = set()
		for rule, yf, p in self.by.get(label, ()):
			self.steps += 1
			if self.steps > self.limit:
				raise Inconclusive('too many derivations')
			if rule[1] == 'Epsilon':
				if args == ((yf[0], ), ):
					res.add(p)
			elif len(yf) != len(args):
				continue
			elif len(rule) == 2:
				res |= {p * x for x in self.probs(rule[1], args)}
			else:
				for left, right in splits(yf, args):
					a = self.probs(rule[1], left)
					if a:
						for y in self.probs(rule[2], right):
							res |= {p * x * y for x in a}
		self.memo[key] = res
		return res


def splits(yf, args):
	"""All ways to divide args over the children according to yf."""
	if not yf:
		yield (), ()
		return
	for left, right in splits(yf[:-1], args[:-1]):
		for parts in cut(args[-1], len(yf[-1])):
			yield (left + tuple(x for x, b in zip(parts, yf[-1]) if not b),
					right + tuple(x for x, b in zip(parts, yf[-1]) if b))


def cut(words, n):
	if n == 1:
		if words:
			yield (words, )
		return
	for k in range(1, len(words) - n + 2):
		for rest in cut(words[k:], n - 1):
			yield (words[:k], ) + rest


def mkgrammar(sim, recursive):
	"""Labels in levels; rules go to later labels, except recursive ones."""
	n = 1 + sim.choose(4, 'nlabels')
	labels = ['ROOT'] + ['N%d' % k for k in range(1, n)]
	fan = {'ROOT': 1}
	for x in labels[1:]:
		fan[x] = 1 + (sim.chance(1, 3, 'fan2') + sim.chance(1, 6, 'fan3'))
	pre = ['P%d' % k for k in range(1 + sim.choose(3, 'npre'))]
	for x in pre:
		fan[x] = 1
	rules = []
	for k, lhs in enumerate(labels):
		alts = []
		for _ in range(1 + sim.choose(3, 'nrules')):
			later = labels[k + 1:] + pre
			same = [x for x in later if fan[x] == fan[lhs]]
			kind = sim.choose(4, 'kind')
			if kind == 3 and same:
				r = sim.pick(same, 'rhs')
				alts.append(((lhs, r), tuple((0, ) for _ in range(fan[lhs]))))
				continue
			rhs = [sim.pick(later, 'rhs1'), sim.pick(later, 'rhs2')]
			if recursive and alts and sim.chance(1, 2, 'rec'):
				rhs[sim.choose(2, 'which')] = sim.pick(labels[:k + 1], 'back')
			yf = yields(sim, fan[rhs[0]], fan[rhs[1]], fan[lhs])
			if yf:
				alts.append(((lhs, rhs[0], rhs[1]), yf))
		if not any(set(r[1:]) <= set(labels[k + 1:] + pre) for r, _ in alts):
			if fan[lhs] == 1:
				alts.append(((lhs, pre[0]), ((0, ), )))
			else:
				alts.append(((lhs, labels[k], pre[0]), None))
		rules.append(alts)
	# labels with fan-out > 1 without a terminating rule are not used
	bad = {lhs for lhs, alts in zip(labels, rules)
			if any(yf is None for _, yf in alts)}
	while True:
		new = set(bad)
		for lhs, alts in zip(labels, rules):
			alts[:] = [(r, yf) for r, yf in alts if yf is not None
					and not bad & set(r)]
			k = labels.index(lhs)
			if not any(set(r[1:]) <= set(labels[k + 1:] + pre)
					for r, _ in alts):
				if lhs == 'ROOT':
					alts.append(((lhs, pre[0]), ((0, ), )))
				else:
					new.add(lhs)
		if new == bad:
			break
		bad = new
	res = []
	for lhs, alts in zip(labels, rules):
		if lhs not in bad:
			alts = list(dict(alts).items())
			back = any(x in labels and labels.index(x) <= labels.index(lhs)
					for r, _ in alts for x in r[1:])
			for (r, yf), p in zip(alts, weights(sim, len(alts), not back)):
				res.append((r, yf, p))
	for x in pre:
		ws = sim.shuffled(WORDS, 'words')[:1 + sim.choose(3, 'nwords')]
		for w, p in zip(ws, weights(sim, len(ws), True)):
			res.append(((x, 'Epsilon'), (w, ), p))
	return res


def weights(sim, n, zero=False):
	if sim.chance(1, 4, 'equal'):
		return [1 / n] * n
	x = [1 + sim.choose(20, 'weight') for _ in range(n)]
	if zero and n > 1 and sim.chance(1, 6, 'zero'):
		x[0 if sim.chance(1, 2, 'first') else sim.choose(n, 'which')] = 0
	return [a / sum(x) for a in x]


def yields(sim, f1, f2, f):
	"""A random monotone yield function with f arguments."""
	if f1 + f2 < f:
		return None
	seq = [0] * f1 + [1] * f2
	seq = sim.shuffled(seq, 'yf')
	cuts = sorted(sim.shuffled(range(1, len(seq)), 'cuts')[:f - 1])
	return tuple(tuple(seq[a:b]) for a, b in zip([0] + cuts,
			cuts + [len(seq)]))


def files(rules, bitpar, ints):
	r, lex = [], {}
	for rule, yf, p in rules:
		if rule[1] == 'Epsilon':
			lex.setdefault(yf[0], []).append('%s %s' % (rule[0], ints[p]
					if ints else repr(p)))
		elif bitpar:
			r.append('%s\t%s\n' % (ints[p] if ints else repr(p),
					'\t'.join(rule)))
		else:
			r.append('%s\t%s\t%s\n' % ('\t'.join(rule), ','.join(''.join(map(
					str, a)) for a in yf), repr(p)))
	return ''.join(r), ''.join('%s\t%s\n' % (w, '\t'.join(x))
			for w, x in lex.items())


def run(sim):
	from discodop import gen
	recursive = sim.chance(1, 2, 'recursive')
	rules = mkgrammar(sim, recursive)
	recursive = any(r[1] != 'Epsilon' and any(x <= r[0] and x[0] == 'N'
			or x == 'ROOT' for x in r[1:]) for r, _, _ in rules)
	discount = sim.pick([.75, .5, .3] if recursive else [.75, 1.0, .5, .01],
			'discount')
	sim.key = repr(rules)
	sim.sample = dict(rules=[repr(x) for x in rules], discount=discount)
	if sim.chance(1, 4, 'files'):
		return runfiles(sim, gen, rules, recursive)
	if sim.chance(1, 8, 'distribution'):
		return distribution(sim, gen)

	def body(sim):
		grammar = gen.splitgrammar([((r, yf), p) for r, yf, p in rules])
		before = repr(copy.deepcopy(grammar))
		stream = Stream().setup(sim, 1)
		bylhs = {}
		for r, _, p in rules:
			bylhs.setdefault(r[0], []).append(p)
		for lhs, ps in bylhs.items():
			for d in (1, discount):
				for k in range(len(ps)):
					stream.marks.append(sum(x * d for x in ps[:k])
							/ sum(x * d for x in ps))
		steer(gen, stream)
		counts = [sim.choose(3, 'count') for _ in rules] if sim.chance(
				1, 2, 'counts') else None
		orig = list(counts) if counts is not None else None
		ref = Ref(rules)
		for n in range(1 + sim.choose(4, 'ngen')):
			kw = dict(start=grammar.toid['ROOT'], discount=discount,
					prodcounts=counts)
			stream.tape, stream.out = None, []
			try:
				p, sent = gen.gen(grammar, **kw)
			except RecursionError:
				check(recursive, 'recursion', lambda: repr(sim.sample))
				sim.stat('recursion-limit')
				if counts is not None:
					counts[:] = orig
				continue
			used = list(stream.out)
			sim.sample.setdefault('streams', []).append(used[:20])
			sim.event(repr((p, sent)))
			judge(sim, ref, p, sent)
			check(counts == orig, 'counters', lambda: 'before %r after %r\n%r'
					% (orig, counts, sim.sample))
			check(repr(grammar) == before, 'grammar-changed', lambda:
					'before %s\nafter %r\n%r' % (before, grammar, sim.sample))
			stream.tape, stream.out = list(used), []
			again = gen.gen(grammar, **kw)
			check(again == (p, sent), 'not-reproducible', lambda: '%r\n%r\n%r'
					% ((p, sent), again, sim.sample))
	out = core.call(sim, lambda sim: body(sim), 'gen')
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r\n%r' % (core.describe(out),
			sim.sample, out))


def judge(sim, ref, p, sent, tol=1e-6):
	check(len(sent) == 1 and all(isinstance(x, str) for x in sent[0]),
			'not-a-sentence', lambda: '%r\n%r' % (sent, sim.sample))
	words = tuple(sent[0])
	if len(words) > 11:
		sim.stat('long')
		return
	exp = ref.probs('ROOT', (words, ))
	check(exp, 'not-derivable', lambda: '%r\n%r' % (words, sim.sample))
	check(any(abs(p - x) <= tol * x for x in exp), 'wrong-probability', lambda:
			'%r has %r, expected one of %r\n%r' % (words, p, sorted(exp)[:20],
			sim.sample))
	sim.stat('judged')


def distribution(sim, gen):
	"""The frequencies with which rules are chosen."""
	ps = weights(sim, 2 + sim.choose(4, 'nalts'))
	d = sim.pick([.75, .5, 1.0], 'd')
	w = weights(sim, 2)
	# S chooses a word; R repeats itself or stops, with discount
	rules = [(('ROOT', 'A%d' % k), ((0, ), ), p) for k, p in enumerate(ps)]
	rules += [(('A%d' % k, 'Epsilon'), ('w%d' % k, ), 1) for k in range(len(ps))]
	rules += [(('R', 'B', 'R'), ((0, 1), ), w[0]), (('R', 'B'), ((0, ), ), w[1]),
			(('B', 'Epsilon'), ('b', ), 1)]
	rules = sim.shuffled(rules, 'order')
	n = 3000
	seed = sim.choose(1 << 30, 'seed')
	sim.sample.update(rules=[repr(x) for x in rules], discount=d, seed=seed)
	sim.key = repr(sim.sample)

	def body(sim):
		grammar = gen.splitgrammar([((r, yf), p) for r, yf, p in rules])
		stream = Stream(seed).setup(sim, 0)
		steer(gen, stream)
		a, b = Counter(), Counter()
		for _ in range(n):
			a[gen.gen(grammar, start=grammar.toid['ROOT'],
					discount=d)[1][0][0]] += 1
			b[len(gen.gen(grammar, start=grammar.toid['R'],
					discount=d)[1][0]) if d < 1 or w[0] < .9 else 1] += 1
		return a, b
	out = core.call(sim, body, 'gen')
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (out, sim.sample))
	a, b = out[1]

	def freq(x, p, what):
		check(abs(x / n - p) <= 7 * (p * (1 - p) / n) ** .5 + .002,
				'wrong-distribution', lambda: '%s: %g, expected %g\n%r' % (
				what, x / n, p, sim.sample))
	for k, p in enumerate(ps):
		freq(a['w%d' % k], p, 'rule %d' % k)
	if d < 1 or w[0] < .9:
		left = 1.0
		for k in range(1, 4):  # stop after k words
			w0, w1 = w[0] * d ** (k - 1), w[1]
			freq(b[k], left * w1 / (w0 + w1), '%d repetitions' % k)
			left *= w0 / (w0 + w1)
	sim.stat('distribution')


def runfiles(sim, gen, rules, recursive):
	"""Grammar files: the command-line interface."""
	bitpar = sim.chance(1, 2, 'bitpar') and all(
			len(yf) == 1 and yf in (((0, ), ), ((0, 1), ))
			for r, yf, _ in rules if r[1] != 'Epsilon')
	bitpar = bitpar and not any(r[1] != 'Epsilon' and r[1].isdigit()
			for r, _, _ in rules)
	ints = None
	if bitpar and sim.chance(1, 2, 'ints'):
		# frequencies; probabilities are relative to the left-hand side
		freqs = [1 + sim.choose(9, 'freq') for _ in rules]
		tot = Counter()
		for (r, _, _), f in zip(rules, freqs):
			tot[r[0]] += f
		rules = [(r, yf, f / tot[r[0]] + k * 1e-12) for k, ((r, yf, _), f)
				in enumerate(zip(rules, freqs))]
		ints = {p: f for (_, _, p), f in zip(rules, freqs)}
	elif bitpar and sim.chance(1, 2, 'weights'):
		# arbitrary weights, used as they are
		rules = [(r, yf, (1 + sim.choose(60, 'weight')) / 16 + 1e-12 * k)
				for k, (r, yf, _) in enumerate(rules)]
		rules[0] = rules[0][:2] + (.625, )
	a, b = files(rules, bitpar, ints)
	names = []
	cutfile = sim.choose(2, 'cut') if sim.chance(1, 5, 'truncated') else None
	for k, (name, data) in enumerate((('g.rules', a), ('g.lex', b))):
		data = data.encode('utf8')
		if sim.chance(1, 2, 'gz') or k == cutfile:
			name += '.gz'
			data = gzip.compress(data, mtime=0)
			if k == cutfile:
				data = data[:1 + sim.choose(len(data) - 1, 'at')]
				sim.fault('truncated-file')
		put(name, data)
		names.append(name)
	plan = []
	if sim.chance(1, 5, 'fault'):
		plan = [disk.Fault('read', sim.choose(3, 'at'), err=errno.EIO)]
	sim.sample.update(files=[a, b], cut=cutfile, plan=repr(plan))

	def body(sim):
		sim.disk.plan = plan
		sim.disk.chunks = sim.chance(1, 2, 'chunks')
		stream = Stream().setup(sim, 1)
		stream.marks, stream.limit = [0.0, .5, .25], 5000
		steer(gen, stream)
		sys.setrecursionlimit(400)
		sys.argv = ['gen'] + names
		out = io.StringIO()
		with contextlib.redirect_stdout(out):
			gen.main()
		return out.getvalue()
	out = core.call(sim, lambda sim: capture(body, sim), 'main')
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	out = out[1]
	if out[0] != 'ok':
		check(cutfile is not None or plan or recursive and out[1]
				== 'RecursionError', 'spurious-error', lambda: '%r\n%r' % (
				out, sim.sample))
		return
	check(cutfile is None, 'truncation-ignored', lambda: repr(sim.sample))
	ref = Ref(rules)
	lines = out[1].splitlines()
	check(lines, 'no-output', lambda: repr(sim.sample))
	for line in lines:
		p, words = line[1:].split('] ')
		judge(sim, ref, float(p), [words.split()], 1e-3)
	sim.stat('files')
