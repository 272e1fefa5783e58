"""C14: cached binary grammars and training trees equal what they are made
from."""
import gzip
import errno
import shutil
from .. import core
from .. import explib
from ..common import *
from .c09 import stamp

RUNS = (1800, 60000)
BUDGET = (38, 1500)
RULE = ('random experiment x history of loads of its grammars and training '
	'trees, with and without binary caches, interrupted at any file operation '
	'(torn writes included), or with failing writes, and of replaced '
	'or edited original files (coarse or fine file times); every load compared with a load that uses no cache; '
	'distinct by stages and history')
REALPARTS = ('discodop.parser readgrammars, Parser, augmentgrammar; Grammar, '
	'Ctrees, Vocabulary binary files; all compiled parsers')
STUBS = ('file system (every operation may fail or be the last one of the '
	'process), multiprocessing.Pool, clocks')
CACHES = ['.g', 'train.ct', 'vocab.idx']


def load(name, cache, loadtrees, sents, extra=None):
	"""Load grammars (and trees), and report everything that can be seen."""
	explib.silent()
	from discodop import parser
	from discodop.tree import brackettree
	prm = parser.readparam(name + '/params.prm')
	prm.resultdir = name
	parser.readgrammars(name, prm.stages, prm.postagging,
			prm.transformations, top=getattr(prm, 'top', 'ROOT'), cache=cache)
	res = {}

	def grammars(when):
		for stage in prm.stages:
			if stage.mode == 'mc-rerank':
				continue
			g = stage.grammar
			res[when, stage.name] = [str(g), g.start, g.nonterminals,
					g.numrules, g.numunary, g.numbinary, g.maxfanout,
					g.logprob, g.currentmodel, g.bitpar, sorted(g.getwords()),
					list(g.getlabels()), sorted(g.getpos()), g.testgrammar(),
					sorted((a, list(b)) for a, b in g.tblabelmapping.items())]
	grammars('loaded')
	p = parser.Parser(prm, loadtrees=loadtrees)
	grammars('parser')

	def parses(when):
		for n, sent in enumerate(sents):
			for result in p.parse(list(sent)):
				res[when, n, result.name] = [result.noparse,
						sorted((str(a), repr(b)) for a, b, *_ in
							result.parsetrees or ()),
						result.numitems, result.golditems]
	parses('parses')
	if loadtrees:
		def trees(when):
			res[when] = [(p.ctrees.extract(n, p.vocab),
					p.ctrees.extractsent(n, p.vocab))
					for n in range(len(p.ctrees))]
		trees('trees')
		for a in ('phrasallabels', 'poslabels', 'functiontags', 'morphtags'):
			res[a] = sorted(getattr(p, a))
		if extra is not None:
			items = [brackettree(a) for a in extra]
			p.augmentgrammar([a for a, _ in items], [b for _, b in items])
			grammars('augmented')
			trees('moretrees')
			parses('moreparses')
	return res


def editgrammar(sim, name, prm):
	"""Change a single weight in a grammar or lexicon file."""
	stage = sim.pick([a for a in prm['stages'] if a['mode'] != 'mc-rerank'],
			'editstage')
	ext = sim.pick(['rules', 'lex'], 'editfile')
	path = '%s/%s.%s.gz' % (name, stage['name'], ext)
	with gzip.open(path, 'rt', encoding='utf8') as inp:
		lines = inp.read().splitlines(True)
	n = sim.choose(len(lines), 'editline')
	line = lines[n].rstrip('\n')
	i = max(line.rfind('\t'), line.rfind(' ')) + 1
	if i == 0:
		return None
	if '/' in line[i:]:
		a, b = line[i:].split('/')
		weight = '%s/%d' % (a, 2 * int(b))
	elif 'x' in line[i:]:
		weight = (float.fromhex(line[i:]) / 2).hex()
	else:
		weight = repr(float(line[i:]) / 2)
	lines[n] = line[:i] + weight + '\n'
	with gzip.open(path, 'wt', encoding='utf8') as out:
		out.writelines(lines)
	return path, '%r => %r' % (line, lines[n])


def run(sim):
	sim.cfg['clockjumps'] = False
	gran = sim.pick([1e-9, 1, 0.01], 'gran')
	sim.disk.gran = gran
	sim.cfg['parentfaults'] = True
	kinds = sim.pick([None, ['coarse', 'dop', 'ctf', 'ctfdop', 'ctfmore']],
			'kinds')
	prm, train, test = explib.mkexp(sim, kinds)

	sents = [[w for _, w in sorted(dleaves(t))] for t in test[:3]]
	loadtrees = sim.chance(2, 3, 'loadtrees')
	extra = None
	if loadtrees and sim.chance(1, 2, 'augment') and not any(
			a.get('estimates') or a.get('dop', 'doubledop') != 'doubledop'
			for a in prm['stages']):
		extra = [discbracket(t) for t in test[:2]]

	def ref(name, proc):
		def body(sim):
			shutil.copytree(name, proc + '.tmp')
			for x in os.listdir(proc + '.tmp'):
				if x.endswith(tuple(CACHES)):
					os.unlink(proc + '.tmp/' + x)
			return load(proc + '.tmp', False, loadtrees, sents, extra)
		return core.call(sim, body, proc)
	r = core.call(sim, lambda sim: explib.runexp(prm, 'a'), 'exp')
	if r[0] != 'ok':
		check(r[0] in ('exc', 'exit'), 'experiment-' + r[0],
				lambda: core.describe(r))
		sim.stat('failed experiments')
		return
	sim.stat('experiments')
	want = ref('a', 'ref0')
	check(want[0] in ('ok', 'exc', 'exit'), 'uncached-' + want[0],
			lambda: core.describe(want))
	sim.stat('uncached load ' + want[0])
	sim.key = [prm['stages'], loadtrees, extra is not None]
	sim.sample.update(loadtrees=loadtrees, extra=extra)
	other = None
	if sim.chance(1, 3, 'other'):
		# grammars of another treebank, which may replace the original ones
		explib.write(prm, 'train.tb', [a for a in train[1:] + test])
		r = core.call(sim, lambda sim: explib.runexp(dict(prm, traincorpus=dict(
				prm['traincorpus'], numsents=100)), 'b'), 'exp2')
		explib.write(prm, 'train.tb', train)
		if r[0] == 'ok':
			other = ref('b', 'ref1')
	history = []
	damaged = False
	nedits = 0
	for k in range(2 + sim.choose(3, 'loads')):
		cache = sim.chance(4, 5, 'cache')
		if k and other is not None and not loadtrees and sim.chance(1, 2,
				'replace'):
			sim.tick(10.0)
			for x in os.listdir('b'):
				if x != 'params.prm':
					shutil.copyfile('b/' + x, 'a/' + x)
					os.utime('a/' + x, (sim.now(), sim.now()))
			sim.tick(10.0)
			history.append('grammars replaced')
			sim.stat('grammars replaced')
			want, other = other, None
		elif k and not loadtrees and sim.chance(1, 3, 'edit'):
			sim.tick(sim.pick([0.0, 0.3, 5.0], 'before'))
			x = editgrammar(sim, 'a', prm)
			if x is not None:
				stamp(sim, x[0], gran)
				history.append('edited %s: %s' % x)
				sim.stat('grammars edited')
				sim.tick(sim.pick([0.0, 0.3, 5.0], 'after'))
				nedits += 1
				want = ref('a', 'ref%d' % (nedits + 1))
				other = None
		faults = []
		if sim.chance(1, 2, 'fault'):
			damaged = True
			match = sim.pick(CACHES + [None], 'match')
			kind = sim.pick(['crash', 'crash', 'write', 'open', 'close-w',
					'creat', 'rename'], 'kind')
			faults.append(disk.Fault(kind, sim.choose(12 if match is None else
					3, 'at'), sim.pick([errno.ENOSPC, errno.EIO], 'errno'),
					sticky=sim.chance(1, 2, 'sticky'), frac=sim.pick(
					[0, 0.5, 0.9, 0.1, 0.99, 0.3, 0.7], 'frac'), match=match))

		def body(sim):
			sim.disk.plan = faults
			return load('a', cache, loadtrees, sents, extra)
		r = core.call(sim, body, 'load%d' % k)
		sim.disk.plan = []
		history.append('load cache=%s faults=%r: %s' % (cache, faults,
				r[0] if r[0] == 'ok' else core.describe(r)[:300]))
		compare(sim, want, r, history, damaged, bool(faults))
	if damaged:
		r = core.call(sim, lambda sim: load('a', True, loadtrees, sents,
				extra), 'final')
		history.append('final: %s' % r[0])
		compare(sim, want, r, history, damaged, False)
	sim.sample.update(history=history)
	sim.key.append(history)


def diff(a, b):
	if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
		if len(a) != len(b):
			return 'length %d, expected %d' % (len(a), len(b))
		for n, (x, y) in enumerate(zip(a, b)):
			if x != y:
				return '[%d] %s' % (n, diff(x, y)) + (str((a, b))
						if len(str((a, b))) < 3000 else '')
	if isinstance(a, str) and isinstance(b, str):
		a, b = a.splitlines(), b.splitlines()
		for x, y in zip(a, b):
			if x != y:
				return '%s\nexpected: %s' % (x, y)
	return '%r\nexpected:\n%r' % (a, b)


def compare(sim, want, r, history, damaged, faulty):
	msg = lambda: '\n'.join(history)
	if faulty and core.wascrashed(r):
		sim.stat('crashed')
		return
	check(r[0] in ('ok', 'exc', 'exit'), 'load-' + r[0], lambda: '%s\n%s' % (
			core.describe(r), msg()))
	if r[0] == 'ok':
		check(want[0] == 'ok', 'cached-succeeds', lambda: '%s\n%s' % (
				core.describe(want), msg()))
		for a in want[1]:
			check(want[1][a] == r[1].get(a), 'cached-differs',
					lambda: '%s\n%s: %s' % (msg(), a, diff(r[1].get(a),
					want[1][a])))
		check(len(want[1]) == len(r[1]), 'cached-differs',
				lambda: '%s\n%s\nexpected:%s' % (msg(), r[1], want[1]))
		sim.stat('correct')
		return
	sim.stat('error')
	check(faulty or want[0] != 'ok', 'cached-fails', lambda: '%s\n%s' % (
			core.describe(r), msg()))
