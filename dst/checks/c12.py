"""C12: external search and tagging tools that fail never yield partial results."""
import gzip
import errno
from collections import OrderedDict
from .. import core
from ..common import *
from ..searchlib import *
from .c07 import opensearcher, perform

RUNS = (6000, 200000)
BUDGET = (35, 1200)
RULE = ('random search requests (tgrep2: index, query, extract, batch) and '
	'tagging requests (three taggers) x scripted child: exit code or signal at '
	'any byte of its output, diagnostics of any size, sentences or tokens '
	'dropped or added, pipe capacity, chunking and parent/child scheduling; '
	'distinct by schedule and fault trace')
REALPARTS = 'treesearch.TgrepSearcher, lexicon.externaltagging, util.run/which'
STUBS = ('tgrep2, tree-tagger, Stanford tagger (java) and frog are scripted '
	'children behind simulated pipes; thread pools; clock')
WORDS2 = WORDS + ['über', "l'", '10,5']


def tagof(word):
	return ('N', 'V', 'ART', '$.', 'N(soort)')[sum(map(ord, word)) % 5]


def gentagger(kind):
	"""A tagger program; sim.tagfault = None or (code, frac, flood, mangle)."""
	def program(io, argv):
		sim = io.sim
		code, frac, flood, mangle = sim.tagfault or (0, 1, 0, None)
		if kind == 'frog':
			if frac == 0 and code and mangle == 'noread':
				return code
			data = (yield from io.readall()).decode('utf8')
			sents = [a.split() for a in data.splitlines()]
		else:
			names = [a for a in argv[1:] if a.startswith(os.environ['TMPDIR'])]
			try:
				data = get(names[0]).decode('utf8')
			except OSError:
				return 1
			if kind == 'treetagger':
				sents = [a.split('\n') for a in data.split('<S>\n')[:-1]]
				sents = [[w for w in a if w] for a in sents]
			else:
				sents = [a.split() for a in data.splitlines()]
		if mangle == 'dropsent':
			del sents[len(sents) // 2]
		elif mangle == 'droptoken':
			n = len(sents) // 2
			sents[n] = sents[n][:-1]
		elif mangle == 'addtoken':
			sents[-1] = sents[-1] + ['x']
		elif mangle == 'splitsent':
			n = len(sents) // 2
			sents[n:n + 1] = [sents[n][:1], sents[n][1:]]
		if kind == 'treetagger':
			out = ''.join(''.join('%s\t%s\n' % (w, tagof(w)) for w in a)
					+ '<S>\n' for a in sents)
		elif kind == 'stanford':
			out = ''.join(' '.join('%s_%s' % (w, tagof(w)) for w in a) + '\n'
					for a in sents)
		else:
			out = ''.join(''.join('%d\t%s\t%s\t%s\t0.99\n' % (n, w, w, tagof(w))
					for n, w in enumerate(a, 1)) + '\n' for a in sents)
		out = out.encode('utf8')
		out = out[:int(len(out) * frac)]
		if flood:
			yield from io.error(b'diagnostics\n' * flood)
		pos = 0
		while pos < len(out):
			yield from io.write(out[pos:pos + 256])
			pos += 256
		if '|' in argv:  # exit status of the last command in the pipeline
			return 0
		return code
	return program


def tagging(sim):
	kind = sim.pick(['treetagger', 'stanford', 'frog'], 'tagger')
	words = [w for w in WORDS2]
	sents = OrderedDict((n + 1, [(sim.pick(words, 'w'), sim.pick(POS, 't'))
			for _ in range(1 + sim.choose(5, 'len'))])
			for n in range(1 + sim.choose(6, 'nsents')))
	put('tree-tagger/bin/tree-tagger', b'')
	put('stanford-postagger-full-2012-07-09/x', b'')
	put('bin/frog', b'')
	os.environ['PATH'] = os.path.join(sim.scratch, 'bin')
	sim.programs['tree-tagger'] = gentagger('treetagger')
	sim.programs['java'] = gentagger('stanford')
	sim.programs['frog'] = gentagger('frog')
	override = {'$,': ['cat']} if sim.chance(1, 3, 'override') else {}
	tagmap = {'V': 'VERB'} if sim.chance(1, 3, 'tagmap') else {}
	model = 'foo' if sim.chance(1, 2, 'model') else ''
	fk = sim.choose(5, 'fault')
	sim.tagfault = None
	if fk in (1, 2):
		sim.tagfault = (sim.pick([1, -9, -13, 255], 'code'),
				sim.choose(101, 'cut') / 100, (0, 10, 20000)[sim.choose(
				3, 'flood')], sim.pick([None, 'noread'], 'noread'))
	elif fk == 3:
		sim.tagfault = (0, 1, sim.pick([10, 20000], 'flood'), sim.pick([
				None, 'dropsent', 'droptoken', 'addtoken', 'splitsent'],
				'mangle'))
	elif fk == 4:
		sim.tagfault = (0, sim.choose(101, 'cut') / 100, 0, None)
	if sim.tagfault:
		sim.fault('tagger-' + ('exit' if sim.tagfault[0] else
				'mangle' if sim.tagfault[3] else 'truncated'
				if sim.tagfault[1] < 1 else 'diagnostics'))
	iofault = sim.chance(1, 8, 'iofault')
	exp = OrderedDict()
	for n, s in sents.items():
		exp[n] = []
		for w, _ in s:
			t = tagof(w)
			if kind == 'frog':
				t = t.replace('(', '[').replace(')', ']')
			else:
				if w == 'cat' and override:
					t = '$,'
				t = tagmap.get(t, t)
			exp[n].append((w, t))
	sim.sample = dict(tagger=kind, sents=repr(dict(sents)),
			fault=repr(sim.tagfault))

	def body(sim):
		from discodop import lexicon
		if iofault:
			sim.disk.plan = [disk.Fault(sim.pick(['write', 'close-w', 'creat'],
					'op'), sim.choose(2, 'at'), err=errno.ENOSPC)]
		out = capture(lexicon.externaltagging, kind, model, sents, override,
				tagmap)
		sim.disk.plan = []
		return out, sorted(os.listdir(os.environ['TMPDIR']))
	out = core.call(sim, body, 'tag')
	check(out[0] == 'ok', 'failed:tag', lambda: '%s\n%r' % (
			core.describe(out), sim.sample))
	out, left = out[1]
	faulty = sim.tagfault is not None and (sim.tagfault[0]
			or sim.tagfault[1] < 1 or sim.tagfault[3])
	if out[0] == 'ok':
		check(list(out[1].items()) == list(exp.items()), 'wrong-tags:' + kind,
				lambda: 'got %r\nexpected %r\n%r' % (out[1], exp, sim.sample))
	else:
		check(faulty or iofault, 'spurious-error:' + kind, lambda: '%r\n%r' % (
				out, sim.sample))
	check(not left, 'temporary-files:' + kind, lambda: '%r %r' % (left,
			sim.sample))


def searching(sim):
	usetgrep(sim)
	names = ['f%d.mrg%s' % (n, sim.pick(['', '', '.gz'], 'gz'))
			for n in range(1 + sim.choose(3, 'nfiles'))]
	trees = {}
	for n in names:
		trees[n] = gentrees(sim)
		data = writetrees(trees[n], 'mrg').encode('utf8')
		if n.endswith('gz'):
			data = gzip.compress(data, mtime=0)
		for d in 'ab':
			put('%s/%s' % (d, n), data)
			settime('%s/%s' % (d, n), sim.clock - 1000)
	pat = sim.pick(TGPATS, 'q')
	kw = {}
	if sim.chance(1, 3, 'hasstart'):
		kw['start'] = 1 + sim.choose(4, 'start')
	if sim.chance(1, 3, 'hasend'):
		kw['end'] = kw.get('start', 1) + sim.choose(4, 'end')
	kind = sim.pick(['counts', 'sents', 'trees', 'indices', 'breakdown',
			'batchcounts', 'batchsents', 'extract'], 'kind')
	if kind in ('sents', 'trees', 'batchsents'):
		kw['maxresults'] = (None, 1, 2)[sim.choose(3, 'max')]
	numproc = 1 + sim.choose(3, 'numproc')
	where = sim.pick(['query', 'query', 'index', 'none'], 'where')
	target = sim.choose(len(names), 'target')
	spec = (sim.pick(['cut', 'exit-early', 'truncate'], 'faultkind'),
			sim.pick([1, -9, -11, 0], 'code'), sim.choose(101, 'cut') / 100,
			(0, 1, 4000)[sim.choose(3, 'flood')])
	if spec[1] == 0:  # no error, just diagnostics
		spec = ('cut', 0, 1.0, spec[3])
	if where == 'index' and spec[0] == 'cut':
		spec = ('exit-early', spec[1] or 1) + spec[2:]

	def tgfault(argv):
		isidx = '-p' in argv
		if isidx != (where == 'index') or where == 'none':
			return None
		if not any(names[target].replace('.gz', '') in a for a in argv):
			return None
		core.current().fault('child-exit' if spec[1] else 'child-diagnostics')
		return spec
	sim.sample = dict(request=repr((kind, pat, kw)), fault=repr((where, spec,
			names[target])), files={n: writetrees(t, 'mrg')[:150]
			for n, t in trees.items()})

	def request(prefix, numproc, fault):
		def go():
			files = [prefix + n for n in names]
			sim.tgfault = fault
			s = opensearcher('tgrep', files, numproc)
			if kind.startswith('batch'):
				fun = getattr(s, kind)
				return {f[len(prefix):]: norm(v) for f, v in fun(
						[pat, 'NP', 'ZZ'], **kw)}
			if kind == 'extract':
				return {names[target]: [norm(s.extract(files[target], [1, 2],
						sents=k)) for k in (False, True)]}
			x = perform(s, (kind, pat, kw))
			return {f[len(prefix):]: v for f, v in perfile(
					kind, x, files).items()}

		def body(sim):
			return capture(go), sorted(os.listdir(os.environ['TMPDIR']))
		return body
	sim.cfg['preempt'] = sim.pick([0, 20], 'preempt')
	sim.cfg['traceprefix'] = LIB + '/discodop/'
	act = core.call(sim, request('a/', numproc, tgfault), 'act')
	check(act[0] == 'ok', 'failed:search', lambda: '%s\n%r' % (
			core.describe(act), sim.sample))
	sim.cfg['preempt'] = 0
	sim.cfg['pipecap'] = 65536
	exp = core.call(sim, request('b/', 1, None), 'ref')
	check(exp[0] == 'ok' and exp[1][0][0] == 'ok', 'reference-failed',
			lambda: repr(exp))
	out, left = act[1]
	if out[0] == 'ok':
		check(out[1] == exp[1][0][1], 'wrong-result:' + kind, lambda:
				'got %r\nexpected %r\n%r' % (out[1], exp[1][0][1], sim.sample))
	else:
		check(where != 'none' and spec[1], 'spurious-error:' + kind,
				lambda: '%r\n%r' % (out, sim.sample))
	check(not left, 'temporary-files:search', lambda: '%r\n%r' % (left,
			sim.sample))


def run(sim):
	sim.cfg['pipecap'] = sim.pick([65536, 4096, 64], 'pipecap')
	sim.cfg['pipechunks'] = sim.chance(1, 2, 'pipechunks')
	if sim.chance(1, 2, 'what'):
		tagging(sim)
	else:
		searching(sim)
