"""C08: batch searches keep the order of queries and corpora."""
import os
from .. import core
from ..common import *
from ..searchlib import *
from .c07 import opensearcher, oracle, parsefrag

RUNS = (5000, 40000)
BUDGET = (30, 1200)
RULE = ('random corpora x engine x batch of 1-14 queries (repeated, matching and '
	'non-matching) x interval x subset order x worker count x completion '
	'order, optionally interleaved with other requests; distinct by schedule '
	'trace')
REALPARTS = ('discodop.treesearch searchers, _fragments, containers (compiled), '
	'roaringbitmap')
STUBS = 'process/thread pools (seeded scheduler), tgrep2 program, clock'


def run(sim):
	sim.cfg['preempt'] = sim.pick([0, 12, 40], 'preempt')
	sim.cfg['traceprefix'] = LIB + '/discodop/'
	engine = sim.pick(['regex', 'frag', 'tgrep'], 'engine')
	nfiles = 1 + sim.choose(4, 'nfiles')
	texts, data = {}, {}
	names = sim.shuffled(['f%d' % n for n in range(nfiles)], 'names')
	for n in names:
		if engine == 'regex':
			texts[n + '.txt'] = gentext(sim)
		else:
			ext = 'mrg' if engine == 'tgrep' else sim.pick(
					['mrg', 'mrg', 'dbr'], 'ext')
			data[n + '.' + ext] = gentrees(sim)
			texts[n + '.' + ext] = writetrees(
				data[n + '.' + ext] if ext == 'mrg' else
				[scramble(sim, t) for t in data[n + '.' + ext]], ext)
	for name, text in texts.items():
		for d in 'ab':
			put('%s/%s' % (d, name), text)
			settime('%s/%s' % (d, name), sim.clock - 1000)
	files = ['a/' + f for f in texts]
	nq = 1 + sim.choose(12, 'nq')
	if engine == 'regex':
		queries = [sim.pick(QUERIES, 'q') for _ in range(nq)]
	elif engine == 'tgrep':
		usetgrep(sim)
		queries = [sim.pick(TGPATS, 'q') for _ in range(1 + nq // 3)]
	else:
		allt = [t for trees in data.values() for t in trees]
		queries = []
		for _ in range(nq):
			if queries and sim.chance(1, 6, 'dup'):
				queries.append(sim.pick(queries, 'dupq'))
			elif sim.chance(1, 8, 'nomatch'):
				queries.append('(ZZ (YY foo))')
			else:
				f = cut(sim, sim.pick(sim.pick([subfrags(t)
						for t in allt], 'qt'), 'qs'))
				if ispre(f) and not f[1]:
					f = [f[0], 'the']
				queries.append(fragstr(f))
	kw = {}
	if sim.chance(1, 3, 'hasstart'):
		kw['start'] = 1 + sim.choose(7, 'start')
	if sim.chance(1, 3, 'hasend'):
		kw['end'] = kw.get('start', 1) + sim.choose(7, 'end')
	order = files
	if sim.chance(1, 2, 'hassubset'):
		order = sim.shuffled([f for f in files if not sim.chance(
				1, 3, 'insub')], 'subsetorder') or files
		kw['subset'] = order
	numproc = 1 + sim.choose(3, 'numproc')
	what = sim.pick(['counts', 'sents'], 'what')
	brackets = (what == 'sents' and engine != 'regex'
			and sim.chance(1, 4, 'brackets'))
	sim.sample = dict(engine=engine, what=what, numproc=numproc, queries=queries,
			kw=repr(kw), corpora={k: v[:150] for k, v in texts.items()})
	mixin = sim.chance(1, 3, 'mixin')
	consume = sim.choose(len(order) + 1, 'consume') if mixin else 0

	def session(sim):
		s = opensearcher(engine, files, numproc)

		def batch():
			if what == 'counts':
				return s.batchcounts(list(queries), **kw)
			return s.batchsents(list(queries), maxresults=None,
					brackets=brackets, **kw)

		def go():
			it = batch()
			res = []
			if mixin:
				for _ in range(consume):
					x = next(it, None)
					if x is not None:
						res.append(x)
				s.counts(queries[-1])
				list(batch())
			res.extend(it)
			return [(f, norm(v)) for f, v in res]
		return capture(go)

	def fresh(sim):
		sim.cfg['preempt'] = 0
		s = opensearcher(engine, [f.replace('a/', 'b/') for f in files], 1)
		kw2 = {k: v for k, v in kw.items() if k != 'subset'}
		res = []
		for q in queries:
			if what == 'counts':
				x = s.counts(q, **kw2)
				res.append({f.replace('b/', 'a/'): n for f, n in x.items()})
			else:
				x = s.sents(q, maxresults=None, brackets=brackets, **kw2)
				d = {}
				for m in x:
					d.setdefault(m[0].replace('b/', 'a/'), []).append(
							norm(tuple(m[1:])))
				res.append(d)
		return res
	act = core.call(sim, session, 'sess')
	check(act[0] == 'ok', 'session-failed:' + engine,
			lambda: core.describe(act) + repr(sim.sample))
	ref = core.call(sim, fresh, 'ref')
	check(ref[0] == 'ok', 'fresh-failed:' + engine,
			lambda: core.describe(ref) + repr(sim.sample))
	act, ref = act[1], ref[1]
	check(act[0] == 'ok', 'error:' + engine,
			lambda: '%r\n%r' % (act, sim.sample))
	got = act[1]
	check([f for f, _ in got] == list(order), 'corpus-order:' + engine,
			lambda: 'got %r\nexpected %r\n%r' % ([f for f, _ in got], order,
				sim.sample))
	for f, val in got:
		if what == 'counts':
			exp = [x.get(f, 0) for x in ref]
			check([int(a) for a in val] == exp, 'counts:' + engine, lambda:
				'%s\ngot      %r\nexpected %r\n%r' % (
				f, val, exp, sim.sample))
		else:
			exp = [m for x in ref for m in x.get(f, [])]
			check(sorted(map(repr, val)) == sorted(map(repr, exp)),
				'sents:' + engine, lambda: '%s\ngot      %r\nexpected %r\n%r'
				% (f, val, exp, sim.sample))
	# absolute reference
	for q, x in zip(queries, ref):
		if what == 'counts':
			oracle(sim, engine, ('counts', q, kw), x, texts, data, False)
		elif engine == 'regex':
			oracle(sim, engine, ('sents', q, dict(kw, maxresults=None)), x,
					texts, data, False)
	sim.stat('queries', len(queries))
