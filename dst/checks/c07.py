"""C07: search results do not depend on query history, workers or timing."""
import os
from .. import core
from ..common import *
from ..searchlib import *

RUNS = (4000, 40000)
BUDGET = (30, 1200)
RULE = ('random corpora x engine x request history (1-6 requests, repeated '
	'queries, subsets, intervals, limits) x worker count x completion order / '
	'thread preemption; a run is non-trivial when it completed at least two '
	'requests; distinct by schedule trace')
REALPARTS = ('discodop.treesearch searchers, _fragments, containers (compiled), '
	'roaringbitmap, worker functions')
STUBS = ('process/thread pools (seeded scheduler, forked lock-step workers, '
	'baton threads), tgrep2 program, clock')


def request(sim, engine, files, pool, n):
	"""One random request: (kind, kwargs)."""
	query = pool[sim.choose(len(pool), 'query')]
	kinds = {'frag': ['counts', 'indices', 'trees', 'sents', 'breakdown'],
			'regex': ['counts', 'sents', 'indices', 'breakdown'],
			'tgrep': ['counts', 'sents', 'trees', 'indices', 'breakdown'],
			}[engine]
	kind = sim.pick(kinds, 'kind')
	kw = {}
	if sim.chance(1, 3, 'hasstart'):
		kw['start'] = 1 + sim.choose(n + 1, 'start')
	if sim.chance(1, 3, 'hasend'):
		kw['end'] = kw.get('start', 1) + sim.choose(n + 1, 'end')
	if sim.chance(1, 3, 'hassubset'):
		sub = [f for f in files if not sim.chance(1, 2, 'insub')]
		if sub:
			kw['subset'] = sim.shuffled(sub, 'subsetorder')
	if kind in ('trees', 'sents') and sim.chance(2, 3, 'max'):
		kw['maxresults'] = (None, 1, 2, 3, 5)[sim.choose(5, 'maxresults')]
	if kind == 'sents' and engine != 'regex' and sim.chance(1, 3, 'brk'):
		kw['brackets'] = True
	if kind == 'trees' and sim.chance(1, 4, 'nofunc'):
		kw['nofunc'] = True
	return kind, query, kw


def perform(searcher, req):
	kind, query, kw = req
	if kind == 'counts':
		return searcher.counts(query, **kw)
	if kind == 'indices':
		return searcher.counts(query, indices=True, **kw)
	if kind == 'breakdown':
		return searcher.counts(query, breakdown=True, **kw)
	if kind == 'trees':
		return searcher.trees(query, **kw)
	return searcher.sents(query, **kw)


def opensearcher(engine, files, numproc, **kw):
	from discodop import treesearch as ts
	cls = {'frag': ts.FragmentSearcher, 'regex': ts.RegexSearcher,
			'tgrep': ts.TgrepSearcher}[engine]
	return cls(files, numproc=numproc, **kw)


def run(sim):
	sim.cfg['preempt'] = sim.pick([0, 12, 40], 'preempt')
	sim.cfg['traceprefix'] = LIB + '/discodop/'
	engine = sim.pick(['regex', 'frag', 'tgrep'], 'engine')
	nfiles = 1 + sim.choose(3, 'nfiles')
	data, texts = {}, {}
	for n in range(nfiles):
		if engine == 'regex':
			texts['f%d.txt' % n] = gentext(sim)
		else:
			ext = 'mrg' if engine == 'tgrep' else sim.pick(
					['mrg', 'mrg', 'dbr', 'export'], 'ext')
			trees = gentrees(sim, sim.pick([5, 12], 'ntrees'))
			data['f%d.%s' % (n, ext)] = trees
			if ext == 'mrg':
				texts['f%d.%s' % (n, ext)] = writetrees(trees, ext)
			else:
				texts['f%d.%s' % (n, ext)] = writetrees(
						[scramble(sim, t) for t in trees], ext)
	for d in 'ab':
		for name, text in texts.items():
			put('%s/%s' % (d, name), text)
			settime('%s/%s' % (d, name), sim.clock - 1000)
	files = sim.shuffled(['a/' + f for f in texts], 'fileorder')
	if engine == 'regex':
		pool = [sim.pick(QUERIES, 'q') for _ in range(1 + sim.choose(3, 'nq'))]
	elif engine == 'tgrep':
		usetgrep(sim)
		pool = [sim.pick(TGPATS, 'q') for _ in range(1 + sim.choose(3, 'nq'))]
	else:
		allt = [t for trees in data.values() for t in trees]
		pool = []
		for _ in range(1 + sim.choose(3, 'nq')):
			frs = []
			for _ in range(1 + sim.choose(4, 'nfrag')):
				t = sim.pick(sim.pick([subfrags(t) for t in allt], 'qt'), 'qs')
				if sim.chance(1, 3, 'splice'):
					t = splice(sim, t, allt)
				frs.append(fragstr(cut(sim, t)))
			pool.append('\n'.join(frs))
	reqs = []
	again = sim.pick([0, 1, 3], 'again')
	for _ in range(1 + sim.choose(6 + again, 'nreq')):
		if reqs and sim.chance(again, 4, 'repeat'):
			kind, query, kw = sim.pick(reqs, 'which')
			if sim.chance(1, 4, 'othersubset'):
				kw = dict(kw)
				if kw.pop('subset', None) is None:
					kw['subset'] = [sim.pick(files, 'sub')]
			reqs.append((kind, query, kw))
		else:
			reqs.append(request(sim, engine, files, pool, 6))
	numproc = 1 + sim.choose(3, 'numproc')
	inmemory = sim.chance(1, 3, 'inmemory')
	opts = {} if engine == 'tgrep' else {'inmemory': inmemory}
	# a small cache stands for a long history of requests
	limit = sim.pick([None, None, 0, 1, 2, 4], 'cachelimit')
	ignorecase = engine == 'regex' and sim.chance(1, 5, 'icase')
	if ignorecase:
		opts['ignorecase'] = True
	sim.sample = dict(engine=engine, numproc=numproc, cache=limit, corpora={
			k: v[:200] for k, v in texts.items()},
			requests=[repr(r) for r in reqs])

	def session(sim):
		from discodop import treesearch
		if limit is not None and hasattr(treesearch, 'CACHESIZE'):
			treesearch.CACHESIZE = limit
		s = opensearcher(engine, files, numproc, **opts)
		res = []
		for req in reqs:
			out = capture(perform, s, req)
			if out[0] == 'ok':
				fl = req[2].get('subset') or files
				res.append(('ok', perfile(req[0], out[1], fl)))
			else:
				res.append(out)
		return res

	def fresh(req):
		def session(sim):
			sim.cfg['preempt'] = 0
			s = opensearcher(engine, [f.replace('a/', 'b/') for f in files], 1,
					**opts)
			kind, query, kw = req
			if 'subset' in kw:
				kw = dict(kw, subset=[f.replace('a/', 'b/')
						for f in kw['subset']])
			fl = kw.get('subset') or [f.replace('a/', 'b/') for f in files]
			out = capture(perform, s, (kind, query, kw))
			if out[0] == 'ok':
				return ('ok', {k.replace('b/', 'a/'): v for k, v in
						perfile(kind, out[1], fl).items()})
			return out
		return session
	actual = core.call(sim, session, 'sess')
	check(actual[0] == 'ok', 'session-failed:' + engine,
			lambda: core.describe(actual) + '\n' + repr(sim.sample))
	memo = {}
	for n, (req, got) in enumerate(zip(reqs, actual[1])):
		key = repr(req)
		if key not in memo:
			out = core.call(sim, fresh(req), 'ref')
			check(out[0] == 'ok', 'fresh-failed:' + engine,
					lambda: core.describe(out))
			memo[key] = out[1]
		exp = memo[key]
		if exp[0] != 'ok':
			check(got[0] != 'ok', 'error-lost:' + engine, lambda: '%r: fresh '
					'searcher raises %r, here: %r' % (req, exp, got))
			continue
		check(got[0] == 'ok', 'error:' + engine, lambda: 'request %d %r fails '
				'with %r\nafter %r; fresh searcher: %r' % (
				n, req, got, reqs[:n], exp))
		check(got[1] == exp[1], 'differs:' + engine + '-' + req[0], lambda:
				'request %d %r numproc=%d\n got:   %r\n fresh: %r\nhistory: %r'
				% (n, req, numproc, got[1], exp[1], reqs[:n]))
		oracle(sim, engine, req, exp[1], texts, data, ignorecase)
	sim.stat('requests', len(reqs))


def oracle(sim, engine, req, got, texts, data, ignorecase):
	"""Absolute reference: brute force."""
	kind, query, kw = req
	for f, val in got.items():
		name = f.split('/')[1]
		if engine == 'regex':
			ms = regexoracle(texts[name], query, kw.get('start'),
					kw.get('end'), ignorecase)
			if kind == 'counts':
				exp = len(ms)
			elif kind == 'indices':
				exp = [m[0] for m in ms]
			elif kind == 'breakdown':
				c = {}
				for m in ms:
					c[m[4]] = c.get(m[4], 0) + 1
				exp = ('counter', sorted(c.items()))
			else:
				exp = [(a, b, ('set', list(range(c, d))), ())
						for a, b, c, d, _ in ms][:kw.get('maxresults', 100)]
		elif engine == 'frag' and kind in ('counts', 'indices') and all(
				t.endswith('.mrg') for t in texts):
			exp = []
			for frag in query.splitlines():
				ft = parsefrag(frag)
				if len(ft) == 1 or ft[1] == '':
					return  # a bare node is not a fragment
				exp.extend(n for n in fragcount(ft, data[name])
						if n >= (kw.get('start') or 1)
						and (kw.get('end') is None or n <= kw['end']))
			if kind == 'counts':
				exp = len(exp)
		else:
			continue
		check(val == exp, 'not-brute-force:%s-%s' % (engine, kind), lambda:
				'%r %s\n got:      %r\n expected: %r\n%s' % (
				req, f, val, exp, texts[name]))


def parsefrag(s):
	import re
	toks = re.findall(r'\(|\)|[^\s()]+', s)
	pos = [0]

	def rec():
		pos[0] += 1
		node = [toks[pos[0]]]
		pos[0] += 1
		while toks[pos[0]] != ')':
			if toks[pos[0]] == '(':
				node.append(rec())
			else:
				node.append(toks[pos[0]])
				pos[0] += 1
		pos[0] += 1
		if len(node) == 1 and node[0] in POS:
			node.append('')
		return node
	return rec()
