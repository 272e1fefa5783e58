"""C11: concurrent search sessions on one directory do not corrupt each other."""
from .. import core
from ..common import *
from ..searchlib import *
from .c07 import perform

RUNS = (4000, 120000)
BUDGET = (35, 1200)
RULE = ('2-4 sessions of the plain-text search engine (open, queries, close) on '
	'the same or different file sets of one directory, with or without an '
	'earlier (fresh or stale) index, interleaved by a seeded scheduler at every '
	'file operation; distinct by schedule trace')
REALPARTS = ('discodop.treesearch.RegexSearcher, roaringbitmap memory maps, files')
STUBS = 'scheduler of processes (forked, lock-step), worker pools, clock'


def session(files, reqs, numproc, inmemory, close, prefix):
	from discodop import treesearch as ts
	s = ts.RegexSearcher(files, numproc=numproc, inmemory=inmemory)
	res = []
	for req in reqs:
		if req[0] == 'batch':
			out = capture(lambda: [(f[len(prefix):], [int(a) for a in b])
					for f, b in s.batchcounts([req[1], 'the'], **req[2])])
		elif req[0] == 'extract':
			f = sorted(files)[0]
			out = capture(lambda: s.extract(f, [1]))
		else:
			out = capture(perform, s, req)
			if out[0] == 'ok':
				out = ('ok', {k[len(prefix):]: v for k, v in
						perfile(req[0], out[1], files).items()})
		res.append(out)
	if close:
		s.close()
	return res


def run(sim):
	sim.disk.gran = 1e-9
	sim.disk.dt = 1e-3
	names = ['f%d.txt' % n for n in range(1 + sim.choose(3, 'nfiles'))]
	texts = {n: gentext(sim) for n in names}
	for n, t in texts.items():
		for d in 'wr':
			put('%s/%s' % (d, n), t)
			settime('%s/%s' % (d, n), sim.clock - 10)
	before = sim.choose(4, 'before')
	if before:
		files = ['w/' + n for n in (names if before != 2 else names[:1])]
		core.call(sim, lambda sim: session(files, [], 1, False, True, 'w/'),
				'before')
		if before == 3:  # index is out of date
			sim.tick(1)
			n = names[-1]
			texts[n] = gentext(sim)
			for d in 'wr':
				put('%s/%s' % (d, n), texts[n])
				settime('%s/%s' % (d, n), sim.tick(1e-3))
			sim.tick(1)
	specs = []
	for k in range(2 + sim.choose(3, 'nsess')):
		files = [n for n in names if not sim.chance(1, 3, 'leaveout')] or names[:1]
		files = sim.shuffled(files, 'order')
		reqs = []
		for _ in range(1 + sim.choose(3, 'nreq')):
			kw = {}
			if sim.chance(1, 3, 'interval'):
				kw = {'start': 1 + sim.choose(3, 'start')}
				kw['end'] = kw['start'] + sim.choose(3, 'len')
			kind = sim.pick(['counts', 'indices', 'sents', 'batch', 'extract'],
					'kind')
			reqs.append((kind, sim.pick(QUERIES, 'q'), kw))
		specs.append((files, reqs, 1 + (sim.choose(3, 'numproc') == 2),
				sim.chance(1, 4, 'inmemory'), not sim.chance(1, 3, 'leave')))
	sim.cfg['preempt'] = sim.pick([1, 3, 10], 'preempt')
	procs = []
	for k, (files, reqs, numproc, inmemory, close) in enumerate(specs):
		def body(sim, files=files, reqs=reqs, numproc=numproc,
				inmemory=inmemory, close=close):
			sim.disk.yields = True
			return session(['w/' + n for n in files], reqs, numproc, inmemory,
					close, 'w/')
		procs.append(sim.add(core.VProc(sim, 'S%d' % k, body)))
	sim.wait_until(lambda: all(p.done for p in procs), 'sessions')
	sim.cfg['preempt'] = 0
	sim.sample = dict(corpora=texts, before=before, sessions=repr(specs))
	for k, (p, (files, reqs, numproc, inmemory, _)) in enumerate(
			zip(procs, specs)):
		out = p.outcome
		check(out[0] == 'ok', 'session-failed', lambda: 'session %d: %s\n%r' % (
				k, core.describe(out) + (out[1][2] if out[0] == 'exc' else ''),
				sim.sample))
		ref = core.call(sim, lambda sim: session(['r/' + n for n in files],
				reqs, 1, False, True, 'r/'), 'ref%d' % k)
		check(ref[0] == 'ok', 'reference-failed', core.describe(ref))
		for req, a, b in zip(reqs, out[1], ref[1]):
			if b[0] != 'ok':
				check(a[0] != 'ok', 'error-lost', repr(req))
				continue
			check(a == b, 'wrong-result', lambda: 'session %d %r\n got %r\n '
					'expected %r\n%r' % (k, req, a, b, sim.sample))
			if req[0] == 'counts':
				for f, n in b[1].items():
					exp = len(regexoracle(texts[f], req[1], req[2].get('start'),
							req[2].get('end')))
					check(n == exp, 'not-brute-force', lambda: '%r %s got %r '
							'expected %r' % (req, f, n, exp))
	sim.stat('sessions', len(specs))
