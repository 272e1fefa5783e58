"""C09: search indexes are rebuilt whenever files or the file list change."""
import gzip
from .. import core
from ..common import *
from ..searchlib import *
from .c07 import opensearcher, parsefrag, perform

RUNS = (4000, 40000)
BUDGET = (35, 1200)
RULE = ('random histories (2-9 steps) of editing, touching, adding and removing '
	'corpus files (with modification times of 1 ns to 2 s granularity) and of '
	'opening searchers with varying file sets x engine x in-memory option; every '
	'answer is compared with a searcher on a pristine copy of the current files '
	'and with brute force; distinct by schedule trace')
REALPARTS = ('discodop.treesearch searchers, _fragments, containers (compiled), '
	'roaringbitmap, index files on a real file system')
STUBS = 'process/thread pools (seeded scheduler), tgrep2 program, clock, mtimes'
ASSUMES = ('modification times are monotone: no tool sets a file\'s time back',)


def content(sim, engine, name, giant=False):
	"""(data, trees/text) for a corpus file.

	:param giant: with a label of thousands of characters."""
	if engine == 'regex':
		text = gentext(sim)
		return text.encode('utf8'), text
	trees = gentrees(sim, 3)
	if giant:
		def labels(t):
			return [t[0]] + [x for c in t[1:] if isinstance(c, list)
					for x in labels(c)]
		tag = sim.pick(sorted({x for t in trees for x in labels(t)}),
				'gianttag')

		def blow(t):
			return t if isinstance(t, (str, tuple)) else [
					t[0] + 'X' * 5000 if t[0] == tag else t[0]] + [
					blow(c) for c in t[1:]]
		trees = [blow(t) for t in trees]
	ext = 'mrg' if '.mrg' in name else name.rsplit('.', 1)[1]
	text = writetrees(trees if ext == 'mrg' else
			[scramble(sim, t) for t in trees], ext)
	data = text.encode('utf8')
	if name.endswith('.gz'):
		data = gzip.compress(data, mtime=0)
	return data, trees


def stamp(sim, path, gran):
	t = sim.tick(1e-4)
	settime(path, int(t / gran) * gran if gran > 1e-6 else t)


def queriesof(sim, engine, data):
	if engine == 'regex':
		return [sim.pick(QUERIES, 'q') for _ in range(2)]
	if engine == 'tgrep':
		return [sim.pick(TGPATS, 'q') for _ in range(2)]
	allt = [t for trees in data for t in trees]
	res = []
	for _ in range(2):
		f = cut(sim, sim.pick(sim.pick([subfrags(t)
				for t in allt], 'qt'), 'qs'))
		res.append(fragstr(f))
	return res


def answers(engine, files, queries, numproc, inmemory, prefix, info):
	"""All requests on a newly opened searcher; per base name."""
	opts = {} if engine == 'tgrep' else {'inmemory': inmemory}
	s = opensearcher(engine, files, numproc, **opts)
	res = []
	for q in queries:
		reqs = [('counts', q, {}), ('indices', q, {}), ('sents', q,
				{'maxresults': None})]
		if engine != 'regex':
			reqs.append(('trees', q, {'maxresults': None}))
		for req in reqs:
			out = capture(perform, s, req)
			if out[0] == 'ok':
				out = ('ok', {k[len(prefix):]: v for k, v in
						perfile(req[0], out[1], files).items()})
			res.append((req, out))
	for f in files:
		if engine != 'tgrep' and info:
			out = capture(s.getinfo, f)
			n = out[1].len if out[0] == 'ok' else 0
			res.append((('info', f[len(prefix):], {}), (out[0], norm(out[1]))))
			out = capture(s.extract, f, list(range(1, n + 1)), sents=True)
			res.append((('extract', f[len(prefix):], {}),
					(out[0], norm(out[1]))))
	return res


def bruteforce(engine, req, val, contents):
	kind, query, kw = req
	if kind == 'info':
		# query is the name of the file
		exp = sum(1 for a in contents[query].split('\n') if a.strip()) \
				if engine == 'regex' else len(contents[query])
		check(val[1] == exp, 'wrong-size', lambda: '%s: %r, expected %d' % (
				query, val, exp))
	if kind not in ('counts', 'indices'):
		return
	for f, got in val.items():
		if engine == 'regex':
			exp = [m[0] for m in regexoracle(contents[f], query)]
		elif engine == 'tgrep':
			exp = [n for n, t in enumerate(contents[f], 1)
					for _ in tgmatches(query, t)]
		elif f.endswith('.mrg'):
			ft = parsefrag(query)
			if len(ft) == 1 or ft[1] == '':
				return
			exp = fragcount(ft, contents[f])
		else:
			continue
		if kind == 'counts':
			exp = len(exp)
		check(got == exp, 'not-brute-force:' + engine, lambda: '%r %s: got '
				'%r, expected %r' % (req, f, got, exp))


def run(sim):
	engine = sim.pick(['regex', 'frag', 'tgrep'], 'engine')
	gran = sim.pick([1e-9, 1e-2, 1.0, 2.0], 'gran')
	sim.disk.gran = gran
	sim.disk.dt = sim.pick([1e-4, 1e-2, 0.7], 'optime')
	if engine == 'tgrep':
		usetgrep(sim)
		pool = ['c/f0.mrg', 'c/f1.mrg', 'c/f0.mrg.gz', 'd/f2.mrg']
	elif engine == 'regex':
		pool = ['c/f0.txt', 'c/f1.txt', 'c/f2.txt', 'd/f3.txt']
	else:
		pool = ['c/f0.mrg', 'c/f1.mrg', 'c/f2.dbr', 'd/f3.mrg']
	if sim.chance(1, 4, 'samenames'):  # same names in different directories
		ext = 'txt' if engine == 'regex' else 'mrg'
		pool = [a % ext for a in ('c/f0.%s', 'd/f1.%s', 'e/f1.%s', 'd/f0.%s')]
	cur = {}  # path -> contents
	log = []

	def write(path, data=None):
		data, x = content(sim, engine, path) if data is None else data
		put('w/' + path, data)
		stamp(sim, 'w/' + path, gran)
		cur[path] = x
	for path in pool[:1 + sim.choose(3, 'nfiles')]:
		write(path)
	if sim.chance(2, 3, 'settle'):
		sim.tick(10)
	nopen = 0
	for step in range(2 + sim.choose(8, 'steps')):
		op = sim.pick(['open', 'edit', 'open', 'open', 'touch', 'add', 'open',
				'edit', 'remove', 'swap'], 'op')
		sim.tick((1e-4, 0.05, 1.0, 5.0)[sim.choose(4, 'wait')])
		if op == 'open':
			names = [f for f in sorted(cur) if not sim.chance(
					1, 3, 'leaveout')] or sorted(cur)[:1]
			names = sim.shuffled(names, 'fileorder')
			queries = queriesof(sim, engine, [cur[f] for f in names])
			numproc = 1 + sim.choose(2, 'numproc')
			inmemory = sim.chance(1, 2, 'inmemory')
			log.append(('open', names, queries, inmemory))
			nopen += 1
			ref = 'r%d/' % nopen
			for f in names:
				put(ref + f, get('w/' + f))
				settime(ref + f, sim.clock - 1000)
			act = core.call(sim, lambda sim: answers(engine, ['w/' + f
					for f in names], queries, numproc, inmemory, 'w/', True),
					'sess%d' % nopen)
			exp = core.call(sim, lambda sim: answers(engine, [ref + f
					for f in names], queries, 1, False, ref, True),
					'ref%d' % nopen)
			check(exp[0] == 'ok', 'reference-failed:' + engine,
					lambda: core.describe(exp))
			check(act[0] == 'ok', 'open-failed:' + engine, lambda: '%s\n%r' % (
					core.describe(act), log))
			for (req, a), (_, b) in zip(act[1], exp[1]):
				if b[0] != 'ok':
					check(a[0] != 'ok', 'error-lost:' + engine, lambda: '%r: '
							'%r instead of %r\n%r' % (req, a, b, log))
					continue
				check(a == b, 'stale-answer:' + engine, lambda: '%r\n got: %r\n'
						' expected: %r\nhistory (granularity %s s):\n%s' % (req,
						a, b, gran, '\n'.join(map(repr, log))))
				bruteforce(engine, req, b[1], cur)
		elif op == 'edit':
			f = sim.pick(sorted(cur), 'which')
			write(f)
			log.append(('edit', f))
		elif op == 'touch':
			f = sim.pick(sorted(cur), 'which')
			stamp(sim, 'w/' + f, gran)
			log.append(('touch', f))
		elif op == 'swap' and len(cur) > 1:
			a, b = sim.shuffled(sorted(cur), 'swap')[:2]
			if a.rsplit('.', 1)[1] == b.rsplit('.', 1)[1]:
				da, db = get('w/' + a), get('w/' + b)
				xa, xb = cur[a], cur[b]
				write(a, (db, xb))
				write(b, (da, xa))
				log.append(('swap', a, b))
		elif op == 'add':
			new = [f for f in pool if f not in cur]
			if new:
				f = sim.pick(new, 'which')
				write(f)
				log.append(('add', f))
		elif op == 'remove' and len(cur) > 1:
			f = sim.pick(sorted(cur), 'which')
			disk.R['unlink']('w/' + f)
			del cur[f]
			log.append(('remove', f))
	sim.sample = dict(engine=engine, gran=gran, history=[repr(a) for a in log])
	sim.stat('sessions', nopen)
	sim.fault('file-changes')
