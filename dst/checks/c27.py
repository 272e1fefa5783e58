"""C27: the treebank search server answers from the current corpora only."""
import errno
import io
import re
import csv
import json
import difflib
import itertools
import multiprocessing
from urllib.parse import unquote
from .. import core
from .. import weblib
from .. import explib
from ..common import *
from ..searchlib import *
from .c07 import parsefrag
from .c09 import stamp

RUNS = (620, 40000)
BUDGET = (45, 1200)
RULE = ('random corpora (1-3 texts, for one to three search engines) x requests '
	'(search results of every kind, exports, browsing, drawing; with and without '
	'valid credentials), up to four at the same time, streamed, preempted '
	'between lines, worker pools x an earlier server that served requests, '
	'crashed or had write errors while starting, edits of the corpora in '
	'between, read errors while starting; all answers compared with those of a '
	'server newly started on a copy of the corpora, exports with brute force; '
	'distinct by schedule and fault trace')
REALPARTS = ('web/treesearch.py, templates, treesearch searchers, fragments, '
	'tree.DrawTree, compiled modules')
STUBS = ('Flask and tables of pandas (dst/webstubs), process and thread pools, tgrep2 '
	'program, clock, disk')
ASSUMES = ('modification times are monotone; corpora are not edited while a '
	'server starts; no metadata file',)
EXT = dict(tgrep2='mrg', frag='dbr', regex='tok')


def words(t):
	return ' '.join(leafwords(t))


def leafwords(t):
	return [t[1]] if ispre(t) else [w for c in t[1:] for w in leafwords(c)]


def request(sim, engines, ntexts, data, focus):
	engine = sim.pick(engines, 'engine')
	trees = [t for text in data.values() for t in text]
	kind = sim.pick(['sents', 'brackets', 'trees', 'fragments', 'sents', 'trees',
			'browse', 'browsesents', 'draw', '/', 'style', 'fragments', 'counts',
			'counts', 'counts'], 'kind')
	if focus and sim.chance(5, 6, 'focus'):
		kind = focus
		engine = sim.pick([a for a in engines if a != 'regex'], 'engine2')
	args = {}
	if kind in ('browse', 'draw') and engines == ['regex']:
		kind = 'browsesents'
	if kind in ('browse', 'browsesents', 'draw'):
		args['text'] = sim.choose(ntexts, 'text')
		args['sent'] = 1 + sim.choose(len(data[args['text']]), 'sent')
		for x in ('nofunc', 'nomorph'):
			if kind != 'browsesents' and sim.chance(1, 4, x):
				args[x] = '1'
		if kind == 'browse' and sim.chance(1, 3, 'ajax'):
			args['ajax'] = '1'
		if kind == 'browsesents':
			args['engine'] = engine
			if sim.chance(1, 2, 'hasquery') and engine == 'regex':
				args['query'] = sim.pick(QUERIES, 'q')
			if sim.chance(1, 8, 'overview'):
				del args['text']
		if kind == 'draw' and sim.chance(1, 3, 'given'):
			args = dict(tree=bracket(sim.pick(trees, 'tree')))
		return '/' + kind, args, None
	if kind == 'style':
		return '/style', {'export': sim.pick(['', 'csv', 'json'], 'export')}, None
	if kind in ('trees', 'brackets', 'fragments') and engine == 'regex':
		kind = 'sents'
	args['engine'] = engine

	def query():
		if engine == 'regex':
			return sim.pick(QUERIES, 'q')
		elif engine == 'tgrep2':
			return sim.pick(['S', 'NP'] if kind == focus == 'fragments'
					else TGPATS, 'q')
		elif kind == focus == 'fragments':
			return '(%s )' % sim.pick(['S', 'S', 'NP', 'DT', 'NN'], 'q')
		return fragstr(cut(sim, sim.pick(subfrags(sim.pick(trees, 'qt')), 'qs')))
	args['query'] = query()
	if kind == 'counts':
		if sim.chance(1, 2, 'named'):
			args['query'] = sim.pick(['A:', 'A: '], 'name') + args['query']
		for n in range(sim.choose(3, 'morequeries')):
			args['query'] += '\n%s' % (sim.pick(['', 'B%d: ' % n], 'name')
					+ (query() + '\t' if sim.chance(1, 4, 'normq') else '')
					+ query())
		norm = sim.pick([None, 'sents', 'words', 'consts', 'query'], 'norm')
		if norm == 'query':
			args['normquery'] = query()
		elif norm and (norm != 'consts' or engine != 'regex'):
			args['norm'] = norm
	if kind == '/':
		return '/', args, None
	if ntexts > 1 and sim.chance(1, 3, 'subset'):
		args['texts'] = sim.pick(['0', '0.1', '0-2', '1'], 'texts')
	if sim.chance(1, 4, 'slice'):
		args['slice'] = sim.pick(['1-2', '-3', '2-', '2'], 'slice')
	if kind != 'counts' and sim.chance(1, 3, 'max'):
		args['maxresults'] = sim.pick([1, 2, 5000], 'maxresults')
	if kind not in ('fragments', 'counts') and sim.chance(1, 6, 'breakdown'):
		args['breakdown'] = '1'
	for x in ('nofunc', 'nomorph', 'linenos'):
		if sim.chance(1, 4, x):
			args[x] = '1'
	if sim.chance(1, 2, 'export'):
		args['export'] = sim.pick(['csv', 'json'], 'exporttype')
	return '/' + kind, args, None


def decorate(sim, t):
	"""Add function and morphology tags to some labels."""
	label = t[0]
	if label in ('PP', 'VP') and sim.chance(1, 2, 'func'):
		label += '-SB'
	if ispre(t):
		if label in ('IN', 'VB') and sim.chance(1, 2, 'morph'):
			label += '[sg]'
		return [label, t[1]]
	return [label] + [decorate(sim, c) for c in t[1:]]


def vary(sim, req, engines):
	"""A request that differs in one respect from an earlier one."""
	path, args, _ = req
	args = dict(args)
	engine = args.get('engine')
	results = ['/sents'] if engine == 'regex' else ['/sents', '/brackets',
			'/trees', '/fragments']
	kind = sim.choose(4, 'vary')
	if path in results and kind == 0:
		path = sim.pick(results, 'kind')
	elif kind <= 1 and path[1:] not in ('', 'style', 'browsesents'):
		flag = sim.pick(['nofunc', 'nomorph'], 'flag')
		if args.pop(flag, None) is None:
			args[flag] = '1'
	elif path == '/counts' and kind >= 2:
		if sim.chance(1, 2, 'otherslice'):
			if args.pop('slice', None) is None:
				args['slice'] = sim.pick(['1-2', '2'], 'slice')
		elif args.pop('texts', None) is None:
			args['texts'] = '0'
	elif kind == 2 and path in results:
		args['maxresults'] = sim.pick([1, 2, 3, 5000], 'maxresults')
	elif path in results + ['/counts']:
		args['export'] = sim.pick(['', 'csv', 'json'], 'exporttype')
		if not args['export']:
			del args['export']
	return path, args, None


def difference(got, want):
	if got[:3] != want[:3] or len(got) < 4:
		return 'got %.3000r\nfresh server: %.3000r' % (got, want)
	return '\n'.join(difflib.unified_diff(want[3].split('\n'),
			got[3].split('\n'), 'fresh server', 'got', lineterm='', n=0))


def bruteforcecounts(args, resp, data):
	norm = args.get('norm', 'sents')
	if norm not in ('sents', 'words') or 'normquery' in args or (
			'\n' in args['query'] or '\t' in args['query']
			or args.get('export') not in ('csv', 'json')):
		return None
	engine, query = args['engine'], args['query']
	if query.startswith('A:'):
		query = query[2:] if engine == 'regex' else query[2:].strip()
	exp = []
	for a in selection(args, len(data)):
		sents = allmatches(engine, query, data[a])
		if sents is None:
			return None
		total = sum(len(leafwords(t)) if norm == 'words' else 1
				for t in data[a])
		exp.append(('t%d' % a, round(100 * len(sents) / total, 6)))
	if args['export'] == 'json':
		got, = json.loads(resp[3]).values()
		return [(a, round(b, 6)) for a, b in got.items()], exp
	rows = list(csv.reader(io.StringIO(resp[3])))[1:]
	return [(a, round(float(b), 6)) for a, b in rows], exp


def selection(args, n):
	return {None: range(n), '0': [0], '0.1': [0, 1], '0-2': [0, 1],
			'1': [1]}[args.get('texts')]


def allmatches(engine, query, trees):
	"""Sentence numbers of all matches; None if not known."""
	if engine == 'regex':
		text = ''.join(words(t) + '\n' for t in trees)
		return [m[0] for m in regexoracle(text, query)]
	elif engine == 'tgrep2':
		return [k for k, t in enumerate(trees, 1) for _ in tgmatches(query, t)]
	ft = parsefrag(query)
	if len(ft) == 1 or ft[1] == '':
		return None
	return fragcount(ft, trees)


def bruteforce(req, resp, data):
	"""Compare sentence numbers of results with those of all matches."""
	path, args, _ = req
	export = args.get('export')
	if 'slice' in args or 'breakdown' in args or resp[0] != 'response' or (
			export == 'json' and path != '/counts'):
		return None
	if path == '/counts':
		return bruteforcecounts(args, resp, data)
	if path not in ('/sents', '/brackets', '/trees') \
			or export and 'linenos' not in args:
		return None
	engine, query = args['engine'], args['query']
	n = len(data)
	exp = []
	limit = 10 if path == '/trees' and not export else 1000
	for a in selection(args, n):
		sents = allmatches(engine, query, data[a])
		if sents is None:
			return None
		exp.extend((a, x) for x in sents[:min(limit, int(args.get(
				'maxresults') or limit))])
	if not export:
		return [(int(a), int(b)) for a, b in re.findall(
				r'href="browse\?text=(\d+);sent=(\d+)', resp[3])], exp
	names = {'t%d.%s' % (a, EXT[engine]): a for a in range(n)}
	got = []
	for line in resp[3].splitlines():
		f, rest = line.split(':', 1)
		f = f.replace('.mrg', '.' + EXT[engine])
		got.append((names[f.rsplit('/')[-1]], int(rest.split('|')[0])))
	return got, exp


def run(sim):
	ntexts = 1 + sim.choose(3, 'ntexts')
	allengines = ['tgrep2', 'frag', 'regex']
	engines = [a for a in allengines if sim.chance(2, 3, a)] or [
			sim.pick(allengines, 'single')]
	fragext = 'mrg' if sim.chance(1, 2, 'fragext') else 'dbr'
	decorated = sim.chance(1, 3, 'decorated')
	focused = None if engines == ['regex'] else sim.pick(
			[None, None, 'fragments', 'trees', 'counts'], 'focuskind')
	gran = sim.pick([1e-9, 1e-2, 1.0], 'gran')
	sim.disk.gran = gran
	sim.disk.dt = sim.pick([1e-4, 1e-2], 'optime')
	usetgrep(sim)
	data, log, own = {}, [], {}  # own: contents for one engine only

	def mktext(n, where='w'):
		for engine in allengines:
			own.pop((engine, n), None)
		data[n] = [gentree(sim, 3) for _ in range(sim.pick([1, 3, 5, 8, 30],
				'ntrees') if sim.chance(1, 3, 'size') else 1 + sim.choose(4,
				'ntrees'))]
		if decorated:
			data[n] = [decorate(sim, t) for t in data[n]]
		write(n, where)

	def write(n, where, engines=engines, old=False):
		for engine in engines:
			trees = own.get((engine, n), data[n])
			ext = fragext if engine == 'frag' else EXT[engine]
			name = '%s/corpus/t%d.%s' % (where, n, ext)
			if old and os.path.exists(name):
				continue
			put(name, ''.join((bracket(t) if ext == 'mrg' else discbracket(
					number(t)[0]) if ext == 'dbr' else words(t)) + '\n'
					for t in trees))
			if where == 'w' and not old:
				stamp(sim, name, gran)
			else:
				settime(name, sim.clock - 1000)

	def prepare(where):
		for n in ('tgrep', 'frag', 'regex'):
			put('%s/static/%smacros.txt' % (where, n), disk.R['open'](
					weblib.WEB + '/static/%smacros.txt' % n).read())

	def index(where):
		"""The fragment index, made with the command line tool."""
		def body(sim):
			from discodop.treesearch import FragmentSearcher
			os.chdir(where)
			FragmentSearcher(['corpus/t%d.%s' % (n, fragext)
					for n in range(ntexts)], numproc=1, inmemory=False)
		if 'frag' in engines:
			r = core.call(sim, body, 'index')
			check(r[0] == 'ok', 'index', lambda: core.describe(r))
	prepare('w')
	for n in range(ntexts):
		mktext(n)
	sim.tick(sim.pick([0, 5], 'settle'))
	index('w')
	passwd, auths = None, [None]
	if sim.chance(1, 3, 'password'):
		passwd = sim.pick(['alice: secret\nbob: x:y\n', 'alice:secret\n\n',
				'alice: secret\nnonsense\n', '\nalice:secret'], 'passwd')
		put('w/treesearchpasswd.txt', passwd)
		auths = [None, ('alice', 'secret'), ('alice', 'x'), ('bob', 'secret'),
				('', ''), ('alice', ''), ('alice', 'secret')]
	numproc = 1 + sim.choose(3, 'numproc')
	preempt = sim.pick([6, 12, 25] if focused else [40, 10, 200, 4], 'preempt')
	sim.cfg['traceprefix'] = LIB + sim.pick(['/discodop/fragments'] * 2 + [
			'', '/web/treesearch'] if focused == 'fragments' else [
			'/web/treesearch', '/web/treesearch', '', '/discodop/treesearch'],
			'traceprefix')

	def start(where, numproc):
		explib.silent()
		os.chdir(where)
		multiprocessing.cpu_count = lambda: numproc
		return weblib.load('treesearch')

	def session(reqs, width, where, numproc, plan):
		def body(sim):
			sim.cfg['preempt'] = 0
			sim.disk.plan = plan
			try:
				mod = start(where, numproc)
			except Exception:
				if any(f.fired for f in plan) or 'nonsense' in (passwd or ''):
					return None
				raise
			sim.disk.plan = []
			sim.cfg['preempt'] = preempt if width > 1 else 0
			return weblib.concurrently(sim, mod, reqs, width)
		return core.call(sim, body, 'server-' + where.replace('/', '-'))

	def mkreqs(n):
		res = []
		for _ in range(n):
			if res and sim.chance(1, 4, 'again'):
				path, args, _ = sim.pick(res, 'which')
				if sim.chance(2, 3, 'vary'):
					path, args, _ = vary(sim, (path, args, None), engines)
			else:
				path, args, _ = request(sim, engines, ntexts, data, focused)
			res.append((path, args, sim.pick(auths, 'auth')))
		return res

	def mkplan(crash):
		kind = sim.choose(4, 'faultkind')
		if kind == 0 and crash:
			return [disk.Fault('crash', sim.choose(16, 'at'), frac=sim.pick(
					[0, 0.5, 0.9], 'frac'))]
		if kind <= 1 and crash:
			return [disk.Fault(sim.pick(['write', 'creat', 'close-w', 'rename'],
					'op'), sim.choose(5, 'at'), err=sim.pick([errno.ENOSPC,
					errno.EIO], 'errno'), frac=sim.pick([0, 0.5], 'frac'))]
		if kind == 2:
			return [disk.Fault(sim.pick(['open', 'read'], 'op'), sim.choose(3,
					'at'), err=errno.EIO, match=sim.pick(['passwd', 'pickle',
					'corpus'], 'match'))]
		return []
	for k in range(sim.pick([0, 1, 1, 2], 'earlier')):
		plan = mkplan(True)
		reqs = mkreqs(sim.choose(3, 'nearlier'))
		log.append('server %r' % plan)
		r = session(reqs, 1, 'w', numproc, plan)
		check(r[0] == 'ok' or core.wascrashed(r), 'earlier-server', lambda:
				'%s\n%s' % (core.describe(r), '\n'.join(log)))
		sim.tick(sim.pick([0, 1e-3, 2.5], 'pause'))
		change = sim.pick(['edit', 'mixed', 'texts', 'engines', 'none', 'one'],
				'change')
		for n in range(ntexts):
			if change in ('edit', 'mixed') and sim.chance(1, 2, 'edit'):
				log.append('edit %d' % n)
				mktext(n)
		if change == 'one':  # more sentences in the files of one engine
			engine, n = sim.pick(engines, 'oneengine'), sim.choose(ntexts, 'one')
			log.append('edit %d for %s' % (n, engine))
			trees = own.get((engine, n), data[n]) + [gentree(sim, 3)
					for _ in range(1 + sim.choose(3, 'ntrees'))]
			for a in ['tgrep2', 'frag'] if fragext == 'mrg' \
					and engine != 'regex' else [engine]:
				own[a, n] = trees
			write(n, 'w', [engine])
		if change == 'texts' or change == 'mixed' and sim.chance(1, 4, 'texts'):
			if ntexts > 1 and sim.chance(1, 2, 'remove'):
				ntexts -= 1
				log.append('remove %d' % ntexts)
				del data[ntexts]
				for engine in allengines:
					own.pop((engine, ntexts), None)
				for f in disk.R['listdir']('w/corpus'):
					if f.startswith('t%d.' % ntexts):
						disk.R['unlink']('w/corpus/' + f)
			else:
				log.append('add %d' % ntexts)
				mktext(ntexts)
				ntexts += 1
			index('w')
		if change == 'engines' or change == 'mixed' and sim.chance(1, 4,
				'engines'):
			new = [a for a in allengines if a not in engines]
			if new:
				engines.append(sim.pick(new, 'newengine'))
				log.append('add %s' % engines[-1])
				old = sim.chance(1, 2, 'old')
				for n in range(ntexts):
					write(n, 'w', engines[-1:], old)
				index('w')
		sim.tick(sim.pick([0, 1e-3, 2.5], 'pause'))
	reqs = mkreqs((4 if focused else 2) + sim.choose(5, 'nrequests'))
	width = (2 if focused else 1) + sim.choose(4, 'width')
	plan = mkplan(False) if sim.chance(1, 4, 'faulty') else []
	sim.sample = dict(engines=engines, fragext=fragext, texts=[[bracket(t)
			for t in data[n]][:6] for n in range(ntexts)], requests=reqs,
			width=width, numproc=numproc, passwd=passwd, plan=repr(plan),
			history=log)
	out = session(reqs, width, 'w', numproc, plan)
	check(out[0] != 'hang', 'blocked', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	if out[1] is None:
		sim.stat('failed to start')
		return
	memo = {}
	for n, (req, got) in enumerate(zip(reqs, out[1])):
		if passwd and req[2] != ('alice', 'secret') and req[0] != '/favicon.ico':
			sim.stat('denied')
			check(got[0] == 'response' and got[1] == 401 and 'login' in got[3],
					'unprotected', lambda: 'request %r\n%.1000r\n%r' % (req, got,
					sim.sample))
			continue
		key = repr(req[:2])
		if key not in memo:
			where = 'r%d' % n
			prepare(where)
			for a in range(ntexts):
				write(a, where)
			index(where)
			r = session([req], 1, where, 1, [])
			check(r[0] == 'ok', 'fresh-server-failed', lambda: '%s\n%r\n%r' % (
					core.describe(r), req, sim.sample))
			memo[key] = r[1][0]
		want = memo[key]
		sim.stat(want[0] if want[0] == 'error' else 'status %d' % want[1])
		if got[0] == want[0] == 'error':
			got = want
		check(got == want, 'differs:' + req[0], lambda: 'request %d: %r\n%s\n%r'
				% (n, req, difference(got, want), sim.sample))
		check(want[0] == 'response', 'request-fails:' + req[0], lambda:
				'%r\n%r\n%r' % (req, want, sim.sample))
		r = None if decorated else bruteforce(req, want, {a: own.get((
				req[1].get('engine'), a), data[a]) for a in data})
		if r:
			sim.stat('compared with brute force')
			check(sorted(r[0]) == sorted(r[1]), 'not-brute-force', lambda:
					'%r\n%r\nexpected %r\n%r' % (req, *r, sim.sample))
