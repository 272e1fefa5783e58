"""C04: a failure in a worker is reported, never turned into a smaller result."""
import os
import re
import traceback
from .. import core
from .. import explib
from .. import clilib
from .. import fraglib
from ..common import *
from ..searchlib import *
from . import c07

RUNS = (1500, 40000)
BUDGET = (38, 1500)
RULE = ('operation (experiment, command-line parsing, fragment extraction, '
	'treebank search) x random input x worker count x completion order x failing '
	'task(s): exceptions of many types raised in a worker (picklable or not), '
	'files that are missing, damaged or unreadable in workers, failing external '
	'tools; distinct by schedule trace')
REALPARTS = ('discodop.runexp, parser, fragments, treesearch: start of workers, '
	'worker functions, collection of results; compiled parsers')
STUBS = ('multiprocessing.Pool, executors (seeded scheduler, forked lock-step '
	'workers), tgrep2 program, clocks')
TOKEN = 'injected-failure-4711'


class TwoArgs(Exception):
	"""Cannot be unpickled (arguments of constructor)."""

	def __init__(self, msg, other):
		super().__init__(msg)
		self.other = other


class Holder(Exception):
	"""Cannot be pickled."""

	def __init__(self, msg):
		super().__init__(msg)
		self.func = lambda: msg


PLAIN = {
		'ValueError': lambda: ValueError(TOKEN),
		'KeyError': lambda: KeyError(TOKEN),
		'IndexError': lambda: IndexError(TOKEN),
		'AssertionError': lambda: AssertionError(TOKEN),
		'MemoryError': lambda: MemoryError(TOKEN),
		'OSError': lambda: OSError(5, TOKEN),
		'Unicode': lambda: UnicodeDecodeError('utf8', b'x', 0, 1, TOKEN),
		'RecursionError': lambda: RecursionError(TOKEN),
		'EOFError': lambda: EOFError(TOKEN),
		'TypeError': lambda: TypeError(TOKEN)}
SPECIAL = dict(PLAIN,
		TwoArgs=lambda: TwoArgs(TOKEN, 1),
		Holder=lambda: Holder(TOKEN),
		StopIteration=lambda: StopIteration(TOKEN))


def inworker(sim):
	return re.match(r'[px][0-9]+\.w[0-9]+$', sim.name) is not None


def fired(kind='worker-exception'):
	if kind:
		core.current().fault(kind)
	if not os.path.exists('fired'):
		put('fired', b'')


def failat(sim, mod, name, exc, cond):
	"""Make function raise an exception in calls selected by condition, in
	worker processes only."""
	orig = getattr(mod, name)
	count = [0]

	def wrapper(*args, **kwargs):
		s = core.current()
		if inworker(s) and cond(count[0], args, kwargs):
			fired()
			raise exc()
		if inworker(s):
			count[0] += 1
		return orig(*args, **kwargs)
	setattr(mod, name, wrapper)


def texts(err):
	"""Everything an error says."""
	return ''.join(traceback.format_exception(type(err), err,
			err.__traceback__))


def attempt(fn, *args, **kwargs):
	"""('ok', value) or ('exc', type, complete text)."""
	try:
		return ('ok', fn(*args, **kwargs))
	except (core.Hang, Violation, Inconclusive, KeyboardInterrupt):
		raise
	except Exception as err:
		return ('exc', type(err).__name__, texts(err))


def run(sim):
	kind = sim.pick(['search', 'search', 'fragments', 'experiment', 'parser'],
			'operation')
	dict(search=search, fragments=fragments, experiment=experiment,
			parser=parser)[kind](sim)


def mkfail(sim, kinds=SPECIAL, special=True):
	kinds = SPECIAL if special else PLAIN
	name = sim.pick(sorted(kinds), 'exception')
	return name, kinds[name]


def verdict(sim, r, what, token=True):
	"""Outcome of a process in which a worker (probably) failed: True when it
	ended with the expected error."""
	check(r[0] == 'ok', what + '-' + r[0], lambda: core.describe(r))
	out = r[1]
	if not os.path.exists('fired'):
		sim.stat('not reached')
		return False
	sim.stat('failed tasks')
	check(out[0] == 'exc', what + '-error-lost', lambda: repr(out)[:3000])
	if token:
		check(TOKEN in out[2], what + '-message-lost', lambda: out[2])
	return True


# --- fragments -------------------------------------------------------------
def fragments(sim):
	explib.silent()
	fmt = sim.pick(['bracket', 'discbracket', 'bracket'], 'fmt')
	banks = fraglib.mkbanks(sim, fmt, 2, maxtrees=8)
	two = sim.chance(1, 2, 'two')
	opts = fraglib.mkopts(sim, two, fmt=fmt)
	numproc = sim.pick([2, 3, 4], 'numproc')
	name, exc = mkfail(sim)
	lib = sim.chance(1, 4, 'lib')
	how = sim.pick(['extract', 'count', 'init', 'extract'], 'how')
	if how == 'init' and lib:
		how = 'count'
	which = sim.choose(3, 'which')
	argv = opts + ['--numproc=%d' % numproc, 'tb0'] + (['tb1'] if two else [])
	sim.sample = dict(argv=argv, how=how, exc=name, lib=lib, which=which,
			banks=[get('tb%d' % n).decode() for n in range(2)])
	sim.key = sim.sample

	def body(sim):
		from discodop import fragments, _fragments
		sim.stat('fragment extractions')
		if how == 'extract':
			failat(sim, _fragments, 'extractfragments', exc,
					lambda n, args, kwargs: n == which)
		elif how == 'count':
			failat(sim, _fragments, 'exactcounts', exc,
					lambda n, args, kwargs: n == which)
		else:
			failat(sim, _fragments, 'readtreebank', exc,
					lambda n, args, kwargs: n == which)
		if lib:
			from . import c06
			return attempt(c06.librequest, banks[0], dict(disc=fmt != 'bracket',
					indices=True, maxdepth=1, numproc=numproc))
		put('out.txt', b'')
		return attempt(fragments.main, argv + ['--quiet', '-o', 'out.txt'])
	r = core.call(sim, body, 'frag')
	if verdict(sim, r, 'fragments') and not lib:
		check(get('out.txt') == b'', 'fragments-output', lambda: get('out.txt'))


# --- experiments ------------------------------------------------------------
def experiment(sim):
	prm, train, test = explib.mkexp(sim, ntest=1 + sim.choose(6, 'ntest'))
	sim.cfg['clockjumps'] = False
	numproc = sim.pick([2, 3, 4], 'numproc')
	name, exc = mkfail(sim)
	ddop = any(st.get('dop') == 'doubledop' for st in prm['stages'])
	how = sim.pick(['parse', 'later', 'parse', 'train' if ddop else 'parse',
			'unpicklable'], 'how')
	which = sim.choose(3, 'which')
	bad = [sim.chance(1, 3, 'bad') for _ in test]
	if not any(bad):
		bad[sim.choose(len(test), 'badsent')] = True
	badsents = [[w for _, w in sorted(dleaves(t))]
			for t, b in zip(test, bad) if b]
	sim.sample.update(how=how, exc=name, which=which, bad=badsents,
			numproc=numproc)
	sim.key = [sim.sample]

	def body(sim):
		from discodop import parser, _fragments
		sim.stat('experiments')
		if how == 'train':
			failat(sim, _fragments, sim.pick(['extractfragments', 'exactcounts'],
					'function'), exc, lambda n, args, kwargs: n == which)
		else:
			failparse(parser, exc, badsents, how)
		return attempt(explib.runexp, prm, 'a', numproc=numproc)
	r = core.call(sim, body, 'exp')
	token = how != 'unpicklable'
	if (token and r[0] == 'ok' and r[1][0] == 'exc'
			and TOKEN not in r[1][2]):
		# the experiment may fail for another reason before this one
		clean = core.call(sim, lambda sim: attempt(explib.runexp, prm, 'c',
				numproc=1), 'clean')
		if clean[0] == 'ok' and clean[1][0] == 'exc' and TOKEN not in \
				clean[1][2]:
			sim.stat('other failures')
			token = False
	if os.path.exists('fired') or r[0] != 'ok' or r[1][0] == 'ok':
		if verdict(sim, r, 'experiment', token=token):
			have = set(os.listdir('a')) if os.path.exists('a') else set()
			ext = dict(export='export', bracket='mrg', discbracket='dbr')[
					prm['corpusfmt']]
			names = {'stats.tsv', 'gold.' + ext} | {
					'%s.%s' % (st['name'], ext) for st in prm['stages']}
			check(not have & names, 'experiment-results', lambda: repr(
					sorted(have)))
	else:
		sim.stat('failed experiments')


def failparse(parser, exc, badsents, how):
	"""Fail on particular sentences."""
	orig = parser.Parser.parse
	badwords = [tuple(x) for x in badsents]

	def parse(self, sent, *args, **kwargs):
		isbad = tuple(sent) in badwords and inworker(core.current())
		if how == 'later' and isbad:
			def gen():
				for res in orig(self, sent, *args, **kwargs):
					yield res
				fired()
				raise exc()
			if exc is SPECIAL['StopIteration']:
				list(orig(self, sent, *args, **kwargs))
				fired()
				raise exc()
			return gen()
		if how == 'unpicklable' and isbad:
			def gen2():
				for res in orig(self, sent, *args, **kwargs):
					fired()
					res.parsetree.extra = lambda: 1
					res.extra = lambda: 1
					res.noparse = lambda: 1
					yield res
			return gen2()
		if isbad:
			fired()
			raise exc()
		return orig(self, sent, *args, **kwargs)
	parser.Parser.parse = parse


# --- command line parser ------------------------------------------------------
def parser(sim):
	prm, train, test = explib.mkexp(sim, ntest=1)
	sim.cfg['clockjumps'] = False
	r = core.call(sim, lambda sim: explib.runexp(prm, 'g'), 'train')
	if r[0] != 'ok':
		sim.stat('no grammar')
		return
	numproc = sim.pick([2, 3, 4], 'numproc')
	name, exc = mkfail(sim)
	how = sim.pick(['parse', 'later', 'parse', 'badtags'], 'how')
	sents = [[w for _, w in sorted(dleaves(sim.pick(train + test, 'tree')))]
			for _ in range(1 + sim.choose(7, 'nsents'))]
	bad = [sim.chance(1, 3, 'bad') for _ in sents]
	if not any(bad):
		bad[sim.choose(len(sents), 'badsent')] = True
	badsents = [s for s, b in zip(sents, bad) if b]
	opts = ['--numproc', str(numproc)]
	if sim.chance(1, 3, 'nbest'):
		opts += ['-b', '3', '--prob']
	data = ''.join(' '.join(s) + '\n' for s in sents)
	if how == 'badtags':
		# a token without a tag is an error in the worker
		opts.append('--tags')
		data = gooddata = ''
		for s, b in zip(sents, bad):
			toks = [w + '/NN' for w in s]
			gooddata += ' '.join(toks) + '\n'
			if b:
				toks[sim.choose(len(toks), 'token')] = TOKEN
			data += ' '.join(toks) + '\n'
		put('fired', b'')
	sim.sample.update(how=how, exc=name, bad=badsents, numproc=numproc,
			opts=opts, input=data)
	sim.key = [sim.sample]

	def setup(sim):
		from discodop import parser
		sim.stat('parser commands')
		if how != 'badtags':
			failparse(parser, exc, badsents, how)
	r = clilib.cli(sim, ['parser'] + opts + ['g'], (gooddata
			if how == 'badtags' else data).encode('utf8'), 'clean')
	if not r.ok:
		sim.stat('other failures')
		return
	r = clilib.cli(sim, ['parser'] + opts + ['g'], data.encode('utf8'), 'cmd',
			setup)
	check(r.status is not None and r.status >= 0, 'parser-' + r.raw[0],
			lambda: core.describe(r.raw))
	if not os.path.exists('fired'):
		sim.stat('not reached')
		return
	sim.stat('failed tasks')
	check(r.status != 0, 'parser-error-lost', lambda: repr(r))
	check((b'unpack' if how == 'badtags' else TOKEN.encode()) in r.err,
			'parser-message-lost', lambda: repr(r))
	check(b'finished' not in r.err, 'parser-finished', lambda: repr(r))


# --- search -----------------------------------------------------------------
def search(sim):
	sim.cfg['preempt'] = sim.pick([0, 12], 'preempt')
	sim.cfg['traceprefix'] = LIB + '/discodop/'
	engine = sim.pick(['regex', 'frag', 'tgrep'], 'engine')
	nfiles = 1 + sim.choose(3, 'nfiles')
	files, trees = [], []
	ext = dict(regex='txt', frag='mrg', tgrep='mrg')[engine]
	for n in range(nfiles):
		if engine == 'regex':
			text = gentext(sim)
		else:
			t = gentrees(sim)
			trees.extend(t)
			text = writetrees(t, ext)
		for d in 'ab':
			put('%s/f%d.%s' % (d, n, ext), text)
			settime('%s/f%d.%s' % (d, n, ext), sim.clock - 1000)
		files.append('a/f%d.%s' % (n, ext))
	if engine == 'regex':
		pool = [sim.pick(QUERIES, 'q') for _ in range(1 + sim.choose(3, 'nq'))]
	elif engine == 'tgrep':
		usetgrep(sim)
		pool = [sim.pick(TGPATS, 'q') for _ in range(1 + sim.choose(3, 'nq'))]
	else:
		pool = []
		for _ in range(1 + sim.choose(3, 'nq')):
			t = sim.pick(subfrags(sim.pick(trees, 'qt')), 'qs')
			pool.append(fragstr(cut(sim, t)))

	def request():
		if sim.chance(1, 4, 'batch'):
			kind = 'batchcounts'
			if engine != 'frag' and sim.chance(1, 2, 'batchsents'):
				kind = 'batchsents'
			return kind, [sim.pick(pool, 'query') for _ in range(
					1 + sim.choose(4, 'nqueries'))], {}
		return c07.request(sim, engine, files, pool, 6)
	reqs = [request() for _ in range(1 + sim.choose(3, 'nreq'))]
	if sim.chance(1, 2, 'again'):
		reqs.append(sim.pick(reqs, 'repeat'))
	failing = sim.choose(len(reqs), 'failing')
	numproc = sim.pick([2, 3, 1, 4], 'numproc')
	opts = {} if engine == 'tgrep' else {'inmemory': sim.chance(1, 3,
			'inmemory')}
	bad = [f for f in files if sim.chance(1, 2, 'badfile')] or [
			sim.pick(files, 'badfile')]
	name, exc = mkfail(sim, special=engine == 'tgrep')
	if exc is SPECIAL['StopIteration']:
		exc = SPECIAL['ValueError']
	how = sim.pick(dict(regex=['missing', 'unreadable', 'index'],
			frag=['missing', 'exception', 'unreadable'],
			tgrep=['missing', 'tool', 'spawn', 'exception'])[engine], 'how')
	retry = 1 + sim.choose(2, 'retry')
	sim.sample = dict(engine=engine, numproc=numproc, opts=opts, bad=bad,
			how=how, exc=name, failing=failing, requests=[repr(r) for r in reqs],
			corpora=[get(f).decode() for f in files])
	sim.key = sim.sample
	# NB: index files are made by opening the searcher
	suffix = dict(regex='', frag='.ct', tgrep='.t2c.gz')[engine]

	def failed(s, req):
		"""Perform request with failure."""
		restore = []
		active = [True]
		try:
			if how == 'missing':
				for f in bad:
					x = f + suffix
					os.rename(x, x + '.away')
					restore.append(lambda x=x: os.rename(x + '.away', x))
				fired('missing-file')
			elif how == 'index':
				for x in os.listdir('a'):
					if x.startswith('.treesearchline') or 'treesearchline' in x:
						x = 'a/' + x
						os.rename(x, x + '.away')
						restore.append(lambda x=x: os.rename(x + '.away', x))
				if restore:
					fired('missing-index')
			elif how == 'unreadable':
				def back(x):
					os.rmdir(x)
					os.rename(x + '.away', x)
				for f in bad:
					x = f + suffix
					os.rename(x, x + '.away')
					os.mkdir(x)
					restore.append(lambda x=x: back(x))
				fired('unreadable-file')
			elif how in ('tool', 'spawn'):
				sim = core.current()
				if how == 'tool':
					def fault(argv):
						if active[0] and any(x + suffix in argv for x in bad):
							fired('tool-failure')
							return ('fail', 1, sim.pick([0, .5, 1], 'cut'), 1)
					sim.tgfault = fault
				else:
					from discodop import treesearch
					orig = treesearch.which
					def which(*args, **kwargs):
						fired()
						raise exc()
					treesearch.which = which
					restore.append(lambda: setattr(treesearch, 'which', orig))
			elif how == 'exception':
				def where(args, kwargs):
					vals = list(args) + list(kwargs.values())
					return any(x in str(v) for v in vals for x in bad)
				if engine == 'tgrep':
					from discodop import treesearch
					orig = treesearch.subprocess.Popen
					def popen(*args, **kwargs):
						if active[0] and where(args, kwargs):
							fired()
							raise exc()
						return orig(*args, **kwargs)
					treesearch.subprocess.Popen = popen
					restore.append(lambda: setattr(treesearch.subprocess,
							'Popen', orig))
				else:
					# workers consult a file to know whether to fail
					put('failing', '\n'.join(bad))
					restore.append(lambda: os.unlink('failing'))
			return attempt(perform, s, req)
		finally:
			active[0] = False
			for x in restore:
				x()

	def session(sim):
		s = c07.opensearcher(engine, files, numproc, **opts)
		if how == 'exception' and engine == 'frag':
			from discodop import treesearch, _fragments
			orig = _fragments.exactcountsslice
			curfile = [None]
			orig2 = treesearch.Ctrees

			class MyCtrees:
				@staticmethod
				def fromfile(filename):
					curfile[0] = filename
					return orig2.fromfile(filename)

			def slice(*args, **kwargs):
				if os.path.exists('failing') and any(curfile[0] == x + '.ct'
						for x in get('failing').decode().splitlines()):
					fired()
					raise exc()
				return orig(*args, **kwargs)
			treesearch.Ctrees = MyCtrees
			_fragments.exactcountsslice = slice
		res = []
		for n, req in enumerate(reqs):
			if n == failing:
				cached = os.path.exists('fired')
				out = failed(s, req)
				res.append(('failed', os.path.exists('fired'), out))
				for _ in range(retry):
					res.append(('retry', n, attempt(perform, s, req)))
			else:
				res.append(('req', n, attempt(perform, s, req)))
		return res

	def fresh(req):
		kind, query, kw = req
		if 'subset' in kw:
			kw = dict(kw, subset=[f.replace('a/', 'b/') for f in kw['subset']])

		def session(sim):
			sim.cfg['preempt'] = 0
			s = c07.opensearcher(engine, [f.replace('a/', 'b/') for f in files],
					1, **opts)
			return attempt(perform, s, (kind, query, kw))
		return session

	def perform(s, req):
		kind, query, kw = req
		if kind.startswith('batch'):
			val = [(f.replace('b/', 'a/'), norm(x)) for f, x in getattr(
					s, kind)(query, **kw)]
			return val
		val = c07.perform(s, req)
		return {k.replace('b/', 'a/'): v for k, v in perfile(kind, val,
				kw.get('subset') or list(s.files)).items()}
	r = core.call(sim, session, 'sess')
	check(r[0] == 'ok', 'search-%s:%s' % (r[0], engine),
			lambda: core.describe(r))
	memo = {}
	for what, n, out in r[1]:
		sim.stat('requests')
		if what == 'failed':
			used = reqs[failing][2].get('subset') or files
			n, wasfired = failing, n
			affected = bool(set(used) & set(bad)) or how in ('index', 'spawn')
		if repr(reqs[n]) not in memo:
			ref = core.call(sim, fresh(reqs[n]), 'ref')
			check(ref[0] == 'ok', 'fresh-failed:' + engine,
					lambda: core.describe(ref))
			memo[repr(reqs[n])] = ref[1]
		ref = memo[repr(reqs[n])]
		if what == 'failed' and out[0] == 'exc':
			if wasfired:
				sim.stat('failed requests')
				if how in ('exception', 'spawn'):
					check(TOKEN in out[2] or ref[0] != 'ok',
							'search-message-lost:' + engine, lambda: out[2])
				elif how == 'tool':
					check('something went wrong' in out[2] or ref[0] != 'ok',
							'search-message-lost:' + engine, lambda: out[2])
				elif how == 'missing' and ref[0] == 'ok':
					check(any(x in out[2] for x in bad), 'search-message-lost:'
							+ engine, lambda: out[2])
			continue
		# complete results only, failure or not (a result may come from the
		# cache)
		check(out[:1] == ref[:1] and (out[0] != 'ok' or out == ref),
				'search-%s:%s' % (what, engine), lambda:
				'%r (%s):\n%s\nexpected: %s' % (reqs[n], what, out, ref))
