"""C10: a crash or write error while building an index does no lasting harm."""
import errno
from .. import core
from ..common import *
from ..searchlib import *
from .c09 import content, stamp, queriesof, answers, bruteforce

RUNS = (4500, 120000)
BUDGET = (35, 1200)
RULE = ('random corpora x engine x optional earlier index (same files, other '
	'files or older contents) x one or two sessions hit by a crash at a random '
	'file operation (torn writes included), a write error, a full disk or a '
	'failing index program; then fault-free sessions on the same files, compared '
	'with a pristine copy and brute force; distinct by schedule and fault trace')
REALPARTS = ('discodop.treesearch searchers, _fragments, containers (compiled, C '
	'stdio redirected), roaringbitmap')
STUBS = 'process/thread pools, tgrep2 program, clock, disk fault layer'
ASSUMES = ('a completed rename or write survives the death of the process',)
MUT = ['write', 'creat', 'close-w', 'ftruncate', 'mmap-w', 'flush', 'rename']


def plan(sim, engine, giant=False):
	"""Fault plan for one session."""
	kind = 2 if giant and sim.chance(2, 3, 'onewrite') else sim.choose(
			4, 'faultkind')
	if kind <= 1:
		return [disk.Fault('crash', sim.choose(24, 'at'),
				frac=sim.pick([0, 0.5, 0.9, 0.01], 'frac'))]
	err = sim.pick([errno.ENOSPC, errno.EIO], 'errno')
	op = 'write' if giant and sim.chance(2, 3, 'write') else sim.pick(
			MUT, 'op')
	if kind == 2:
		return [disk.Fault(op, sim.choose(4 if giant else 5, 'at'), err=err,
				frac=0 if giant else sim.pick([0, 0.5, 0.9], 'frac'))]
	return [disk.Fault('write', sim.choose(8, 'at'), err=errno.ENOSPC,
				sticky=True, frac=sim.pick([0, 0.5], 'frac')),
			disk.Fault('mmap-w', sim.choose(3, 'at'), err=errno.ENOSPC,
				sticky=True)]


def run(sim):
	engine = sim.pick(['regex', 'frag', 'frag', 'tgrep'], 'engine')
	gran = sim.pick([1e-9, 1e-2], 'gran')
	sim.disk.gran = gran
	sim.disk.dt = 1e-3
	if engine == 'tgrep':
		usetgrep(sim)
		pool = ['c/f0.mrg', 'c/f1.mrg', 'c/f2.mrg.gz']
	elif engine == 'regex':
		pool = ['c/f0.txt', 'c/f1.txt', 'c/f2.txt']
	else:
		pool = ['c/f0.mrg', 'c/f1.mrg', 'c/f2.dbr']
	cur, log = {}, []
	names = pool[:1 + sim.choose(3, 'nfiles')]
	giant = engine == 'frag' and sim.chance(1, 4, 'giant')
	good = False

	def write(path):
		data, x = content(sim, engine, path, giant)
		put('w/' + path, data)
		stamp(sim, 'w/' + path, gran)
		cur[path] = x
	for path in names:
		write(path)
	sim.tick(1)
	nsess = 0

	def session(files, queries, name, faults=(), prefix='w/', tgf=None):
		numproc = 1 if prefix != 'w/' else 1 + sim.choose(2, 'numproc')
		inmemory = sim.chance(1, 2, 'inmemory')

		def body(sim):
			sim.disk.plan = list(faults)
			sim.tgfault = tgf
			return answers(engine, [prefix + f for f in files], queries,
					numproc, inmemory, prefix, True)
		return core.call(sim, body, name)

	def verify(files, name, mustwork=False):
		queries = queriesof(sim, engine, [cur[f] for f in files])
		ref = 'r%s/' % name
		for f in files:
			put(ref + f, get('w/' + f))
			settime(ref + f, sim.clock - 1000)
		act = session(files, queries, name)
		exp = session(files, queries, 'ref' + name, prefix=ref)
		log.append('verify %s' % files)
		check(exp[0] == 'ok', 'reference-failed:' + engine,
				lambda: core.describe(exp))
		check(act[0] != 'died', 'later-session-crashes:' + engine,
				lambda: '%s\n%s' % (core.describe(act), '\n'.join(log)))
		if act[0] != 'ok':
			check(not mustwork, 'lasting-harm:' + engine, lambda: 'a session '
					'after a successful one, or after all files changed, '
					'fails: %s\n%s' % (
					core.describe(act), '\n'.join(log)))
			return
		for (req, a), (_, b) in zip(act[1], exp[1]):
			if b[0] == 'ok' and a[0] == 'ok':
				check(a == b, 'wrong-results:' + engine, lambda: '%r\n got: '
						'%r\n expected: %r\n%s' % (req, a, b, '\n'.join(log)))
				bruteforce(engine, req, b[1], cur)
			elif b[0] == 'ok':
				check(not mustwork, 'lasting-harm:' + engine, lambda:
						'%r: %r\n%s' % (req, a, '\n'.join(log)))
			else:
				check(a[0] != 'ok', 'error-lost:' + engine, repr(req))
	for nbefore in range(sim.pick([0, 1, 1, 2], 'before')):
		files = names if sim.chance(2, 3, 'same') else sim.shuffled(
				names, 'beforefiles')[:1 + sim.choose(len(names), 'nbefore')]
		log.append('open %s' % files)
		session(files, queriesof(sim, engine, [cur[f] for f in files]), 'before%d' % nbefore)
		sim.tick(1)
		k = sim.choose(4, 'change')
		if k == 1:
			write(names[0])
			log.append('edit %s' % names[0])
		elif k == 2:
			for f in names:
				write(f)
			log.append('edit all')
		elif k == 3:
			stamp(sim, 'w/' + names[-1], gran)
			log.append('touch %s' % names[-1])
		sim.tick(1)
	for n in range(1 + sim.choose(2, 'nfaulty')):
		files = names if sim.chance(3, 4, 'samefaulty') else \
				sim.shuffled(names, 'faultyfiles')[
						:1 + sim.choose(len(names), 'nfaultyfiles')]
		faults, tgf = plan(sim, engine, giant), None
		if engine == 'tgrep' and sim.chance(1, 2, 'tgfault'):
			kind = (sim.pick(['truncate', 'exit-early'], 'tgkind'),
					sim.pick([1, -9, 134], 'tgcode'),
					sim.pick([0.5, 0.9, 0.1], 'tgfrac'))

			def tgf(argv, kind=kind):
				if '-p' in argv:
					core.current().fault('index-program-' + kind[0])
					return kind
			faults = [] if sim.chance(1, 2, 'onlytg') else faults
		out = session(files, queriesof(sim, engine, [cur[f] for f in files]),
				'faulty%d' % n, faults, tgf=tgf)
		log.append('open %s with %r %s: %s' % (files, faults,
				'and index program failure' if tgf else '',
				core.describe(out)[:150]))
		check(out[0] != 'died' or core.wascrashed(out), 'session-crashes:'
				+ engine, lambda: '%s\n%s' % (core.describe(out),
					'\n'.join(log)))
		# whether the session found or built usable indexes for all files
		good = out[0] == 'ok' and set(files) == set(names) and all(
				a[0] == 'ok' for _, a in out[1])
		sim.tick((1e-3, 1)[sim.choose(2, 'pause')])
		if sim.chance(1, 4, 'editafter'):
			good = False
			write(files[0])
			log.append('edit %s' % files[0])
			sim.tick(0.5)
	verify(names, 'v1', mustwork=good)
	if len(names) > 1 and sim.chance(1, 2, 'subset'):
		verify(sim.shuffled(names, 'subsetfiles')[
				:1 + sim.choose(len(names), 'nsubset')], 'v2')
	sim.tick(1)
	for f in names:
		stamp(sim, 'w/' + f, gran)
	log.append('touch all')
	sim.tick(1)
	verify(names, 'v3', mustwork=True)
	sim.sample = dict(engine=engine, history=log)
