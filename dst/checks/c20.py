"""C20: temporary files do not outlive the operation that made them."""
import gzip
import errno
from collections import OrderedDict
from .. import core
from .. import cmdlib
from ..common import *
from ..searchlib import *
from . import c12
from .c07 import opensearcher

RUNS = (4000, 150000)
BUDGET = (35, 1500)
RULE = ('operation (fragment extraction from standard input with several '
	'workers, opening of compressed corpora for the external search engine, '
	'three taggers, tagging in an experiment, any command) x random input x '
	'failing read, open, create, write, close, full disk, child that fails or '
	'dies at any point, worker exceptions, interrupts by the user; temporary directory listed when the '
	'operation has ended; distinct by operation and faults')
REALPARTS = ('discodop.fragments, treesearch.TgrepSearcher, lexicon, runexp, cli '
	'and what they call')
STUBS = ('file system, tgrep2/zstd/lz4/tagger programs and pipes, '
	'multiprocessing.Pool, executors, clocks')
OPS = ['read', 'open', 'creat', 'write', 'close-w', 'flush', 'rename', 'mkdir']


def leftover():
	return sorted(x for x in disk.R['listdir'](os.environ['TMPDIR']))


def mkplan(sim, counts=None):
	"""Up to two faults; removal of files itself does not fail."""
	res = []
	if sim.chance(1, 5, 'nofault'):
		return res
	for _ in range(1 + sim.choose(2, 'nfaults')):
		op = sim.pick([a for a in OPS if counts is None or counts.get(a)]
				or ['read'], 'op')
		at = sim.choose(counts[op] if counts and counts.get(op) else 12, 'at')
		res.append(disk.Fault(op, at, sim.pick([errno.EIO, errno.ENOSPC],
				'errno'), sticky=sim.chance(1, 2, 'sticky'),
				frac=sim.pick([0, 0.5, 0.9], 'frac')))
	if sim.chance(1, 4, 'interrupt'):
		res[0] = disk.Fault(sim.pick(['read', 'write', 'open'], 'at'),
				sim.choose(12, 'at'), 'interrupt')
	return res


def setplan(sim, plan):
	for f in plan:
		if f.err == 'interrupt':  # the user interrupts the main process
			f.pid = os.getpid()
	sim.disk.plan = plan


def command(sim, kinds, stdin=False):
	kind, case = cmdlib.mkcase(sim, kinds)
	if stdin:
		case = cmdlib.fragments(sim)
		if '--batch={out}' in case.argv:
			case.argv.remove('--batch={out}')
			del case.argv[3:5]
		tbs = [a for a in case.argv if a in case.inputs]
		x = sim.pick(tbs, 'stdintb') if tbs else None
		if x is not None:
			data = get(x)
			if x.endswith(('.gz', '.zst')):
				data = gzip.decompress(data)
			case.stdin = data
			case.argv[case.argv.index(x)] = '-'
		if '--numproc=2' not in case.argv:
			case.argv.append('--numproc=%d' % (2 + sim.choose(2, 'np')))
	if case is None:
		return
	case.run(sim, 'ref', 'ref')
	check(not leftover(), 'left:' + kind, lambda: '%r: %r' % (case,
			leftover()))
	ref = case.run(sim, 'ref', 'ref')
	if ref.status is None:
		return
	plan = mkplan(sim, ref.counts)
	sim.progfault = None
	if sim.chance(1, 5, 'program'):
		sim.progfault = sim.choose(101, 'frac') / 100
		sim.fault('decompressor-dies')
	broken = None
	if sim.chance(1, 4, 'damage') and case.inputs:
		# unusable input
		x = sim.pick(case.inputs, 'which')
		if '*' not in x:
			broken = get(x)
			put(x, sim.pick([broken[:len(broken) // 2], b'(NP (DT', b'',
					broken + b')) (('], 'how'))
			sim.fault('input-damaged')

	def setup(sim):
		setplan(sim, plan)
		workerfault(sim)
	r = case.run(sim, 'out', 'cmd', setup)
	sim.disk.plan = []
	sim.sample = dict(case=repr(case), plan=repr(plan), outcome=repr(r))
	sim.key = [repr(case), repr(plan), sim.progfault, broken is None]
	sim.stat('%s %s' % (kind, 'succeeds' if r.ok else 'fails'))
	if r.status is None or r.status < 0:
		sim.stat('deaths')  # nobody is left to remove anything
		return
	check(not leftover(), 'left:' + kind, lambda: '%r\n%r\n%r' % (case,
			leftover(), sim.sample))


def workerfault(sim):
	"""Perhaps make a function that runs in workers fail."""
	if not sim.chance(1, 3, 'workerfault'):
		return
	from discodop import fragments
	name = sim.pick(['exactcountworker', 'worker', 'coverworker',
			'getcoverfrags'], 'function')
	if not hasattr(fragments, name):
		return
	n = [sim.choose(3, 'task')]
	orig = getattr(fragments, name)

	def fail(*args, **kw):
		n[0] -= 1
		if n[0] < 0:
			raise ValueError('injected')
		return orig(*args, **kw)
	fail.__name__, fail.__qualname__ = orig.__name__, orig.__qualname__
	fail.__module__ = orig.__module__
	setattr(fragments, name, fail)
	sim.fault('worker-exception')


def tgrep(sim):
	cmdlib.programs(sim)
	bindir = os.environ['PATH']
	usetgrep(sim)
	check(os.environ['PATH'].endswith('bin') and bindir.endswith('bin'), 'path')
	names = ['c/f%d.mrg%s' % (n, sim.pick(['.gz', '.zst', '.gz', ''], 'ext'))
			for n in range(1 + sim.choose(3, 'nfiles'))]
	for n in names:
		data = writetrees(gentrees(sim), 'mrg').encode('utf8')
		if n.endswith(('.gz', '.zst')):
			data = gzip.compress(data, mtime=0)
			if sim.chance(1, 6, 'damage'):
				data = data[:sim.choose(len(data), 'cut')]
				sim.fault('input-damaged')
		put(n, data)
		settime(n, sim.clock - 1000)
	plan = mkplan(sim)
	sim.progfault = None
	if sim.chance(1, 6, 'program'):
		sim.progfault = sim.choose(101, 'frac') / 100
		sim.fault('decompressor-dies')
	spec = None
	if sim.chance(1, 3, 'tgfault'):
		spec = (sim.pick(['exit-early', 'truncate', 'cut'], 'tgfaultkind'),
				sim.pick([1, -9, -11], 'code'), sim.choose(101, 'cut') / 100, 1)
		sim.fault('child-exit')
	if sim.chance(1, 8, 'missing'):
		disk.R['unlink'](os.path.join(bindir, 'tgrep2'))
		sim.fault('program-missing')
	sim.tgfault = lambda argv: spec
	numproc = 1 + sim.choose(2, 'numproc')
	sim.sample = dict(op='tgrep', files=names, plan=repr(plan),
			fault=repr(spec))
	sim.key = [sim.sample, sim.progfault]

	def body(sim):
		setplan(sim, plan)

		def go():
			s = opensearcher('tgrep', list(names), numproc)
			return norm(s.counts('NP'))
		out = capture(go)
		sim.disk.plan = []
		return out, leftover()
	out = core.call(sim, body, 'act')
	if out[0] != 'ok':
		sim.stat('tgrep ' + out[0])
		check(out[0] == 'exc', 'failed', lambda: core.describe(out))
		left = leftover()
	else:
		sim.stat('tgrep ' + ('succeeds' if out[1][0][0] == 'ok' else 'fails'))
		left = out[1][1]
	check(not left, 'left:tgrep', lambda: '%r\n%r\n%r' % (left, out,
			sim.sample))


def tagging(sim):
	kind = sim.pick(['treetagger', 'stanford', 'frog'], 'tagger')
	words = c12.WORDS2 + ['\ud800'] * sim.choose(2, 'surrogate')
	sents = OrderedDict((n + 1, [(sim.pick(words, 'w'), sim.pick(POS, 't'))
			for _ in range(1 + sim.choose(5, 'len'))])
			for n in range(1 + sim.choose(5, 'nsents')))
	if sim.chance(7, 8, 'treetagger'):
		put('tree-tagger/bin/tree-tagger', b'')
	if sim.chance(7, 8, 'stanford'):
		put('stanford-postagger-full-2012-07-09/x', b'')
	put('bin/frog', b'')
	os.environ['PATH'] = os.path.join(sim.scratch, 'bin')
	for prog, tagger in (('tree-tagger', 'treetagger'), ('java', 'stanford'),
			('frog', 'frog')):
		if sim.chance(9, 10, 'present'):
			sim.programs[prog] = c12.gentagger(tagger)
		else:
			sim.fault('program-missing')
	sim.tagfault = None
	if sim.chance(1, 2, 'tagfault'):
		sim.tagfault = (sim.pick([1, -9, -13, 0], 'code'),
				sim.choose(101, 'cut') / 100, 0, sim.pick([None, 'dropsent',
				'droptoken', 'addtoken', 'splitsent', 'noread'], 'mangle'))
		sim.fault('tagger')
	plan = mkplan(sim)
	sim.sample = dict(op='tagging', tagger=kind, fault=repr(sim.tagfault),
			plan=repr(plan))
	sim.key = [sim.sample, repr(sents)]

	def body(sim):
		from discodop import lexicon
		setplan(sim, plan)
		out = capture(lexicon.externaltagging, kind, '', sents, {}, {})
		sim.disk.plan = []
		return out[0], leftover()
	out = core.call(sim, body, 'tag')
	if out[0] == 'exc' and 'KeyboardInterrupt' in core.describe(out):
		out = ('ok', (('exc', 'KeyboardInterrupt'), leftover()))
	check(out[0] == 'ok', 'failed:tag', lambda: '%s\n%r' % (
			core.describe(out), sim.sample))
	sim.stat('tagging ' + ('succeeds' if out[1][0] == 'ok' else 'fails'))
	check(not out[1][1], 'left:tagging', lambda: '%r\n%r' % (out[1],
			sim.sample))


def run(sim):
	sim.cfg['clockjumps'] = False
	what = sim.pick(['stdin', 'tgrep', 'tgrep', 'tagging', 'command'], 'what')
	if what == 'stdin':
		command(sim, ['fragments'], stdin=True)
	elif what == 'tgrep':
		tgrep(sim)
	elif what == 'tagging':
		tagging(sim)
	else:
		command(sim, ['treetransforms', 'treedraw', 'grammar', 'merge', 'ptsg',
				'fragments', 'parser', 'eval'])
