"""C13: an interrupted experiment is never mistaken for a finished one."""
import errno
import shutil
from .. import core
from .. import explib
from .. import clilib
from ..common import *

RUNS = (1800, 60000)
BUDGET = (38, 1500)
RULE = ('random experiment (or "grammar param") x point of death (any file '
	'operation, also in the middle of a write) or failing write, in the first run '
	'or in a re-run x later use (re-run of the experiment with its grammars, '
	'parsing with the directory); outcome compared with the completed experiment; '
	'distinct by schedule trace')
REALPARTS = ('discodop.cli runexp, grammar, parser; runexp, parser, grammar, '
	'containers, all compiled parsers')
STUBS = ('file system (every operation may fail or be the last one of the '
	'process), multiprocessing.Pool, clocks')
# files of a result directory that are made by an experiment
MADE = ['.rules.gz', '.lex.gz', '.probs.npz', '.backtransform.gz',
		'.outside.npz', '.fragments.gz', 'mapping.json.gz',
		'closedclasswords.txt', 'pcdist.txt', '.pickle.gz', 'params.prm',
		'.init.gz', '.aux.gz']


def outputs(name, prm):
	"""Parse trees, scores and evaluation of an experiment."""
	ext = dict(export='export', bracket='mrg', discbracket='dbr')[
			prm['corpusfmt']]
	names = ['stats.tsv', 'gold.' + ext] + ['%s.%s' % (st['name'], ext)
			for st in prm['stages']]
	res = explib.results(name, names)
	return {x: res.get(x) for x in names}, explib.summary(name)


def experiment(sim, prm, name, rerun=False, faults=(), proc=None, mode='exp',
		numproc=1):
	def body(sim):
		sim.disk.counts.clear()
		sim.disk.plan = list(faults)
		if mode == 'param':
			from discodop import cli
			explib.silent()
			put(name + '.prm', explib.prmtext(dict(prm, numproc=1)))
			import contextlib, io, sys
			sys.argv = cli.argv = ['discodop', 'grammar', 'param', name + '.prm',
					name]
			with contextlib.redirect_stdout(io.StringIO()):
				cli.grammar()
		else:
			explib.runexp(prm, name, rerun, numproc)
		return dict(sim.disk.counts)
	return core.call(sim, body, proc or name)


def run(sim):
	sim.cfg['clockjumps'] = False
	sim.cfg['parentfaults'] = True
	prm, train, test = explib.mkexp(sim)
	if sim.chance(1, 4, 'openclass'):  # words may have other tags than before
		prm['postagging'] = dict(method='unknownword', model='4',
				unknownthreshold=1, openclassthreshold=1 + sim.choose(3,
				'openclassthreshold'), simplelexsmooth=True)
	# put parameters in another order; for most orders, there are parameters
	# without which the rest of the file is still valid.
	items = sim.shuffled(list(prm.items()), 'prmorder')
	required = ('traincorpus', 'testcorpus', 'binarization', 'stages')
	if sim.chance(2, 3, 'requiredfirst'):
		items.sort(key=lambda x: x[0] not in required)
	prm = dict(items)
	mode = sim.pick(['exp', 'exp', 'exp', 'param'], 'mode')
	a = experiment(sim, prm, 'a')
	if a[0] != 'ok':
		check(a[0] == 'exc' or a[0] == 'exit', 'experiment-' + a[0],
				lambda: core.describe(a))
		sim.stat('failed experiments')
		return
	sim.stat('experiments')
	nmut = a[1].get('mutating', 0)
	want = outputs('a', prm)
	# re-running the completed experiment
	shutil.copytree('a', 'b')
	r = experiment(sim, prm, 'b', rerun=True)
	check(r[0] == 'ok', 'rerun-fails', lambda: core.describe(r))
	same(want, outputs('b', prm), 'rerun-differs')
	sents = [' '.join(w for _, w in sorted(dleaves(t))) for t in test[:3]]
	words = sorted({w for t in train + test for _, w in dleaves(t)} | {'zyx'})
	for t in train[:2]:  # other words in the structure of known sentences
		sents.append(' '.join(sim.pick(words, 'word') if sim.chance(1, 3,
				'replace') else w for _, w in sorted(dleaves(t))))
	data = ''.join(s + '\n' for s in sents).encode('utf8')

	def parse(name, proc):
		r = clilib.cli(sim, ['parser', name, '--verbosity=0', '--prob'], data, proc)
		check(r.status is not None and r.status >= 0, 'parser-' + r.raw[0],
				lambda: core.describe(r.raw))
		return r
	pref = parse('a', 'pa')
	sim.key = [prm['stages'], mode]
	history = []
	made = [m for m in MADE if any(m in f for f in os.listdir('a'))]
	results = [] if mode == 'param' else ['stats.tsv', 'gold.'] + [
			'/%s.' % st['name'] for st in prm['stages']]
	clean = False  # was a run completed?
	for k in range(1 + sim.choose(2, 'interrupted')):
		rerun = os.path.exists('c') and os.path.isdir('c')
		faults = []
		target = None
		if 'closedclasswords.txt' in made and sim.chance(1, 2, 'closedclass'):
			target = 'closedclasswords.txt'
		for _ in range(1 + sim.choose(2, 'faults') if target is None else 1):
			match = target or sim.pick([None, None, None] + made + [
					'params.prm'] + results, 'match')
			kind = sim.pick(['crash', 'write', 'crash', 'open', 'close-w',
					'creat'] if target is None and match not in results else ['write', 'close-w', 'creat'],
					'kind')
			if match is not None:
				at = sim.pick([0, 0, 0, 1, 2, 3], 'at')
			elif sim.chance(1, 3, 'late'):  # during the last operations
				at = max(0, nmut - sim.choose(8, 'fromend'))
			else:
				at = sim.choose(nmut + 1, 'at')
			faults.append(disk.Fault(kind, at, sim.pick([errno.ENOSPC,
					errno.EIO], 'errno'), sticky=sim.chance(1, 2, 'sticky'),
					frac=sim.pick([0, 0.5, 0.9, 0.1,
					1 + sim.choose(20, 'line')], 'frac'), match=match))
		m = 'exp' if rerun else mode
		r = experiment(sim, prm, 'c', rerun, faults, 'c%d' % k, m,
				sim.pick([1, 1, 2], 'numproc') if m == 'exp' else 1)
		history.append('%s%s with %r: %s' % (m, ' --rerun' if rerun else '',
				faults, core.describe(r)[:200]))
		check(r[0] in ('ok', 'exc', 'exit') or core.wascrashed(r),
				'experiment-' + r[0], lambda: core.describe(r))
		sim.stat('interrupted' if r[0] != 'ok' else 'not interrupted')
		if r[0] == 'ok' and not rerun:
			clean = True
		if r[0] == 'ok' and m == 'exp':
			# (failures of the log file are only reported on the terminal)
			same((want[0], None), (outputs('c', prm)[0], None),
					'incomplete-results', lambda: '\n'.join(history))
		if not os.path.isdir('c'):
			return
	sim.sample.update(history=history)
	msg = lambda: '\n'.join(history)
	r = experiment(sim, prm, 'c', True, proc='again')
	check(r[0] in ('ok', 'exc', 'exit'), 'later-rerun-' + r[0], lambda:
			'%s\n%s' % (core.describe(r), msg()))
	check(r[0] == 'ok' or not clean, 'finished-unusable', lambda: '%s\n%s' % (
			core.describe(r), msg()))
	if r[0] == 'ok':
		sim.stat('usable for rerun')
		same(want, outputs('c', prm), 'rerun-of-interrupted', msg)
	p = parse('c', 'pc')
	check(p.ok or not clean or not pref.ok, 'finished-unparsable', lambda:
			'%r\n%s' % (p, msg()))
	if p.ok:
		sim.stat('usable for parsing')
		check(pref.ok and p.out == pref.out, 'parse-with-interrupted', lambda:
				'%r\nexpected: %r\n%s' % (p, pref, msg()))


def same(a, b, cls, msg=lambda: ''):
	for x in a[0]:
		check(a[0][x] == b[0][x], cls, lambda: '%s:\n%s\nexpected:\n%s\n%s' % (
				x, b[0][x], a[0][x], msg()))
	check(a[1] == b[1], cls + '-summary', lambda: '%s\nexpected:\n%s\n%s' % (
			'\n'.join(b[1]), '\n'.join(a[1]), msg()))
