"""C01: experiment results do not depend on worker count or timing."""
import io
import re
import contextlib
from .. import core
from .. import explib
from ..common import *

RUNS = (1800, 20000)
BUDGET = (38, 1500)
RULE = ('random training and test treebanks x experiment parameters (1-4 stages: '
	'PCFG, PLCFRS, coarse-to-fine, DOP models, estimates, reranking) x worker '
	'count x completion order x clock jumps; the parallel experiment is compared '
	'with the sequential one, its files with the test set, and its totals with an '
	'evaluation of the files; distinct by schedule trace')
REALPARTS = ('discodop.cli runexp, runexp, parser, grammar, all compiled parsers, '
	'disambiguation, eval, treebank')
STUBS = 'multiprocessing.Pool (seeded scheduler), clocks'


def evalfiles(sim, name, stage, ext):
	"""Summary for files as a sequential evaluation of the files gives it."""
	from discodop import eval as evalmod, treebank
	prm = evalmod.readparam('eval.prm')
	prm['DEBUG'] = -1
	prm['CUTOFF_LEN'] = 40
	fmt = {'export': 'export', 'mrg': 'bracket', 'dbr': 'discbracket'}[ext]
	gold = treebank.READERS[fmt]('%s/gold.%s' % (name, ext))
	cand = treebank.READERS[fmt]('%s/%s.%s' % (name, stage, ext))
	ev = evalmod.Evaluator(prm)
	gtrees, gsents = gold.trees(), gold.sents()
	ctrees, csents = cand.trees(), cand.sents()
	for n in gtrees:
		ev.add(n, gtrees[n].copy(True), gsents[n][:],
				ctrees[n].copy(True), csents[n][:])
	return ev.summary().splitlines(), list(ctrees), list(csents.values())


def experiment(sim, prm, name, numproc):
	r = core.call(sim, lambda sim: explib.runexp(prm, name, numproc=numproc),
			name)
	if r[0] == 'ok':
		res = dict(explib.results(name))
		res['summary'] = explib.summary(name)
		return ('ok', res)
	return r


def run(sim):
	sim.cfg['clockjumps'] = False
	prm, train, test = explib.mkexp(sim, ntest=1 + sim.choose(7, 'ntest'))
	ids = [str(n + 1) for n in range(len(test))]
	if prm['corpusfmt'] == 'export' and sim.chance(1, 2, 'ids'):
		ids = sim.pick([['10', '9', '100', '8', '11', '2', '1', '30'],
				['s5', 's1', '3', 'x', 's10', 'y.2', '7', '-'],
				['3', '2', '1', '4', '7', '6', '5', '8']], 'ids')[:len(test)]
		explib.write(prm, 'test.tb', test, ids)
		sim.sample['ids'] = ids
	numproc = sim.pick([2, 3, 2, 4, 8], 'numproc')
	sim.key = [prm['stages'], [discbracket(t) for t in test]]
	a = experiment(sim, prm, 'a', 1)
	sim.cfg['clockjumps'] = sim.chance(1, 4, 'clockjumps')
	b = experiment(sim, prm, 'b', numproc)
	sim.stat('experiments', 2)
	if a[0] != 'ok':
		sim.stat('failed experiments')
		if b[0] == 'ok':
			raise Violation('parallel-succeeds-alone', 'sequential: %s'
					% core.describe(a))
		if b[0] in ('died', 'hang'):
			raise Violation('parallel-' + b[0], core.describe(b))
		return
	if b[0] != 'ok':
		raise Violation('parallel-fails', core.describe(b))
	a, b = a[1], b[1]
	for x in sorted(set(a) | set(b)):
		if x == 'params.prm':
			continue  # contains number of processes
		if a.get(x) != b.get(x):
			raise Violation('differs-' + x.split('.')[-1],
					'%s with %d workers:\n%s\nsequential:\n%s' % (
					x, numproc, b.get(x), a.get(x)))
	# compare with test set: each sentence once, in order
	ext = dict(export='export', bracket='mrg', discbracket='dbr')[
			prm['corpusfmt']]
	sents = [[w for _, w in sorted(dleaves(t))] for t in test
			if len(list(dleaves(t))) <= prm['testcorpus']['maxwords']]
	ids = [n for n, t in zip(ids, test)
			if len(list(dleaves(t))) <= prm['testcorpus']['maxwords']]
	stats = [line.split('\t')[:3] for line in b['stats.tsv'].splitlines()]
	want = [[n, str(len(s)), st['name']] for n, s in zip(ids, sents)
			for st in prm['stages']]
	if stats[1:] != want:
		raise Violation('statistics-table', '%r\nexpected: %r' % (
				stats[1:], want))
	transformed = (prm['transformations'] or (prm['postagging'] is not None))
	for st in prm['stages']:
		r = core.call(sim, lambda sim: evalfiles(sim, 'b', st['name'], ext),
				'eval')
		if r[0] != 'ok':
			if transformed:
				continue
			raise Violation('cannot-evaluate', core.describe(r))
		lines, cids, csents = r[1]
		if len(csents) != len(sents) or (ext == 'export'
				and ids != cids):
			raise Violation('sentences', '%s: %r' % (st['name'], cids))
		if csents != sents:
			raise Violation('sentence-order', '%s: %r\nexpected %r' % (
					st['name'], csents, sents))
		if not transformed:
			header = (' %s ' % st['name'].upper()).center(35, '=')
			k = [n for n, line in enumerate(b['summary'])
					if line.strip('= ') == header.strip('= ')]
			got = b['summary'][k[0] + 1:k[0] + 1 + len(lines)]
			if got != lines:
				raise Violation('totals', '%s:\n%s\nevaluation of files:\n%s' % (
						st['name'], '\n'.join(got), '\n'.join(lines)))
