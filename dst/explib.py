"""Small random experiments: treebanks, parameter files, results."""
import io
import gzip
import logging
import contextlib
from .common import *
from .treelib import gennum, isterm, continuous

OBJECTIVES = ['mpp', 'mpd', 'mcp', 'shortest', 'sl-dop', 'sl-dop-simple']
# words by part of speech (see common.gentree)
EWORDS = ['the', 'cat', 'saw', 'in', 'a', 'dog', 'ate', 'on', 'this', 'park',
		'sees', 'at']


def mktrees(sim, ntrain, ntest, disc, root='ROOT', depth=3):
	"""(training trees, test trees); some test trees are in the training set,
	some have unknown words or constructions."""
	words = EWORDS[:sim.pick([8, 4, 12], 'nwords')]

	def one(words):
		while True:
			t = gennum(sim, disc=disc, depth=1 + sim.choose(depth, 'depth'),
					words=words)
			if not isterm(t):
				return [root, t]
	train = [one(words) for _ in range(ntrain)]
	test = []
	for _ in range(ntest):
		if sim.chance(1, 2, 'seen'):
			test.append(sim.pick(train, 'which'))
		else:
			test.append(one(sim.pick([words, words[:4], EWORDS + ['zyx']],
					'vocabulary')))
	return train, test


def mkstages(sim, disc, kinds=None):
	"""Random list of stages (dictionaries)."""
	kinds = kinds or ['coarse', 'dop', 'ctf', 'ctfdop', 'rerank', 'est',
			'ostag', 'ctfmore', 'collapse']
	kind = sim.pick(kinds, 'stages')
	split = disc
	pcfg = dict(name='pcfg', mode='pcfg', split=split)
	if split and sim.chance(1, 2, 'markorigin'):
		pcfg['markorigin'] = True
	final = 'plcfrs' if disc or sim.chance(1, 3, 'plcfrs') else 'pcfg'

	def dop(name, **kw):
		res = dict(name=name, mode=final,
				dop=sim.pick(['doubledop', 'reduction', 'dop1'], 'dop'),
				objective=sim.pick(OBJECTIVES, 'objective'),
				estimator=sim.pick(['rfe', 'ewe', 'bon'], 'estimator'),
				m=sim.pick([50, 5, 1], 'm'), **kw)
		if res['dop'] == 'dop1':
			res['maxdepth'] = 2
			res['estimator'] = 'rfe'
		if res['dop'] == 'doubledop' and sim.chance(1, 4, 'nocover'):
			res['maxdepth'] = sim.choose(3, 'maxdepth')
		if res['dop'] == 'reduction':
			res['packedgraph'] = False
		return res
	k = sim.pick([50, 5, 1e-5], 'k')
	if kind == 'coarse':
		if disc and sim.chance(1, 2, 'direct'):
			return [dict(name='plcfrs', mode='plcfrs')]
		return [pcfg]
	if kind == 'est':
		if disc:
			return [dict(name='plcfrs', mode='plcfrs', estimates='SXlrgaps')]
		return [dict(name='plcfrs', mode='plcfrs', estimates='SX')]
	if kind == 'dop':
		return [dop('dop')]
	if kind == 'ctf':
		return [pcfg, dict(name='fine', mode=final, prune='pcfg', k=k)]
	if kind == 'ctfdop':
		return [pcfg, dop('dop', prune='pcfg', k=k)]
	if kind == 'ctfmore':
		return [pcfg, dict(name='fine', mode=final, prune='pcfg', k=k),
				dop('dopa', prune='fine', k=k), dop('dopb', prune=sim.pick(
				['fine', 'fine', 'dopa'], 'prune'), k=k)]
	if kind == 'collapse':
		return [dict(pcfg, name='c0', collapse=('ptb', 0)),
				dict(pcfg, name='c1', collapse=('ptb', 1 + sim.choose(2,
				'level')), prune='c0', k=k),
				dict(name='fine', mode=final, prune='c1', k=k)]
	if kind == 'ostag' and not disc:
		return [pcfg, dict(name='ostag', mode='pcfg', dop='ostag', prune='pcfg',
				objective=sim.pick(['mpp', 'mpd'], 'objective'), k=k, m=20)]
	if sim.chance(1, 2, 'mcrerank'):
		if sim.chance(1, 3, 'rerankdop'):
			# scores are (number of fragments, probability) otherwise
			return [pcfg, dict(dop('dop', prune='pcfg', k=k), objective=sim.pick(
					['mpp', 'mpd'], 'rerankobjective')), dict(name='rerank',
					mode='mc-rerank', prune='dop', k=20)]
		return [pcfg, dict(name='rerank', mode='mc-rerank', prune='pcfg', k=20)]
	return [pcfg, dict(name='rerank', mode='dop-rerank', prune='pcfg', k=20,
			dop='reduction', objective='mpp')]


def mkparams(sim, stages, fmt, ntrain, ntest, **kw):
	"""Parameter dictionary as in a parameter file."""
	prm = dict(stages=stages, corpusfmt=fmt, evalparam='eval.prm',
			traincorpus=dict(path='train.tb', numsents=ntrain, maxwords=20),
			testcorpus=dict(path='test.tb', numsents=ntest, maxwords=20,
				skiptrain=False),
			binarization=dict(method='default', factor='right',
				h=sim.pick([1, 0, 2], 'h'), v=sim.pick([1, 2], 'v')),
			postagging=None, transformations=None, punct=None,
			verbosity=2, numproc=1)
	if sim.chance(1, 3, 'unknownword'):
		prm['postagging'] = dict(method='unknownword',
				model=sim.pick(['4', 'base', '6'], 'unkmodel'),
				unknownthreshold=1 + sim.choose(2, 'unkthreshold'),
				openclassthreshold=sim.choose(3, 'openclass'),
				simplelexsmooth=True)
	if sim.chance(1, 4, 'transform'):
		prm['transformations'] = sim.pick([['PTBbrackets'], ['PARENT'],
				['TAGPA', 'PUNCT'], ['PTBbrackets', 'NP-PP', 'MARK-YEAR']],
				'transformations')
	if sim.chance(1, 6, 'longsents'):
		prm['testcorpus']['maxwords'] = 3
	if fmt == 'export' and sim.chance(1, 5, 'rr'):
		prm['relationalrealizational'] = dict(
				adjunctionlabel='MO', ignorefunctions=sim.pick([('OA', ), (),
				('HD', 'SB')], 'ignorefunctions'),
				ignorecategories=sim.pick([[], ['VP']], 'ignorecategories'),
				adjleft=sim.chance(1, 2, 'adjleft'),
				adjright=sim.chance(1, 2, 'adjright'),
				morphlevels=sim.choose(4, 'morphlevels'),
				percolatefeatures=sim.pick([None, ['Sg', 'Akk', 'Def', 'Fem'],
					['Nom']], 'percolatefeatures'))
	prm.update(kw)
	return prm


def write(prm, name, trees, ids=None):
	"""A treebank file in the format of the parameters."""
	fmt = prm['corpusfmt']
	if fmt == 'export':
		data = ''.join(export(t[1], ids[n] if ids else n + 1, bool(prm.get(
				'relationalrealizational'))) for n, t in enumerate(trees))
	elif fmt == 'bracket':
		def bracket(t):
			if isterm(t):
				return '(%s %s)' % (t[0], t[1][1])
			return '(%s %s)' % (t[0], ' '.join(bracket(c) for c in t[1:]))
		data = ''.join(bracket(t) + '\n' for t in trees)
	else:
		data = ''.join('%s\n' % discbracket(t) for t in trees)
	put(name, data)


def prmtext(prm):
	return ''.join('%s=%r,\n' % x for x in prm.items())


def mkexp(sim, kinds=None, ntrain=None, ntest=None, **kw):
	"""Write a random experiment: train.tb, test.tb, eval.prm; return params."""
	disc = sim.chance(1, 2, 'disc')
	fmt = sim.pick(['export', 'discbracket'] if disc else ['bracket', 'export',
			'discbracket'], 'fmt')
	if ntrain is None:
		ntrain = 1 + sim.choose(5, 'ntrain')
	if ntest is None:
		ntest = 1 + sim.choose(5, 'ntest')
	train, test = mktrees(sim, ntrain, ntest, disc)
	prm = mkparams(sim, mkstages(sim, disc, kinds), fmt, ntrain, ntest, **kw)
	write(prm, 'train.tb', train)
	write(prm, 'test.tb', test)
	put('eval.prm', 'LABELED 1\nDELETE_LABEL ROOT\n')
	sim.sample = dict(prm=prmtext(prm), train=[discbracket(t) for t in train],
			test=[discbracket(t) for t in test])
	return prm, train, test


def silent():
	"""Discard log messages (but keep logging calls effective)."""
	logging.getLogger('').setLevel(logging.DEBUG)
	logging.lastResort = None
	devnull = logging.StreamHandler(io.StringIO())
	logging.getLogger('').addHandler(devnull)


def runexp(prm, name, rerun=False, numproc=1):
	"""Run an experiment through the command line function."""
	from discodop import cli
	silent()
	put(name + '.prm', prmtext(dict(prm, numproc=numproc)))
	with contextlib.redirect_stdout(io.StringIO()):
		cli.runexp([name + '.prm'] + (['--rerun'] if rerun else []))


def results(name, only=None):
	"""Comparable contents of a result directory: {file: contents}."""
	res = {}
	for x in sorted(os.listdir(name)):
		if only is not None and x not in only:
			continue
		path = os.path.join(name, x)
		data = get(path)
		if x == 'output.log':
			continue
		if x == 'stats.tsv':
			lines = [a.split('\t') for a in data.decode('utf8').splitlines()]
			col = lines[0].index('elapsedtime')
			data = '\n'.join('\t'.join(a[:col] + a[col + 1:]) for a in lines)
		elif x.endswith('.pickle.gz'):
			data = gzip.decompress(data)
		elif x.endswith('.gz'):
			data = gzip.decompress(data).decode('utf8')
		elif x.endswith('.npz'):
			import numpy as np
			with disk.R['open'](path, 'rb') as f:
				f = np.load(f, allow_pickle=False)
				data = {k: (f[k].shape, f[k].tobytes()) for k in f.files}
		elif not x.endswith(('.g', '.ct', '.idx')):
			data = data.decode('utf8')
		res[x] = data
	return res


def summary(name):
	"""The evaluation summaries at the end of the log."""
	log = get(os.path.join(name, 'output.log')).decode('utf8', 'replace')
	k = log.rfind('wrote results to')
	return [line for line in log[k:].splitlines()
			if not line.startswith(('time elapsed', 'wrote results'))]


def preterminals(t):
	"""List of (index, word, tag)."""
	if isterm(t):
		return [(t[1][0], t[1][1], t[0])]
	return [x for c in t[1:] for x in preterminals(c)]


def indextree(t):
	"""Bracketed tree with indices as terminals."""
	if isterm(t):
		return '(%s %d)' % (t[0], t[1][0])
	return '(%s %s)' % (t[0], ' '.join(indextree(c) for c in t[1:]))
