"""C05: parallel fragment extraction equals sequential extraction."""
from .. import core
from .. import explib
from .. import fraglib
from ..common import *

RUNS = (3000, 40000)
BUDGET = (38, 1500)
RULE = ('random treebanks (bracket, discbracket, export; trees of up to 150 nodes) '
	'x options (one or two treebanks, approximate, complete, cover, adjacent, '
	'two terminals, indices) or library calls or double-DOP grammars x worker '
	'count x completion order; compared with one worker; division of work checked '
	'directly; distinct by schedule trace')
REALPARTS = 'discodop.fragments, _fragments, containers, grammar, treebank'
STUBS = 'multiprocessing.Pool (seeded scheduler)'


def command(sim, argv, name, stdin=None):
	def fn(sim):
		if stdin:
			fd = os.open(stdin, os.O_RDONLY)
			os.dup2(fd, 0)
			sys.stdin = disk.sim_open(0, 'r', closefd=False)
		return fraglib.request(argv, name)
	return core.call(sim, fn, name)


def lines(text, approx=False):
	return sorted(text.splitlines())


def library(sim, trees, kw):
	from discodop import fragments, treetransforms
	from discodop.tree import discbrackettree
	explib.silent()
	tt, ss = [], []
	for t in trees:
		tree, sent = discbrackettree(discbracket(t))
		tt.append(treetransforms.binarize(tree, dot=True))
		ss.append(sent)
	res = fragments.recurringfragments(tt, ss, **kw)
	return sorted((repr(a), list(b) if kw['indices'] else b)
			for a, b in res.items())


def doubledop(sim, trees, numproc, depth, iterate):
	from discodop import grammar, treetransforms
	from discodop.tree import discbrackettree
	explib.silent()
	tt, ss = [], []
	for t in trees:
		tree, sent = discbrackettree(discbracket(t))
		tt.append(treetransforms.addfanoutmarkers(
				treetransforms.binarize(tree, horzmarkov=1)))
		ss.append(sent)
	g, bt, altweights, frags = grammar.doubledop(tt, ss, numproc=numproc,
			maxdepth=depth)
	bt = list(bt)
	# names of new labels and order of rules depend on order of fragments
	return (sorted(repr(f[0]) for f in frags), len(g), len(bt),
			sorted(repr(w) for _, w in g),
			{k: sorted(map(repr, v)) for k, v in altweights.items()})


def division(sim):
	"""Every pair of trees is compared in exactly one chunk."""
	from discodop import fragments
	n = 1 + sim.choose(sim.pick([10, 50, 400], 'scale'), 'numtrees')
	k = 1 + sim.choose(16, 'numproc')
	work = list(fragments.workload(n, 1, k))
	check(work == sorted(work) and work[0][0] == 0 and work[-1][1] == n
			and all(a < b for a, b in work)
			and all(x[1] == y[0] for x, y in zip(work, work[1:])),
			'work-division', lambda: '%d trees, %d processes: %r' % (n, k, work))


def run(sim):
	kind = sim.choose(8, 'kind')
	numproc = sim.pick([2, 3, 2, 4, 8], 'numproc')
	r = core.call(sim, division, 'division')
	check(r[0] == 'ok', 'work-division', lambda: core.describe(r))
	if kind >= 6:
		banks = fraglib.mkbanks(sim, 'discbracket', 1)
		if kind == 6:
			kw = dict(disc=True, indices=sim.pick([True, False], 'indices'),
					maxdepth=sim.choose(4, 'maxdepth'),
					maxfrontier=sim.pick([999, 1, 0], 'maxfrontier'))
			fns = [lambda s, k=k: library(s, banks[0], dict(kw, numproc=k))
					for k in (1, numproc)]
		else:
			depth = sim.choose(3, 'maxdepth')
			fns = [lambda s, k=k: doubledop(s, banks[0], k, depth, False)
					for k in (1, numproc)]
		sim.sample = dict(kind='library' if kind == 6 else 'doubledop',
				trees=[discbracket(t) for t in banks[0]])
		sim.key = sim.sample
		a, b = [core.call(sim, fn, 'lib%d' % n) for n, fn in enumerate(fns)]
		sim.stat('library calls', 2)
		if a[0] != 'ok':
			sim.stat('failing requests')
			check(b[0] == 'exc' and a[0] == 'exc', 'outcome-differs',
					lambda: '%s; sequential: %s' % (core.describe(b),
					core.describe(a)))
			return
		check(b[0] == 'ok', 'parallel-fails', lambda: core.describe(b))
		check(a[1] == b[1], 'library-differs', lambda: '%r\nsequential: %r' % (
				b[1], a[1]))
		return
	fmt = sim.pick(['bracket', 'discbracket', 'export', 'bracket'],
			'fmt')
	two = sim.chance(1, 2, 'two')
	banks = fraglib.mkbanks(sim, fmt, 2 if two else 1)
	opts = fraglib.mkopts(sim, two, fmt=fmt)
	files = ['tb0', 'tb1'] if two else ['tb0']
	if '--complete' in opts and fmt == 'bracket' and sim.chance(1, 2, 'frags'):
		banks[0] = fraglib.mkfrags(sim, 'tb0', banks)
	sim.sample = dict(opts=opts, banks=[get(x).decode() for x in files])
	sim.key = sim.sample
	stdin = None
	a = command(sim, opts + files, 'a')
	pfiles = files[:]
	if fmt != 'export' and sim.chance(1, 5, 'stdin'):
		k = sim.choose(len(files), 'stdinfile')
		stdin, pfiles[k] = files[k], '-'
	sim.disk.chunks = sim.chance(1, 4, 'chunks')
	b = command(sim, opts + pfiles + ['--numproc=%d' % numproc], 'b', stdin)
	sim.disk.chunks = False
	sim.stat('requests', 2)
	if a[0] != 'ok' or a[1][0] != ('ok', None):
		sim.stat('failing requests')
		check(b[0] == 'ok' and b[1][0][0] == 'exc', 'outcome-differs',
				lambda: 'parallel %r; sequential: %r' % (b, a))
		return
	check(b[0] == 'ok' and b[1][0] == a[1][0], 'parallel-fails',
			lambda: repr(b))
	check(lines(a[1][1]) == lines(b[1][1]), 'differs', lambda:
			'%d workers:\n%s\nsequential:\n%s' % (numproc, b[1][1], a[1][1]))
	if a[1][1]:
		sim.stat('nonempty results')
	ref = None
	if fmt == 'bracket':
		ref = fraglib.reference(banks, opts)
	if ref is not None:
		got = fraglib.parseoutput(a[1][1], opts)
		want = fraglib.expected(ref, opts)
		sim.stat('compared with reference')
		check(got == want, 'not-the-reference', lambda: '%r\nexpected: %r' % (
				got, want))
