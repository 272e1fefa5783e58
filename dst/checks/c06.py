"""C06: fragment extraction requests do not influence one another."""
import errno
from .. import core
from .. import explib
from .. import fraglib
from ..common import *

RUNS = (2200, 40000)
BUDGET = (38, 1500)
RULE = ('random treebanks x histories of 2-6 requests in one process (one or two '
	'treebanks, batch, library calls; all options; some failing: missing, '
	'malformed or unreadable treebanks, bad options, full disk); each request '
	'compared with the same request alone in a new process, batch results with a '
	'batch of their own; distinct by schedule trace')
REALPARTS = 'discodop.fragments, _fragments, containers, treebank'
STUBS = 'multiprocessing.Pool (seeded scheduler), disk errors'


def librequest(trees, kw):
	from discodop import fragments, treetransforms
	from discodop.tree import discbrackettree
	tt, ss = [], []
	for t in trees:
		tree, sent = discbrackettree(discbracket(t))
		tt.append(treetransforms.binarize(tree, dot=True))
		ss.append(sent)
	kw = dict(kw)
	if kw.pop('all', False):
		res = fragments.allfragments(tt, ss, kw['maxdepth'])
		return [(repr(a), list(b)) for a, b in res.items()]
	res = fragments.recurringfragments(tt, ss, **kw)
	return [(repr(a), list(b) if kw['indices'] else b) for a, b in res.items()]


def perform(sim, req, n):
	"""Perform one request; return comparable outcome."""
	out = '%s-out%d' % (sim.name, n)
	sim.disk.plan = []
	if req.get('fault'):
		sim.disk.plan = [disk.Fault(**req['fault'])]
	try:
		if req['kind'] == 'lib':
			r = capture(librequest, req['trees'], req['kw'])
			return r[:2]
		if req['kind'] == 'batch':
			res, output, text = fraglib.request(req['argv'], batchdir=out)
			return res, output, text.replace(out, 'OUT')
		res, output, text = fraglib.request(req['argv'], out)
		return res, output, text
	finally:
		sim.disk.plan = []


def history(sim, reqs):
	res = []
	for n, req in enumerate(reqs):
		sim.event('request %d' % n)
		res.append(perform(sim, req, n))
	return res


def run(sim):
	explib.silent()
	fmt = sim.pick(['bracket', 'discbracket', 'export', 'bracket'], 'fmt')
	banks = fraglib.mkbanks(sim, fmt, 3, maxtrees=6)
	put('bad', {'bracket': '(S (NP (DT the)) (VP (VB saw)))\n(S (NP x y',
			'discbracket': '(S (NP (DT 0=the)) (VP (VB 1=saw)))\n(S (NP 0=x ',
			'export': '#BOS 1\nthe\tDT\t--\t--\t0\n#EOS 1\n#BOS 2\nthe\n'}[fmt])
	put('empty', '')
	if fmt == 'bracket':
		banks.append(fraglib.mkfrags(sim, 'tb3', banks))
	reqs = []
	for _ in range(2 + sim.choose(5, 'requests')):
		k = sim.choose(10, 'kind')
		if reqs and sim.chance(1, 5, 'again'):
			reqs.append(dict(sim.pick(reqs, 'which')))
			continue
		if k >= 8:
			trees = sim.pick(banks[:3], 'bank')
			kw = dict(disc=sim.chance(2, 3, 'disc'), indices=sim.chance(1, 2,
					'indices'), maxdepth=sim.choose(3, 'maxdepth'),
					numproc=sim.pick([1, 1, 2], 'numproc'))
			if sim.chance(1, 3, 'all'):
				kw = dict(all=True, maxdepth=1 + sim.choose(3, 'maxdepth'))
			reqs.append(dict(kind='lib', trees=trees, kw=kw))
			continue
		batch = 3 <= k <= 5
		two = batch or sim.chance(1, 2, 'two')
		opts = fraglib.mkopts(sim, two, batch=batch, fmt=fmt)
		files = ['tb%d' % sim.choose(3, 'tb')]
		if batch:
			files += ['tb%d' % sim.choose(3, 'tb') for _ in range(1
					+ sim.choose(3, 'nfiles'))]
			files = files[:1] + sorted(set(files[1:]))
		elif two:
			files.append('tb%d' % sim.choose(3, 'tb'))
		if '--complete' in opts and fmt == 'bracket' and sim.chance(
				1, 2, 'frags'):
			files[0] = 'tb3'
		if k == 6:
			x = sim.choose(7, 'failure')
			if x < 3:
				files[sim.choose(len(files), 'badfile')] = ['bad', 'empty',
						'missing'][x]
			elif x == 3:
				opts.append('--cover=x')
			elif x == 4:
				opts.append('--twoterms=(')
			elif x == 5:
				opts.append('--nonsense')
			else:
				opts.append('--numproc=-1')
		elif not batch and sim.chance(1, 6, 'parallel'):
			opts.append('--numproc=2')
		req = dict(kind='batch' if batch else 'main', argv=opts + files)
		if k == 7 and '--numproc=2' not in req['argv']:
			# a worker process that fails before it is ready is replaced for
			# ever by multiprocessing.Pool; see C04
			req['fault'] = dict(kind=sim.pick(['read', 'write', 'open'], 'op'),
					at=sim.choose(3, 'at'), err=sim.pick([errno.EIO,
					errno.ENOSPC], 'errno'))
		reqs.append(req)
	sim.sample = dict(reqs=[{a: b for a, b in req.items() if a != 'trees'}
			for req in reqs], banks=[get('tb%d' % n).decode()
			for n in range(len(banks))])
	sim.key = sim.sample
	want = []
	for n, req in enumerate(reqs):
		r = core.call(sim, lambda sim: perform(sim, req, n), 'ref')
		check(r[0] == 'ok', 'request-' + r[0], lambda: '%r: %s' % (req,
				core.describe(r)))
		want.append(r[1])
		if req['kind'] == 'batch' and r[1][0] == ('ok', None):
			# each treebank on its own
			files = [x for x in req['argv'] if x.startswith('tb')]
			opts = req['argv'][:-len(files)]
			for x in files[1:]:
				r2 = core.call(sim, lambda sim: perform(sim, dict(kind='batch',
						argv=opts + [files[0], x]), 1000 + n), 'one' + x)
				name = '%s_%s' % (files[0], x)
				check(r2[0] == 'ok' and r2[1][1].get(name) == r[1][1].get(name),
						'batch-differs', lambda: '%r\n%s\non its own:\n%s' % (
						req['argv'], r[1][1].get(name), r2[1]))
				sim.stat('batch treebanks')
				if fmt == 'bracket':
					k = [int(a[2:]) for a in (files[0], x)]
					batchref(sim, [banks[k[0]], banks[k[1]]], opts,
							r[1][1].get(name))
	r = core.call(sim, lambda sim: history(sim, reqs), 'hist')
	check(r[0] == 'ok', 'history-' + r[0], lambda: core.describe(r))
	for n, (got, ref) in enumerate(zip(r[1], want)):
		sim.stat('requests')
		if ref[0] != ('ok', None) and reqs[n]['kind'] != 'lib':
			sim.stat('failing requests')
		check(got == ref, 'differs', lambda: 'request %d %r:\n%s\nalone:\n%s' % (
				n, {a: b for a, b in reqs[n].items() if a != 'trees'}, got, ref))


def batchref(sim, banks, opts, text):
	"""Compare with reference: occurrences in the second treebank."""
	ref = fraglib.reference(banks, opts, count=-1)
	if ref is None:
		return
	sim.stat('compared with reference')
	got = fraglib.parseoutput(text, opts)
	want = fraglib.expected(ref, opts)
	check(got == want, 'not-the-reference', lambda: '%r\nexpected: %r' % (
			got, want))
