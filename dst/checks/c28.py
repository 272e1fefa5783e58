"""C28: a failed memory allocation is reported and does no damage."""
from .. import core
from .. import cmdlib
from ..common import *
from ..searchlib import *
from ..treelib import brackets
from ..fraglib import mktree
from .c07 import opensearcher, perform

RUNS = (3000, 60000)
BUDGET = (35, 1500)
RULE = ('library histories (vocabulary shared by treebanks that are read, added '
	'to, serialized; fragments extracted, counted, listed), histories of '
	'fragment queries on one searcher, and fragments / treesearch / grammar / '
	'runexp commands x the n-th and the following allocations of compiled code '
	'fail; results compared with an execution without failures; every failed '
	'operation is repeated; distinct by operations and failing allocations')
REALPARTS = ('discodop._fragments, containers, treesearch, fragments, grammar, '
	'runexp, cli')
STUBS = ('allocator of the compiled modules (guard areas, garbage in fresh and '
	'freed memory, any allocation may fail), file system, worker pools, clocks')
ASSUMES = ('allocations of the Python runtime and of the C++ standard library '
	'do not fail')


def mkplan(sim, total, lengths=None):
	at = sim.choose(max(1, total), 'at')
	n = sim.pick(lengths or [1, 1, 2, 3, 1000000], 'consecutive')
	return at, n


# --- library ---------------------------------------------------------------
def bigtree(sim):
	"""Tree with more than 512 nodes."""
	kids = []
	for a in range(24):
		kids.append(['NP'] + [[sim.pick(['NN', 'DT'], 'pos'), sim.pick([
				'cat', 'the'], 'word')] for b in range(12)])
	return number(['S'] + kids)[0]


def mktrees(sim, disc, big):
	kind = sim.choose(8, 'bankkind')
	if kind == 7 and big:
		few = [mktree(sim, disc, maxkids=3) for _ in range(3)]
		# words that occur often, in different contexts
		for n in range(2):
			few.append(number(['S'] + [['NP', ['NN', 'cat'], [sim.pick(POS,
					'pos'), 'the'], ['NN', 'cat']] for _ in range(n + 1)]
					+ [['NN', 'cat']] * (n + 1))[0])
		return [few[n % 5] for n in range(530)]
	res = [mktree(sim, disc, maxkids=3, long=sim.chance(1, 12, 'long'))
			for _ in range(1 + sim.choose(6, 'ntrees'))]
	if kind == 6 and big:
		res.insert(sim.choose(len(res), 'where'), bigtree(sim))
	return res


class Env:
	"""Objects of a library history."""

	def __init__(self, banks, fmts):
		self.banks, self.fmts = banks, fmts
		self.vocab = None
		self.ct = {}

	def items(self, k, a=None, b=None):
		from discodop.tree import brackettree, discbrackettree
		from discodop.treetransforms import binarize, handledisc
		res = []
		for t in self.banks[k][a:b]:
			tree, sent = discbrackettree(discbracket(t))
			res.append((binarize(handledisc(tree), dot=True), sent))
		return res

	def listing(self):
		return {k: [(c.extract(n, self.vocab), c.extractsent(n, self.vocab))
				for n in range(c.len)] for k, c in self.ct.items()}

	def step(self, what, *args):
		return getattr(self, 'do_' + what)(*args)

	def do_vocab(self):
		from discodop.containers import Vocabulary
		self.vocab = Vocabulary()

	def do_getctrees(self, k, m):
		from discodop._fragments import getctrees
		d = getctrees(self.items(k), None if m is None else self.items(m),
				vocab=self.vocab)
		self.ct[k] = d['trees1']
		if m is not None:
			self.ct[m] = d['trees2']

	def do_read(self, k):
		from discodop._fragments import readtreebank
		c = readtreebank('bank%d' % k, self.vocab, fmt=self.fmts[k])
		c.indextrees(self.vocab)
		self.ct[k] = c

	def do_add(self, k, m):
		c = self.ct[k]
		had = getattr(self, 'had', None)
		if had is None:
			self.had = had = c.len
		c.addtrees(self.items(m)[c.len - had:], self.vocab)
		self.had = None

	def do_picklevocab(self):
		import pickle
		self.vocab = pickle.loads(pickle.dumps(self.vocab))

	def do_picklect(self, k):
		import pickle
		self.ct[k] = pickle.loads(pickle.dumps(self.ct[k]))

	def do_filevocab(self):
		from discodop.containers import Vocabulary
		self.vocab.tofile('vocab.idx')
		self.vocab = Vocabulary.fromfile('vocab.idx')

	def do_filect(self, k):
		from discodop.containers import Ctrees
		self.ct[k].tofile('x.ct')
		self.ct[k] = Ctrees.fromfilemut('x.ct')

	def bitsets(self, k, m):
		from discodop._fragments import extractfragments
		res = extractfragments(self.ct[k], 0, 0, self.vocab,
				self.ct[m] if m != k else None, approx=False, disc=True)
		return sorted(res), [res[a] for a in sorted(res)]

	def do_extract(self, k, m, kw):
		from discodop._fragments import extractfragments
		return sorted(extractfragments(self.ct[k], 0, 0, self.vocab,
				self.ct[m] if m != k else None, **kw).items())

	def do_counts(self, k, m, indices):
		from discodop._fragments import exactcounts
		frags, bits = self.bitsets(k, m)
		res = exactcounts(bits, self.ct[k], self.ct[m], indices=indices)
		return list(zip(frags, flatten(res, indices)))

	def do_slice(self, k, m, indices, maxresults):
		from discodop._fragments import exactcountsslice
		frags, bits = self.bitsets(k, m)
		res = exactcountsslice(bits, self.ct[k], self.ct[m], indices=indices,
				maxresults=maxresults)
		return list(zip(frags, flatten(res, indices)))

	def do_complete(self, k, disc):
		from discodop._fragments import completebitsets, exactcounts
		c = self.ct[k]
		trees, bits = completebitsets(c, self.vocab, c.maxnodes, disc=disc)
		return trees, list(exactcounts(bits, c, c, maxnodes=c.maxnodes))

	def do_all(self, k, depth, disc):
		from discodop._fragments import allfragments
		return sorted(allfragments(self.ct[k], self.vocab, depth, 3,
				disc=disc).items())


def flatten(res, indices):
	if indices == 0:
		return list(res)
	if indices == 1:
		return [list(a) for a in res]
	return [(list(a), len(b)) for a, b in res]


def mksteps(sim, banks):
	"""A history; returns list of steps."""
	res = [('vocab', )]
	have = []
	nb = len(banks)
	large = {k for k, b in enumerate(banks) if len(b) > 500 or any(
			len(dleaves(t)) > 200 for t in b)}
	k = 0
	while k < nb:
		if sim.chance(1, 2, 'read'):
			res.append(('read', k))
		elif k + 1 < nb and sim.chance(1, 3, 'two'):
			res.append(('getctrees', k, k + 1))
			have.append(k)
			k += 1
		else:
			res.append(('getctrees', k, None))
		have.append(k)
		k += 1
		for _ in range(sim.choose(4, 'steps')):
			what = sim.pick(['extract', 'counts', 'slice', 'complete', 'all',
					'add', 'picklevocab', 'picklect', 'filevocab', 'filect',
					'slice', 'extract'], 'what')
			a, b = sim.pick(have, 'a'), sim.pick(have, 'b')
			if set(have) & large and sim.chance(1, 3, 'large'):
				what = 'slice'
				a = b = sim.pick(sorted(set(have) & large), 'c')
			if what == 'all' and a in large:
				what = 'complete'
			if what == 'extract':
				kw = sim.pick([{}, dict(adjacent=True), dict(twoterms='NN|VB')],
						'kw')
				res.append((what, a, b, dict(kw, disc=sim.chance(1, 2, 'disc'),
						approx=True)))
			elif what == 'counts':
				res.append((what, a, b, sim.choose(3, 'indices')))
			elif what == 'slice':
				res.append((what, a, b, 2 - sim.choose(3, 'indices'), sim.pick(
						[None, None, 1, 7], 'maxresults')))
			elif what == 'complete':
				res.append((what, a, sim.chance(1, 2, 'disc')))
			elif what == 'all':
				res.append((what, a, 1 + sim.choose(3, 'depth'),
						sim.chance(1, 2, 'disc')))
			elif what == 'add':
				m = sim.choose(nb, 'm')
				res.append((what, a, m))
				if m in large:
					large.add(a)
			elif what in ('picklect', 'filect'):
				res.append((what, a))
			else:
				res.append((what, ))
	return res


def library(sim):
	nb = 1 + sim.choose(3, 'banks')
	big = sim.chance(1, 6, 'big')
	fmts = [sim.pick(['bracket', 'discbracket'], 'fmt') for _ in range(nb)]
	banks = [mktrees(sim, f != 'bracket', big) for f in fmts]
	for n, (f, b) in enumerate(zip(fmts, banks)):
		w = brackets if f == 'bracket' else discbracket
		put('bank%d' % n, ''.join(w(t) + '\n' for t in b))
	steps = mksteps(sim, banks)

	def reference(sim):
		env = Env(banks, fmts)
		res = []
		for s in steps:
			disk.mallocplan()
			out = capture(env.step, *s)
			count = disk.malloccount()[0]
			res.append((out, count, env.listing() if s[0] in ('read', 'add',
					'getctrees') else None))
		return res, env.listing()
	ref = core.call(sim, reference, 'ref')
	check(ref[0] == 'ok', 'reference', lambda: '%s\n%r' % (core.describe(ref),
			steps))
	ref, final = ref[1]
	for s, (out, _, _) in zip(steps, ref):
		check(out[0] == 'ok', 'reference-step', lambda: '%r: %r' % (s, out))
	plans = [[mkplan(sim, ref[n][1]) for _ in range(sim.choose(3, 'tries'))]
			if ref[n][1] else [] for n in range(len(steps))]
	sim.sample = dict(op='library', steps=repr(steps), plans=repr(plans))
	sim.key = [sim.sample, repr(banks)]

	def body(sim):
		env = Env(banks, fmts)
		lists = {}
		failed = 0
		for s, ps, (exp, _, after) in zip(steps, plans, ref):
			for p in ps + [None]:
				disk.mallocplan(*(p or (-1, 0)))
				out = capture(env.step, *s)
				hit = disk.malloccount()[1]
				disk.mallocplan()
				if hit:
					sim.fault('malloc')
					failed += out[0] != 'ok'
				msg = lambda: '%r, allocations %r fail (%d did): %r' % (
						s, p, hit, out)
				if out[0] == 'ok':
					break
				check(hit, 'unusable:' + s[0], msg)
				check(out[1] == 'MemoryError', 'other-error:' + s[0], msg)
				now = env.listing()
				for k, v in lists.items():
					x = now[k]
					if s[0] == 'add' and s[1] == k:
						x = x[:len(v)]
						check(now[k] == after[k][:len(now[k])], 'state:add',
								lambda: '%s\n%r' % (msg(), now[k]))
					check(x == v, 'state:' + s[0], lambda:
							'%s\nnow: %r\nwas: %r' % (msg(), x, v))
			check(out == exp, 'differs:' + s[0], lambda:
					'%s\nexpected: %r' % (msg(), exp))
			if after is not None:
				lists = env.listing()
				check(lists == after, 'trees:' + s[0], lambda:
						'%s\n%r\nexpected: %r' % (msg(), lists, after))
		return failed
	out = core.call(sim, body, 'act')
	check(out[0] == 'ok', 'died:library', lambda: '%s\n%r' % (
			core.describe(out), sim.sample))
	sim.stat('library steps', len(steps))
	sim.stat('failures reported', out[1])


# --- searching ---------------------------------------------------------------
def searching(sim):
	files = []
	allt = []
	for n in range(1 + sim.choose(3, 'nfiles')):
		ext = sim.pick(['mrg', 'mrg', 'dbr', 'export'], 'ext')
		ts = gentrees(sim)
		allt.extend(ts)
		if sim.chance(1, 12, 'many'):
			ts = [ts[k % len(ts)] for k in range(600)]
		files.append('a/f%d.%s' % (n, ext))
		put(files[-1], writetrees(ts if ext == 'mrg' else [
				scramble(sim, t) for t in ts] if len(ts) < 100 else [
				number(t)[0] for t in ts], ext))
		settime(files[-1], sim.clock - 1000)
	reqs = []
	for _ in range(1 + sim.choose(6, 'nreq')):
		frs = []
		for _ in range(1 + sim.choose(2, 'nfrag')):
			t = sim.pick(subfrags(sim.pick(allt, 'qt')), 'qs')
			frs.append(fragstr(cut(sim, t)))
		kw = {}
		kind = sim.pick(['counts', 'indices', 'trees', 'sents', 'breakdown'],
				'kind')
		if sim.chance(1, 4, 'start'):
			kw['start'] = 1 + sim.choose(5, 'start')
		if kind in ('trees', 'sents'):
			kw['maxresults'] = sim.pick([None, 1, 3, 100], 'max')
		reqs.append((kind, '\n'.join(frs), kw))
	numproc = 1 + sim.choose(2, 'numproc')
	inmemory = sim.chance(1, 2, 'inmemory')

	def session(plans):
		def body(sim):
			disk.mallocplan(*(plans[0] if plans else (-1, 0)))
			out = capture(opensearcher, 'frag', list(files), numproc,
					inmemory=inmemory)
			counts = [disk.malloccount()]
			if out[0] != 'ok':
				disk.mallocplan()
				first = out
				out = capture(opensearcher, 'frag', list(files), numproc,
						inmemory=inmemory)
				if out[0] != 'ok':
					return [(first, out)], counts
				res = [(first, ('ok', None))]
			else:
				res = [(('ok', None), )]
			s = out[1]
			for n, req in enumerate(reqs, 1):
				disk.mallocplan(*(plans[n] if plans and plans[n]
						else (-1, 0)))
				outs = [result(capture(perform, s, req), req)]
				counts.append(disk.malloccount())
				# worker processes may still have failures to come
				while outs[-1][0] != 'ok' and len(outs) < 1 + 6 * numproc:
					disk.mallocplan()
					outs.append(result(capture(perform, s, req), req))
					if numproc == 1:
						break
				res.append(tuple(outs))
			return res, counts
		return body

	def result(out, req):
		return ('ok', perfile(req[0], out[1], files)) if out[0] == 'ok' else out
	ref = core.call(sim, session(None), 'ref')
	check(ref[0] == 'ok', 'reference', lambda: core.describe(ref))
	ref, counts = ref[1]
	for x in disk.R['listdir']('a'):
		# indexes
		if 'a/' + x not in files and sim.chance(1, 2, 'fresh'):
			disk.R['unlink']('a/' + x)
	plans = [mkplan(sim, a if numproc == 1 else a + 4,
			[1, 1, 2, 3] if numproc > 1 else None) if a and sim.chance(1, 2, 'fail') else None
			for a, _ in counts]
	if plans[0] is None:
		plans[0] = (-1, 0)
	sim.sample = dict(op='search', files=files, requests=repr(reqs),
			plans=repr(plans), numproc=numproc, inmemory=inmemory)
	sim.key = [sim.sample, sorted(get(f) for f in files)]
	act = core.call(sim, session(plans), 'act')
	check(act[0] == 'ok', 'died:search', lambda: '%s\n%r' % (
			core.describe(act), sim.sample))
	act, counts = act[1]
	for n, (outs, c) in enumerate(zip(act, counts)):
		what = 'open' if n == 0 else reqs[n - 1][0]
		exp = ref[n][0]
		msg = lambda: '%r failing %r: %r\nexpected: %r\n%r' % (
				reqs[n - 1] if n else 'open', plans[n], outs, exp, sim.sample)
		if c[1]:
			sim.fault('malloc')
		if outs[0][0] != 'ok' and outs[0][:2] != exp[:2]:
			sim.stat('failures reported')
			check(plans[n] is not None or numproc > 1, 'unusable:' + what, msg)
			check(outs[0][1] == 'MemoryError' or numproc > 1
					and 'MemoryError' in outs[0][2], 'other-error:' + what, msg)
		if len(outs) == 1 or exp[0] == 'ok':
			check(outs[-1] == exp, ('differs:' if len(outs) == 1 else 'retry:')
					+ what, msg)
	sim.stat('requests', len(reqs))


# --- commands ----------------------------------------------------------------
def command(sim):
	kind, case = cmdlib.mkcase(sim, ['fragments', 'fragments', 'search',
			'search', 'grammar', 'grammar', 'runexp'])
	if case is None:
		return
	ref = case.run(sim, 'ref', 'ref')
	if not ref.ok:
		sim.stat('%s fails' % kind)
		check(ref.status is not None and ref.status >= 0, 'reference', lambda:
				repr((case, ref)))
		return
	want = case.outputs('ref', ref)
	desc = []
	total = ref.mallocs[0]
	if not total:
		sim.stat('no allocations: %s' % kind)
		return
	for n in range(2):
		plan = mkplan(sim, total)

		def setup(sim):
			disk.mallocplan(*plan)
		r = case.run(sim, 'out', 'cmd', setup)
		disk.mallocplan()
		desc.append('%r: status %r' % (plan, r.status))
		sim.sample = dict(op='command', case=repr(case), total=total,
				outcomes=desc)
		sim.key = sim.sample
		msg = lambda: '%r allocations %r of %d fail: %r' % (case, plan, total,
				r)
		if r.status is None and any(a.startswith('--numproc')
				and not a.endswith('=1') for a in case.argv):
			# a multiprocessing.Pool replaces workers whose initializer fails
			# without end, as long as there is no memory
			raise Inconclusive('workers cannot be initialized')
		check(r.status is not None, 'hang', msg)
		check(r.status >= 0 and r.status < 128, 'died:command', msg)
		if r.mallocs[1]:
			sim.fault('malloc')
		if not r.ok:
			sim.stat('failures reported')
			continue
		got = case.outputs('out', r)
		sim.stat('%s succeeds' % kind)
		for x in sorted(set(want) | set(got)):
			check(got.get(x) == want.get(x), 'incomplete', lambda:
					'%s\n%s: %r\nexpected: %r' % (msg(), x, got.get(x),
					want.get(x)))


def run(sim):
	sim.cfg['clockjumps'] = False
	what = sim.pick(['library', 'library', 'library', 'search', 'command'],
			'what')
	if what == 'library':
		library(sim)
	elif what == 'search':
		searching(sim)
	else:
		command(sim)
