"""C29: pages of the corpus browser show the sentences asked for."""
import re
import gzip
import errno
from html import unescape
from .. import core
from .. import weblib
from .. import explib
from ..common import *
from ..treelib import dleaves

RUNS = (1500, 150000)
BUDGET = (35, 1200)
RULE = ('random corpora (1-3 texts of up to 65 annotated sentences), 1-8 requests '
	'for overviews, trees and sentences with each feature, up to four at the same '
	'time, preempted between lines; corpora replaced in between; split reads, '
	'shuffled directories, read errors, authentication; all answers compared with '
	'those of a new server that does one request, and the sentences shown with '
	'the corpus; distinct by schedule and fault trace')
REALPARTS = ('web/browse.py, templates, treebank readers, head rules, '
	'treebanktransforms features, tree.DrawTree')
STUBS = ('Flask, pandas and matplotlib (dst/webstubs), disk faults')
FEATS = ['average dependency length', 'd-level', 'rare words',
		'PP/REL modifiers', 'punctuation', 'direct speech']
PHRASES = ['NP', 'PP', 'REL', 'SMAIN', 'INF', 'WHSUB']
POS = ['ww', 'vg', 'n', 'let', 'lid']
MORPHS = ['--', 'WW(pv,tgw,ev)', 'VG(neven)', 'VG(onder)', 'N(eigen,ev)',
		'LID(bep)']
FUNCS = ['--', 'mod', 'su', 'obj1', 'vc', 'hd', 'det']
BWORDS = ['de', 'kat', 'zag', 'hond', 'in', '.', ',', '"', '-', "d'\u00e9t\u00e9",
		'\u4e2d', 'Marie', '?']


def annotate(sim, t):
	"""Lines of a tree in export format, with morphology and functions."""
	block = export(t, 0).rstrip('\n').split('\n')[1:-1]
	res = []
	for line in block:
		a = line.split('\t')
		if a[0].startswith('#') and len(a) == 5 and a[0][1:].isdigit():
			a[3] = sim.pick(FUNCS, 'func')
		else:
			a[1], a[2], a[3] = (sim.pick(POS, 'pos'), sim.pick(MORPHS, 'morph'),
					sim.pick(FUNCS, 'func'))
		res.append(a)
	return res


class Text:
	"""A text with sentences with a unique word each."""

	def __init__(self, sim, name, shapes, length):
		self.sents, blocks = [], []
		for n in range(1, length + 1):
			rows = [list(a) for a in sim.pick(shapes, 'shape')]
			rows[0][0] = '%ss%d' % (name, n)
			blocks.append('#BOS %d\n%s\n#EOS %d\n' % (n, '\n'.join(
					'\t'.join(a) for a in rows), n))
			self.sents.append([a[0] for a in rows
					if not re.match(r'#\d', a[0])])
		self.data = ''.join(blocks)


def mkrequest(sim, texts):
	names = sorted(texts)
	kind = sim.choose(12, 'kind')
	if kind == 0:
		return sim.pick(['/', '/browse', '/browsesents'], 'overview'), {}
	text = sim.choose(len(names), 'text')
	length = len(texts[names[text]].sents)
	sent = sim.pick([1, 2, 11, 19, 20, 21, 39, 40, 41, length, length + 1,
			1 + sim.choose(length, 'any')], 'sent')
	args = dict(text=text, sent=sent)
	if kind < 6:
		for x in ('ajax', 'nofunc', 'nomorph'):
			if sim.chance(1, 3, x):
				args[x] = ''
		return '/browse', args
	if sim.chance(5, 6, 'feat'):
		args['feat'] = sim.pick(FEATS, 'which')
	return sim.pick(['/browsesents', '/'], 'path'), args


def strip(x):
	return unescape(re.sub(r'</?(?:font|span|a|pre|li)\b[^>]*>', '', x)).split()


def shown(path, args, body):
	"""[(number, words)] of the sentences shown on a page."""
	if path == '/browse':
		return [(int(a), strip(b)) for a, b in re.findall(
				r'<pre id="t(\d+)"[^>]*>(.*?)</pre>', body, re.S)]
	start = int(re.search(r'<ol start=(\d+)>', body).group(1))
	return [(start + n, strip(a)) for n, a in enumerate(
			re.search(r'<ol start(.*?)</ol>', body, re.S).group(1).split(
			'<li>')[1:])]


def wanted(path, args, text):
	"""The numbers of the sentences that should be shown."""
	sent = args['sent']
	if path == '/browse':
		start = max(1, sent - sent % 20)
	else:
		start = max(1, max(11, sent) - 10)
	return list(range(start, min(start + 20, len(text.sents) + 1)))


def run(sim):
	shapes = []
	for _ in range(2 + sim.choose(4, 'nshapes')):
		t = gentree(sim, 2 + sim.choose(2, 'depth'), labels=PHRASES,
				words=BWORDS)
		shapes.append(annotate(sim, scramble(sim, t)))

	def mktext(name):
		return Text(sim, name, shapes, sim.pick([2, 8, 19, 20, 21, 30, 40, 65],
				'length'))
	texts = {}
	for n in range(1 + sim.choose(3, 'ntexts')):
		name = sim.pick(['a', 'b', 'text'], 'name') + str(n)
		texts[name] = mktext(name)
	passwd = None
	auths = [('x', 'y')]
	if sim.chance(1, 3, 'password'):
		passwd = sim.pick(['alice: secret\nbob: x:y\n', 'alice:secret\n',
				'alice: secret\nnonsense\n', '\nalice:secret\n\n'], 'passwd')
		auths = [None, ('alice', 'secret'), ('alice', 'x'), ('bob', 'secret'),
				('', ''), ('alice', ''), ('alice', 'secret')]
	elif sim.chance(1, 6, 'anonymous'):
		auths = [None, ('x', 'y')]
	preempt = sim.pick([8, 20, 60, 200], 'preempt')
	sim.cfg['traceprefix'] = LIB + sim.pick(['/web/browse', '/discodop/treebank',
			'', '/discodop/tree'], 'traceprefix')
	chunks, shuffle = sim.chance(1, 2, 'chunks'), sim.chance(1, 2, 'shuffle')

	def prepare(where, texts):
		put(where + '/alpino.headrules', disk.R['open'](
				os.path.join(LIB, 'alpino.headrules')).read())
		put(where + '/web/sonar-word.freqsort.lower.gz', gzip.compress(
				'de\t9\nin\t8\n.\t7\n,\t6\nkat\t1\n'.encode('utf8'), mtime=0))
		if passwd is not None:
			put(where + '/web/treesearchpasswd.txt', passwd)
		for name, text in texts.items():
			put('%s/web/corpus/%s.export' % (where, name), text.data)

	def start(where):
		explib.silent()
		os.chdir(where + '/web')
		return weblib.load('browse')
	prepare('w', texts)
	phases = []
	cur = dict(texts)
	for n in range(1 + sim.choose(2, 'phases')):
		if n:
			for name in sorted(cur):
				if sim.chance(1, 2, 'edit'):
					cur[name] = mktext(name)
		reqs = []
		for _ in range(1 + sim.choose(5, 'nrequests')):
			if reqs and sim.chance(1, 4, 'again'):
				req = sim.pick(reqs, 'which')[:2]
			else:
				req = mkrequest(sim, cur)
			reqs.append(req + (sim.pick(auths, 'auth'), ))
		plan = []
		if sim.chance(1, 4, 'faulty'):
			plan = [disk.Fault(sim.pick(['open', 'read'], 'op'), sim.choose(6,
					'at'), err=sim.pick([errno.EIO, errno.EMFILE], 'errno'),
					match='corpus')]
		phases.append((dict(cur), reqs, plan, 1 + sim.choose(4, 'width')))
	failstart = []
	if passwd and sim.chance(1, 4, 'failstart'):
		failstart = [disk.Fault('open', 0, err=sim.pick([errno.EIO,
				errno.EACCES], 'errno'), match='passwd')]
	sim.sample = dict(texts={a: (len(b.sents), b.data[:300])
			for a, b in texts.items()}, phases=[([(a, len(b.sents))
			for a, b in sorted(x[0].items())], *x[1:]) for x in phases],
			passwd=passwd, failstart=failstart)

	def server(sim):
		sim.cfg['preempt'] = 0
		sim.disk.plan = failstart
		sim.disk.shuffle = shuffle
		try:
			mod = start('w')
		except Exception:
			if any(f.fired for f in failstart) or 'nonsense' in (passwd or ''):
				return None
			raise
		sim.cfg['preempt'] = preempt
		res = []
		for n, (cur, reqs, plan, width) in enumerate(phases):
			if n:
				for name in cur:
					put('corpus/%s.export' % name, cur[name].data)
			sim.disk.plan = plan
			sim.disk.chunks = chunks
			x = weblib.concurrently(sim, mod, reqs, width)
			res.append((x, sum(f.fired for f in plan)))
			sim.disk.plan = []
			sim.disk.chunks = False
		return res
	out = core.call(sim, server, 'server')
	check(out[0] != 'hang', 'blocked', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	if out[1] is None:
		sim.stat('failed to start')
		return
	for n, ((cur, reqs, plan, _), (res, nfired)) in enumerate(
			zip(phases, out[1])):
		where = 'r%d' % n
		prepare(where, cur)
		todo = sorted({repr(r[:2]): r[:2] for r in reqs}.items())

		def alone(sim):
			sim.cfg['preempt'] = 0
			sim.disk.shuffle = False
			mod = start(where)
			return {a: weblib.request(mod, *b, ('alice', 'secret'))
					for a, b in todo}
		ref = core.call(sim, alone, 'alone%d' % n)
		check(ref[0] == 'ok', 'reference-failed', lambda: '%s\n%r' % (
				core.describe(ref), sim.sample))
		nfail = 0
		for req, got in zip(reqs, res):
			if req[2] is None or passwd and req[2] != ('alice', 'secret'):
				sim.stat('denied')
				check(got[0] == 'response' and got[1] == 401
						and 'login' in got[3], 'unprotected', lambda:
						'request %r\n%.1000r\n%r' % (req, got, sim.sample))
				continue
			want = ref[1][repr(req[:2])]
			path, args = req[:2]
			if args:
				name = sorted(cur)[args['text']]
				nums = wanted(path, args, cur[name])
			if want[0] == 'response' and args:
				sim.stat('page')
				check(want[1] == 200, 'status', lambda: '%r\n%r' % (req,
						want[:3]))
				found = shown(path, args, want[3])
				check([a for a, _ in found] == nums, 'numbers', lambda: '%r\n'
						'shown %r\nexpected %r\n%r' % (req, [a for a, _ in
						found], nums, sim.sample))
				for a, b in found:
					words = cur[name].sents[a - 1]
					check(b == words if path != '/browse' else
							all(w in b for w in words if w.isalnum()),
							'wrong-sentence', lambda: '%r: sentence %d\nshown '
							'%r\nexpected %r\n%r' % (req, a, b, words,
							sim.sample))
			elif want[0] == 'error':
				# NB: a page without any sentences
				check(args and not nums, 'request-fails', lambda: '%r\n%r\n%r'
						% (req, want, sim.sample))
				sim.stat('beyond the end')
			else:
				sim.stat('overview')
				check(want[1] == 200 and all(a in want[3] for a in cur),
						'overview', lambda: '%r\n%r' % (req, want))
			if got[0] == want[0] == 'error' or got == want:
				continue
			check(nfired, 'differs:' + path, lambda:
					'request %r\ngot %.3000r\nalone %.3000r\n%r' % (req, got,
					want, sim.sample))
			nfail += 1
			check(got[0] == 'error' or got[1] >= 500, 'failure-not-reported',
					lambda: 'request %r\ngot %.3000r\nalone %.3000r\n%r' % (req,
					got, want, sim.sample))
		check(nfail <= nfired, 'spurious-error', lambda: '%r' % sim.sample)
