"""C26: the parser server answers each request as a fresh server would."""
import errno
import difflib
import json
import re
from .. import core
from .. import weblib
from .. import explib
from ..common import *

RUNS = (600, 12000)
BUDGET = (45, 1200)
RULE = ('random experiments (one or two languages) x histories of requests '
	'(sentences, tags, objectives, estimators, required and blocked spans, '
	'output types, invalid values), up to four at the same time, preempted '
	'between lines of the server and parser, long pauses, read errors while '
	'grammars are loaded, any order of directories; all answers compared with '
	'those of a server started for that request; distinct by schedule')
REALPARTS = ('web/parse.py, templates, parser, grammar reading, compiled parsers '
	'and disambiguation')
STUBS = ('Flask and cachelib (dst/webstubs), clock, disk; grammars extracted '
	'by a simulated experiment')
HEADRULES = '''ROOT right-to-left S
S left-to-right VP VB
NP right-to-left NN
VP left-to-right VB
PP left-to-right IN
'''
WORDS = explib.EWORDS + ['zyx', 'qqq']


def mask(x, ids):
	"""Remove times and random identifiers."""
	if x[0] != 'response':
		return x[:1]
	text = re.sub(r'\d[-\d.e+]*s\b', 'TIME', x[3])
	# edges are shifted randomly to keep them apart
	text = re.sub(r'<svg.*?</svg>', lambda a: re.sub(r'-?\d+(\.\d+)?', 'N',
			a.group()), text, flags=re.DOTALL)
	for n, a in enumerate(sorted(ids)):
		text = text.replace(a, '?' * len(a))
	return x[:3] + (text, )


def difference(got, want):
	if got[:3] != want[:3] or len(got) < 4:
		return 'got %r\nfresh server: %r' % (got, want)
	return '\n'.join(difflib.unified_diff(want[3].split('\n'),
			got[3].split('\n'), 'fresh server', 'got', lineterm='', n=0))


def mkrequest(sim, sents, langs, nonterms):
	sent = sim.pick(sents, 'sent')
	args = {}
	text = ' '.join(w for w, _ in sent)
	if sim.chance(1, 6, 'tagged'):
		text = ' '.join('%s/%s' % (w, t) for w, t in sent)
	elif sim.chance(1, 8, 'spaces'):
		text = '  '.join(w for w, _ in sent) + ' '
	args['sent'] = text
	if sim.chance(1, 3, 'html'):
		args['html'] = '1'
	for key, vals in [('objfun', ['mpp', 'mpd', 'shortest', 'sl-dop',
			'sl-dop-simple']), ('est', ['rfe', 'ewe', 'bon']),
			('marg', ['nbest']), ('coarse', ['pcfg'])]:
		if sim.chance(1, 2, key):
			args[key] = sim.pick(vals, key)
	if sim.chance(2, 3, 'lang'):
		args['lang'] = sim.pick(langs + ['detect'], 'which')
	for key in ('require', 'block'):
		if sim.chance(1, 6, key):
			args[key] = json.dumps([(sim.pick(nonterms, 'label'),
					sorted({sim.choose(len(sent), 'a'),
					sim.choose(len(sent), 'b')}))])
	if sim.chance(1, 12, 'invalid'):
		key, val = sim.pick([('objfun', 'x'), ('lang', 'xx'), ('sent', ''),
				('require', '[["NP", [99]]]'), ('require', '{'),
				('block', '[["NP", ["a"]]]'), ('block', '[]'),
				('sent', 'a ' * 41), ('est', 'bon2'), ('require', '["NP"]')],
				'what')
		args[key] = val
	path = sim.pick(['/parser/parse'] * 9 + ['/parser/'], 'path')
	if path == '/parser/':
		args['html'] = '1'
	return path, args, None


def tokens(t):
	return [(w, p) for _, w, p in sorted(explib.preterminals(t))]


def run(sim):
	langs = ['en', 'nl'][:sim.pick([1, 2, 2], 'nlangs')]
	sents, samples = [], []
	put('heads.txt', HEADRULES)
	for lang in langs:
		kw = {}
		prm, train, test = explib.mkexp(sim, kinds=['coarse', 'dop', 'ctf', 'dop',
				'ctfdop', 'ctfdop', 'est', 'ctfmore'])
		if sim.chance(1, 4, 'headrules'):
			prm['binarization']['headrules'] = 'heads.txt'
		prm['verbosity'] = 1
		samples.append(sim.sample)
		r = core.call(sim, lambda sim: explib.runexp(prm, 'exp'), 'exp')
		if r[0] != 'ok':
			raise Inconclusive('experiment failed: %s' % core.describe(r))
		os.makedirs('grammars', exist_ok=True)
		os.rename('exp', 'grammars/' + lang)
		put('grammars/%s/heads.txt' % lang, HEADRULES)
		sents.extend(tokens(t) for t in train[:2] + test[:2])
		sents.append([(sim.pick(WORDS, 'word'), 'NN')
				for _ in range(1 + sim.choose(4, 'len'))])
	sents.append([(sim.pick(WORDS[-2:], 'word'), 'NN')])
	sents = [sim.pick(sents, 'sents') for _ in range(3)]
	nonterms = ['NP', 'VP', 'S', 'PP']
	reqs = [mkrequest(sim, sents, langs, nonterms)
			for _ in range(2 + sim.choose(5, 'nrequests'))]
	for _ in range(sim.choose(3, 'nsame')):
		r = sim.pick(reqs, 'again')
		args = dict(r[1])
		kind = sim.choose(7, 'variant')
		if kind == 1 and r[0] != '/parser/':
			if args.pop('html', None) is None:
				args['html'] = '1'
		elif kind == 2:
			args['sent'] = args['sent'].replace(' ', '  ')
		elif kind == 3:
			args['objfun'] = sim.pick(['mpp', 'shortest'], 'objfun')
		elif kind == 4:
			# same span with the other meaning
			span = args.pop('require', None)
			if 'block' in args:
				args['require'] = args.pop('block')
			if span is not None:
				args['block'] = span
			if 'require' not in args and 'block' not in args:
				args['block'] = json.dumps([(sim.pick(nonterms, 'label'), [0])])
				reqs.insert(0, (r[0], dict(args, require=args['block']), None))
				del reqs[0][1]['block']
		elif kind == 5:
			args['est'] = sim.pick(['rfe', 'ewe', 'bon'], 'est')
		elif kind == 6 and len(args) > 1:
			key = sim.pick(sorted(set(args) - {'sent'}), 'drop')
			if key != 'html' or r[0] != '/parser/':
				del args[key]
		reqs.insert(sim.choose(len(reqs) + 1, 'pos'), (r[0], args, None))
	width = 1 + sim.choose(4, 'width')
	if sim.chance(1, 3, 'sequential'):
		width = 1
	pauses = {n: sim.pick([4000, 4999, 5001, 90000], 'pause')
			for n in range(len(reqs)) if sim.chance(1, 6, 'haspause')}
	plan = []
	if sim.chance(1, 6, 'faulty'):
		plan = [disk.Fault(sim.pick(['read', 'open'], 'op'), sim.choose(12,
				'at'), err=errno.EIO, match='grammars')]
	sim.cfg['preempt'] = sim.pick([30, 8, 200], 'preempt')
	sim.cfg['traceprefix'] = LIB
	sim.sample = dict(experiments=samples, requests=reqs, width=width,
			pauses=pauses, plan=repr(plan))

	def start(sim):
		explib.silent()
		ids = set()
		mod = weblib.load('parse')
		orig = mod.randid

		def tracked():
			x = orig()
			ids.add(x)
			return x
		mod.randid = tracked
		return mod, ids

	def session(sim):
		sim.disk.shuffle = True
		sim.disk.plan = plan
		preempt, sim.cfg['preempt'] = sim.cfg['preempt'], 0
		try:
			mod, ids = start(sim)
		except Exception as err:  # e.g., grammar cannot be read
			if not any(f.fired for f in plan):
				raise
			return None
		sim.disk.plan = []
		sim.cfg['preempt'] = preempt
		res = weblib.concurrently(sim, mod, reqs, width, pauses)
		return [mask(x, ids) for x in res]

	def fresh(req):
		def session(sim):
			sim.cfg['preempt'] = 0
			mod, ids = start(sim)
			return mask(weblib.request(mod, *req), ids)
		return session
	out = core.call(sim, session, 'server')
	check(out[0] != 'hang', 'blocked', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	if out[1] is None:
		sim.stat('failed to start')
		return
	memo = {}
	for n, (req, got) in enumerate(zip(reqs, out[1])):
		key = repr(req)
		if key not in memo:
			memo[key] = core.call(sim, fresh(req), 'ref')
			check(memo[key][0] == 'ok', 'fresh-server-failed', lambda:
					'%s\n%r\n%r' % (core.describe(memo[key]), req, sim.sample))
		want = memo[key][1]
		if want[0] == 'response' and want[1] == 200 and len(want[3]) > 300:
			sim.stat('parsed')
		elif want[0] == 'error':
			sim.stat('request errors')
		check(got == want, 'differs', lambda: 'request %d: %r\n%s\n'
				'%r' % (n, req, difference(got, want), sim.sample))
