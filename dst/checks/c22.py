"""C22: evaluation totals do not depend on the order in which sentences arrive."""
import io
import contextlib
from collections import Counter
from .. import core
from ..common import *
from ..treelib import *

RUNS = (5000, 200000)
BUDGET = (45, 1200)
RULE = ('random gold and candidate trees and parameters x random arrival order x '
	'scores, summaries and per-sentence reports requested at random moments x '
	'pairs rejected with an error in between; compared with the evaluation of the '
	'two complete files and with a small reference count; distinct by order, '
	'requests and data')
REALPARTS = 'discodop.eval (all), treebank reader, treedist'
STUBS = 'arrival order (workers); standard output captured'
FUNCS = ['--', 'SB', 'OA', 'HD']


def perturb(sim, t):
	"""A candidate tree: relabel, flatten or retag some nodes."""
	if isterm(t):
		return [sim.pick([t[0], t[0], 'NN', 'VB'], 'retag'), t[1]]
	label = sim.pick([t[0], t[0], t[0], 'NP', 'VP', 'S'], 'relabel')
	kids = []
	for c in t[1:]:
		c2 = perturb(sim, c)
		if not isterm(c2) and sim.chance(1, 5, 'flatten'):
			kids.extend(c2[1:])
		else:
			kids.append(c2)
	if len(kids) > 1 and sim.chance(1, 6, 'group'):
		k = sim.choose(len(kids) - 1, 'at')
		kids[k:k + 2] = [[sim.pick(['NP', 'VP', 'X'], 'new')] + kids[k:k + 2]]
	return [label] + kids


def withfunc(sim, text):
	"""Add function tags in the export format."""
	res = []
	for line in text.splitlines():
		if not line.startswith(('#BOS', '#EOS')):
			x = line.split('\t')
			x[3] = sim.pick(FUNCS, 'func')
			line = '\t'.join(x)
		res.append(line)
	return '\n'.join(res) + '\n'


def run(sim):
	n = 1 + sim.choose(7, 'npairs')
	words = ['the', 'cat', 'saw', ',', '.']
	gold, cand = [], []
	for _ in range(n):
		t = gennum(sim, words=words, depth=1 + sim.choose(4, 'depth'))
		if isterm(t):
			t = ['S', t]
		gold.append(t)
		cand.append(t if sim.chance(1, 5, 'same') else perturb(sim, t))
	fun = sim.chance(1, 2, 'functags')
	gtext = [export(t, k + 1) for k, t in enumerate(gold)]
	ctext = [export(t, k + 1) for k, t in enumerate(cand)]
	if fun:
		gtext = [withfunc(sim, x) for x in gtext]
		ctext = [withfunc(sim, x) for x in ctext]
	put('gold.export', ''.join(gtext))
	put('cand.export', ''.join(ctext))
	lines, opts = [], []
	plain = sim.chance(1, 3, 'defaults')
	if not plain:
		if sim.chance(1, 3, 'unlabeled'):
			lines.append('LABELED 0')
		if sim.chance(1, 2, 'cutoff'):
			lines.append('CUTOFF_LEN %d' % sim.choose(5, 'len'))
		for x in sim.shuffled(['DELETE_LABEL ROOT', 'DELETE_LABEL VB',
				'DELETE_LABEL_FOR_LENGTH NN', 'DELETE_WORD ,', 'DELETE_WORD .',
				'EQ_LABEL NP VP', 'EQ_LABEL VP PP', 'EQ_WORD cat the',
				'DELETE_ROOT_PRETERMS 1'], 'params')[:sim.choose(5, 'nparams')]:
			lines.append(x)
		opts = [x for x in ('--disconly', '--ted', '--la') if sim.chance(
				1, 3, x)]
	if sim.chance(1, 6, 'heads'):
		put('heads.txt', ''.join('%s\tLEFT-TO-RIGHT\tVB NN\n' % x
				for x in ['NP', 'VP', 'PP', 'S', 'X', 'ROOT']))
		opts.append('--headrules=heads.txt')
	if sim.chance(1, 3, 'functions'):
		opts.append('--functions=leave')
	put('param.prm', ''.join(x + '\n' for x in lines))
	order = sim.shuffled(range(n), 'arrival')
	queries = [[sim.pick(['scores', 'summary', 'pair', 'pair'], 'query')
			for _ in range(sim.choose(3, 'nqueries'))] for _ in order]
	bad = sim.choose(n, 'badat') if sim.chance(1, 4, 'bad') else None
	badkind = sim.choose(2, 'badkind')
	sim.sample = dict(gold=[discbracket(t) for t in gold], cand=[
			discbracket(t) for t in cand], param=lines, opts=opts,
			order=order, queries=queries, bad=bad)
	sim.key = repr(sim.sample)

	def whole(sim):
		from discodop import eval as ev
		out = io.StringIO()
		sys.argv = ['discodop', 'eval', 'gold.export', 'cand.export',
				'param.prm'] + opts
		with contextlib.redirect_stdout(out):
			ev.main()
		return out.getvalue()

	def setup(ev, read=False):
		from discodop import treebank
		param = ev.readparam('param.prm')
		param['DISC_ONLY'] = '--disconly' in opts
		param['TED'] |= '--ted' in opts
		param['LA'] |= '--la' in opts
		param['DEP'] = any('headrules' in x for x in opts)
		kw = dict(functions='leave' if '--functions=leave' in opts
				else 'remove', headrules='heads.txt' if param['DEP'] else None)
		return ev.Evaluator(param, 1), treebank.NegraCorpusReader(
				'gold.export', **kw), treebank.NegraCorpusReader(
				'cand.export', **kw), param

	def arrival(sim):
		from discodop import eval as ev
		evaluator, g, c, param = setup(ev)
		gt, gs, ct, cs = g.trees(), g.sents(), c.trees(), c.sents()
		keys = list(gt)
		sofar, res = [], []

		def partial():
			"""Fresh evaluation of the sentences so far."""
			e, g2, c2, _ = setup(ev)
			gt, gs, ct, cs = g2.trees(), g2.sents(), c2.trees(), c2.sents()
			for k in sorted(sofar):
				e.add(k, gt[k], gs[k], ct[k], cs[k])
			return e
		for pos, m in enumerate(order):
			k = keys[m]
			if bad == pos:
				if badkind:
					x = (k, gt[k].copy(True), list(gs[k]), ct[k].copy(True),
							['other'] + list(cs[k])[1:])
				else:
					x = (k, gt[k].copy(True), list(gs[k]), None, list(cs[k]))
				try:
					evaluator.add(*x)
				except Exception:
					pass
				else:
					if badkind and x[2] != x[4]:
						res.append('accepted')
						return res, None, None
			pair = evaluator.add(k, gt[k], gs[k], ct[k], cs[k])
			sofar.append(k)
			for q in queries[pos]:
				if q == 'scores':
					a, b = evaluator.acc.scores(), partial().acc.scores()
				elif q == 'summary':
					a, b = evaluator.summary(), partial().summary()
				else:
					pair.scores(), pair.bracketings()
					pair.visualize(), pair.visualize(gold=True)
					continue
				if a != b:
					return ['interim %s after %s: %r\nexpected %r' % (q,
							sofar, a, b)], None, None
		out = io.StringIO()
		with contextlib.redirect_stdout(out):
			if param['LABELED'] and param['DEBUG'] != -1:
				evaluator.breakdowns()
			print(evaluator.summary())
		return res, out.getvalue(), evaluator.acc.scores()
	exp = core.call(sim, lambda sim: capture(whole, sim), 'whole')
	act = core.call(sim, lambda sim: capture(arrival, sim), 'arrival')
	check(exp[0] == 'ok' and act[0] == 'ok', 'failed', lambda: '%r %r\n%r' % (
			exp, act, sim.sample))
	exp, act = exp[1], act[1]
	if exp[0] != 'ok' or act[0] != 'ok':
		check(exp[0] == act[0] != 'ok', 'error-depends-on-order', lambda:
				'%r\n%r\n%r' % (exp, act, sim.sample))
		sim.stat('both-fail')
		return
	problems, got, scores = act[1]
	check(not problems, 'interim-result', lambda: '%s\n%r' % (problems,
			sim.sample))
	check(got == exp[1], 'depends-on-order', lambda: 'arrival order:\n%s\n'
			'complete files:\n%s\n%r' % (got, exp[1], sim.sample))
	if plain and not opts:
		g, c, exact, tags, ntags = Counter(), Counter(), 0, 0, 0
		for k, (a, b) in enumerate(zip(gold, cand)):
			x, y = brackets_(['ROOT', a], k), brackets_(['ROOT', b], k)
			g += x
			c += y
			exact += x == y
			p, q = dict(tagsof(a)), dict(tagsof(b))
			tags += sum(p[i] == q[i] for i in p)
			ntags += len(p)
		match = sum((g & c).values())
		lr, lp = 100 * match / sum(g.values()), 100 * match / sum(c.values())
		for name, val in (('lr', lr), ('lp', lp), ('ex', 100 * exact / n),
				('tag', 100 * tags / ntags), ('lf', 2 * lp * lr / (lp + lr)
				if match else None)):
			if val is not None:
				check(abs(float(scores[name]) - val) < .006, 'wrong-total:'
						+ name, lambda: '%s: %s, expected %s\n%r' % (name,
						scores[name], val, sim.sample))


def brackets_(t, n):
	if isterm(t):
		return Counter()
	res = Counter([(n, t[0], tuple(sorted(i for i, _ in dleaves(t))))])
	for c in t[1:]:
		res += brackets_(c, n)
	return res


def tagsof(t):
	if isterm(t):
		return [(t[1][0], t[0])]
	return [x for c in t[1:] for x in tagsof(c)]
