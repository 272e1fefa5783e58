"""Random treebanks and requests for fragment extraction."""
import contextlib
import logging
from .common import *
from .treelib import gennum, brackets

FWORDS = ['the', 'cat', 'saw', 'in', 'a', 'dog', 'ate', 'on']


def mktree(sim, disc, depth=3, long=False, maxkids=2):
	words = FWORDS[:sim.pick([4, 8], 'words')]
	if not long:
		return gennum(sim, disc=disc, depth=1 + sim.choose(depth, 'depth'),
				words=words, maxkids=maxkids)
	# more than 64 or 128 nodes; a chain
	t = ['NP', ['NN', 'cat'], ['DT', 'the']]
	for n in range(sim.pick([22, 32, 45], 'chain')):
		if n % 7 == 3:
			t = ['VP', t]
		t = ['NP', [sim.pick(['NN', 'DT'], 'pos'), sim.pick(['cat', 'the'],
				'word')], t]
	return number(['S', t])[0]


def writebank(name, fmt, trees):
	if fmt == 'bracket':
		data = ''.join(brackets(t) + '\n' for t in trees)
	elif fmt == 'discbracket':
		data = ''.join(discbracket(t) + '\n' for t in trees)
	else:
		data = ''.join(export(t, n + 1) for n, t in enumerate(trees))
	put(name, data)


def mkbanks(sim, fmt, number=3, maxtrees=9):
	"""Write treebanks tb0, tb1...; returns lists of trees."""
	disc = fmt != 'bracket'
	banks = []
	maxkids = sim.pick([2, 2, 3], 'maxkids')
	for n in range(number):
		trees = []
		longtrees = sim.chance(1, 6, 'longtrees')
		for _ in range(1 + sim.choose(maxtrees, 'ntrees')):
			if banks and sim.chance(1, 4, 'shared'):
				trees.append(sim.pick(sim.pick(banks, 'bank'), 'tree'))
			elif trees and sim.chance(1, 6, 'repeated'):
				trees.append(sim.pick(trees, 'tree'))
			else:
				trees.append(mktree(sim, disc, long=longtrees and sim.chance(
						1, 3, 'long'), maxkids=maxkids))
		banks.append(trees)
		writebank('tb%d' % n, fmt, trees)
	return banks


def cut(sim, t):
	"""Cut off some constituents, leaving frontier nodes."""
	if len(t) == 2 and isinstance(t[1], tuple):
		return [t[0]] if sim.chance(1, 3, 'cutword') else t
	return [t[0]] + [[c[0]] if sim.chance(1, 4, 'cut') else cut(sim, c)
			for c in t[1:]]


def mkfrags(sim, name, banks):
	"""Write a treebank of fragments with frontier nodes, for --complete."""
	frags = []
	for _ in range(1 + sim.choose(8, 'nfrags')):
		t = sim.pick(sim.pick(banks, 'bank'), 'tree')
		while (sim.chance(1, 2, 'down') and len(t) > 1
				and isinstance(t[1], list)):
			t = sim.pick(t[1:], 'child')
		t = cut(sim, t)
		if len(t) > 1:  # a fragment consists of at least one production
			frags.append(t)
	frags = frags or [sim.pick(banks[0], 'tree')]
	put(name, ''.join(common(nodes(t)[0], nodes(t)[0]) + '\n'
			for t in frags))
	return frags


def mkopts(sim, two, batch=False, fmt='bracket'):
	"""Random options that make sense for one or two treebanks."""
	opts = ['--fmt', fmt] if fmt != 'bracket' else []
	kind = sim.choose(10, 'kind')
	if kind == 1 and two:
		opts.append('--complete')
	elif kind == 2:
		opts.append('--approx')
	elif kind == 3:
		opts.append('--nofreq')
	elif kind == 4 and not batch:
		opts.append('--cover=%s' % sim.pick(['1', '2', '2,1', '3,2'], 'cover'))
	elif kind == 5:
		opts.append('--adjacent')
	elif kind == 6:
		opts.append('--twoterms=%s' % sim.pick(['NN|VB', 'DT', '.*'], 're'))
	if 2 <= kind <= 6 and sim.chance(1, 4, 'second'):
		x = sim.pick(['--adjacent', '--twoterms=NN|VB|DT'] + (['--cover=1',
				'--cover=2,1'] if kind != 3 and not batch else []), 'second')
		if x.split('=')[0] not in [y.split('=')[0] for y in opts]:
			opts.append(x)
	if '--approx' not in opts and '--nofreq' not in opts:
		x = sim.choose(4, 'counts')
		if x == 1:
			opts.append('--indices')
		elif x == 2:
			opts.append('--relfreq')
	if sim.chance(1, 5, 'alt'):
		opts.append('--alt')
	if sim.chance(1, 5, 'debin'):
		opts.append('--debin')
	if sim.chance(1, 6, 'limit'):
		opts.append('--numtrees=%d' % (1 + sim.choose(4, 'limit')))
	return opts


def request(argv, out='out.txt', batchdir=None):
	"""Run a request; return (outcome, output or {file: output})."""
	from discodop import fragments
	for h in list(logging.getLogger('').handlers):
		logging.getLogger('').removeHandler(h)
	logging.getLogger('').addHandler(logging.StreamHandler(io.StringIO()))
	argv = list(argv) + ['--quiet']
	if batchdir:
		os.makedirs(batchdir, exist_ok=True)
		argv.append('--batch=' + batchdir)
	else:
		argv += ['-o', out]
	buf = io.StringIO()
	import gc
	with contextlib.redirect_stdout(buf):
		res = capture(_main, fragments.main, argv)
	gc.collect()
	if batchdir:
		output = {x: get(batchdir + '/' + x).decode('utf8')
				for x in sorted(os.listdir(batchdir))}
	else:
		output = get(out).decode('utf8') if os.path.exists(out) else None
	return res[:2], output, buf.getvalue()


def _main(main, argv):
	try:
		return main(argv)
	except SystemExit as err:
		return ('exit', err.code)


# --- reference implementation for bracketed trees with at most two children --
class Node:
	"""label, kids (nodes) or word, parent, position"""
	__slots__ = ('label', 'kids', 'word', 'parent', 'pos', 'prod')


def nodes(t, parent=None, pos=0):
	"""All nodes of a nested list, root first."""
	x = Node()
	x.label, x.parent, x.pos, x.kids, x.word = t[0], parent, pos, [], None
	res = [x]
	if len(t) == 2 and isinstance(t[1], tuple):
		x.word = t[1][1]
		x.prod = (x.label, x.word)
		return res
	for n, c in enumerate(t[1:]):
		sub = nodes(c, x, n)
		x.kids.append(sub[0])
		res.extend(sub)
	x.prod = (x.label, ) + tuple((c.label, ) for c in x.kids)
	return res


def common(a, b):
	"""Largest common fragment of two nodes with the same production."""
	if a.word is not None:
		return '(%s %s)' % (a.label, a.word)
	return '(%s %s)' % (a.label, ' '.join(common(x, y) if x.prod == y.prod
			else '(%s )' % x.label for x, y in zip(a.kids, b.kids)))


def maximal(t1, t2):
	"""Maximal common fragments of two lists of nodes."""
	res = set()
	for a in t1:
		for b in t2:
			if a.prod == b.prod and not (a.parent and b.parent
					and a.parent.prod == b.parent.prod and a.pos == b.pos):
				res.add(common(a, b))
	return res


def parsefrag(s):
	"""Nested lists of a fragment; frontier nodes are [label]."""
	stack, k = [[]], 0
	while k < len(s):
		if s[k] == '(':
			m = k + 1
			while s[m] not in ' )':
				m += 1
			stack.append([s[k + 1:m]])
			k = m
		elif s[k] == ')':
			x = stack.pop()
			stack[-1].append(x)
			k += 1
		elif s[k] == ' ':
			k += 1
		else:
			m = k
			while s[m] not in '()':
				m += 1
			stack[-1].append(s[k:m])
			k = m
	return stack[0][0]


def occurs(frag, x):
	if frag[0] != x.label:
		return False
	if len(frag) == 1:
		return True
	if isinstance(frag[1], str):
		return x.word == frag[1]
	return len(frag) - 1 == len(x.kids) and all(occurs(f, c)
			for f, c in zip(frag[1:], x.kids))


def reference(banks, opts, count=0):
	"""Expected {fragment: [index, ...]} of occurrences in the treebank that is
	counted; None when the reference does not cover these options."""
	known = ('--complete', '--nofreq', '--adjacent', '--indices', '--relfreq')
	if any(x not in known and not x.startswith('--numtrees') for x in opts):
		return None
	if any(len(x.kids) > 2 for bank in banks for t in bank for x in nodes(t)):
		return None
	limit = [int(x.split('=')[1]) for x in opts if x.startswith('--numtrees')]
	banks = [[nodes(t) for t in (bank[:limit[0]] if limit else bank)]
			for bank in banks]
	one, two = banks[0], banks[-1]
	if '--complete' in opts:
		frags = {common(t[0], t[0]) for t in one}
		hay = two
	else:
		frags = set()
		hay = banks[count]
		for n, a in enumerate(one):
			for m, b in enumerate(two):
				if '--adjacent' in opts and m != n + 1:
					continue
				if len(banks) == 1 and m <= n:
					continue
				frags |= maximal(a, b)
	res = {}
	for frag in frags:
		f = parsefrag(frag)
		res[frag] = [n for n, t in enumerate(hay) for x in t if occurs(f, x)]
	return res


def parseoutput(text, opts):
	"""{fragment: indices or count or None}"""
	res = {}
	for line in text.splitlines():
		if '--nofreq' in opts:
			frag, val = line, None
		else:
			frag, val = line.rsplit('\t', 1)
			if '--indices' in opts:
				val = [int(a) for a in val.strip('[]').split(',') if a.strip()]
			elif '--relfreq' in opts:
				val = int(val.split('/')[0])
			else:
				val = int(val)
		if frag in res and ('--complete' not in opts or res[frag] != val):
			return 'repeated: %r' % frag
		res[frag] = val
	return res


def expected(ref, opts):
	if '--nofreq' in opts:
		return {a: None for a in ref}
	if '--indices' in opts:
		if '--adjacent' in opts:
			return {a: [x for x in b if x - 1 in b or x + 1 in b]
					for a, b in ref.items()}
		return {a: b for a, b in ref.items() if b}
	if '--relfreq' in opts:
		return {a: len(b) for a, b in ref.items()}
	return {a: len(b) for a, b in ref.items() if b}
