"""Shared workload generators and helpers for the checks."""
import os
import io
import sys
from . import core, disk
from .core import Violation, Inconclusive

LIB = os.environ.get('DST_LIB', '')


def put(path, data):
	"""Write a file outside the simulated disk (set-up)."""
	if isinstance(data, str):
		data = data.encode('utf8')
	d = os.path.dirname(path)
	if d:
		os.makedirs(d, exist_ok=True)
	fd = disk.R['osopen'](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
	try:
		while data:
			data = data[disk.R['write'](fd, data):]
	finally:
		disk.R['osclose'](fd)


def get(path):
	"""Read a file outside the simulated disk."""
	with disk.R['open'](path, 'rb') as f:
		return f.read()


def settime(path, t):
	disk.R['utime'](path, (t, t))


def check(cond, cls, msg=''):
	if not cond:
		raise Violation(cls, msg() if callable(msg) else msg)


def note(sim, msg):
	if not hasattr(sim, 'notes'):
		sim.notes = []
	sim.notes.append(msg)


def outcome_key(out):
	"""Comparable form of an outcome: the value, or that it was an error."""
	return ('ok', out[1]) if out[0] == 'ok' else ('error', )


def capture(fn, *args, **kwargs):
	"""('ok', value) or ('exc', type name, message) of an ordinary call."""
	try:
		return ('ok', fn(*args, **kwargs))
	except (core.Hang, Violation, Inconclusive, KeyboardInterrupt):
		raise
	except Exception as err:
		return ('exc', type(err).__name__, str(err)[:2000])


# --- random trees ---------------------------------------------------------
LABELS = ['S', 'NP', 'VP', 'PP']
POS = ['DT', 'NN', 'VB', 'IN']
WORDS = ['the', 'cat', 'saw', 'dog', 'in', 'park', 'Mary', "d'été", 'ein']


def gentree(sim, depth=3, root='S', pos=0, labels=LABELS, words=WORDS,
		maxkids=2):
	"""Random tree as nested lists: [label, child, ...]; preterminals are
	[tag, word]."""
	kids = []
	n = 1 + sim.choose(maxkids, 'kids')
	for _ in range(n):
		if depth <= 1 or sim.chance(1, 2, 'leaf'):
			k = sim.choose(len(POS), 'pos')
			kids.append([POS[k], words[(k + sim.choose(3, 'word') * len(POS))
					% len(words)]])
		else:
			kids.append(gentree(sim, depth - 1,
					labels[1 + sim.choose(len(labels) - 1, 'label')],
					labels=labels, words=words, maxkids=maxkids))
	return [root] + kids


def ispre(t):
	return len(t) == 2 and isinstance(t[1], str)


def leaves(t):
	if ispre(t):
		return [t[1]]
	return [w for c in t[1:] for w in leaves(c)]


def bracket(t):
	if ispre(t):
		return '(%s %s)' % (t[0], t[1])
	return '(%s %s)' % (t[0], ' '.join(bracket(c) for c in t[1:]))


def number(t, n=0):
	"""Annotate terminals with indices; returns (tree with (i, w), n)."""
	if ispre(t):
		return [t[0], (n, t[1])], n + 1
	res = [t[0]]
	for c in t[1:]:
		x, n = number(c, n)
		res.append(x)
	return res, n


def discbracket(t):
	"""discbracket string of tree with (index, word) terminals."""
	if len(t) == 2 and isinstance(t[1], tuple):
		return '(%s %d=%s)' % (t[0], t[1][0], t[1][1])
	return '(%s %s)' % (t[0], ' '.join(discbracket(c) for c in t[1:]))


def dleaves(t):
	if len(t) == 2 and isinstance(t[1], tuple):
		return [t[1]]
	return [x for c in t[1:] for x in dleaves(c)]


def scramble(sim, t):
	"""Make a tree discontinuous by permuting word positions of two terminals."""
	t, n = number(t)
	if n > 2 and sim.chance(1, 2, 'disc'):
		i = sim.choose(n, 'disc1')
		j = sim.choose(n, 'disc2')

		def sub(x):
			if len(x) == 2 and isinstance(x[1], tuple):
				k, w = x[1]
				k = j if k == i else i if k == j else k
				return [x[0], (k, w)]
			return [x[0]] + [sub(c) for c in x[1:]]
		t = sub(t)

		def order(x):
			if len(x) == 2 and isinstance(x[1], tuple):
				return x, x[1][0]
			kids = sorted((order(c) for c in x[1:]), key=lambda y: y[1])
			return [x[0]] + [k for k, _ in kids], kids[0][1]
		t = order(t)[0]
	return t


def export(t, n, tags=False):
	"""Negra export block of a tree with (index, word) terminals.

	:param tags: with (made up) morphological and function tags."""
	def morph(x):
		if not tags or len(x[1][1]) == 5:
			return '--'
		return '.'.join((('Def', 'Indef', '*')[len(x[1][1]) % 3],
				('Sg', 'Pl')[x[1][0] % 2], ('Nom', 'Akk', 'Dat')[len(x[0])
				+ x[1][0] & 1], 'Fem'))

	def func(x, pos):
		return ('HD', 'SB', 'OA', 'MO', '--')[
				(pos + len(x[0])) % 5] if tags else '--'
	terms, lines = {}, []
	count = [500]

	def walk(x, parent, pos):
		if len(x) == 2 and isinstance(x[1], tuple):
			terms[x[1][0]] = '%s\t%s\t%s\t%s\t%d' % (x[1][1], x[0], morph(x),
					func(x, pos), parent)
			return
		me = count[0]
		count[0] += 1
		lines.append('#%d\t%s\t--\t%s\t%d' % (me, x[0], func(x, pos)
				if parent else '--', parent))
		for n, c in enumerate(x[1:]):
			walk(c, me, n)
	walk(t, 0, 0)
	return '#BOS %s\n%s\n%s\n#EOS %s\n' % (n, '\n'.join(
			terms[k] for k in sorted(terms)), '\n'.join(lines), n)
