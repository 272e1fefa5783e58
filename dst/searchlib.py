"""Workloads and oracles for treebank search."""
import os
import re
from .common import *
from . import core

RWORDS = ['the', 'cat', 'cats', 'dog', 'sat', 'mat', 'ünï', 'éé', 'x', 'thecat']
QUERIES = ['cat', 'the', r'\bthe\b', 'c[a-z]t', 'sat|mat', 'ü', 'é+', 'dog$',
		'^the', 'zebra', 't', r'\w+s\b', '(?:the )+cat']


def gentext(sim, maxlines=7, blank=True):
	lines = []
	for _ in range(1 + sim.choose(maxlines, 'lines')):
		lines.append(' '.join(sim.pick(RWORDS, 'rword') for _ in range(
				1 + sim.choose(4, 'nwords'))))
		if blank and sim.chance(1, 6, 'blank'):
			lines.extend([''] * (1 + sim.choose(2, 'nblank')))
	text = '\n'.join(lines)
	if not sim.chance(1, 8, 'nonl'):
		text += '\n'
	if blank and sim.chance(1, 10, 'leadblank'):
		text = '\n' + text
	return text


def regexoracle(text, query, start=None, end=None, ignorecase=False):
	"""[(lineno, sent, mstart, mend)] by applying query to each sentence."""
	flags = re.MULTILINE | (re.IGNORECASE if ignorecase else 0)
	pat = re.compile(query.encode('utf8'), flags)
	res = []
	n = 0
	for line in text.encode('utf8').split(b'\n'):
		if not line:
			continue
		n += 1
		if (start and n < start) or (end is not None and n > end):
			continue
		for m in pat.finditer(line):
			res.append((n, line.decode('utf8'),
					len(line[:m.start()].decode('utf8', 'replace')),
					len(line[:m.end()].decode('utf8', 'replace')),
					m.group(0).decode('utf8')))
	return res


def gentrees(sim, maxtrees=5, kind='mrg', **kw):
	"""A small treebank: list of trees."""
	return [gentree(sim, 3, **kw) for _ in range(
			1 + sim.choose(maxtrees, 'ntrees'))]


def writetrees(trees, ext):
	if ext == 'mrg':
		return ''.join(bracket(t) + '\n' for t in trees)
	if ext == 'dbr':
		return ''.join(discbracket(t) + '\t' + ' '.join(
				w for _, w in sorted(dleaves(t))) + '\n'
				if False else discbracket(t) + '\n' for t in trees)
	return ''.join(export(t, n) for n, t in enumerate(trees, 1))


def subfrags(t, top=True):
	"""All (sub)trees that can serve as fragment source."""
	if ispre(t):
		return [t]
	res = [t]
	for c in t[1:]:
		res.extend(subfrags(c, False))
	return res


def cut(sim, t, top=True):
	"""Random fragment of tree t: cut some children to frontier nodes."""
	if ispre(t):
		if sim.chance(1, 2, 'cutlex'):
			return [t[0], '']
		return list(t)
	if not top and sim.chance(1, 3, 'cut'):
		return [t[0]]
	return [t[0]] + [cut(sim, c, False) for c in t[1:]]


def splice(sim, t, sources):
	"""Replace a constituent of t by one with the same label from sources.

	Gives fragments of which the productions occur, but not combined."""
	t = [c if isinstance(c, str) else splice(sim, c, ()) for c in t]
	if not sources:
		return t
	byl = {}
	for x in sources:
		for a in subfrags(x):
			byl.setdefault(a[0], []).append(a)
	spots = [(p, n) for p in subfrags(t) if not ispre(p)
			for n in range(1, len(p)) if p[n][0] in byl]
	if spots:
		p, n = sim.pick(spots, 'spot')
		p[n] = splice(sim, sim.pick(byl[p[n][0]], 'graft'), ())
	return t


def fragstr(t):
	if len(t) == 1:
		return '(%s )' % t[0]
	if ispre(t):
		return '(%s %s)' % (t[0], t[1])
	return '(%s %s)' % (t[0], ' '.join(fragstr(c) for c in t[1:]))


def fragmatch(f, t):
	if f[0] != t[0]:
		return False
	if len(f) == 1 or (ispre(f) and f[1] == ''):
		# frontier node
		return len(f) == 1 or ispre(t) or True
	if ispre(f):
		return ispre(t) and f[1] == t[1]
	if ispre(t) or len(f) != len(t):
		return False
	return all(fragmatch(a, b) for a, b in zip(f[1:], t[1:]))


def fragcount(f, trees):
	"""[(sentno)] of occurrences."""
	res = []
	for n, t in enumerate(trees, 1):
		for s in subfrags(t):
			if fragmatch(f, s):
				res.append(n)
	return res


# --- stand-in for tgrep2 ----------------------------------------------------
def parsebr(s):
	toks = re.findall(r'\(|\)|[^\s()]+', s)
	pos = [0]

	def rec():
		assert toks[pos[0]] == '('
		pos[0] += 1
		node = [toks[pos[0]]]
		pos[0] += 1
		while toks[pos[0]] != ')':
			if toks[pos[0]] == '(':
				node.append(rec())
			else:
				node.append(toks[pos[0]])
				pos[0] += 1
		pos[0] += 1
		return node
	return rec()


def tgmatches(pattern, tree):
	"""Pre-order nodes matching 'A' or 'A < B' or 'A << B'."""
	parts = pattern.split()
	nodes = []

	def walk(t, begin):
		n = len(nodes)
		nodes.append(None)
		pos = begin
		for c in t[1:]:
			if isinstance(c, list):
				pos = walk(c, pos)
			else:
				nodes.append((c, [c], pos, pos + 1))
				pos += 1
		nodes[n] = (t[0], t, begin, pos)
		return pos
	walk(tree, 0)

	def labels(t, deep):
		for c in t[1:]:
			yield c[0] if isinstance(c, list) else c
			if deep and isinstance(c, list):
				yield from labels(c, True)
	for n, (label, t, b, e) in enumerate(nodes, 1):
		if label != parts[0] and parts[0] != '*':
			continue
		if len(parts) == 3:
			if len(t) == 1:
				continue
			if parts[2] not in labels(t, parts[1] == '<<'):
				continue
		yield n, t, b, e


def brs(t):
	if len(t) == 1:
		return t[0]
	return '(%s %s)' % (t[0], ' '.join(
			brs(c) if isinstance(c, list) else c for c in t[1:]))


def tgrep2(io, argv):
	"""Simulated tgrep2 (index, query, extract); faults from sim.tgfault."""
	sim = io.sim
	args = argv[1:]
	fault = getattr(sim, 'tgfault', None)
	fault = fault(argv) if fault else None
	try:
		if '-p' in args:
			src, dst = args[args.index('-p') + 1:args.index('-p') + 3]
			data = get(src)
			yield None
			if getattr(sim, 'tgneedk', False) and '-K' not in args:
				yield from io.error(b'tgrep2: you must use the -K flag '
						b'with this corpus\n')
				return 1
			if fault and fault[0] == 'exit-early':
				yield from io.error(b'tgrep2: index error\n')
				return fault[1]
			out = b'TG2\n' + data + b'END\n'
			if fault and fault[0] == 'truncate':
				out = out[:int(len(out) * fault[2])]
			fd = disk.R['osopen'](dst, os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
					0o666)
			try:
				half = len(out) // 2
				disk.R['write'](fd, out[:half])
				yield None
				disk.R['write'](fd, out[half:])
				sim.tick(1e-3)
				sim.disk.touched(fd)
			finally:
				disk.R['osclose'](fd)
			if fault and fault[0] == 'truncate':
				yield from io.error(b'tgrep2: write error\n')
				return fault[1]
			return 0
		name = args[args.index('-c') + 1]
		data = get(name)
		if not (data.startswith(b'TG2\n') and data.endswith(b'END\n')):
			yield from io.error(b'tgrep2: corpus damaged\n')
			return 1
		trees = [parsebr(a) for a in data.decode('utf8')[4:-4].splitlines()
				if a.strip()]
		if '-e' in args:
			req = (yield from io.readall()).decode().splitlines()
			res = []
			for r in req:
				n = int(r.split(':')[0])
				if 0 < n <= len(trees):
					t = trees[n - 1]
					res.append((' '.join(x for x in flat(t)) if '-t' in args
							else brs(t)) + '\n')
		else:
			m = args.index('-m')
			fmt = args[m + 1].replace('\\n', '\n')
			# NB: a file with macros is given like a pattern
			pats = [x for x in args[args.index('-c') + 2:]
					if not os.path.isfile(os.path.join(io.proc.cwd, x))]
			res = []
			for n, t in enumerate(trees, 1):
				for p, pat in enumerate(pats, 1):
					for num, node, b, e in tgmatches(pat, t):
						x = fmt
						for k, v in (('%yh', str(b + 1)), ('%zh', str(e)),
								('%nh', str(num)), ('%s', str(n)),
								('%w', brs(t)), ('%h', brs(node)),
								('%p', str(p))):
							x = x.replace(k, v)
						res.append(x)
		if fault is None:
			for x in res:
				yield from io.write(x.encode('utf8'))
			return 0
		out = ''.join(res).encode('utf8')
		cut = int(len(out) * fault[2])
		if fault[0] == 'silent':  # ends its output early without saying so
			yield from io.write(out)
			return 0
		pos = 0
		while pos < cut:
			yield from io.write(out[pos:min(cut, pos + 512)])
			pos += 512
		if len(fault) > 3 and fault[3]:
			yield from io.error(b'tgrep2: something went wrong\n'
					* fault[3])
		return fault[1]
	except (FileNotFoundError, ValueError, IndexError) as err:
		yield from io.error(('tgrep2: %s\n' % err).encode())
		return 1


def flat(t):
	for c in t[1:]:
		if isinstance(c, list):
			yield from flat(c)
		else:
			yield c


TGPATS = ['NP', 'S', 'NP < NN', 'VP < VB', 'S << NN', 'S < NP', 'ZZ', 'PP',
		'NP << the']


def usetgrep(sim):
	bindir = os.path.join(sim.scratch, 'bin')
	put(os.path.join(bindir, 'tgrep2'), b'#!/bin/false\n')
	os.chmod(os.path.join(bindir, 'tgrep2'), 0o755)
	os.environ['PATH'] = bindir
	sim.programs['tgrep2'] = tgrep2
	sim.tgneedk = sim.chance(1, 4, 'needk')


# --- normal forms -------------------------------------------------------------
def norm(value):
	"""Comparable, picklable form of search results."""
	import array
	from collections import Counter
	from discodop.tree import Tree
	if isinstance(value, Tree):
		return str(value)
	if isinstance(value, Counter):
		return ('counter', sorted((norm(a), b) for a, b in value.items()))
	if isinstance(value, dict):
		return ('dict', [(norm(a), norm(b)) for a, b in value.items()])
	if isinstance(value, (set, frozenset)):
		return ('set', sorted(norm(a) for a in value))
	if isinstance(value, range):
		return ('set', list(value))
	if isinstance(value, array.array):
		return list(value)
	if isinstance(value, tuple) and hasattr(value, '_fields'):
		return ('nt', ) + tuple(norm(a) for a in value)
	if isinstance(value, tuple):
		return tuple(norm(a) for a in value)
	if isinstance(value, list):
		return [norm(a) for a in value]
	return value


def perfile(kind, value, files):
	"""Group a request's result by file (order across files is not part of the
	property)."""
	if kind in ('trees', 'sents'):
		res = {f: [] for f in files}
		for x in value:
			res.setdefault(x[0], []).append(norm(tuple(x[1:])))
		return res
	if kind in ('counts', 'indices', 'breakdown'):
		return {f: norm(x) for f, x in value.items()}
	return norm(value)
