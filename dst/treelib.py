"""Random trees written in the treebank formats, and what reading them gives."""
from xml.sax.saxutils import escape as xmlescape, quoteattr
from .common import *

TWORDS = ['the', 'cat', 'saw', 'dog', 'in', 'park', 'Mary', "d'\u00e9t\u00e9", 'ein',
		'10,5', 'a&b', '\u4e2d']


def gennum(sim, disc=True, depth=3, words=TWORDS, maxkids=2):
	"""Tree of nested lists with (index, word) terminals; at least depth 2."""
	t = gentree(sim, depth, words=words, maxkids=maxkids)
	return scramble(sim, t) if disc else number(t)[0]


def isterm(x):
	return len(x) == 2 and isinstance(x[1], tuple)


def canon(t):
	"""((label, children...) ordered by first word, words)."""
	def walk(x):
		if isterm(x):
			return (x[0], x[1][0]), x[1][0]
		kids = sorted((walk(c) for c in x[1:]), key=lambda y: y[1])
		return (x[0], ) + tuple(k for k, _ in kids), kids[0][1]
	return walk(t)[0], [w for _, w in sorted(dleaves(t))]


def realcanon(tree, sent):
	"""The same for a discodop tree and sentence."""
	def walk(x):
		if isinstance(x, int):
			return x, x
		kids = sorted((walk(c) for c in x), key=lambda y: y[1])
		if not kids:
			return (x.label, ), -1
		return (x.label, ) + tuple(k for k, _ in kids), kids[0][1]
	return walk(tree)[0], list(sent)


def continuous(t):
	x = [i for i, _ in dleaves(t)]
	return x == sorted(x)


def linestree(t, indent=0):
	"""Bracketed tree over several lines."""
	def leaf(x):
		return '(%s %s)' % (x[0], x[1][1])
	if isterm(t):
		return ['\t' * indent + leaf(t)]
	res = ['\t' * indent + '(' + t[0]]
	for c in t[1:]:
		res.extend(linestree(c, indent + 1))
	res[-1] += ')'
	return res


def brackets(t):
	if isterm(t):
		return '(%s %s)' % (t[0], t[1][1])
	return '(%s %s)' % (t[0], ' '.join(brackets(c) for c in t[1:]))


def exportlines(t, n, comment=None):
	res = export(t, n).rstrip('\n').split('\n')
	if comment:
		res[0] += ' %% ' + comment
	return res


def alpino(t, key='1', comment=None):
	"""Lines of an Alpino XML document."""
	ids = iter(range(1000))

	def span(x):
		x = [i for i, _ in dleaves(x)]
		return min(x), max(x) + 1

	def walk(x, ind):
		b, e = span(x)
		if isterm(x):
			w = quoteattr(x[1][1])
			return ['%s<node begin="%d" end="%d" id="%d" lemma=%s pos="x" '
					'postag="M" pt=%s rel="hd" word=%s/>' % (' ' * ind, b, e,
					next(ids), w, quoteattr(x[0]), w)]
		res = ['%s<node begin="%d" cat=%s end="%d" id="%d" rel="--">' % (
				' ' * ind, b, quoteattr(x[0].lower()), e, next(ids))]
		for c in x[1:]:
			res.extend(walk(c, ind + 2))
		return res + [' ' * ind + '</node>']
	sent = ' '.join(w for _, w in sorted(dleaves(t)))
	res = ['<?xml version="1.0" encoding="UTF-8"?>', '<alpino_ds version="1.3">']
	res += walk(t, 2)
	res += ['  <sentence>%s</sentence>' % xmlescape(sent)]
	if comment:
		res += ['  <comments>', '    <comment>%s</comment>' % xmlescape(comment),
				'  </comments>']
	return res + ['</alpino_ds>']


def tiger(trees):
	"""A Tiger XML file with sentences s1, s2, ..."""
	res = ['<?xml version="1.0" encoding="UTF-8"?>', '<corpus id="x">', '<body>']
	for n, t in enumerate(trees, 1):
		sid = 's%d' % n
		ids = iter(range(500, 1000))
		terms, nts = {}, []

		def walk(x, root=False):
			if isterm(x):
				i = '%s_%d' % (sid, x[1][0] + 1)
				terms[x[1][0]] = ('<t id="%s" word=%s lemma="--" pos=%s '
						'morph="--"/>' % (i, quoteattr(x[1][1]),
						quoteattr(x[0])))
				return i
			i = '%s_%s' % (sid, 'VROOT' if root else next(ids))
			kids = [walk(c) for c in x[1:]]
			nts.append('<nt id="%s" cat=%s>%s</nt>' % (i, quoteattr(x[0]),
					''.join('<edge label="HD" idref="%s"/>' % k for k in kids)))
			return i
		walk(t, root=True)
		res.append('<s id="%s"><graph root="%s_VROOT"><terminals>' % (sid, sid))
		res.extend(terms[k] for k in sorted(terms))
		res.append('</terminals><nonterminals>')
		res.extend(nts)
		res.append('</nonterminals></graph></s>')
	return '\n'.join(res + ['</body>', '</corpus>']) + '\n'


def ftb(trees):
	"""A French treebank XML file."""
	res = ['<?xml version="1.0" encoding="UTF-8"?>', '<text>']

	def walk(x):
		if isterm(x):
			w = xmlescape(x[1][1])
			return '<w cat="%s" ee="M" lemma="--">%s</w>' % (x[0], w)
		return '<%s>%s</%s>' % (x[0], ''.join(walk(c) for c in x[1:]), x[0])
	for n, t in enumerate(trees, 1):
		t = ['SENT'] + t[1:]
		x = walk(t)
		res.append('<SENT nb="%d" textid="1"' % n + x[len('<SENT'):])
	return '\n'.join(res + ['</text>']) + '\n'
