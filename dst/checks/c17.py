"""C17: the streaming tree reader."""
from .. import core
from ..common import *
from ..treelib import *

RUNS = (16000, 600000)
BUDGET = (35, 1200)
RULE = ('random streams of trees (brackets on one or several lines, discontinuous '
	'brackets, export, Alpino XML) with comments and other text x several readers '
	'consumed in a random interleaving (also between lines) x end of input at '
	'any character, failing input, abandoned readers; distinct by schedule and fault trace')
REALPARTS = 'treebank.incrementaltreereader and its segmenters, tree.py'
STUBS = 'the line sources'
FMTS = ['bracket', 'bracketlines', 'discbracket', 'export', 'alpino']


class Dead(OSError):
	"""The source of the lines fails."""


def makestream(sim, n):
	"""A stream: lines; per tree (first line, last line, canonical form)."""
	fmt = sim.pick(FMTS, 'fmt')
	items, lines, words = [], [], []
	othertext = fmt in ('bracket', 'discbracket', 'bracketlines')

	def noise():
		k = sim.choose(6, 'noise')
		if k == 1:
			lines.append('')
		elif k == 2 and fmt == 'export':
			lines.append('%% some comment')
		elif k == 3 and fmt == 'export':
			lines.extend(['#FORMAT 3'] if sim.chance(1, 2, 'nobot') else
					['#BOT ORIGIN', '0\tx\tsomething', '#EOT ORIGIN'])
		elif k == 2 and othertext:
			lines.append('some text')
			words.extend(['some', 'text'])
		elif k == 4 and fmt == 'alpino':
			lines.append('')
	noise()
	for m in range(sim.choose(6, 'ntrees')):
		t = gennum(sim, fmt not in ('bracket', 'bracketlines'))
		if isterm(t) or all(isterm(c) for c in t[1:]) and sim.chance(
				1, 2, 'deep'):
			t = ['S', t]
		first = len(lines)
		comment = sim.pick([None, None, 'x y', '3 0.25'], 'comment')
		join = False
		if fmt == 'bracket' or fmt == 'discbracket':
			x = brackets(t) if fmt == 'bracket' else discbracket(t)
			join = (lines and items and items[-1][1] == len(lines) - 1
					and sim.chance(1, 6, 'sameline'))
			if comment and not join:
				x += '\t' + comment
				words.extend(comment.split())
			if join:
				lines[-1] += ' ' + x
				first = len(lines) - 1
			else:
				lines.append(x)
		elif fmt == 'bracketlines':
			comment = None
			lines.extend(linestree(t))
		elif fmt == 'export':
			lines.extend(exportlines(t, m + 1, comment))
			words.extend((comment or '').split())
		else:
			lines.extend(alpino(t, str(m + 1), comment))
			words.extend((comment or '').split())
		exp = canon(['ROOT', t] if fmt == 'export' else t)
		items.append((first, len(lines) - 1, exp))
		noise()
	cut = fail = close = None
	if lines and sim.chance(1, 3, 'cut'):
		k = sim.choose(len(lines), 'cutline')
		cut = k, sim.choose(len(lines[k]) + 1, 'cutchar')
		sim.fault('end-of-input')
	elif lines and sim.chance(1, 4, 'fail'):
		fail = sim.choose(len(lines) + 1, 'failline')
		sim.fault('input-error')
	elif sim.chance(1, 6, 'close'):
		close = sim.choose(4, 'closeat')
	nl = sim.pick(['\n', ''], 'newline')
	opts = {}
	if fmt not in ('bracket', 'discbracket', 'bracketlines') or not any(
			a == 'some text' for a in lines):
		opts['strict'] = sim.chance(1, 3, 'strict')
	opts['robust'] = not sim.chance(1, 4, 'robust')
	opts['othertext'] = sim.chance(1, 3, 'othertext')
	if cut:
		opts.pop('strict', None)
	return dict(n=n, fmt=fmt, items=items, lines=lines, cut=cut, fail=fail,
			close=close, nl=nl, opts=opts, words=words)


def source(sim, s, between):
	lines = s['lines']
	if s['cut']:
		k, c = s['cut']
		lines = lines[:k] + ([lines[k][:c]] if c else [])
	for n, line in enumerate(lines):
		if n == s['fail']:
			raise Dead('input failed')
		between()  # other readers make progress
		s['consumed'] = n + 1
		yield line + s['nl']
	if s['fail'] is not None:
		raise Dead('input failed')


def run(sim):
	from discodop import treebank
	streams = [makestream(sim, n) for n in range(1 + sim.choose(3, 'nstreams'))]
	sim.sample = dict(streams=[{k: v for k, v in s.items() if k not in ('items', 'words')}
			for s in streams])
	live, busy = [], []
	nested = sim.chance(1, 3, 'nested')

	def between():
		others = [x for x in live if x[0]['n'] not in busy]
		if nested and others and sim.chance(1, 3, 'switch'):
			step(sim.pick(others, 'other'))
	for s in streams:
		s['consumed'] = 0
		s['got'] = []
		s['text'] = []
		s['end'] = None
		live.append((s, treebank.incrementaltreereader(source(sim, s,
				between),
				**s['opts'])))

	def show(s):
		return '%s\n%s' % ('\n'.join(s['lines']), {k: v for k, v in s.items()
				if k not in ('lines', 'items', 'words')})

	def step(x):
		s, reader = x
		busy.append(s['n'])
		try:
			advance(x, s, reader)
		finally:
			busy.remove(s['n'])

	def advance(x, s, reader):
		sim.event('next %d' % s['n'])
		if s['close'] is not None and len(s['got']) >= s['close']:
			reader.close()
			s['end'] = 'closed'
			live.remove(x)
			return
		try:
			tree, sent, rest = next(reader)
		except StopIteration:
			s['end'] = 'end'
			live.remove(x)
			return
		except Violation:  # in another reader
			raise
		except Dead:
			s['end'] = 'fail'
			live.remove(x)
			check(next(reader, None) is None, 'tree-after-failure', show(s))
			return
		except Exception as err:
			if s['cut']:  # an error is fine for an incomplete tree
				s['end'] = 'error'
				s['err'] = repr(err)
				live.remove(x)
				return
			raise Violation('error-on-wellformed', '%r\n%s' % (err, show(s))
					) from None
		s['text'].append(rest or '')
		if tree is None:
			return
		got = realcanon(tree, sent)
		m = len(s['got'])
		s['got'].append(got)
		if m < len(s['items']):
			# as soon as its input is complete, apart from look-ahead
			limit = s['items'][m][1] + 1
			if s['fmt'].startswith('export') or s['fmt'] == 'alpino':
				limit += 1
			elif m + 1 < len(s['items']):
				limit = s['items'][m + 1][0] + 3
			else:
				limit = len(s['lines'])
			check(s['consumed'] <= limit, 'late', lambda: 'tree %d was complete '
					'at line %d, but yielded after line %d\n%s' % (m,
					s['items'][m][1] + 1, s['consumed'], show(s)))
	while live:
		step(sim.pick(live, 'reader'))
	for s in streams:
		exp = [x for _, _, x in s['items']]
		got = s['got']
		optional = 0
		if s['cut']:
			k, c = s['cut']
			full = [x for _, last, x in s['items'] if last < k]
			tail = [x for first, last, x in s['items'] if last == k]
			exp = full + tail
			optional = len(tail)
			if s['end'] == 'error':
				optional = len(exp)
		elif s['end'] == 'fail':
			exp = [x for _, last, x in s['items'] if last < s['fail']]
			# only the look-ahead may be missing
			optional = len(exp)
			for m, (_, last, _) in enumerate(s['items'][:len(exp)]):
				nxt = (last + 2 if s['fmt'] in ('export', 'alpino')
						else s['items'][m + 1][0] + 3
						if m + 1 < len(s['items']) else len(s['lines']) + 1)
				if nxt <= s['fail']:
					optional = len(exp) - m - 1
		elif s['end'] == 'closed':
			exp = exp[:len(got)]
		check(s['fail'] is None or s['end'] in ('fail', 'closed'),
				'failure-hidden', show(s))
		check(got == exp[:len(got)], 'wrong-tree', lambda: 'got %r\nexpected %r'
				'\n%s' % (got, exp, show(s)))
		check(len(got) >= len(exp) - optional, 'missing-tree', lambda: 'got %r\n'
				'expected %r\n%s' % (got, exp, show(s)))
		if (s['opts']['othertext'] and s['end'] == 'end' and not s['cut']):
			# the other text is passed on, once
			text = ''.join(''.join(s['text']).split())
			check(text == ''.join(s['words']), 'wrong-text', lambda: 'got %r\n'
					'expected %r\n%s' % (text, s['words'], show(s)))
