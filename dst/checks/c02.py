"""C02: command-line parsing keeps order and content for any worker count."""
import gzip
from .. import core
from .. import explib
from .. import clilib
from ..common import *

RUNS = (1500, 40000)
BUDGET = (38, 1500)
RULE = ('random grammars (from experiments; one stage up to four, or --simple) x '
	'input in line, paragraph, tagged, identified and k-best mode x output format '
	'x file, stdin, gzip x read sizes x worker count and completion order; output '
	'compared with the concatenation of parsing each sentence on its own, and '
	'with the input; distinct by schedule trace')
REALPARTS = ('discodop.cli, parser command and class, grammar loading, all '
	'compiled parsers, treebank output')
STUBS = ('multiprocessing.Pool (seeded scheduler), clocks, read sizes of files '
	'and standard streams')


def mkinput(sim, train, test, mode):
	"""Return (list of (key or None, tokens, tags), text)."""
	from ..explib import EWORDS
	n = sim.pick([3, 1, 2, 4, 5, 6, 7, 0], 'nsents')
	sents = []
	for m in range(n):
		t = sim.pick(train + test, 'tree')
		pre = sorted(explib.preterminals(t))
		toks = [w for _, w, _ in pre]
		tags = [x for _, _, x in pre]
		if sim.chance(1, 4, 'change'):
			k = sim.choose(len(toks), 'where')
			toks[k] = sim.pick(['zyx', 'the', 'dog', '2010', "d'été", 'X/Y',
					'a=b', 'U.S.'],
					'word')
		if sim.chance(1, 6, 'cut'):
			del toks[sim.choose(len(toks), 'cutat') + 1:]
		sents.append([None, toks, tags[:len(toks)]])
	lines = []
	for m, (_, toks, tags) in enumerate(sents):
		sep = ' '
		items = ['%s/%s' % a for a in zip(toks, tags)] if mode['tags'] else toks
		if mode['para']:
			text = items[0]
			for w in items[1:]:
				text += sim.pick(['\n', '\n', ' ', ' \n'], 'sep') + w
		else:
			text = sep.join(items)
		if mode['sentid']:
			key = sim.pick(['s%d', '%d', 'doc1.xml#s%d', 'é%d'], 'key') % (
					sim.choose(5, 'perm') * 100 + m)
			sents[m][0] = key
			text = '%s|%s' % (key, text)
		lines.append(text)
	if mode['para']:
		data = ''
		for text in lines:
			data += text + '\n' + '\n' * (1 + sim.choose(3, 'blank'))
		if sim.chance(1, 3, 'noeol'):
			data = data.rstrip('\n')
		if sim.chance(1, 5, 'leadingblank'):
			data = '\n' + data
	else:
		data = ''
		for text in lines:
			if sim.chance(1, 6, 'blankline'):
				data += sim.pick(['\n', '  \n', '\n\n'], 'blank')
			data += text + sim.pick(['', '', ' '], 'trailing') + '\n'
		if sim.chance(1, 4, 'noeol'):
			data = data.rstrip('\n')
	return sents, data


def output(r, path):
	return get(path) if path else r.out


def run(sim):
	sim.cfg['clockjumps'] = False
	prm, train, test = explib.mkexp(sim, ntest=1)
	simple = sim.chance(1, 3, 'simple')
	mode = dict(tags=sim.chance(1, 4, 'tags'), para=sim.chance(1, 3, 'para'),
			sentid=sim.chance(1, 3, 'sentid'), prob=sim.chance(1, 3, 'prob'),
			best=sim.pick([1, 1, 3, 10], 'best'),
			fmt=sim.pick(['discbracket', 'export', 'discbracket', 'bracket',
				'tokens', 'wordpos'], 'fmt'))
	disc = any(not explib.continuous(t) for t in train)
	if disc and mode['fmt'] in ('bracket', ):
		mode['fmt'] = 'discbracket'
	r = core.call(sim, lambda sim: explib.runexp(prm, 'g'), 'train')
	if r[0] != 'ok':
		sim.stat('no grammar')
		return
	if simple:
		st = [st['name'] for st in prm['stages']
				if os.path.exists('g/%s.rules.gz' % st['name'])][-1]
		args = ['--simple', 'g/%s.rules.gz' % st, 'g/%s.lex.gz' % st, '-s',
				'ROOT']
		if os.path.exists('g/%s.backtransform.gz' % st):
			args += ['--bt', 'g/%s.backtransform.gz' % st, '--obj',
					sim.pick(['mpp', 'mpd', 'shortest'], 'obj'), '-m', '20']
		if sim.chance(1, 3, 'uncompressed'):
			for n in (1, 2):
				put(args[n][:-3], gzip.decompress(get(args[n])))
				args[n] = args[n][:-3]
	else:
		args = ['g']
	opts = ['-b', str(mode['best']), '--fmt', mode['fmt']]
	for x in ('tags', 'prob'):
		if mode[x]:
			opts.append('--' + x)
	modeopts = opts[:]
	if mode['para']:
		modeopts.append('-x')
	if mode['sentid']:
		modeopts.append('--sentid')
	sents, data = mkinput(sim, train, test, mode)
	data = data.encode('utf8')
	sim.sample.update(mode=mode, args=args, input=data.decode('utf8'))
	sim.key = [prm['stages'], mode, data]
	numproc = sim.pick([2, 3, 4, 8], 'numproc')
	# reference: each sentence on its own
	want, errs = [], []
	for n, (key, toks, tags) in enumerate(sents, 1):
		line = ' '.join('%s/%s' % a for a in zip(toks, tags)
				) if mode['tags'] else ' '.join(toks)
		ref = clilib.cli(sim, ['parser'] + args + opts + ['--sentid'],
				('%s|%s\n' % (key or n, line)).encode('utf8'), 'ref')
		if not ref.ok:
			errs.append(n)
			if (len(prm['stages']) > 2 and b'StringIntDict' in ref.err
					and b'in parse\n    parts = list(' in ref.err):
				sim.known = ['partial-parse-label']
			elif b'Grammar.switch' in ref.err and simple:
				sim.stat('objective not available')
			else:
				check(mode['tags'], 'sentence-fails',
						lambda: '%r: %s' % (toks, ref.err[-3000:].decode(
						'utf8', 'replace')))
		want.append(ref.out)
	sim.stat('sentences', len(sents))
	# input source
	source = sim.pick(['stdin', 'file', 'gz'], 'source')
	stdin, more = data, []
	if source != 'stdin':
		stdin = None
		fname = {'file': 'in.txt', 'gz': 'in.txt.gz'}[source]
		put(fname, gzip.compress(data, mtime=0) if source == 'gz' else data)
		more.append(fname)
	dest = None
	if source != 'stdin' and not simple and sim.chance(1, 3, 'outfile'):
		dest = 'out.txt'
		more.append(dest)
	bad = False
	for k in (1, numproc):
		sim.disk.chunks = sim.chance(1, 2, 'chunks')
		sim.cfg['clockjumps'] = sim.chance(1, 6, 'clockjumps')
		r = clilib.cli(sim, ['parser', '--numproc', str(k)] + args + modeopts
				+ more, stdin, 'run%d' % k)
		sim.disk.chunks = sim.cfg['clockjumps'] = False
		if r.status in (None, -1):
			raise Violation('parser-' + r.raw[0], '%d workers: %s\n%r' % (k,
					core.describe(r.raw), r))
		if not sents and not r.ok:
			# options that do not fit the grammar
			check(k == 1 or bad, 'parser-fails', lambda: '%r' % r)
			bad = True
			continue
		check(not bad, 'success-despite-error', lambda: '%r' % r)
		if errs:
			if r.ok:
				raise Violation('success-despite-error',
						'%d workers: sentences %r fail on their own; %r' % (
						k, errs, r))
			sim.stat('failing inputs')
			continue
		if not r.ok:
			raise Violation('parser-fails', '%d workers: %r' % (k, r))
		out = output(r, dest)
		if out != b''.join(want):
			raise Violation('output-differs', '%d workers:\n%s\nexpected:\n%s'
					% (k, out.decode('utf8'), b''.join(want).decode('utf8')))
		check(r.err.decode('utf8').splitlines()[-1].strip() == 'finished',
				'no-summary', r.err)
	if errs:
		return
	for n, (key, toks, tags) in enumerate(sents, 1):
		lines = want[n - 1].decode('utf8').splitlines()
		if mode['fmt'] == 'export':
			ids = [a.split()[1] for a in lines if a.startswith('#BOS')]
			key = key or str(n)
			if mode['best'] == 1:
				good = ids == [key]
			else:
				good = 1 <= len(ids) <= mode['best'] and all(
						a.startswith(key + '-') for a in ids)
			check(good, 'identifier', lambda: '%r: %r' % (key, ids))
		elif mode['fmt'] == 'tokens':
			trees = [a for a in lines if not a.startswith('prob=')
					and not a.startswith('## prob=')]
			check(trees and all(a == ' '.join(toks) for a in trees),
					'tokens', lambda: '%r: %r' % (toks, lines))
