"""Random invocations of the command line tools."""
import gzip
import shutil
from . import core
from . import clilib
from . import explib
from . import fraglib
from .common import *
from .treelib import gennum, brackets, alpino, tiger, isterm

TRANSFORMS = ['TAGPA,PUNCT', 'PARENT', 'PTBbrackets', 'NP-PP', 'MARK-YEAR',
		'markconj', 'FOLD-NUMBERS,PARENT', 'XBAR', 'splitPUNCT', 'negra', 'wsj',
		'alpino', 'green2013ftb', 'km2003wsj', 'km2003simple',
		'fraser2013tiger', 'lassy']
ALLTRANSFORMS = """APPEND-FUNC APPEND-MORPH DP FANOUT FUNC-NODE LEMMA-NODE
	MARK-UNARY MARK-YEAR MORPH-NODE NEST NP NP-PP PARENT POS-PART PP-NP
	PTBbrackets PUNCT PUNCT-PRUNE S-INF S-RC S-WH SBAR TAGPA VP-FIN_NEGRA
	VP-FIN_WSJ VP-GF VP-HD VPfeat addCase addUnary adjAttach coord1 de2 de3
	dominatesV elimNKCJ ftbmakegoldpos ftbraisecompl lexPrep markAP
	markDitransV markinf markp1 markpart markvn mwadvs mwadvsel1 mwadvsel2
	mwnsel1 mwnsel2 mwnsel3 nladdunary nlelimcnj nlmwuhead nlpercolatemorph
	nlselectmorph noHead noSubj nounSeq properChunks relPath splitAux splitAux2
	splitBaseNP splitCC splitIN splitIN4 splitNPADV splitPercent splitPoss
	splitSGapped splitTMP splitVP splitVP3 subConjType unaryDT unaryRB
	whFeat""".split()
REVTRANSFORMS = """FANOUT DP NEST PP-NP SBAR VP-FIN_NEGRA POS-PART addUnary
	elimNKCJ nladdunary nlelimcnj APPEND-FUNC FUNC-NODE MORPH-NODE
	LEMMA-NODE""".split()
HEADRULES = 'S right VP|VB NP\nNP right NN|NP DT\nVP left VB\nPP left IN\n'


class Case:
	"""A command; {out} in its arguments is a fresh directory."""

	def __init__(self, argv, stdin=None, inputs=(), mkdir=True, viastdin=None,
			outarg=None, encs=None):
		self.argv, self.stdin = list(argv), stdin
		self.inputs = list(inputs)
		self.mkdir = mkdir
		# other ways of delivering input and output:
		# (input that may come from standard input, how it is then named)
		self.viastdin = viastdin
		# arguments that direct output to a file
		self.outarg = outarg
		# {input: option that gives its encoding}
		self.encs = encs or {}

	def __repr__(self):
		return ' '.join(self.argv) + ('' if self.stdin is None else ' < stdin')

	def run(self, sim, out, name, setup=None):
		shutil.rmtree(out, ignore_errors=True)
		if self.mkdir:
			os.makedirs(out)
		return clilib.cli(sim, [a.replace('{out}', out) for a in self.argv],
				self.stdin, name, setup)

	def outputs(self, out, r):
		"""Everything written: {filename: contents}, and standard output."""
		res = {'<stdout>': r.out.replace(out.encode() + b'/', b'{out}/'
				).replace(b"'" + out.encode() + b"'", b'{out}')}
		for path, _, files in os.walk(out):
			for x in files:
				data = get(os.path.join(path, x))
				key = os.path.join(path, x)[len(out) + 1:]
				if '.tmp' in key:
					continue
				if x.endswith('.npz'):
					data = npz(os.path.join(path, x))
				elif x.endswith('.gz'):
					try:
						data = gzip.decompress(data)
						if not get(os.path.join(path, x)):
							data = b'damaged: empty file'
					except Exception as err:
						data = b'damaged: %r' % err
				elif x == 'stats.tsv':
					lines = [a.split('\t') for a in
							data.decode('utf8').splitlines()]
					if lines and 'elapsedtime' in lines[0]:
						col = lines[0].index('elapsedtime')
						lines = [a[:col] + a[col + 1:] for a in lines]
					data = '\n'.join('\t'.join(a) for a in lines)
				elif x == 'output.log':
					continue
				res[key] = data
		return res


def npz(path):
	import numpy as np
	try:
		with disk.R['open'](path, 'rb') as f:
			f = np.load(f, allow_pickle=False)
			return {k: (f[k].shape, f[k].tobytes()) for k in f.files}
	except Exception as err:
		return 'damaged: %r' % err


def trees(sim, disc, number=None):
	words = ['the', 'cat', 'saw', 'caf\xe9', 'a', 'dog', 'ate', 'on', '1984',
			'.', ',', '\xd6l']
	words = words[:sim.pick([3, 8, 12], 'words')]
	res = []
	for _ in range(number or 1 + sim.choose(7, 'ntrees')):
		while True:
			t = gennum(sim, disc=disc, depth=1 + sim.choose(4, 'depth'),
					words=words)
			if not isterm(t):
				break
		res.append(['ROOT', t])
	return res


def data(fmt, ts, tags=False):
	if fmt == 'bracket':
		return ''.join(brackets(t) + '\n' for t in ts)
	elif fmt == 'discbracket':
		return ''.join(discbracket(t) + '\n' for t in ts)
	elif fmt == 'export':  # the root is implicit
		return ''.join(export(t[1], n + 1, tags)
				for n, t in enumerate(ts))
	elif fmt == 'tiger':
		x = tiger(ts)
		return x if isinstance(x, str) else '\n'.join(x) + '\n'
	raise ValueError(fmt)


def bank(sim, name, fmt, ts=None, compress=True):
	"""Write a treebank, perhaps in several files or compressed; returns
	name(s) as given to a reader."""
	if ts is None:
		ts = trees(sim, fmt not in ('bracket', ))
	if fmt == 'alpino':
		os.makedirs(name, exist_ok=True)
		for n, t in enumerate(ts, 1):
			put('%s/%d.xml' % (name, n), '\n'.join(alpino(t, str(n))) + '\n')
		return name + '/*.xml', ts
	x = data(fmt, ts, sim.chance(1, 3, 'tags')).encode('utf8')
	if compress and not sim.plain and sim.chance(1, 3, 'compress'):
		name += sim.pick(['.gz', '.gz', '.zst', '.lz4'], 'compression')
		x = gzip.compress(x, mtime=0)
	put(name, x)
	return name, ts


def decompressor(io, argv):
	"""Program that decompresses; compressed data are in gzip format."""
	if not any(a in ('-d', '--decompress') for a in argv):
		out = gzip.compress((yield from io.readall()), mtime=0)
		yield from io.write(out)
		return 0
	import zlib
	names = [a for a in argv[1:] if not a.startswith('-')]
	x = get(names[0]) if names else (yield from io.readall())
	d = zlib.decompressobj(31)
	try:
		out = d.decompress(x)
		ok = d.eof
	except zlib.error:
		return 1
	fault = getattr(io.sim, 'progfault', None) if hasattr(io, 'sim') else None
	if fault is not None:
		out = out[:int(len(out) * fault)]
		ok = False
	try:
		yield from io.write(out)
	except OSError:
		return 1
	if not ok:
		yield from io.error(b'unexpected end of file\n')
		return 1
	return 0


def programs(sim):
	os.environ['PATH'] = os.path.join(sim.scratch, 'bin')
	for x in ('gzip', 'zstd', 'lz4'):
		put('bin/' + x, b'')
		sim.programs[x] = decompressor


def treetransforms(sim):
	infmt = sim.pick(['export', 'bracket', 'discbracket', 'tiger', 'alpino'],
			'infmt')
	outfmt = sim.pick(['export', 'bracket', 'discbracket', 'conll', 'mst',
			'tokens', 'wordpos', infmt if infmt in ('export', 'bracket',
			'discbracket') else 'export'], 'outfmt')
	multi = getattr(sim, 'multi', False) and infmt not in (
			'alpino', 'tiger') and sim.chance(1, 2, 'multi')
	if multi:
		# several files, some with the same number
		path = 'in/*.' + infmt
		names = sim.shuffled(['f_1', 'f_01', 'f_001', 'f_2', 'f_02', 'f_10', 'f_9'],
				'names')
		n = 0
		for name in names[:2 + sim.choose(4, 'nfiles')]:
			ts = trees(sim, infmt != 'bracket', 1 + sim.choose(2, 'ntrees'))
			x = (''.join(export(t[1], n + k) for k, t in enumerate(ts, 1))
					if infmt == 'export' else data(infmt, ts))
			n += len(ts)
			put('in/%s.%s' % (name, infmt), x)
	else:
		path, ts = bank(sim, 'in.' + infmt, infmt)
	opts = ['--inputfmt=' + infmt, '--outputfmt=' + outfmt]
	if sim.chance(1, 2, 'options'):
		for _ in range(1 + sim.choose(3, 'nopts')):
			opts += sim.pick([['--binarize', '-h', '1'], ['--binarize',
				'--factor=left', '-v', '2'], ['--optimalbinarize'],
				['--splitdisc'], ['--splitdisc', '--markorigin'],
				['--canonical'], ['--raisedisc'], ['--unbinarize'],
				['--introducepreterminals'], ['--renumber'], ['--sentid'],
				['--removeempty'], ['--ensureroot=TOP'],
				['--punct=' + sim.pick(['move', 'remove', 'root', 'moveall'],
				'punct')], ['--transforms=' + sim.pick(TRANSFORMS, 'transform')],
				['--transforms=' + ','.join(sim.pick(ALLTRANSFORMS, 'transform')
				for _ in range(1 + sim.choose(3, 'ntransforms')))],
				['--reversetransforms=' + sim.pick(REVTRANSFORMS, 'transform')],
				['--mergedisc'], ['--lemmas=' + sim.pick(['add', 'replace',
				'between'], 'lemmas')], ['--filterlabels=NP VP', '--binarize'],
				['--leftunary', '--rightunary', '--binarize'],
				['--direction', '--binarize'], ['--morphology=' + sim.pick([
				'add', 'replace', 'between'], 'morph')],
				['--functions=' + sim.pick(['add', 'remove', 'replace'],
				'functions')], ['--maxlen=4'], ['--morphology=no'],
				['--binarize', '--dot', '-h', '2', '--tailmarker']],
				'option')
	if sim.chance(1, 5, 'slice'):
		opts.append('--slice=%d:%d' % (sim.choose(3, 'from'),
				2 + sim.choose(6, 'to')))
	if outfmt in ('conll', 'mst') or sim.chance(1, 8, 'headrules'):
		put('h.headrules', HEADRULES)
		opts.append('--headrules=h.headrules')
	if infmt in ('bracket', 'discbracket', 'export') and path == (
			'in.' + infmt) and not sim.plain and sim.chance(1, 5, 'stdin'):
		args, stdin = ['-'], get(path)
		if sim.chance(1, 2, 'file'):
			args.append('{out}/o')
		return Case(['treetransforms'] + args + opts, stdin)
	args = [path]
	outarg = None
	if sim.chance(2, 3, 'file'):
		args.append('{out}/o')
		outarg = ['{out}/o']
	text = infmt in ('bracket', 'discbracket', 'export')
	if multi:
		return Case(['treetransforms'] + args + opts)
	return Case(['treetransforms'] + args + opts, inputs=[path],
			viastdin=(path, '-') if text else None, outarg=outarg,
			encs={path: '--inputenc'} if text else None)


def treedraw(sim):
	fmt = sim.pick(['export', 'bracket', 'discbracket', 'tiger', 'alpino'],
			'fmt')
	opts = sim.pick([[], [], ['--frontier'], ['--plain'], ['--output=html'],
			['--output=svg'], ['--output=tikznode'], ['--output=tikzmatrix'],
			['--output=tikzqtree'], ['--abbr'], ['-n', '2']], 'opts')
	if fmt in ('bracket', 'discbracket', 'export') and sim.chance(1, 2, 'auto'):
		path, _ = bank(sim, 'in.' + fmt, fmt)
		if path.endswith(fmt) and not sim.plain and sim.chance(1, 2, 'stdin'):
			return Case(['treedraw'] + opts, get(path))
		return Case(['treedraw', '--fmt=auto', path] + opts, inputs=[path],
				viastdin=(path, sim.pick(['-', None], 'stdinname')),
				encs={path: '--encoding'})
	paths = [bank(sim, 'in.' + fmt, fmt)[0]]
	if sim.chance(1, 4, 'two'):
		paths.append(bank(sim, 'in2.' + fmt, fmt)[0])
	text = fmt in ('bracket', 'discbracket', 'export')
	return Case(['treedraw', '--fmt=' + fmt] + paths + opts, inputs=paths,
			encs={a: '--encoding' for a in paths} if text else None)


def grammar(sim):
	model = sim.pick(['pcfg', 'plcfrs', 'dopreduction', 'doubledop', 'dop1',
			'param', 'plcfrs'], 'model')
	if model == 'param':
		prm, _, _ = explib.mkexp(sim)
		put('x.prm', explib.prmtext(prm))
		return Case(['grammar', 'param', 'x.prm', '{out}'], mkdir=False,
				inputs=['train.tb'])
	fmt = 'bracket' if model == 'pcfg' else sim.pick(
			['export', 'bracket', 'discbracket'], 'fmt')
	path, _ = bank(sim, 'in.' + fmt, fmt)
	opts = ['--inputfmt=' + fmt]
	if sim.chance(1, 2, 'gzip'):
		opts.append('--gzip')
	if model in ('dopreduction', 'doubledop'):
		opts += sim.pick([[], ['--dopestimator=ewe'], ['--dopestimator=rfe']],
				'estimator')
	if model == 'dopreduction' and sim.chance(1, 4, 'packed'):
		opts.append('--packed')
	if model == 'doubledop' and sim.chance(1, 4, 'numproc'):
		opts.append('--numproc=2')
	if model == 'dop1':
		opts.append('--maxdepth=%d' % (1 + sim.choose(3, 'maxdepth')))
	return Case(['grammar', model, path, '{out}/g'] + opts, inputs=[path],
			encs={path: '--inputenc'})


def prepare(sim, argv, stdin=None, name='prepare'):
	r = clilib.cli(sim, argv, stdin, name)
	return r if r.ok else None


def merge(sim):
	kind = sim.pick(['rules', 'lexicon', 'fragments'], 'kind')
	fmt = sim.pick(['bracket', 'discbracket'], 'fmt')
	model = sim.pick(['pcfg', 'plcfrs', 'dopreduction'] if fmt == 'bracket'
			else ['plcfrs', 'dopreduction'], 'model')
	names = []
	for n in range(2 + sim.choose(2, 'files')):
		path, _ = bank(sim, 'in%d' % n, fmt, compress=False)
		if kind == 'fragments':
			r = prepare(sim, ['fragments', path, '--fmt=' + fmt, '--quiet',
					'--cover=1,999'], name='prep%d' % n)
			if r is None:
				return None
			x = r.out.decode('utf8')
		else:
			if prepare(sim, ['grammar', model, path, 'g%d' % n,
					'--inputfmt=' + fmt], name='prep%d' % n) is None:
				return None
			x = get('g%d.%s' % (n, 'rules' if kind == 'rules' else 'lex')
					).decode('utf8')
		x = x.splitlines(True)
		if kind == 'rules':
			key = lambda a: (a.rsplit('\t', 1)[0] if fmt == 'discbracket'
					else a.strip().split(None, 1)[1])
		elif kind == 'lexicon':
			key = lambda a: a.split(None, 1)[0]
		else:
			key = lambda a: a.rsplit('\t', 1)[0]
		x = ''.join(sorted(x, key=key)).encode('utf8')
		name = 'm%d' % n
		if not sim.plain and sim.chance(1, 2, 'compress'):
			name += sim.pick(['.gz', '.zst'], 'compression')
			x = gzip.compress(x, mtime=0)
		put(name, x)
		names.append(name)
	case = Case(['grammar', 'merge', kind] + names + ['{out}/m' + sim.pick(
			['', '.gz'], 'outgz')], inputs=names)
	case.fmt = fmt
	return case


def ptsg(sim):
	fmt = sim.pick(['bracket', 'bracket', 'discbracket'], 'fmt')
	path, _ = bank(sim, 'in', fmt, compress=False)
	r = prepare(sim, ['fragments', path, '--fmt=' + fmt, '--quiet',
			'--cover=1,999'])
	if r is None or not r.out:
		return None
	name, x = 'frags', r.out
	if not sim.plain and sim.chance(1, 2, 'compress'):
		name += sim.pick(['.gz', '.zst'], 'compression')
		x = gzip.compress(x, mtime=0)
	put(name, x)
	return Case(['grammar', 'ptsg', name, '{out}/g', '-s', 'ROOT'] + sim.pick(
			[[], ['--gzip']], 'gzip'), inputs=[name], encs={name: '--inputenc'})


def info(sim):
	fmt = sim.pick(['bracket', 'discbracket'], 'fmt')
	path, _ = bank(sim, 'in', fmt, compress=False)
	opts = sim.pick([[], ['--gzip']], 'gzip')
	if prepare(sim, ['grammar', 'plcfrs', path, 'g', '--inputfmt=' + fmt]
			+ opts) is None:
		return None
	name = 'g.rules' + ('.gz' if opts else '')
	return Case(['grammar', 'info', name], inputs=[name])


def fragments(sim):
	fmt = sim.pick(['bracket', 'discbracket', 'export', 'bracket'], 'fmt')
	two = sim.chance(1, 2, 'two')
	batch = sim.chance(1, 5, 'batch')
	banks = fraglib.mkbanks(sim, fmt, 3 if batch else 2 if two else 1)
	opts = fraglib.mkopts(sim, two or batch, batch, fmt=fmt)
	files = ['tb%d' % n for n in range(len(banks))]
	for n, x in enumerate(files):
		if not sim.plain and sim.chance(1, 4, 'compress') and (
				fmt != 'export'):
			y = get(x)
			files[n] += sim.pick(['.gz', '.zst'], 'compression')
			put(files[n], gzip.compress(y, mtime=0))
	if batch:
		return Case(['fragments', '--batch={out}'] + files + opts,
				inputs=files)
	if sim.chance(1, 4, 'numproc'):
		opts.append('--numproc=2')
	stdin = None
	args = files[:]
	if not sim.plain and sim.chance(1, 6, 'stdin') and fmt != 'export':
		k = sim.choose(len(args), 'stdinfile')
		if args[k].startswith('tb') and '.' not in args[k]:
			stdin, args[k] = get(args[k]), '-'
	outarg = None
	if sim.chance(1, 2, 'file'):
		opts += ['-o', '{out}/o']
		outarg = opts[-2:]
	return Case(['fragments'] + args + opts, stdin, inputs=files,
			viastdin=(sim.pick(files, 'viastdin'), '-'), outarg=outarg)


def sentences(sim, ts, sentid=False):
	words = sorted({w for t in ts for _, w in dleaves(t)})
	res = []
	for n in range(1 + sim.choose(5, 'sentences')):
		if sim.chance(1, 2, 'seen'):
			res.append([w for _, w in sorted(dleaves(sim.pick(ts, 'tree')))])
		else:
			res.append([sim.pick(words, 'word') for _ in range(1 + sim.choose(
					4, 'length'))])
		if sentid:
			res[-1][0] = 's%d|%s' % (n, res[-1][0])
	return ''.join(' '.join(x) + '\n' for x in res).encode('utf8')


def parser(sim):
	opts = sim.pick([[], ['-b', '3'], ['--sentid'], ['--fmt=export'],
			['--fmt=bracket']], 'opts')
	opts = opts + sim.pick([[], ['--numproc=2'], []], 'numproc')
	if sim.chance(1, 2, 'simple'):
		fmt = sim.pick(['bracket', 'discbracket'], 'fmt')
		path, ts = bank(sim, 'in', fmt, compress=False)
		if prepare(sim, ['grammar', 'plcfrs', path, 'g', '--inputfmt=' + fmt,
				'--gzip']) is None:
			return None
		inputs = ['g.rules.gz', 'g.lex.gz']
		args = ['--simple', '-s', 'ROOT'] + inputs
	else:
		prm, ts, _ = explib.mkexp(sim)
		put('x.prm', explib.prmtext(prm))
		if prepare(sim, ['grammar', 'param', 'x.prm', 'exp']) is None:
			return None
		args = ['exp']
		inputs = []
	sents = sentences(sim, ts, '--sentid' in opts)
	if not sim.plain and sim.chance(1, 3, 'stdin'):
		return Case(['parser'] + args + opts, sents, inputs=inputs)
	name = 'sents'
	if not sim.plain and sim.chance(1, 2, 'compress'):
		name += sim.pick(['.gz', '.zst'], 'compression')
		sents = gzip.compress(sents, mtime=0)
	put(name, sents)
	args.append(name)
	outarg = None
	if sim.chance(2, 3, 'file'):
		args.append('{out}/o')
		outarg = ['{out}/o']
	return Case(['parser'] + args + opts, inputs=inputs + [name],
			viastdin=(name, None), outarg=outarg)


def evaluate(sim):
	fmt = sim.pick(['export', 'discbracket', 'bracket'], 'fmt')
	gold = trees(sim, fmt != 'bracket')
	cand = [t if sim.chance(1, 2, 'same') else relabel(sim, t) for t in gold]
	a, _ = bank(sim, 'gold', fmt, gold)
	b, _ = bank(sim, 'cand', fmt, cand)
	prm = ['DELETE_LABEL ROOT'] + [x for x in (
			'EQ_LABEL NP VP', 'EQ_LABEL VP PP', 'EQ_LABEL X NP',
			'EQ_WORD cat the', 'EQ_WORD the dog', 'DELETE_WORD ,',
			'DELETE_LABEL_FOR_LENGTH NN') if sim.chance(1, 4, 'prm')]
	put('e.prm', ''.join(x + '\n' for x in prm))
	opts = [x for x in ('--verbose', '--ted', '--la', '--disconly', '--debug',
			'--functions=leave') if sim.chance(1, 4, 'opt')]
	if sim.chance(1, 6, 'heads'):
		put('heads.txt', ''.join('%s\tLEFT-TO-RIGHT\tVB NN\n' % x
				for x in ['NP', 'VP', 'PP', 'S', 'X', 'ROOT']))
		opts.append('--headrules=heads.txt')
	return Case(['eval', a, b, 'e.prm', '--fmt=' + fmt] + opts,
			inputs=[a, b], encs={a: '--goldenc', b: '--parsesenc'})


def relabel(sim, t):
	if isterm(t):
		return t
	return [t[0] if t[0] == 'ROOT' or not sim.chance(1, 3, 'relabel') else
			sim.pick(['NP', 'VP', 'S'], 'label')] + [
			relabel(sim, c) for c in t[1:]]


def runexp(sim):
	prm, _, _ = explib.mkexp(sim)

	class Exp(Case):
		def run(self, sim, out, name, setup=None):
			shutil.rmtree(out, ignore_errors=True)
			put(out + '.prm', explib.prmtext(prm))
			return super().run(sim, out, name, setup)
	return Exp(['runexp', '{out}.prm'], mkdir=False, inputs=['train.tb',
			'test.tb'])


def search(sim):
	from . import searchlib as sl
	engine = sim.pick(['frag', 'regex', 'tgrep2'], 'engine')
	path = os.environ['PATH']
	nfiles = 1 + sim.choose(3, 'nfiles')
	names, allt = [], []
	for n in range(nfiles):
		if engine == 'regex':
			ext, text = 'txt', sl.gentext(sim)
		else:
			ts = sl.gentrees(sim)
			allt.extend(ts)
			ext = 'mrg' if engine == 'tgrep2' else sim.pick(['mrg', 'dbr'],
					'ext')
			text = sl.writetrees(ts, ext)
		names.append('s/c%d.%s' % (n, ext))
		put(names[-1], text)
		settime(names[-1], sim.clock - 1000)
	if engine == 'tgrep2':
		sl.usetgrep(sim)
		os.environ['PATH'] = path
	queries = []
	for _ in range(1 + sim.choose(3, 'queries')):
		if engine == 'regex':
			queries.append(sim.pick(sl.QUERIES, 'q'))
		elif engine == 'tgrep2':
			queries.append(sim.pick(sl.TGPATS, 'q'))
		else:
			f = sl.cut(sim, sim.pick(sl.subfrags(sim.pick(allt, 'qt')), 'qs'))
			if sl.ispre(f) and not f[1]:
				f = [f[0], 'the']
			queries.append(sl.fragstr(f))
	mode = sim.pick(['counts', 'sents', 'indices', 'breakdown', 'trees',
			'treesbreakdown', 'countsbreakdown', 'csv', 'brackets',
			'bracketsbreakdown'], 'mode')
	if mode not in ('counts', 'csv', 'sents'):
		del queries[1:]
	opts = dict(counts=['-c'], csv=['-c', '--csv'], sents=[],
			indices=['--indices'], trees=['-t'],
			breakdown=['-s', '--breakdown'], brackets=['-b'],
			bracketsbreakdown=['-b', '--breakdown'],
			treesbreakdown=['-t', '--breakdown'],
			countsbreakdown=['-c', '--breakdown'])[mode]
	opts += sim.pick([[], ['-n'], ['--slice=1:3'], ['-m', '2'], ['-o'], ['-h']],
			'opts')
	opts.append('--numproc=%d' % sim.pick([1, 2, 3], 'numproc'))
	extra = []
	if engine == 'regex' and sim.chance(1, 4, 'ignorecase'):
		opts.append('-i')
	if sim.chance(1, 4, 'macros') and not any('{' in q for q in queries):
		put('macros.txt', ''.join('M%d=%s\n' % a for a in enumerate(queries)))
		queries = ['{M%d}' % n for n, _ in enumerate(queries)]
		opts += ['-M', 'macros.txt']
		extra.append('macros.txt')
	query = '\n'.join(queries)
	if sim.chance(1, 4, 'queryfile'):
		query = 'query.txt'
		put(query, ''.join(q + '\n' for q in queries))
		opts.append('-f')
		extra.append(query)

	class Search(Case):
		def run(self, sim, out, name, setup=None):
			# indexes to be created anew
			for x in disk.R['listdir']('s'):
				if 's/' + x not in names:
					disk.R['unlink']('s/' + x)
			return super().run(sim, out, name, setup)
	return Search(['treesearch', '--engine=' + engine, query]
			+ names + opts, inputs=names + extra)


KINDS = dict(search=search, treetransforms=treetransforms, treedraw=treedraw, grammar=grammar,
		merge=merge, ptsg=ptsg, info=info, fragments=fragments, parser=parser,
		eval=evaluate, runexp=runexp)


def mkcase(sim, kinds=None, plain=False):
	kinds = kinds or ['treetransforms', 'treetransforms', 'treedraw',
			'grammar', 'grammar', 'merge', 'ptsg', 'info', 'fragments',
			'fragments', 'parser', 'eval']
	kind = sim.pick(kinds, 'command')
	sim.plain = plain
	programs(sim)
	return kind, KINDS[kind](sim)
