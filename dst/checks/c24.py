"""C24: output of a command does not depend on how its input is delivered."""
import gzip
from .. import core
from .. import cmdlib
from ..common import *

RUNS = (5000, 60000)
BUDGET = (40, 1500)
RULE = ('random command (treetransforms, treedraw, grammar, grammar '
	'merge/info/ptsg, fragments, parser, eval) on plain files, compared with the '
	'same command on compressed files (gzip, zstd, lz4), on standard input, on '
	'files in another encoding, with short reads and any pipe schedule, and '
	'with output to a file or to standard output; files to be merged in another '
	'order; distinct by command and delivery')
REALPARTS = ('discodop.cli.main and all it calls; gzip, io buffering; standard '
	'streams as files of the simulated disk')
STUBS = ('file system, zstd/lz4 programs and pipes, multiprocessing.Pool, clocks')


def variant(sim, case, kind):
	"""The same command with input and output delivered in another way;
	returns case, renamed files, list of differences."""
	argv = list(case.argv)
	ren, desc, encs = {}, [], {}
	stdin, closed = None, None
	via = case.viastdin
	if (case.outarg and via and via[1] is None) and via[0] in argv:
		# input cannot be omitted when there is an output argument
		pass
	outarg = case.outarg
	if outarg and sim.chance(1, 3, 'tostdout'):
		n = argv.index(outarg[0])
		del argv[n:n + len(outarg)]
		outarg = None
		desc.append('stdout')
	opt = {}
	names = [x for x in case.inputs if '*' not in x]
	# files for which the same option gives the encoding share it
	for x in names:
		if x in case.encs and sim.chance(1, 5, 'encoding'):
			opt[case.encs[x]] = sim.pick(['latin1', 'utf-16', 'cp1252'],
					'encoding')
	data = {}
	for x in names:
		data[x] = get(x)
		enc = opt.get(case.encs.get(x))
		if enc:
			data[x] = data[x].decode('utf8').encode(enc)
			desc.append('%s in %s' % (x, enc))
	for x, enc in sorted(opt.items()):
		argv += ['%s=%s' % (x, enc)]
	if via and (via[1] is not None or outarg is None) and via[0] in names and (
			sim.chance(1, 3, 'viastdin')):
		stdin = data[via[0]]
		n = argv.index(via[0])
		argv[n:n + 1] = [] if via[1] is None else [via[1]]
		names.remove(via[0])
		ren[via[1] or '-'] = via[0]
		desc.append('stdin for ' + via[0])
	for x in names:
		# as a file of the same name in another directory
		y = 'alt/' + x
		if x.endswith('.gz'):
			y, data[x] = y[:-3], gzip.decompress(data[x])
		fmt = x.rsplit('.', 1)[-1]
		if (kind in ('treetransforms', 'grammar', 'treedraw')
				and fmt in ('bracket', 'discbracket', 'export')
				and not opt and '--fmt=auto' not in argv
				and sim.chance(1, 4, 'split')):
			pattern = split(sim, y, data[x], fmt)
			argv = [pattern if a == x else a for a in argv]
			ren[pattern] = x
			desc.append('several files for ' + x)
			continue
		batch = any(a.startswith('--batch') for a in argv)
		if not batch and sim.chance(2, 3, 'compress'):
			y += sim.pick(['.gz', '.zst', '.lz4'], 'compression')
			data[x] = gzip.compress(data[x], mtime=0)
			desc.append(y)
		put(y, data[x])
		argv = [y if a == x else a for a in argv]
		ren[y] = x
	if kind == 'treetransforms' and outarg and sim.chance(1, 4, 'outputenc'):
		argv.append('--outputenc=' + sim.pick(['utf-16', 'latin1'], 'outenc'))
		desc.append('output in ' + argv[-1])
	if kind == 'merge' and sim.chance(1, 2, 'reorder'):
		argv[3:-1] = sim.shuffled(argv[3:-1], 'order')
		desc.append('order')
	return cmdlib.Case(argv, stdin, mkdir=case.mkdir), ren, desc


def split(sim, name, data, fmt):
	"""Distribute a treebank over several files."""
	end = b'#EOS' if fmt == 'export' else b'('
	parts, part = [], b''
	for line in data.splitlines(True):
		part += line
		if line.startswith(end) and sim.chance(1, 3, 'cut'):
			parts.append(part)
			part = b''
	if part or not parts:
		parts.append(part)
	if sim.chance(1, 2, 'numbered'):
		base, ext = name.rsplit('.', 1)
		start = sim.pick([1, 8, 95], 'firstfile')
		for n, x in enumerate(parts, start):
			put('%s-%d.%s' % (base, n, ext), x)
		return base + '-*.' + ext
	for n, x in enumerate(parts):
		put('%s.%03d' % (name, n), x)
	return name + '.*'


def weights(text, what, fmt):
	"""Contents of a file to be merged: {item: weight}."""
	res = {}
	for line in text.decode('utf8').splitlines():
		if what == 'lexicon':
			word, rest = line.split(None, 1)
			rest = rest.split()
			items = [((word, a), b) for a, b in zip(rest[::2], rest[1::2])]
		elif what == 'rules' and fmt == 'bracket':
			items = [line.split('\t', 1)[::-1]]
		else:
			items = [line.rsplit('\t', 1)]
		for x, w in items:
			if '/' in w:
				a, b = w.split('/')
				w = float(a) / float(b)
			check(x not in res, 'merge-repeats', lambda: '%r twice' % (x, ))
			res[x] = float(w)
	return res


def checkmerge(case, want):
	"""Merging averages the weights of every rule in any of the files."""
	what = case.argv[2]
	total, order = {}, []
	for x in case.inputs:
		for a, b in weights(get(x), what, case.fmt).items():
			total[a] = total.get(a, 0) + b / len(case.inputs)
	out, = [b for a, b in want.items() if a != '<stdout>']
	res = weights(out, what, case.fmt)
	check(set(res) == set(total) and all(abs(res[a] - total[a]) <=
			1e-5 * abs(total[a]) for a in res), 'merge-wrong',
			lambda: '%r: %r\nexpected: %r' % (case, res, total))


def run(sim):
	sim.cfg['clockjumps'] = False
	kind, case = cmdlib.mkcase(sim, ['treetransforms', 'treetransforms',
			'treedraw', 'grammar', 'grammar', 'merge', 'ptsg', 'info',
			'fragments', 'fragments', 'parser', 'parser', 'eval', 'eval'],
			plain=True)
	if case is None:
		sim.stat('no case')
		return
	ref = case.run(sim, 'ref', 'ref')
	check(ref.status is not None, 'hang', lambda: repr((case, ref)))
	sim.sample = dict(case=repr(case), ref=repr(ref))
	check(ref.status >= 0, 'died', lambda: repr((case, ref)))
	if not ref.ok:
		sim.stat('%s fails' % kind)
		return
	want = case.outputs('ref', ref)
	sim.stat(kind)
	if kind == 'merge':
		checkmerge(case, want)
	other, ren, desc = variant(sim, case, kind)
	sim.disk.chunks = sim.chance(1, 2, 'chunks')
	sim.disk.shuffle = True  # arbitrary order of directories
	if sim.disk.chunks:
		desc.append('short reads')
		sim.fault('short-reads')
	for x in desc:
		for y in ('stdin', 'stdout', '.gz', '.zst', '.lz4', 'order', ' in ',
				'several files', 'output in'):
			if y in x:
				sim.stat('delivery ' + y.strip())
	r = other.run(sim, 'out', 'cmd')
	sim.disk.chunks = sim.disk.shuffle = False
	sim.sample.update(other=repr(other), outcome=repr(r))
	sim.key = [repr(case), repr(other), desc]
	check(r.ok, kind + '-fails', lambda: '%r\nsucceeds, but\n%r\nwith %r: %r' % (
			case, other, desc, r))
	got = other.outputs('out', r)

	def norm(x):
		for a in sorted(ren, key=len, reverse=True):
			if a != '-':
				x = x.replace(a.encode(), ren[a].encode())
		return x
	got['<stdout>'] = norm(got['<stdout>'])
	if desc and any(x.startswith('output in') for x in desc):
		enc = [x for x in desc if x.startswith('output in')][0].split('=')[1]
		got['o'] = got['o'].decode(enc).encode('utf8')
	if 'stdout' in desc:
		# standard output in place of file
		got['o'] = got['<stdout>']
		got['<stdout>'] = want['<stdout>']
	if kind == 'merge' and 'order' in desc and case.argv[2] == 'lexicon':
		# tags of a word are listed in the order of the files
		for d in (want, got):
			for x in d:
				d[x] = b'\n'.join(b' '.join(sorted(a.replace(b' ', b'=').split())
						) for a in d[x].splitlines())
	for x in sorted(set(want) | set(got)):
		check(got.get(x) == want.get(x), kind + '-differs', lambda:
				'%r\n%r\nwith %r\n%s: %r\nexpected: %r\nstderr: %s' % (case,
				other, desc, x, got.get(x), want.get(x),
				r.err[-1500:].decode('utf8', 'replace')))
