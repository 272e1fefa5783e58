"""C18: treebank readers deliver exact contents or an error under I/O faults."""
import io
import gzip
import errno
from .. import core
from ..common import *
from ..treelib import *
from .c15 import decompressor

RUNS = (7000, 300000)
BUDGET = (40, 1200)
RULE = ('random treebanks (7 formats, 1-4 files, plain, gzip or zstd) x directory '
	'order x random interleaving of iterators, ranges, full reads and raw blocks, '
	'abandoned and restarted x short reads, failing opens and reads, truncated or '
	'damaged compressed files, failing decompressor, files cut inside a sentence; '
	'distinct by schedule and fault trace')
REALPARTS = ('treebank.CorpusReader and its seven subclasses, tree.py, '
	'util.openread, gzip, expat')
STUBS = 'directory listing order, disk faults, zstd as scripted child'
FMTS = ['bracket', 'discbracket', 'export', 'tiger', 'alpino',
		'alpinocompact', 'ftb']
# comments; line breaks according to Unicode do not end a line of a treebank
COMMENTS = ['', '', 'comment', 'a\u2028b', 'x\x85 y', 'v\x0bt', 'f\x0cf (S',
		's\x1c\x1d\x1e.', 'two\ttabs', '50 % x']
OPTS = [{}, {}, dict(ensureroot='TOP'), dict(punct='move'),
		dict(punct='removeall'), dict(removeempty=True),
		dict(functions='add'), dict(morphology='add'),
		dict(lemmas='between'), dict(headrules='rules.txt')]


def gencorpus(sim, fmt):
	"""{file name: (bytes, [(key, canonical form)])}, in the order of reading;
	second result: pattern to open."""
	numbers = sim.shuffled([1, 2, 3, 10, 11, 20], 'filenums')[
			:1 + sim.choose(4, 'nfiles')]
	ext = dict(bracket='.mrg', discbracket='.dbr', export='.export',
			tiger='.xml', alpino='.xml', alpinocompact='.data.dz',
			ftb='.xml')[fmt]
	comp = ''
	if fmt in ('bracket', 'discbracket', 'export', 'tiger', 'ftb'):
		comp = sim.pick(['', '', '.gz', '.zst'], 'compression')
	# names with equal numbers must be in a fixed order as well
	dup = len(numbers) > 1 and sim.chance(1, 6, 'equalnumbers')
	names = ['f_%d' % n for n in sorted(numbers)]
	if dup:
		names = sorted(names[:-1] + [names[0].replace('_', '_0')],
				key=lambda x: (int(x.split('_')[1]), x))
	files, key = {}, 0
	for name in names:
		trees, keys, comments = [], [], ()
		if fmt == 'alpino':
			n = 1
		else:
			n = sim.choose(4, 'ntrees')
		for _ in range(n):
			t = gennum(sim, fmt not in ('bracket', 'ftb'))
			if isterm(t):
				t = ['S', t]
			trees.append(t)
		if fmt == 'bracket':
			data = ''.join(brackets(t) + '\n' for t in trees)
		elif fmt == 'discbracket':
			comments = [sim.pick(COMMENTS, 'comment') for t in trees]
			data = ''.join(discbracket(t) + (c and '\t' + c) + '\n'
					for t, c in zip(trees, comments))
		elif fmt == 'export':
			data = sim.pick(['', '%% comment\n', '#FORMAT 3\n#BOT ORIGIN\n'
					'0\tx\ty\n#EOT ORIGIN\n'], 'head')
			comments = [sim.pick(COMMENTS, 'comment') for t in trees]
			data += ''.join('\n'.join(exportlines(t, key + m, c)) + '\n'
					for m, (t, c) in enumerate(zip(trees, comments), 1))
		elif fmt == 'tiger':
			data = tiger(trees)
			for m in range(len(trees), 0, -1):
				data = data.replace('"s%d"' % m, '"s%d"' % (key + m)).replace(
						'"s%d_' % m, '"s%d_' % (key + m))
		elif fmt == 'alpino':
			data = '\n'.join(alpino(trees[0])) + '\n'
		elif fmt == 'alpinocompact':
			data = ''.join('\n'.join(alpino(t)).replace('<sentence>',
					'<sentence sentid="%d">' % m) + '\n'
					for m, t in enumerate(trees, 1))
		else:
			data = ftb(trees)
		for m, t in enumerate(trees, 1):
			key += 1
			if fmt in ('bracket', 'discbracket'):
				k = key
			elif fmt == 'export':
				k = str(key)
			elif fmt == 'tiger':
				k = 's%d' % key
			elif fmt == 'alpino':
				k = 'c/' + name
			elif fmt == 'alpinocompact':
				k = '%s%s/%d' % (name, ext, m)
			else:
				k = '%s-%d' % (name + (ext if comp else ''), m)
			c = t
			if fmt == 'export':
				c = ['ROOT', t]
			elif fmt == 'tiger':
				c = ['VROOT'] + t[1:]
			elif fmt == 'ftb':
				c = ['SENT'] + t[1:]
			keys.append((k, canon(c) + (
					(comments[m - 1] or None) if comments else None, )))
		files[name + ext + comp] = data.encode('utf8'), keys
	return files, 'c/*' + ext + comp, comp or (
			'.gz' if fmt == 'alpinocompact' else '')


def itemform(item):
	return realcanon(item.tree, item.sent) + (item.comment, )


def run(sim):
	from discodop import treebank
	os.environ['PATH'] = os.path.join(sim.scratch, 'bin')
	put('bin/zstd', b'')
	sim.programs['zstd'] = decompressor
	sim.dcfault = {}
	sim.cfg['pipecap'] = sim.pick([65536, 64], 'pipecap')
	fmt = sim.pick(FMTS, 'fmt')
	files, pattern, comp = gencorpus(sim, fmt)
	opts = sim.pick(OPTS, 'opts')
	if fmt in ('bracket', 'discbracket') and set(opts) & {'morphology', 'lemmas'}:
		opts = {}
	put('rules.txt', '\n'.join('%s\tLEFT-TO-RIGHT\tVB NN' % x
			for x in LABELS + ['ROOT']) + '\n')
	sim.disk.stamp = False
	sim.disk.shuffle = True
	# which file is damaged, and how
	names = list(files)
	target = sim.choose(len(names), 'target')
	kind = sim.choose(5, 'fault')
	damage = None
	plan = []
	for n, name in enumerate(names):
		data, keys = files[name]
		raw = gzip.compress(data, mtime=0) if comp else data
		put('ref/' + pattern.split('/')[0] + '/' + name, raw)
		if n == target and kind == 1 and comp and len(raw) > 2:
			pos = 1 + sim.choose(len(raw) - 1, 'pos')
			if sim.chance(1, 2, 'flip'):
				x = bytearray(raw)
				x[pos] ^= 1 << sim.choose(8, 'bit')
				raw, damage = bytes(x), 'flip'
			else:
				if sim.chance(1, 6, 'none'):
					pos = 0
				raw, damage = raw[:pos], 'truncated'
		elif n == target and kind == 1 and data:
			damage = (damageexport(sim, data, [k for x in names[:n]
					for k, _ in files[x][1]]) if fmt == 'export'
					and sim.chance(1, 2, 'inside') else None)
			if damage is None:
				damage = cutplain(sim, fmt, data)
			if damage is not None:
				raw, damage = damage, 'cut'
		if damage and n == target:
			sim.fault('data-' + damage)
		put(('c/' if fmt != 'alpino' else 'c/') + name, raw)
		if n == target and kind == 2 and comp == '.zst':
			sim.dcfault['c/' + name] = (sim.pick([1, -9], 'code'),
					sim.choose(101, 'frac') / 100, (0, 20000)[sim.choose(
					2, 'flood')], sim.choose(101, 'when') / 100)
			damage = 'decompressor'
			sim.fault('decompressor-failure')
	if kind in (2, 3) and not damage:
		plan = [disk.Fault(sim.pick(['read', 'open'], 'op'),
				sim.choose(6, 'at'), err=errno.EIO,
				match='c/' + names[target])]
	exp = [x for name in names for x in files[name][1]]
	prefix = sum(len(files[name][1]) for name in names[:target + 1])
	sim.disk.chunks = sim.chance(1, 2, 'shortreads')
	ops = []
	for _ in range(1 + sim.choose(5, 'nops')):
		k = sim.pick(['iter', 'iter', 'trees', 'sents', 'tagged', 'blocks'],
				'op')
		a = b = lim = None
		if k == 'iter' and sim.chance(1, 2, 'range'):
			a = (None, 0, 1, 3)[sim.choose(4, 'start')]
			b = (None, 1, 2, 5)[sim.choose(4, 'end')]
		if k == 'iter' and sim.chance(1, 3, 'abandon'):
			lim = sim.choose(3, 'limit')
		ops.append((k, a, b, lim))
	sim.sample = dict(fmt=fmt, opts=opts, files={n: d[0].decode('utf8')[:200]
			for n, d in files.items()}, ops=ops, damage=damage, plan=repr(plan),
			target=names[target])

	def perform(r, op, out):
		"""Generator: perform op in steps, appending to out."""
		k, a, b, lim = op
		if k == 'iter':
			n = 0
			for key, item in r.itertrees(a, b):
				out.append((key, itemform(item)))
				n += 1
				if n == lim:
					out.append('abandoned')
					return
				yield
		elif k == 'blocks':
			out.extend(r.blocks().items())
		elif k == 'trees':
			yield
			t = r.trees()
			yield
			s = r.sents()
			out.extend((n, realcanon(t[n], s[n])) for n in t)
		elif k == 'sents':
			out.extend(r.sents().items())
		elif k == 'tagged':
			out.extend(r.tagged_sents().items())

	def session(prefix, plan, interleave):
		def body(sim):
			os.chdir(os.path.join(sim.scratch, prefix))
			sim.disk.plan = plan
			try:
				r = treebank.READERS[fmt](pattern, **dict(opts, **(
						dict(headrules=os.path.join(sim.scratch, 'rules.txt'))
						if 'headrules' in opts else {})))
			except Exception as err:
				return 'open', '%s: %s' % (type(err).__name__, err)
			outs = [[] for _ in ops]
			ends = [None] * len(ops)
			live = [(n, perform(r, op, outs[n])) for n, op in enumerate(ops)]
			while live:
				k = sim.choose(len(live), 'op') if interleave else 0
				n, gen = live[k]
				sim.event('op%d' % n)
				try:
					next(gen)
				except StopIteration:
					ends[n] = 'ok'
					live.pop(k)
				except (core.Hang, Violation, Inconclusive):
					raise
				except Exception as err:
					ends[n] = '%s: %s' % (type(err).__name__, err)
					live.pop(k)
			return 'done', outs, ends
		return body
	act = core.call(sim, session('.', plan, True), 'act')
	sim.disk.shuffle = sim.disk.chunks = False
	sim.dcfault = {}
	ref = core.call(sim, session('ref', [], False), 'ref')
	check(ref[0] == 'ok' and ref[1][0] == 'done' and all(
			x == 'ok' for x in ref[1][2]), 'reference-failed:' + fmt,
			lambda: '%r\n%r' % (ref, sim.sample))
	check(act[0] == 'ok', 'failed:' + fmt, lambda: '%s\n%r' % (
			core.describe(act), sim.sample))
	faulty = damage or plan
	if act[1][0] == 'open':
		check(faulty, 'spurious-error:' + fmt, lambda: '%r\n%r' % (act[1],
				sim.sample))
		return
	for op, got, end, want in zip(ops, act[1][1], act[1][2], ref[1][1]):
		if op[0] == 'iter':  # independent of the reader, if possible
			full = exp[op[1] or 0:op[2]]
			if not opts and op[3] is None:
				if fmt == 'ftb':  # comments are attributes
					full = [(k, x[:2] + y[2:]) for (k, x), (_, y)
							in zip(full, want)] + full[len(want):]
				check(want == full, 'wrong-contents:' + fmt, lambda:
						'got %r\nexpected %r\n%r' % (want, full, sim.sample))
			elif op[3] is None:
				check([k for k, _ in want] == [k for k, _ in full],
						'wrong-sentences:' + fmt, lambda: '%r\n%r' % (want,
						sim.sample))
		else:
			check([k for k, _ in want] == [k for k, _ in exp],
					'wrong-sentences:' + fmt, lambda: '%r: %r\n%r' % (op,
					[k for k, _ in want], sim.sample))
			if op[0] == 'trees' and not opts:
				check(want == [(k, x[:2]) for k, x in exp],
						'wrong-contents:' + fmt, lambda: repr(sim.sample))
		if (damage == 'cut' and (op[0] == 'blocks' or op[1])
				and fmt in ('bracket', 'discbracket')):
			continue  # these are lines as they are, not parsed
		if damage == 'flip' and op[0] == 'iter':
			continue  # a checksum can only be verified at the end
		if fmt == 'discbracket' and damage and op[0] == 'iter':
			# part of a comment does not look incomplete
			k = len(got) - (got[-1:] == ['abandoned']) - 1
			if (0 <= k < len(want) and want[k] != 'abandoned'
					and got[k][1][:2] == want[k][1][:2]):
				got[k] = want[k]
		if end == 'ok':
			check(got == want, 'differs:' + fmt, lambda: '%r: got %r\nexpected '
					'%r\n%r' % (op, got, want, sim.sample))
			if damage in ('truncated', 'cut', 'decompressor') and op[0] != \
					'iter':
				raise Violation('damage-unnoticed:' + fmt, '%r: %r' % (op,
						sim.sample))
		else:
			check(faulty, 'spurious-error:' + fmt, lambda: '%r: %s\n%r' % (op,
					end, sim.sample))
			check(got == want[:len(got)], 'altered-before-error:' + fmt,
					lambda: '%r: got %r\nexpected %r\n%r' % (op, got, want,
					sim.sample))


def damageexport(sim, data, earlier):
	"""A hole ending in a different sentence, or an identifier used twice."""
	text = data.decode('utf8')
	lines = text.split('\n')
	starts = [n for n, x in enumerate(lines) if x.startswith('#BOS ')]
	ends = [n for n, x in enumerate(lines) if x.startswith('#EOS ')]
	if sim.chance(1, 2, 'dup'):
		n = sim.choose(len(starts), 'sentence') if starts else 0
		ids = earlier + [lines[k].split()[1] for k in starts[:n]]
		if not starts or not ids:
			return None
		new = sim.pick(ids, 'id')
		old = lines[starts[n]].split()[1]
		for k in (starts[n], ends[n]):
			lines[k] = lines[k][:5] + new + lines[k][5 + len(old):]
	else:
		if len(starts) < 2:
			return None
		a = sim.choose(len(starts) - 1, 'first')
		b = a + 1 + sim.choose(len(starts) - a - 1, 'last')
		x = starts[a] + 1 + sim.choose(ends[a] - starts[a], 'from')
		y = starts[b] + sim.choose(ends[b] - starts[b] + 1, 'to')
		lines[x:y] = []
	return '\n'.join(lines).encode('utf8')


def cutplain(sim, fmt, data):
	"""Cut an uncompressed file inside a sentence; None if not possible."""
	if fmt in ('tiger', 'ftb', 'alpino'):
		end = data.rstrip().rfind(b'>')
		return data[:1 + sim.choose(end - 1, 'pos')]
	text = data.decode('utf8')
	if fmt == 'export':
		spots = []
		inside = False
		pos = 0
		for line in io.StringIO(text, newline='\n'):
			if line.startswith('#BOS '):
				inside = True
				spots.append(pos + len(line))
			elif line.startswith('#EOS '):
				inside = False
				spots.append(pos + 3)
			elif inside:
				spots.append(pos)
				spots.append(pos + len(line) // 2)
			pos += len(line)
	else:
		spots, pos = [], 0
		for line in io.StringIO(text, newline='\n'):
			n = line.rfind(')')
			spots.extend({pos + 1, pos + n // 2, pos + n} - {pos})
			pos += len(line)
	if not spots:
		return None
	return text[:spots[sim.choose(len(spots), 'spot')]].encode('utf8')
