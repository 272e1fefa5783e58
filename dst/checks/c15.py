"""C15: reading a compressed file gives all of it, or an error, and always ends."""
import io
import gzip
import errno
from .. import core
from ..common import *

RUNS = (9000, 400000)
BUDGET = (30, 1200)
RULE = ('random contents x plain, gzip, zstd or lz4 file (or standard input) x '
	'read pattern (all, sized, lines, early end, exception, two readers '
	'interleaved) x truncation, damage, failing reads, short reads, '
	'decompressor exit code or signal at any output byte, diagnostics of any '
	'size, pipe capacity and scheduling; distinct by schedule and fault trace')
REALPARTS = 'util.openread, readbytes, genericdecompressor; gzip module'
STUBS = 'zstd and lz4 are scripted children behind simulated pipes; disk faults'
LINES = ['the cat', '', '(S (NP x) (VP y))', 'd\u00e9j\u00e0 vu', 'a\tb',
		'\u4e2d\u6587', 'x' * 70, 'a\u2028b', 'c\x0cd', 'e\x85f', 'g\x1ch',
		'tab\x0bv', '\U0001f600']


def decompressor(io, argv):
	"""sim.dcfault[filename]: None or (code, frac, flood, when)."""
	sim = io.sim
	names = [a for a in argv[1:] if not a.startswith('-')]
	if names:
		try:
			data = get(names[0])
		except OSError:
			yield from io.error(b'no such file\n')
			return 1
	else:
		data = yield from io.readall()
	code, frac, flood, when = sim.dcfault.get(
			names and names[0], None) or (0, 1, 0, 0)
	fail = False
	out = b''
	try:
		with gzip.open(BytesIO(data)) as f:
			while True:
				x = f.read(64)
				if not x:
					break
				out += x
	except Exception:
		fail = True
	if not data:
		fail = True
	out = out[:int(len(out) * frac)]
	at = int(len(out) * when)
	yield from io.write(out[:at])
	if flood:
		yield from io.error(b'diagnostics\n' * flood)
	yield from io.write(out[at:])
	if fail:
		yield from io.error(b'corrupted data\n')
		return 1
	return code


BytesIO = io.BytesIO


class Left(Exception):
	"""Raised by the reader of the file."""


def contents(sim):
	n = sim.pick([0, 1, 3, 12, 60, 300], 'nlines')
	text = ''.join(sim.pick(LINES, 'line') + '\n' for _ in range(min(n, 12)))
	text = text * (1 if n <= 12 else n // 12)
	if sim.chance(1, 4, 'lastline'):
		text += 'no newline'
	return text


def reading(sim, f, how, binary):
	"""Generator: read from f in steps; yields after every step; returns the
	pieces read."""
	res = []
	if how == 'all':
		yield
		res.append(f.read())
	elif how == 'sized':
		size = sim.pick([1 << 14, 1 << 10, 7], 'size')
		for _ in range(100000):
			x = f.read(size)
			if not x:
				break
			res.append(x)
			yield
	elif how == 'lines':
		for line in f:
			res.append(line)
			yield
	elif how == 'readline':
		while True:
			x = f.readline()
			if not x:
				break
			res.append(x)
			yield
	return res


def run(sim):
	from discodop import util
	disk_ = sim.disk
	nread = 1 + sim.chance(1, 4, 'two')
	sim.cfg['pipecap'] = sim.pick([65536, 4096, 64], 'pipecap')
	sim.cfg['pipechunks'] = sim.chance(1, 2, 'pipechunks')
	sim.cfg['slowexit'] = sim.chance(1, 2, 'slowexit')
	sim.dcfault = {}
	os.environ['PATH'] = os.path.join(sim.scratch, 'bin')
	for prog in ('zstd', 'lz4'):
		put('bin/' + prog, b'')
		sim.programs[prog] = decompressor
	jobs = []
	for n in range(nread):
		ext = sim.pick(['', '.gz', '.zst', '.lz4', 'stdin'], 'ext')
		if n and ext == 'stdin':
			ext = ''
		text = contents(sim)
		enc = sim.pick(['utf8', None, 'utf8', 'latin1', 'utf-16'], 'enc')
		if enc == 'latin1':
			text = ''.join(a for a in text if ord(a) < 256)
		data = text.encode(enc or 'utf8')
		raw = data
		if ext in ('.gz', '.zst', '.lz4'):
			raw = gzip.compress(data, mtime=0)
		how = sim.pick(['all', 'sized', 'lines', 'readline'], 'how')
		if enc is None and sim.chance(1, 4, 'readbytes'):
			how = 'readbytes'
		leave = how in ('sized', 'lines', 'readline') and sim.chance(
				1, 3, 'leave')
		at = sim.choose(20, 'leaveat') if leave else None
		raises = leave and sim.chance(1, 2, 'raises')
		damage = None
		if ext in ('.gz', '.zst', '.lz4') and sim.chance(1, 3, 'damage'):
			pos = sim.choose(len(raw) - 1, 'pos') + 1
			if sim.chance(1, 2, 'flip'):
				x = bytearray(raw)
				x[pos] ^= 1 << sim.choose(8, 'bit')
				raw = bytes(x)
				damage = 'flip'
			else:
				if ext == '.gz' and sim.chance(1, 6, 'none'):
					pos = 0  # a gzip file of an empty text has a header
				raw = raw[:pos]
				damage = 'truncate'
			sim.fault('data-' + damage)
		name = 'f%d%s' % (n, '' if ext == 'stdin' else ext)
		dc = None
		if ext in ('.zst', '.lz4') and sim.chance(1, 2, 'dcfault'):
			k = sim.choose(3, 'dckind')
			code = sim.pick([1, 2, -9, -11, -13], 'code')
			flood = sim.pick([0, 10, 2000, 20000], 'flood')
			frac = sim.choose(101, 'frac') / 100
			dc = [(0, 1, flood or 2000, sim.choose(101, 'when') / 100),
					(code, frac, flood, sim.choose(101, 'when') / 100),
					(code, 1, 0, 0)][k]
			sim.dcfault[name] = dc
			sim.fault('decompressor-' + ('exit' if dc[0] > 0 else 'signal'
					if dc[0] else 'diagnostics'))
		put(name, raw)
		jobs.append(dict(name=name, ext=ext, enc=enc, how=how, at=at,
				raises=raises, damage=damage, dc=dc, data=data, text=text))
	for job in jobs:  # what reading such a plain file gives
		with open(job['name'] if not job['ext'] else 'plain',
				'rb' if job['ext'] == '' else 'wb') as f:
			if job['ext']:
				f.write(job['data'])
		mode = dict(mode='rb') if job['enc'] is None else dict(mode='r',
				encoding=job['enc'])
		with open('plain' if job['ext'] else job['name'], **mode) as f:
			job['exp'] = f.read()
		with open('plain' if job['ext'] else job['name'], **mode) as f:
			job['explines'] = list(f)
	disk_.chunks = sim.chance(1, 2, 'shortreads')
	iofault = sim.chance(1, 6, 'iofault')
	plan = []
	if iofault:
		plan = [disk.Fault(sim.pick(['read', 'open'], 'op'), sim.choose(
				6, 'at'), err=errno.EIO, match=jobs[0]['name']
				if jobs[0]['ext'] != 'stdin' else '<stdin>')]
	sim.sample = dict(jobs=[{k: v if not isinstance(v, (str, bytes))
			else v[:60] for k, v in job.items() if k not in (
			'explines', 'exp')} for job in jobs], iofault=repr(plan))

	def one(sim, job):
		"""Generator performing a job, suspended after every step."""
		name = '-' if job['ext'] == 'stdin' else job['name']
		if job['how'] == 'readbytes':
			yield
			return [util.readbytes(name)], True
		res = None
		with util.openread(name, encoding=job['enc']) as f:
			steps = reading(sim, f, job['how'], job['enc'] is None)
			n = 0
			while True:
				if job['at'] is not None and n == job['at']:
					if job['raises']:
						raise Left()
					return [], False
				try:
					next(steps)
				except StopIteration as err:
					res = err.value
					break
				n += 1
				yield
		return res, True

	def body(sim):
		for job in jobs:
			if job['ext'] == 'stdin':
				fd = disk.R['osopen'](job['name'], os.O_RDONLY)
				os.dup2(fd, 0)
				disk.R['osclose'](fd)
				sim.disk.fds[0] = '<stdin>'
				sys.stdin = open(0, closefd=False)
		sim.disk.plan = plan
		outs = [None] * len(jobs)
		live = [(n, one(sim, job)) for n, job in enumerate(jobs)]
		while live:
			k = sim.choose(len(live), 'reader')
			n, gen = live[k]
			sim.event('read %s' % jobs[n]['name'])
			try:
				next(gen)
			except StopIteration as err:
				outs[n] = ('ok', err.value)
				live.pop(k)
			except (core.Hang, Violation, Inconclusive):
				raise
			except Exception as err:
				outs[n] = ('exc', type(err).__name__, str(err)[:300])
				live.pop(k)
		return outs
	out = core.call(sim, body, 'read')
	check(out[0] != 'hang', 'blocked', lambda: '%s\n%r' % (
			core.describe(out), sim.sample))
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	for job, out in zip(jobs, out[1]):
		fatal = job['damage'] or (job['dc'] and job['dc'][0])
		if out[0] == 'ok':
			res, whole = out[1]
			if not whole:
				continue
			got = (b'' if job['enc'] is None else '').join(res)
			check(got == job['exp'], 'wrong-contents', lambda: '%s %s: got %r\n'
					'expected %r\n%r' % (job['ext'], job['how'], got[-200:],
					job['exp'][-200:], sim.sample))
			if job['how'] in ('lines', 'readline'):
				check(res == job['explines'], 'wrong-lines', lambda: '%s: got '
						'%r\nexpected %r\n%r' % (job['ext'], [a for a in res
							if a not in job['explines']], [a for a in
							job['explines'] if a not in res], sim.sample))
			check(not (job['dc'] and job['dc'][0]), 'failure-ignored', lambda:
					'the decompressor failed: %r' % (sim.sample, ))
		elif out[1] == 'Left':
			pass
		else:
			check(fatal or plan, 'spurious-error', lambda: '%r\n%r' % (out,
					sim.sample))
