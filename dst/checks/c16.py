"""C16: writing through a compressor stores everything or fails loudly."""
import io
import gzip
import errno
from .. import core
from ..common import *
from .c15 import LINES, BytesIO

RUNS = (10000, 500000)
BUDGET = (30, 1200)
RULE = ('random contents written in random pieces (text or binary, with flushes '
	'or an exception in the block) x compressor exit code or signal at any '
	'point of its input, diagnostics of any size, full disk or write error on '
	'the output, missing program, pipe capacity, chunking and scheduling; '
	'distinct by schedule and fault trace')
REALPARTS = 'util.genericcompressor, genericdecompressor'
STUBS = ('the compressor and decompressor programs are scripted children behind '
	'simulated pipes; disk faults')


def compressor(io, argv):
	"""sim.cfault: None or (code, fraction of input, flood, stage)."""
	sim = io.sim
	if any(a in ('-d', '--decompress') for a in argv):
		names = [a for a in argv[1:] if not a.startswith('-')]
		data = get(names[0]) if names else (yield from io.readall())
		try:
			out = gzip.decompress(data)
		except Exception:
			return 1
		yield from io.write(out)
		return 0
	code, frac, flood, stage = sim.cfault or (0, 1, 0, '')
	if stage == 'start':
		if flood:
			yield from io.error(b'diagnostics\n' * flood)
		if code:
			return code
	limit = int(sim.total * frac)
	buf = b''
	while True:
		x = yield from io.read(sim.pick([65536, 512, 10], 'readsize'))
		if not x:
			break
		buf += x
		if stage == 'input' and len(buf) >= limit:
			stage = ''
			if flood:
				yield from io.error(b'diagnostics\n' * flood)
			if code:
				return code
	out = gzip.compress(buf, mtime=0)
	if stage == 'output':
		out = out[:int(len(out) * frac)]
	pos = 0
	while pos < len(out):
		try:
			yield from io.write(out[pos:pos + 512])
		except OSError as err:
			yield from io.error(b'write error: %s\n' % str(err).encode())
			return 1
		pos += 512
	if stage == 'output' and flood:
		yield from io.error(b'diagnostics\n' * flood)
	return code


class Left(Exception):
	"""Raised in the block."""


def run(sim):
	from discodop import util
	sim.cfg['pipecap'] = sim.pick([65536, 4096, 64], 'pipecap')
	sim.cfg['pipechunks'] = sim.chance(1, 2, 'pipechunks')
	os.environ['PATH'] = os.path.join(sim.scratch, 'bin')
	prog = sim.pick(['gzip', 'zstd', 'lz4'], 'prog')
	for x in ('gzip', 'zstd', 'lz4'):
		put('bin/' + x, b'')
		sim.programs[x] = compressor
	enc = sim.pick(['utf8', None, 'latin1', 'utf-16', 'ascii'], 'enc')
	pieces = []
	rep = sim.pick([1, 1, 100, 1500], 'repeat')
	for _ in range(sim.choose(7, 'npieces')):
		x = sim.pick(LINES, 'line') + sim.pick(['\n', ''], 'nl')
		pieces.append(x * rep)
	limit = dict(latin1=256, ascii=128).get(enc, 0x110000)
	if limit < 0x110000 and not sim.chance(1, 4, 'unencodable'):
		pieces = [''.join(a for a in x if ord(a) < limit) for x in pieces]
	# what cannot be represented must not be silently replaced
	bad = enc is not None and any(ord(a) >= limit for x in pieces for a in x)
	if enc is None:
		pieces = [x.encode('utf8') for x in pieces]
	exp = (b'' if enc is None else '').join(pieces)
	sim.total = len(exp if enc is None else exp.encode(enc, 'replace'))
	flush = [sim.chance(1, 4, 'flush') for _ in pieces]
	raises = sim.choose(len(pieces) + 1, 'raiseat') if sim.chance(
			1, 8, 'raises') else None
	fk = sim.choose(4, 'fault')
	sim.cfault = None
	plan = []
	missing = False
	if fk == 1:
		sim.cfault = (sim.pick([1, -9, 255, -13], 'code'),
				sim.choose(101, 'frac') / 100, (0, 10, 20000)[sim.choose(
				3, 'flood')], sim.pick(['input', 'start', 'output'], 'stage'))
		sim.fault('compressor-' + ('signal' if sim.cfault[0] < 0 else 'exit'))
	elif fk == 2:
		sim.cfault = (0, sim.choose(101, 'frac') / 100, (20, 20000)[sim.choose(
				2, 'flood')], sim.pick(['input', 'start'], 'stage'))
		sim.fault('compressor-diagnostics')
	elif fk == 3:
		plan = [disk.Fault(sim.pick(['write', 'creat', 'close-w'], 'op'),
				sim.choose(4, 'at'), err=sim.pick([errno.ENOSPC, errno.EIO],
				'errno'), sticky=True, frac=sim.pick([0, .5], 'frac'))]
		if sim.chance(1, 8, 'missing'):
			missing = True
			os.unlink('bin/' + prog)
	before = sim.chance(1, 3, 'exists')
	if before:
		put('out.x', gzip.compress(b'something older'))
	level = 1 + sim.choose(9, 'level')
	sim.sample = dict(pieces=[repr(x)[:40] for x in pieces], enc=enc,
			cfault=repr(sim.cfault), plan=repr(plan), raises=raises)

	def body(sim):
		sim.disk.plan = plan
		with util.genericcompressor(prog, 'out.x', encoding=enc,
				compresslevel=level) as out:
			for n, x in enumerate(pieces):
				if n == raises:
					raise Left()
				sim.event('write')
				out.write(x)
				if flush[n]:
					out.flush()
			if raises == len(pieces):
				raise Left()
	out = core.call(sim, lambda sim: capture(body, sim), 'write')
	check(out[0] != 'hang', 'blocked', lambda: '%s\n%r' % (
			core.describe(out), sim.sample))
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	out = out[1]
	if out[0] == 'ok':
		check(raises is None, 'exception-lost', repr(sim.sample))
		try:
			data = gzip.decompress(get('out.x'))
			got = data if enc is None else data.decode(enc)
		except Exception as err:
			raise Violation('lost-data', 'the output is not readable: %r; %r'
					% (err, sim.sample)) from None
		check(got == exp, 'lost-data', lambda: 'got %d, expected %d units: %r'
				% (len(got), len(exp), sim.sample))

		def reread(sim):
			sim.disk.plan = []
			with util.genericdecompressor(prog, 'out.x', encoding=enc) as f:
				return f.read()
		back = core.call(sim, reread, 'reread')
		want = exp
		if enc is not None:  # newline handling is that of text files
			want = want.replace('\r\n', '\n')
		check(back[0] == 'ok' and back[1] == want, 'read-back', lambda:
				'%s %r' % (core.describe(back), sim.sample))
	elif out[1] != 'Left':
		check((sim.cfault and sim.cfault[0]) or plan or missing or bad,
				'spurious-error', lambda: '%r\n%r' % (out, sim.sample))
