"""Simulated disk layer: every file operation on the run's scratch directory
passes through ``Disk.op``, where the plan can inject errors, short or torn
operations and crashes, where other actors can be scheduled, and where virtual
time advances.  The bytes themselves live in real files in the scratch dir."""
import io
import os
import sys
import mmap
import errno
import stat
import builtins
import ctypes
import tempfile
from . import core

R = dict(open=io.open, osopen=os.open, osclose=os.close, write=os.write,
		rename=os.rename, replace=os.replace, unlink=os.unlink,
		remove=os.remove, ftruncate=os.ftruncate, scandir=os.scandir,
		listdir=os.listdir, mkdir=os.mkdir, mmap=mmap.mmap, utime=os.utime,
		truncate=os.truncate, fsync=os.fsync, rmdir=os.rmdir,
		read=os.read, link=os.link)
FileIO = io.FileIO
MUTATING = ('creat', 'write', 'close-w', 'rename', 'unlink', 'ftruncate',
		'mmap-w', 'flush', 'mkdir')


def disk():
	sim = core.SIM
	return None if sim is None else getattr(sim, 'disk', None)


class Fault:
	"""One planned fault: at the n-th eligible operation (0-based)."""

	def __init__(self, kind, at, err=errno.EIO, sticky=False, frac=0,
			match=None):
		self.kind = kind  # 'crash', or an operation kind
		self.at, self.err, self.sticky, self.frac = at, err, sticky, frac
		self.match = match  # substring of path, or None
		self.n = 0
		self.fired = False
		self.pid = None  # only in this process

	def __repr__(self):
		return 'Fault(%s@%d err=%s frac=%s match=%s)' % (self.kind, self.at,
				self.err, self.frac, self.match)


def torn(data, frac):
	"""Number of bytes of a torn write; an integer n stands for the part up
	to the n-th newline (modulo their number)."""
	if not isinstance(frac, int) or not frac:
		return int(len(data) * frac)
	data = bytes(data)
	total = data.count(b'\n')
	if not total:
		return len(data) // 2
	k = -1
	for _ in range((frac - 1) % total + 1):
		k = data.index(b'\n', k + 1)
	return k + 1


class Disk:
	def __init__(self, sim, root):
		self.sim = sim
		self.root = os.path.realpath(root) + '/'
		self.plan = []
		self.counts = {}
		self.fds = {}  # fd -> label, explicitly covered descriptors
		self.fdpath = {}
		self.gran = 1e-9  # mtime granularity in seconds
		self.dt = 1e-3  # virtual duration of an operation
		self.dirorder = None
		self.shuffle = False
		self.chunks = False  # vary sizes of reads and writes
		self.stamp = True
		self.yields = False
		self.log = []
		self.active = True
		self.virtual = {}

	def covers(self, path):
		if not self.active:
			return None
		if isinstance(path, int):
			return self.fds.get(path)
		try:
			path = os.fspath(path)
		except TypeError:
			return None
		if isinstance(path, bytes):
			path = os.fsdecode(path)
		full = os.path.join(os.getcwd(), path)
		full = os.path.normpath(full)
		if full.startswith(self.root):
			return full[len(self.root):]
		return None

	def op(self, kind, path, size=0):
		"""Account for an operation; may raise, crash, or return a Fault that
		limits the operation (frac)."""
		sim = self.sim
		if self.yields:
			sim.yield_point('%s:%s' % (kind, path))
		self.counts[kind] = self.counts.get(kind, 0) + 1
		mut = kind in MUTATING
		if mut:
			self.counts['mutating'] = self.counts.get('mutating', 0) + 1
		if mut and self.stamp:
			sim.tick(self.dt)
		res = None
		for f in self.plan:
			if f.match is not None and f.match not in path:
				continue
			if f.pid is not None and f.pid != os.getpid():
				continue
			if f.kind == 'crash' and mut or f.kind == kind:
				n = f.n
				f.n += 1
				if n == f.at or (f.sticky and f.fired):
					first = not f.fired
					f.fired = True
					if f.kind == 'crash':
						if kind == 'write' and f.frac:
							res = f
							continue
						core.crash(sim, 'crash-at-' + kind)
					if first:
						sim.fault('%s-%s' % (kind,
								errno.errorcode.get(f.err, f.err)))
					if kind == 'write' and f.frac and first and size > 1:
						res = f
						continue
					if f.err == 'interrupt':
						raise KeyboardInterrupt
					raise OSError(f.err, os.strerror(f.err), path)
		return res

	def touched(self, fd):
		if self.stamp:
			t = self.sim.now() if self.sim.link else self.sim.clock
			t = int(t / self.gran) * self.gran if self.gran > 1e-6 else t
			try:
				R['utime'](fd, (t, t))
			except OSError:
				pass


class SimRaw(FileIO):
	"""Raw file whose operations pass through the simulated disk."""

	def __init__(self, disk, label, *args, **kwargs):
		self._disk, self._label = disk, label
		self._wrote = False
		super().__init__(*args, **kwargs)
		self._w = self.writable()
		if self._w and not isinstance(args[0], int):
			disk.touched(self.fileno())

	def readinto(self, b):
		d = self._disk
		d.op('read', self._label, len(b))
		n = len(b)
		if d.chunks and n > 1:
			k = d.sim.choose(8, 'readsize')
			if k:
				n = max(1, min(n, (1, 2, 7, 61, 512, 4096, 5)[k - 1]))
				return super().readinto(memoryview(b)[:n])
		return super().readinto(b)

	def read(self, size=-1):
		if size is None or size < 0:
			return self.readall()
		buf = bytearray(size)
		n = self.readinto(buf)
		return bytes(buf[:n])

	def readall(self):
		self._disk.op('read', self._label)
		res = []
		while True:
			x = super().read(1 << 16)
			if not x:
				return b''.join(res)
			res.append(x)

	def write(self, b):
		d = self._disk
		b = memoryview(b).cast('B')
		f = d.op('write', self._label, len(b))
		if f is not None:
			k = max(0, min(len(b) - 1, torn(b, f.frac)))
			if k:
				super().write(b[:k])
			d.touched(self.fileno())
			if f.kind == 'crash':
				core.crash(d.sim, 'torn-write-crash')
			if k:
				return k
			raise OSError(f.err, os.strerror(f.err), self._label)
		if d.chunks and len(b) > 1:
			k = d.sim.choose(6, 'writesize')
			if k:
				b = b[:(1, 3, 64, 700, 4096)[k - 1]]
		n = super().write(b)
		self._wrote = True
		if not self._label.startswith('<'):
			d.touched(self.fileno())
		return n

	def close(self):
		if not self.closed:
			try:
				if self._w and self._disk.active:
					self._disk.op('close-w', self._label)
			finally:
				super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
		newline=None, closefd=True, opener=None):
	d = disk()
	label = None if d is None else d.covers(file)
	if label is None:
		return R['open'](file, mode, buffering, encoding, errors, newline,
				closefd, opener)
	modes = set(mode)
	if modes - set('axrwb+t') or len(mode) > len(modes):
		raise ValueError('invalid mode: %r' % mode)
	text, binary = 't' in modes, 'b' in modes
	creating, reading, writing, appending, updating = (
			c in modes for c in 'xrwa+')
	if text and binary:
		raise ValueError("can't have text and binary mode at once")
	if creating + reading + writing + appending != 1:
		raise ValueError('must have exactly one of create/read/write/append '
				'mode')
	if binary and (encoding is not None or errors is not None
			or newline is not None):
		raise ValueError("binary mode doesn't take an encoding argument, "
				"errors argument or newline argument")
	if not isinstance(file, int) and opener is None:
		d.op('creat' if (creating or writing or appending or updating)
				else 'open', label)
	raw = SimRaw(d, label, file, ''.join(c for c in 'xrwa' if c in modes)
			+ ('+' if updating else ''), closefd, opener)
	try:
		if buffering == 0:
			if binary:
				return raw
			raise ValueError("can't have unbuffered text I/O")
		linebuf = buffering == 1 and text
		size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
		if updating:
			buf = io.BufferedRandom(raw, size)
		elif reading:
			buf = io.BufferedReader(raw, size)
		else:
			buf = io.BufferedWriter(raw, size)
		if binary:
			return buf
		res = io.TextIOWrapper(buf, encoding, errors, newline, linebuf)
		res.mode = mode
		return res
	except BaseException:
		raw.close()
		raise


def sim_osopen(path, flags, mode=0o777, *, dir_fd=None):
	d = disk()
	label = None if d is None or dir_fd is not None else d.covers(path)
	if label is None:
		return R['osopen'](path, flags, mode, dir_fd=dir_fd)
	w = bool(flags & (os.O_WRONLY | os.O_RDWR))
	d.op('creat' if w else 'open', label)
	fd = R['osopen'](path, flags, mode)
	d.fdpath[fd] = label
	if w:
		d.fds[fd] = label
		if flags & (os.O_TRUNC | os.O_EXCL):
			d.touched(fd)
	else:
		d.fds.pop(fd, None)
	return fd


def sim_osclose(fd):
	d = disk()
	if d is not None:
		label = d.fds.pop(fd, None)
		d.fdpath.pop(fd, None)
	return R['osclose'](fd)


def sim_oswrite(fd, data):
	d = disk()
	label = None if d is None else d.fds.get(fd)
	if label is None:
		return R['write'](fd, data)
	f = d.op('write', label, len(data))
	if f is not None:
		k = torn(data, f.frac)
		if k:
			R['write'](fd, data[:k])
		if f.kind == 'crash':
			core.crash(d.sim, 'torn-write-crash')
		return k
	n = R['write'](fd, data)
	d.touched(fd)
	return n


def sim_ftruncate(fd, n):
	d = disk()
	label = None if d is None else d.fds.get(fd)
	if label is not None:
		d.op('ftruncate', label)
	R['ftruncate'](fd, n)
	if label is not None:
		d.touched(fd)


def _pathop(name, kind, argn=0):
	real = R[name]

	def fun(*args, **kwargs):
		d = disk()
		label = None if d is None or not args else d.covers(args[argn])
		if label is not None and not kwargs.get('dir_fd'):
			d.op(kind, label)
		return real(*args, **kwargs)
	fun.__name__ = name
	return fun


class _Scan:
	def __init__(self, entries):
		self.it = iter(entries)

	def __iter__(self):
		return self

	def __next__(self):
		return next(self.it)

	def close(self):
		self.it = iter(())

	def __enter__(self):
		return self

	def __exit__(self, *args):
		self.close()


def sim_scandir(path='.'):
	d = disk()
	if d is None or isinstance(path, int) or d.covers(path) is None:
		return R['scandir'](path)
	with R['scandir'](path) as it:
		entries = sorted(it, key=lambda e: e.name)
	if d.dirorder is not None:
		d.dirorder.shuffle(entries)
	elif d.shuffle:
		entries = d.sim.shuffled(entries, 'dirorder')
	return _Scan(entries)


def sim_listdir(path='.'):
	d = disk()
	res = R['listdir'](path)
	if d is None or isinstance(path, int) or d.covers(path) is None:
		return res
	res.sort()
	if d.dirorder is not None:
		d.dirorder.shuffle(res)
		return res
	return d.sim.shuffled(res, 'dirorder') if d.shuffle else res


class SimMmap(R['mmap']):
	def __new__(cls, fileno, length, *args, **kwargs):
		d = disk()
		label = None
		if d is not None and fileno >= 0:
			label = d.fdpath.get(fileno)
			access = kwargs.get('access', mmap.ACCESS_DEFAULT)
			w = label is not None and fileno in d.fds and access != \
					mmap.ACCESS_READ
			if label is not None:
				d.op('mmap-w' if w else 'mmap', label)
		self = super().__new__(cls, fileno, length, *args, **kwargs)
		self._label = label
		if label is not None and w:
			self._w = True
			d.touched(fileno)
			self._fd = os.dup(fileno)
		else:
			self._w = False
		return self

	def flush(self, *args):
		d = disk()
		if d is not None and self._w:
			d.op('flush', self._label)
			res = super().flush(*args)
			d.touched(self._fd)
			return res
		return super().flush(*args)

	def close(self):
		if self._w:
			R['osclose'](self._fd)
			self._w = False
		return super().close()


# --- C stdio -------------------------------------------------------------
OPEN_CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p,
		ctypes.POINTER(ctypes.c_int))
RW_CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_long, ctypes.c_void_p,
		ctypes.c_ulong, ctypes.POINTER(ctypes.c_int))
CLOSE_CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_long,
		ctypes.POINTER(ctypes.c_int))
_c = {}
_cfiles = {}
_keep = []


def _c_open(path, mode, err):
	try:
		d = disk()
		path = os.fsdecode(path)
		mode = mode.decode()
		if d is None or d.covers(path) is None:
			return -2
		f = sim_open(path, mode.replace('b', '').replace('t', '') + 'b',
				buffering=0)
		fd = f.fileno()
		_cfiles[fd] = f
		return fd
	except OSError as e:
		err[0] = e.errno or errno.EIO
		return -1


def _c_read(h, buf, n, err):
	try:
		b = (ctypes.c_char * n).from_address(buf)
		return _cfiles[h].readinto(b)
	except OSError as e:
		err[0] = e.errno or errno.EIO
		return -1


def _c_write(h, buf, n, err):
	try:
		data = ctypes.string_at(buf, n)
		done = 0
		while done < n:
			done += _cfiles[h].write(data[done:])
		return n
	except OSError as e:
		err[0] = e.errno or errno.EIO
		return -1


def _c_close(h, err):
	try:
		_cfiles.pop(h).close()
		return 0
	except OSError as e:
		err[0] = e.errno or errno.EIO
		return -1


def installc(lib):
	dll = ctypes.CDLL(lib, mode=ctypes.RTLD_GLOBAL)
	cbs = (OPEN_CB(_c_open), RW_CB(_c_read), RW_CB(_c_write),
			CLOSE_CB(_c_close))
	_keep.extend(cbs)
	dll.dst_set_hooks(*cbs)
	for x in ('dst_malloc_count', 'dst_malloc_failed', 'dst_malloc_inuse'):
		getattr(dll, x).restype = ctypes.c_long
	dll.dst_malloc_plan.argtypes = [ctypes.c_long, ctypes.c_long]
	_clib.append(dll)


_clib = []


def mallocplan(at=-1, n=0):
	"""Let allocations number at .. at + n - 1 of compiled code fail; restarts
	the count."""
	_clib[0].dst_malloc_plan(at, n)


def malloccount():
	"""(number of allocations, how many of them failed) since mallocplan()."""
	return _clib[0].dst_malloc_count(), _clib[0].dst_malloc_failed()


class _Names:
	"""Deterministic temporary file names."""

	def __init__(self):
		self.n = 0

	def __iter__(self):
		return self

	def __next__(self):
		self.n += 1
		sim = core.SIM
		return 'tmp%s%04d' % ('' if sim is None
				else ''.join(c for c in sim.name if c.isalnum()), self.n)


def install():
	builtins.open = io.open = sim_open
	os.open, os.close, os.write = sim_osopen, sim_osclose, sim_oswrite
	os.ftruncate = sim_ftruncate
	os.rename = _pathop('rename', 'rename', 1)
	os.replace = _pathop('replace', 'rename', 1)
	os.unlink = _pathop('unlink', 'unlink')
	os.remove = _pathop('remove', 'unlink')
	os.rmdir = _pathop('rmdir', 'unlink')
	os.mkdir = _pathop('mkdir', 'mkdir')
	os.link = _pathop('link', 'rename', 1)
	os.scandir, os.listdir = sim_scandir, sim_listdir
	mmap.mmap = SimMmap
	tempfile._name_sequence = _Names()
	tempfile._get_candidate_names = lambda: tempfile._name_sequence
	import shutil
	shutil._USE_CP_SENDFILE = False
