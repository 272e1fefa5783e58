"""Simulated subprocesses: scripted children behind bounded pipes."""
import io
import os
import shlex
import errno
import signal
import subprocess
from . import core
from . import disk as dsk

PIPE, STDOUT, DEVNULL = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL
RealPopen = subprocess.Popen


class Pipe:
	def __init__(self, sim, cap=65536):
		self.sim, self.cap = sim, cap
		self.buf = bytearray()
		self.rclosed = self.wclosed = False


class PipeReader(io.RawIOBase):
	def __init__(self, pipe):
		self.p = pipe

	def readable(self):
		return True

	def readinto(self, b):
		p = self.p
		p.sim.maybe_run('piperead', 3)
		p.sim.wait_until(lambda: p.buf or p.wclosed, 'pipe read')
		n = min(len(b), len(p.buf))
		if n > 1 and p.sim.cfg.get('pipechunks'):
			k = p.sim.choose(6, 'pipesize')
			if k:
				n = min(n, (1, 3, 100, 4096, 20000)[k - 1])
		b[:n] = p.buf[:n]
		del p.buf[:n]
		return n

	def fileno(self):
		raise io.UnsupportedOperation('fileno')

	def close(self):
		if not self.closed:
			self.p.rclosed = True
		super().close()


class PipeWriter(io.RawIOBase):
	def __init__(self, pipe):
		self.p = pipe

	def writable(self):
		return True

	def write(self, b):
		p = self.p
		p.sim.maybe_run('pipewrite', 3)
		p.sim.wait_until(lambda: len(p.buf) < p.cap or p.rclosed,
				'pipe write')
		if p.rclosed:
			raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
		n = min(len(b), p.cap - len(p.buf))
		p.buf += bytes(b[:n])
		return n

	def fileno(self):
		raise io.UnsupportedOperation('fileno')

	def close(self):
		if not self.closed:
			super().close()
			self.p.wclosed = True


class Epipe(Exception):
	"""Child wrote to a closed pipe (SIGPIPE)."""


class ChildIO:
	"""What a simulated child sees."""

	def __init__(self, proc):
		self.proc = proc
		self.sim = proc.sim

	def read(self, n=65536):
		"""Read from stdin."""
		src = self.proc._in
		if src is None:
			return b''
		if isinstance(src, Pipe):
			yield lambda: src.buf or src.wclosed
			data = bytes(src.buf[:n])
			del src.buf[:len(data)]
			return data
		return dsk.R['read'](src, n)

	def readall(self):
		res = []
		while True:
			x = yield from self.read()
			if not x:
				return b''.join(res)
			res.append(x)

	def write(self, data, dst=None):
		dst = self.proc._out if dst is None else dst
		if dst is None:
			return
		if isinstance(dst, Pipe):
			pos = 0
			while pos < len(data):
				yield lambda: len(dst.buf) < dst.cap or dst.rclosed
				if dst.rclosed:
					raise Epipe
				n = min(len(data) - pos, dst.cap - len(dst.buf))
				if n > 1 and self.sim.cfg.get('pipechunks'):
					k = self.sim.choose(4, 'childchunk')
					if k:
						n = min(n, (1, 50, 5000)[k - 1])
				dst.buf += data[pos:pos + n]
				pos += n
		else:
			yield None
			pos = 0
			while pos < len(data):
				pos += os.write(dst, bytes(data[pos:]))

	def error(self, data):
		if self.proc._err is None:  # the terminal
			yield None
		else:
			yield from self.write(data, self.proc._err)


class SimPopen:
	"""subprocess.Popen for programs registered in sim.programs."""

	def __init__(self, args, bufsize=-1, executable=None, stdin=None,
			stdout=None, stderr=None, preexec_fn=None, close_fds=True,
			shell=False, cwd=None, env=None, universal_newlines=None,
			startupinfo=None, creationflags=0, restore_signals=True,
			start_new_session=False, pass_fds=(), *, user=None, group=None,
			extra_groups=None, encoding=None, errors=None, text=None,
			umask=-1, pipesize=-1, process_group=None):
		self.sim = sim = core.current()
		self.args = args
		self.cwd = os.path.abspath(cwd or os.getcwd())
		argv = shlex.split(args) if isinstance(args, str) else [
				os.fsdecode(a) for a in args]
		prog = os.path.basename(argv[0])
		programs = getattr(sim, 'programs', {})
		if prog not in programs:
			raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT),
					argv[0])
		sim.stat('children')
		sim.nchildren = getattr(sim, 'nchildren', 0) + 1
		self.pid = 5000 + sim.nchildren
		self.name = '%s%d' % (prog, sim.nchildren)
		self.returncode = None
		self._exit = self._ending = None
		cap = sim.cfg.get('pipecap', 65536)
		self.stdin = self.stdout = self.stderr = None
		self._in = self._out = self._err = None
		text = text or universal_newlines or encoding or errors
		self._closefds = []
		if stdin == PIPE:
			self._in = Pipe(sim, cap)
			self.stdin = PipeWriter(self._in)
			if bufsize != 0:
				self.stdin = io.BufferedWriter(self.stdin)
			if text:
				self.stdin = io.TextIOWrapper(self.stdin, encoding, errors,
						write_through=True)
		elif stdin not in (None, DEVNULL):
			self._in = self._fd(stdin)
		for name in ('out', 'err'):
			x = stdout if name == 'out' else stderr
			if x == PIPE:
				p = Pipe(sim, cap)
				f = PipeReader(p)
				if bufsize != 0:
					f = io.BufferedReader(f)
				if text:
					f = io.TextIOWrapper(f, encoding, errors)
				setattr(self, '_' + name, p)
				setattr(self, 'std' + name, f)
			elif x == STDOUT:
				self._err = self._out
			elif x not in (None, DEVNULL):
				setattr(self, '_' + name, self._fd(x))
		self._wait = None
		self._gen = programs[prog](ChildIO(self), argv)
		sim.add(self)
		sim.children = getattr(sim, 'children', [])
		sim.children.append(self)
		sim.maybe_run('spawn', 3)

	def _fd(self, f):
		fd = f if isinstance(f, int) else f.fileno()
		d = dsk.disk()
		label = None
		if d is not None:
			label = d.fds.get(fd)
			if label is None and not isinstance(f, int):
				raw = getattr(f, 'raw', getattr(
						getattr(f, 'buffer', None), 'raw', None))
				label = getattr(raw, '_label', None)
		new = os.dup(fd)
		if label is not None:
			d.fds[new] = label
		self._closefds.append(new)
		return new

	# actor protocol
	def enabled(self):
		return self._exit is None and (self._wait is None or self._wait())

	def finished(self):
		return self._exit is not None

	def step(self):
		if self._ending is not None:
			self._exited(self._ending)
			return
		try:
			self._wait = next(self._gen)
		except StopIteration as err:
			self._ended(err.value or 0)
		except Epipe:
			self.sim.fault('child-SIGPIPE')
			self._ended(-signal.SIGPIPE)
		except OSError as err:
			self._ended(1)

	def _ended(self, code):
		"""The child is done: its end of the pipes closes; its exit code can
		be had right then, or later when exiting takes time."""
		if self.sim.cfg.get('slowexit'):
			self._ending, self._wait = code, None
		else:
			self._exited(code)
		if isinstance(self._in, Pipe):
			self._in.rclosed = True
		for p in (self._out, self._err):
			if isinstance(p, Pipe):
				p.wclosed = True
		for fd in self._closefds:
			try:
				os.close(fd)
			except OSError:
				pass
		self._closefds = []

	def _exited(self, code):
		self._exit = code
		self.sim.event('%s exit %s' % (self.name, code))

	# Popen interface
	def poll(self):
		self.sim.maybe_run('poll', 2)
		if self._exit is not None:
			self.returncode = self._exit
		return self.returncode

	def wait(self, timeout=None):
		if timeout is not None:
			self.sim.maybe_run('waittimeout', 20)
			if self._exit is None:
				raise subprocess.TimeoutExpired(self.args, timeout)
		self.sim.wait_until(lambda: self._exit is not None, 'child exit')
		self.returncode = self._exit
		return self.returncode

	def communicate(self, input=None, timeout=None):
		res = {'stdout': None, 'stderr': None}
		text = isinstance(self.stdin or self.stdout or self.stderr,
				io.TextIOBase)
		data, pos = b'', [0]
		if self.stdin is not None:
			data = input or b''
			if isinstance(data, str):
				data = data.encode(getattr(self.stdin, 'encoding', 'utf8'))
			self.stdin.flush()

		def pump():
			for name, p in (('stdout', self._out), ('stderr', self._err)):
				f = getattr(self, name)
				if f is not None and isinstance(p, Pipe):
					if res[name] is None:
						res[name] = bytearray()
					res[name] += p.buf
					del p.buf[:]
			p = self._in
			if isinstance(p, Pipe) and not p.wclosed:
				n = min(len(data) - pos[0], p.cap - len(p.buf))
				if n > 0 and not p.rclosed:
					p.buf += data[pos[0]:pos[0] + n]
					pos[0] += n
				if pos[0] >= len(data) or p.rclosed:
					try:
						self.stdin.close()
					except BrokenPipeError:
						pass
			return self._exit is not None
		self.sim.wait_until(pump, 'communicate')
		pump()
		self.returncode = self._exit
		out = []
		for name in ('stdout', 'stderr'):
			f = getattr(self, name)
			x = res[name]
			if f is None:
				out.append(None)
				continue
			# data already in the reader's buffer comes first
			x = bytes(x)
			if text:
				x = x.decode(f.encoding or 'utf8', f.errors or 'strict'
						).replace('\r\n', '\n')
			f.close()
			out.append(x)
		return tuple(out)

	def send_signal(self, sig):
		if self._exit is None:
			self.sim.event('%s kill' % self.name)
			self._gen.close()
			self._ended(-int(sig))

	def terminate(self):
		self.send_signal(signal.SIGTERM)

	def kill(self):
		self.send_signal(signal.SIGKILL)

	def __enter__(self):
		return self

	def __exit__(self, exc_type, value, tb):
		if self.stdout:
			self.stdout.close()
		if self.stderr:
			self.stderr.close()
		try:
			if self.stdin:
				self.stdin.close()
		finally:
			self.wait()


def popen(*args, **kwargs):
	if core.current() is None:
		return RealPopen(*args, **kwargs)
	return SimPopen(*args, **kwargs)


class PopenType(type):
	def __instancecheck__(cls, obj):
		return isinstance(obj, (SimPopen, RealPopen))

	def __call__(cls, *args, **kwargs):
		return popen(*args, **kwargs)


class Popen(metaclass=PopenType):
	def __class_getitem__(cls, x):
		return cls


def install():
	subprocess.Popen = Popen
