"""Deterministic simulation core: choice tape, virtual clock, actors, scheduler.

Every nondeterministic decision of a run (workload, schedule, delays, faults) is
one call of ``Sim.choose(n, label)``.  Choices come from a PRNG seeded with the
run seed and are recorded on a tape; a replay reads the tape instead, and an
exhausted tape yields 0, which is the benign choice everywhere."""
import os
import sys
import time as _time
import pickle
import random
import signal
import struct
import hashlib
import threading

REAL = dict(time=_time.time, monotonic=_time.monotonic, sleep=_time.sleep,
		fork=os.fork, pipe=os.pipe, read=os.read, write=os.write,
		close=os.close, waitpid=os.waitpid, _exit=os._exit,
		Thread=threading.Thread, Lock=threading.Lock)


class Violation(Exception):
	"""The property does not hold in this run."""

	def __init__(self, cls, msg=''):
		super().__init__(cls, msg)
		self.cls, self.msg = cls, msg


class Inconclusive(Exception):
	"""The run could not be judged (e.g., an entry point is gone)."""


class Hang(BaseException):
	"""No actor can make progress."""


class Sim:
	"""One simulated run."""

	def __init__(self, seed=None, tape=None, scratch=None, cfg=None):
		self.seed = seed
		self.rng = random.Random(seed) if tape is None else None
		self.input = tape
		self.tape = []
		self.labels = []
		self.clock = 1600000000.0
		self.faults = {}
		self.stats = {}
		self.trace = []
		self.scratch = scratch
		self.cfg = cfg or {}
		self.actors = []
		self.link = None  # (readfd, writefd) to parent sim when a child
		self.name = 'main'
		self.thread_actor = None
		self.quantum = 0  # operations until next yield (0: never)
		self.depth = 0
		self.keep = []

	# --- choices -------------------------------------------------------
	def choose(self, n, label=''):
		"""Return an integer in range(n); 0 is the benign choice."""
		if n <= 1:
			return 0
		if self.link is not None:
			return self._rpc(('choose', n, label))
		pos = len(self.tape)
		if self.input is not None:
			v = self.input[pos] if pos < len(self.input) else 0
			v = min(int(v), n - 1)
		else:
			v = self.rng.randrange(n)
		self.tape.append(v)
		if len(self.tape) > 200000:
			raise Violation('runaway', 'too many choices in one run')
		return v

	def chance(self, num, den, label=''):
		"""True with probability num/den; False is benign."""
		return self.choose(den, label) >= den - num

	def pick(self, seq, label=''):
		return seq[self.choose(len(seq), label)]

	def between(self, a, b, label=''):
		return a + self.choose(b - a + 1, label)

	def shuffled(self, seq, label=''):
		seq = list(seq)
		res = []
		while seq:
			res.append(seq.pop(self.choose(len(seq), label)))
		return res

	def fault(self, kind):
		if self.link is not None:
			self._send(('fault', kind))
			return
		self.faults[kind] = self.faults.get(kind, 0) + 1
		self.trace.append('!' + kind)

	def stat(self, kind, n=1):
		if self.link is not None:
			self._send(('stat', kind, n))
			return
		self.stats[kind] = self.stats.get(kind, 0) + n

	def event(self, label):
		if self.link is not None:
			self._send(('event', label))
			return
		if len(self.trace) < 100000:
			self.trace.append(label)

	# --- virtual time --------------------------------------------------
	def now(self):
		if self.link is not None:
			self.clock = max(self.clock, self._rpc(('now',)))
		return self.clock

	def tick(self, dt=1e-4):
		"""Advance the virtual clock; return the new time."""
		if self.link is not None:
			self.clock = self._rpc(('tick', dt))
			return self.clock
		self.clock += dt
		return self.clock

	# --- child side ------------------------------------------------------
	def _send(self, msg):
		data = pickle.dumps(msg)
		_writeall(self.link[1], struct.pack('<I', len(data)) + data)

	def _recv(self):
		data = _recvmsg(self.link[0])
		if data is None:  # parent is gone
			REAL['_exit'](99)
		return data

	def _rpc(self, msg):
		# a message must not be interrupted by the recursion limit
		limit = sys.getrecursionlimit()
		sys.setrecursionlimit(limit + 200)
		try:
			self._send(msg)
			return self._recv()
		finally:
			sys.setrecursionlimit(limit)  # may raise, after the message

	# --- scheduling -----------------------------------------------------
	def yield_point(self, label=''):
		"""An operation at which another actor may run."""
		ta = getattr(_tls, 'actor', None)
		if ta is not None:
			ta.maybe_yield(label)
			return
		if self.quantum:
			self.quantum -= 1
			if self.quantum == 0 and self.link is not None:
				self.quantum = self._rpc(('yield', label))

	def grant(self):
		"""Choose the number of operations an actor may do before yielding."""
		mode = self.cfg.get('preempt', 0)
		if not mode:
			return 0
		return self.choose(mode + 1, 'quantum')

	def add(self, actor):
		self.actors.append(actor)
		return actor

	def enabled(self):
		return [a for a in self.actors if a.enabled()]

	def step_one(self, label='sched'):
		"""Let one actor chosen by the tape make progress."""
		self.actors = [a for a in self.actors if not a.finished()]
		en = self.enabled()
		if not en:
			return False
		a = en[self.choose(len(en), label)]
		self.event('run:' + a.name)
		self.stat('steps')
		a.step()
		return True

	def wait_until(self, cond, what=''):
		"""Block the main program until cond() holds, running other actors."""
		ta = getattr(_tls, 'actor', None)
		if ta is not None:
			ta.block(cond)
			return
		n = 0
		while not cond():
			if not self.step_one():
				if cond():
					return
				raise Hang('deadlock waiting for %s' % what)
			n += 1
			if n > 100000:
				raise Hang('no progress waiting for %s' % what)

	def maybe_run(self, label='eager', maxsteps=4):
		"""Possibly let other actors run ahead before main continues."""
		if getattr(_tls, 'actor', None) is not None or not self.enabled():
			return
		for _ in range(self.choose(maxsteps + 1, label)):
			if not self.step_one():
				return

	def tracehash(self):
		return hashlib.sha1('\n'.join(self.trace).encode('utf8', 'replace')
				).hexdigest()[:16]


_tls = threading.local()
SIM = None  # the current run


def current():
	return SIM


def setsim(sim):
	global SIM
	SIM = sim


def _writeall(fd, data):
	view = memoryview(data)
	while view:
		n = REAL['write'](fd, view)
		view = view[n:]


def _readall(fd, n):
	buf = b''
	while len(buf) < n:
		try:
			x = REAL['read'](fd, n - len(buf))
		except InterruptedError:
			continue
		if not x:
			return None
		buf += x
	return buf


def _recvmsg(fd):
	head = _readall(fd, 4)
	if head is None:
		return None
	data = _readall(fd, struct.unpack('<I', head)[0])
	return None if data is None else pickle.loads(data)


class VProc:
	"""A forked child that runs in lock-step with its parent simulation.

	``fn(sim)`` is run in the child; its (picklable) result or exception becomes
	available when done.  The child may call ``serve`` for request loops."""

	def __init__(self, sim, name, fn):
		self.sim, self.name = sim, name
		self.done = False
		self.outcome = None  # ('ok', value) ('exc', exc) ('died', status)
		self.waiting = False  # child waits for a go message
		r1, w1 = REAL['pipe']()
		r2, w2 = REAL['pipe']()
		sys.stdout.flush()
		sys.stderr.flush()
		pid = REAL['fork']()
		if pid == 0:
			try:
				for fd in (w1, r2):
					REAL['close'](fd)
				for a in sim.keep:
					for fd in a:
						try:
							REAL['close'](fd)
						except OSError:
							pass
				sim.link = (r1, w2)
				sim.keep = []
				sim.actors = []
				sim.name = name
				sim.quantum = 0
				_tls.actor = None
				sys.settrace(None)  # when started by a VThread
				status = 0
				try:
					sim.quantum = sim._recv()
					out = ('ok', fn(sim))
				except SystemExit as err:
					out = ('exit', err.code)
				except Violation as err:
					out = ('violation', (err.cls, err.msg))
				except Hang as err:
					out = ('hang', str(err))
				except BaseException as err:
					out = ('exc', _portable(err))
				try:
					sim._send(('done', out))
				except Exception as err:
					sim._send(('done', ('exc', _portable(err))))
			except BaseException:
				import traceback
				traceback.print_exc()
				REAL['_exit'](98)
			REAL['_exit'](status)
		REAL['close'](r1)
		REAL['close'](w2)
		self.pid, self.r, self.w = pid, r2, w1
		sim.keep.append((r2, w1))
		self.waiting = True

	# actor protocol
	def enabled(self):
		return not self.done

	def finished(self):
		return self.done

	def send(self, msg):
		data = pickle.dumps(msg)
		try:
			_writeall(self.w, struct.pack('<I', len(data)) + data)
		except BrokenPipeError:
			pass

	def step(self):
		"""Run the child until it yields, wants something, or ends."""
		if self.done:
			return
		self.send(self.sim.grant())
		self.pump()

	def pump(self):
		sim = self.sim
		while True:
			msg = _recvmsg(self.r)
			if msg is None:
				self._reap()
				if self.outcome is None:
					self.outcome = ('died', self.status)
				return
			kind = msg[0]
			if kind == 'choose':
				self.send(sim.choose(msg[1], msg[2]))
			elif kind == 'fault':
				sim.fault(msg[1])
			elif kind == 'stat':
				sim.stat(msg[1], msg[2])
			elif kind == 'event':
				sim.event(self.name + ':' + msg[1])
			elif kind == 'now':
				self.send(sim.now())
			elif kind == 'tick':
				self.send(sim.tick(msg[1]))
			elif kind == 'yield':
				sim.event(self.name + '@' + msg[1])
				return
			elif kind == 'done':
				self.outcome = msg[1]
				self._reap()
				return
			elif self.handle(msg):
				return

	def handle(self, msg):
		raise RuntimeError('unknown message %r' % (msg, ))

	def _reap(self):
		if self.done:
			return
		self.done = True
		_, self.status = REAL['waitpid'](self.pid, 0)
		for fd in (self.r, self.w):
			REAL['close'](fd)
		try:
			self.sim.keep.remove((self.r, self.w))
		except ValueError:
			pass

	def kill(self):
		"""Kill the child without giving it a chance to clean up."""
		if not self.done:
			try:
				os.kill(self.pid, signal.SIGKILL)
			except ProcessLookupError:
				pass
			self._reap()
			if self.outcome is None:
				self.outcome = ('killed', None)

	def run(self):
		"""Run to completion, return outcome."""
		while not self.done:
			self.step()
		return self.outcome


class RemoteError(Exception):
	"""Stand-in for an exception that cannot be pickled."""


def _portable(err):
	import traceback
	tb = ''.join(traceback.format_exception(
			type(err), err, err.__traceback__))
	try:
		pickle.loads(pickle.dumps(err))
		exc = err
	except Exception:
		exc = RemoteError('%s: %s' % (type(err).__name__, err))
	return (type(err).__name__, str(err), tb[-4000:],
			isinstance(err, Exception))


def call(sim, fn, name='proc'):
	"""Run fn(sim) in a virtual process of its own; return its outcome.

	Outcome: ('ok', value), ('exc', (type, message, traceback, ordinary)),
	('exit', code), ('died', wait status), ('hang', msg)."""
	p = VProc(sim, name, fn)
	out = p.run()
	if out[0] == 'violation':
		raise Violation(*out[1])
	return out


def describe(outcome):
	kind = outcome[0]
	if kind == 'died':
		st = outcome[1]
		if os.WIFSIGNALED(st):
			return 'killed by signal %d' % os.WTERMSIG(st)
		return 'exit status %d' % os.WEXITSTATUS(st)
	if kind == 'exc':
		return '%s: %s' % outcome[1][:2]
	return repr(outcome)[:300]


CRASHED = 77  # exit status of a process that was crashed by the simulator


def wascrashed(outcome):
	"""Whether the process was ended by an injected crash."""
	return (outcome[0] == 'died' and os.WIFEXITED(outcome[1])
			and os.WEXITSTATUS(outcome[1]) == CRASHED)


def crash(sim, kind='crash'):
	"""The current virtual process dies here, without any clean-up."""
	sim.fault(kind)
	REAL['_exit'](CRASHED)


class VThread:
	"""A real thread that only runs while it holds the baton."""

	def __init__(self, sim, name, fn, daemon=True):
		self.sim, self.name, self.fn = sim, name, fn
		self.done = False
		self.cond = None
		self.go = REAL['Lock']()
		self.back = REAL['Lock']()
		self.go.acquire()
		self.back.acquire()
		self.count = 0
		self.fatal = None
		self.thread = None

	def _start(self):
		self.thread = threading.Thread(target=self._main, daemon=True)
		_real_start(self.thread)

	def _main(self):
		self.go.acquire()
		_tls.actor = self
		prefix = self.sim.cfg.get('traceprefix')
		if self.sim.cfg.get('preempt') and prefix:
			sys.settrace(self._tracer)
		try:
			self.fn()
		except BaseException as err:
			self.fatal = err
		finally:
			sys.settrace(None)
			self.done = True
			self.back.release()

	def _tracer(self, frame, event, arg):
		if not frame.f_code.co_filename.startswith(
				self.sim.cfg['traceprefix']):
			return None
		return self._line

	def _line(self, frame, event, arg):
		if event == 'line':
			self.maybe_yield('%s:%d' % (
					frame.f_code.co_name, frame.f_lineno))
		return self._line

	def maybe_yield(self, label=''):
		if self.count:
			self.count -= 1
			if self.count == 0:
				self.sim.event(self.name + '@y')
				self._switch()

	def _switch(self):
		self.back.release()
		self.go.acquire()

	def block(self, cond):
		while not cond():
			self.cond = cond
			self._switch()
		self.cond = None

	def enabled(self):
		return not self.done and (self.cond is None or self.cond())

	def finished(self):
		return self.done

	def step(self):
		if self.thread is None:
			self._start()
		self.count = self.sim.grant()
		self.go.release()
		self.back.acquire()
		if self.fatal is not None:
			err, self.fatal = self.fatal, None
			raise err


_real_start = threading.Thread.start
