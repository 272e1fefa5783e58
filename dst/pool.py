"""Simulated worker pools: multiprocessing.Pool and concurrent.futures.

Process workers are forked virtual processes (so they inherit the state at the
moment the pool is started, as real fork()ed workers do); arguments and results
are pickled.  Which worker takes which task, and when it finishes, is decided by
the choice tape."""
import os
import sys
import pickle
import itertools
import traceback
import threading
import multiprocessing
import multiprocessing.pool
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
from multiprocessing.reduction import ForkingPickler
from . import core
from .core import VProc, VThread, Hang

MaybeEncodingError = multiprocessing.pool.MaybeEncodingError
BrokenProcessPool = concurrent.futures.process.BrokenProcessPool
RealFuture = concurrent.futures.Future
REALCLS = {}


def _dumps(obj):
	return bytes(ForkingPickler.dumps(obj))


class Worker(VProc):
	"""A worker process: serves ('task', payload) requests."""

	held = None  # a result that was not delivered yet

	def __init__(self, owner, sim, name, init, args):
		self.owner = owner
		self.task = None
		super().__init__(sim, name, lambda s: _serve(s, init, args))
		self.started = False

	def enabled(self):
		if self.done:
			return False
		return not self.started or self.task is not None or bool(
				self.owner.queue)

	def step(self):
		if not self.started:
			self.started = True
			self.send(self.sim.grant())
			self.pump()  # initializer; stops at 'idle' or at a yield
			return
		if self.held is not None:
			self.deliver()
			return
		if self.task is None and not self.busy_init:
			if not self.owner.queue:
				return
			self.task = self.owner.queue.pop(0)
			self.owner.taken(self.task)
			self.send(('task', self.task.payload, self.sim.grant()))
		else:
			self.send(self.sim.grant())
		self.pump()

	busy_init = True

	def handle(self, msg):
		if msg[0] == 'idle':
			self.busy_init = False
			return True
		if msg[0] == 'result':
			self.held = msg[1]
			# a slow worker: others may take and complete tasks in the meantime
			if not self.sim.chance(1, 2, 'slowtask'):
				self.deliver()
			return True
		return super().handle(msg)

	def deliver(self):
		task, self.task = self.task, None
		data, self.held = self.held, None
		self.owner.completed(task, data)

	def pump(self):
		super().pump()
		if self.done:
			self.owner.workerdied(self)


def _serve(sim, init, args):
	if sim.cfg.get('parentfaults'):
		# a real pool waits for ever when a worker dies
		sim.disk.plan = []
	if init is not None:
		init(*args)
	sim._send(('idle', ))
	while True:
		msg = sim._recv()
		if msg[0] == 'stop':
			return None
		_, payload, sim.quantum = msg
		try:
			func, fargs, kwargs = pickle.loads(payload)
			out = (True, func(*fargs, **kwargs))
		except Exception as err:
			out = (False, _withtb(err))
		try:
			data = _dumps(out)
		except Exception as err:
			if sim.cfg.get('poolkind') == 'future':
				data = _dumps((False, _withtb(err)))
			else:
				data = _dumps((False, MaybeEncodingError(err, out[1])))
		hook = sim.cfg.get('afterwork')
		if hook:
			hook(sim)
		sim._send(('result', data))


class _Tb(Exception):
	def __init__(self, tb):
		self.tb = tb

	def __str__(self):
		return self.tb


def _rebuild(exc, tb):
	exc.__cause__ = _Tb(tb)
	return exc


class _WithTb:
	def __init__(self, exc, tb):
		self.exc, self.tb = exc, tb

	def __reduce__(self):
		return _rebuild, (self.exc, self.tb)


def _withtb(err):
	tb = '\n"""\n%s"""' % ''.join(traceback.format_exception(
			type(err), err, err.__traceback__))
	return _WithTb(err, tb)


class Task:
	__slots__ = ('payload', 'cb', 'label')

	def __init__(self, payload, cb, label=''):
		self.payload, self.cb, self.label = payload, cb, label


class Feeder:
	"""Consumes the task iterable of an imap call, as the task handler thread of
	a real pool does: ahead of the consumer, one item at a time."""
	name = 'feeder'

	def __init__(self, pool, gen):
		self.pool, self.gen = pool, gen
		self.end = False

	def enabled(self):
		return not self.end

	def finished(self):
		return self.end

	def step(self):
		self.end = not self.gen()


class _Result:
	"""AsyncResult / MapResult."""

	def __init__(self, pool, n, single=False, callback=None, errcb=None):
		self.pool, self.single = pool, single
		self.values = [None] * n
		self.left = n
		self.error = None
		self.callback, self.errcb = callback, errcb

	def ready(self):
		return self.left == 0

	def successful(self):
		if not self.ready():
			raise ValueError('not ready')
		return self.error is None

	def wait(self, timeout=None):
		self.pool.waitfor(self.ready)

	def get(self, timeout=None):
		self.pool.waitfor(self.ready)
		if self.error is not None:
			raise self.error
		return self.values[0] if self.single else [
				x for chunk in self.values for x in chunk]

	def _set(self, i, ok, value):
		self.left -= 1
		if ok:
			self.values[i] = value
		elif self.error is None:
			self.error = value
		if self.left == 0:
			if self.error is None and self.callback:
				self.callback(self.get())
			elif self.error is not None and self.errcb:
				self.errcb(self.error)


class _Iter:
	"""IMapIterator."""

	def __init__(self, pool, ordered):
		self.pool, self.ordered = pool, ordered
		self.items = {}
		self.arrived = []
		self.index = 0
		self.length = None

	def __iter__(self):
		return self

	def _avail(self):
		if self.ordered:
			if self.index in self.items:
				return True
		elif self.arrived:
			return True
		return self.length is not None and self.index >= self.length

	def next(self, timeout=None):
		self.pool.sim.maybe_run('ahead')
		self.pool.waitfor(self._avail)
		if self.length is not None and self.index >= self.length:
			raise StopIteration
		if self.ordered:
			ok, value = self.items.pop(self.index)
		else:
			ok, value = self.items.pop(self.arrived.pop(0))
		self.index += 1
		if ok:
			return value
		raise value

	__next__ = next

	def _set(self, i, ok, value):
		self.items[i] = (ok, value)
		self.arrived.append(i)


class SimPool:
	"""multiprocessing.Pool"""

	def __init__(self, processes=None, initializer=None, initargs=(),
			maxtasksperchild=None, context=None):
		self.sim = sim = core.current()
		if processes is None:
			processes = os.cpu_count() or 1
		if processes < 1:
			raise ValueError('Number of processes must be at least 1')
		if initializer is not None and not callable(initializer):
			raise TypeError('initializer must be a callable')
		sim.stat('pools')
		sim.npools = getattr(sim, 'npools', 0) + 1
		self.queue = []
		self.state = 'run'
		self.broken = 0
		self.deaf = False
		self.workers = []
		for n in range(min(processes, sim.cfg.get('maxworkers', 8))):
			w = Worker(self, sim, 'p%d.w%d' % (sim.npools, n),
					initializer, initargs)
			self.workers.append(w)
			sim.add(w)
		self.outstanding = 0
		self.feeders = []

	# callbacks from workers
	def taken(self, task):
		self.sim.event('take:' + task.label)

	def completed(self, task, data):
		self.outstanding -= 1
		self.sim.event('done:' + task.label)
		self.sim.stat('tasks')
		if self.deaf:
			return
		try:
			ok, value = pickle.loads(data)
		except Exception:
			# the thread that handles results ends; no result arrives any more
			self.deaf = True
			self.sim.stat('results that cannot be unpickled')
			return
		task.cb(ok, value)

	def workerdied(self, worker):
		"""A real pool replaces the worker; its task is lost for ever."""
		self.sim.event('worker %s ended: %s' % (worker.name, core.describe(
				worker.outcome)[:600]))
		self.broken += 1

	def waitfor(self, cond):
		self.sim.wait_until(cond, 'pool result')

	def _check(self):
		if self.state != 'run':
			raise ValueError('Pool not running')

	def _put(self, func, args, kwargs, cb, label=''):
		self.outstanding += 1
		try:
			payload = _dumps((func, args, kwargs))
		except Exception as err:
			self.outstanding -= 1
			cb(False, err)
			return
		self.queue.append(Task(payload, cb, label))

	def apply_async(self, func, args=(), kwds={}, callback=None,
			error_callback=None):
		self._check()
		res = _Result(self, 1, True, callback, error_callback)
		self._put(func, tuple(args), dict(kwds),
				lambda ok, v: res._set(0, ok, v), 'a')
		self.sim.maybe_run()
		return res

	def apply(self, func, args=(), kwds={}):
		return self.apply_async(func, args, kwds).get()

	def _map(self, func, iterable, mapper, chunksize, cb=None, ecb=None):
		self._check()
		iterable = list(iterable)
		if chunksize is None:
			chunksize, extra = divmod(len(iterable), len(self.workers) * 4)
			chunksize += bool(extra)
		chunks = [iterable[n:n + chunksize] for n in range(
				0, len(iterable), max(chunksize, 1))]
		res = _Result(self, len(chunks), False, cb, ecb)
		for n, chunk in enumerate(chunks):
			self._put(mapper, (func, tuple(chunk)), {},
					lambda ok, v, n=n: res._set(n, ok, v), 'm%d' % n)
		self.sim.maybe_run()
		return res

	def map(self, func, iterable, chunksize=None):
		return self._map(func, iterable, _mapstar, chunksize).get()

	def map_async(self, func, iterable, chunksize=None, callback=None,
			error_callback=None):
		return self._map(func, iterable, _mapstar, chunksize, callback,
				error_callback)

	def starmap(self, func, iterable, chunksize=None):
		return self._map(func, iterable, _starmapstar, chunksize).get()

	def starmap_async(self, func, iterable, chunksize=None, callback=None,
			error_callback=None):
		return self._map(func, iterable, _starmapstar, chunksize, callback,
				error_callback)

	def _imap(self, func, iterable, chunksize, ordered):
		self._check()
		if chunksize < 1:
			raise ValueError('Chunksize must be 1+')
		res = _Iter(self, ordered)
		it = iter(iterable)
		if chunksize > 1:
			it = iter(_chunks(it, chunksize))
		count = itertools.count()

		def feed():
			n = next(count)
			try:
				x = next(it)
			except StopIteration:
				res.length = n
				return False
			except Exception as err:
				res._set(n, False, err)
				res.length = n + 1
				return False
			if chunksize == 1:
				self._put(func, (x, ), {},
						lambda ok, v: res._set(n, ok, v), 'i%d' % n)
			else:
				self._put(_mapstar, (func, x), {},
						lambda ok, v: res._set(n, ok, v), 'i%d' % n)
			return True

		f = Feeder(self, feed)
		self.feeders.append(f)
		self.sim.add(f)
		if chunksize == 1:
			return res
		return (item for chunk in res for item in chunk)

	def imap(self, func, iterable, chunksize=1):
		return self._imap(func, iterable, chunksize, True)

	def imap_unordered(self, func, iterable, chunksize=1):
		return self._imap(func, iterable, chunksize, False)

	def close(self):
		if self.state == 'run':
			self.state = 'close'

	def terminate(self):
		self.state = 'terminate'
		self.queue.clear()
		for f in self.feeders:
			f.end = True
		for w in self.workers:
			w.kill()

	def join(self):
		if self.state == 'run':
			raise ValueError('Pool is still running')
		if self.state == 'close':
			self.waitfor(lambda: not self.queue and not self.outstanding
					and all(f.end for f in self.feeders))
			for w in self.workers:
				if not w.done:
					self.sim.wait_until(
							lambda: w.done or (w.started and not w.busy_init),
							'worker start')
					if not w.done:
						w.send(('stop', ))
						VProc.pump(w)
		else:
			for w in self.workers:
				w.kill()

	def __enter__(self):
		self._check()
		return self

	def __exit__(self, *args):
		self.terminate()


def _mapstar(func, chunk):
	return [func(x) for x in chunk]


def _starmapstar(func, chunk):
	return [func(*x) for x in chunk]


def _chunks(it, size):
	while True:
		x = tuple(itertools.islice(it, size))
		if not x:
			return
		yield x


class SimFuture(RealFuture):
	"""Future whose blocking operations run the simulated scheduler."""

	def __init__(self, executor):
		super().__init__()
		self.ex = executor

	def _wait(self):
		if not self.done():
			self.ex.sim.wait_until(self.done, 'future')

	def result(self, timeout=None):
		self._wait()
		return super().result(0)

	def exception(self, timeout=None):
		self._wait()
		return super().exception(0)


class _Executor(concurrent.futures.Executor):
	"""Common part of executors."""

	def __init__(self, max_workers=None, initializer=None, initargs=()):
		self.sim = core.current()
		if max_workers is None:
			max_workers = os.cpu_count() or 1
		if max_workers <= 0:
			raise ValueError('max_workers must be greater than 0')
		self._max_workers = max_workers
		self.init, self.initargs = initializer, initargs
		self.queue = []
		self.workers = []
		self.down = False
		self.pending = 0
		self.order = []

	def finish(self, fut, ok, value):
		self.pending -= 1
		self.sim.ncompleted = getattr(self.sim, 'ncompleted', 0) + 1
		fut.seq = self.sim.ncompleted
		if ok:
			fut.set_result(value)
		else:
			fut.set_exception(value)

	def shutdown(self, wait=True, *, cancel_futures=False):
		self.down = True
		if cancel_futures:
			for t in self.queue:
				t.fut.cancel()
				self.pending -= 1
			self.queue.clear()
		if wait:
			self.sim.wait_until(lambda: self.pending == 0, 'shutdown')
			self.stop()

	def stop(self):
		pass


class FTask:
	__slots__ = ('payload', 'fut', 'label')


class SimProcessPoolExecutor(_Executor):
	broken = None

	def __init__(self, max_workers=None, mp_context=None, initializer=None,
			initargs=(), *, max_tasks_per_child=None):
		super().__init__(max_workers, initializer, initargs)

	def submit(self, fn, /, *args, **kwargs):
		if self.broken:
			raise BrokenProcessPool(self.broken)
		if self.down:
			raise RuntimeError('cannot schedule new futures after shutdown')
		sim = self.sim
		if not self.workers:
			sim.npools = getattr(sim, 'npools', 0) + 1
			sim.stat('pools')
			for n in range(min(self._max_workers,
					sim.cfg.get('maxworkers', 8))):
				w = Worker(self, sim, 'x%d.w%d' % (sim.npools, n),
						self.init, self.initargs)
				self.workers.append(w)
				sim.add(w)
		fut = SimFuture(self)
		t = FTask()
		t.fut, t.label = fut, 'f%d' % len(self.order)
		self.order.append(fut)
		self.pending += 1
		try:
			t.payload = _dumps((fn, args, kwargs))
		except Exception as err:
			self.finish(fut, False, err)
			return fut
		self.queue.append(t)
		sim.maybe_run()
		return fut

	def taken(self, task):
		self.sim.event('take:' + task.label)
		if not task.fut.set_running_or_notify_cancel():
			task.payload = _dumps((_nothing, (), {}))

	def completed(self, task, data):
		self.sim.event('done:' + task.label)
		self.sim.stat('tasks')
		if task.fut.cancelled():
			self.pending -= 1
			return
		try:
			ok, value = pickle.loads(data)
		except Exception:
			# the executor considers itself broken
			self.sim.stat('results that cannot be unpickled')
			if not task.fut.cancelled():
				self.finish(task.fut, False, BrokenProcessPool(
						'A result cannot be unpickled.'))
			self.workerdied(None)
			return
		self.finish(task.fut, ok, value)

	def workerdied(self, worker):
		self.broken = ('A process in the process pool was terminated abruptly '
				'while the future was running or pending.')
		tasks = self.queue[:]
		self.queue.clear()
		for w in self.workers:
			if w.task is not None:
				tasks.append(w.task)
				w.task = None
			if w is not worker:
				w.kill()
		for t in tasks:
			if t.fut.cancelled():
				self.pending -= 1
			else:
				self.finish(t.fut, False, BrokenProcessPool(self.broken))

	def map(self, fn, *iterables, timeout=None, chunksize=1):
		if chunksize < 1:
			raise ValueError('chunksize must be >= 1.')
		it = iter(_chunks(zip(*iterables), chunksize))
		fs = [self.submit(_starmapstar, fn, chunk) for chunk in it]

		def gen():
			try:
				for f in fs:
					yield from f.result()
			finally:
				for f in fs:
					f.cancel()
		return gen()

	def stop(self):
		for w in self.workers:
			w.kill()


def _nothing():
	return None


class SimThreadPoolExecutor(_Executor):
	def __init__(self, max_workers=None, thread_name_prefix='',
			initializer=None, initargs=()):
		if max_workers is None:
			max_workers = min(32, (os.cpu_count() or 1) + 4)
		super().__init__(max_workers, initializer, initargs)

	def submit(self, fn, /, *args, **kwargs):
		if self.down:
			raise RuntimeError('cannot schedule new futures after shutdown')
		sim = self.sim
		fut = SimFuture(self)
		t = FTask()
		t.fut, t.label = fut, 'f%d' % len(self.order)
		t.payload = (fn, args, kwargs)
		self.order.append(fut)
		self.pending += 1
		self.queue.append(t)
		if len(self.workers) < min(self._max_workers,
				sim.cfg.get('maxworkers', 8)):
			sim.nthreads = getattr(sim, 'nthreads', 0) + 1
			w = VThread(sim, 't%d' % sim.nthreads, self._work)
			self.workers.append(w)
			sim.add(w)
		sim.maybe_run()
		return fut

	def _work(self):
		if self.init is not None:
			self.init(*self.initargs)
		while True:
			core._tls.actor.block(lambda: bool(self.queue))
			t = self.queue.pop(0)
			self.sim.event('take:' + t.label)
			if not t.fut.set_running_or_notify_cancel():
				self.pending -= 1
				continue
			fn, args, kwargs = t.payload
			try:
				out = (True, fn(*args, **kwargs))
			except (Hang, core.Violation):
				raise
			except BaseException as err:
				out = (False, err)
			if self.sim.chance(1, 3, 'slowtask'):
				core._tls.actor._switch()
			self.sim.event('done:' + t.label)
			self.sim.stat('tasks')
			self.finish(t.fut, *out)


def as_completed(fs, timeout=None):
	"""Futures that are done are yielded in arbitrary (chosen) order, the
	others as they complete."""
	sim = core.current()
	fs = list(dict.fromkeys(fs))
	sim.maybe_run('as_completed', 8)
	ready = sim.shuffled([f for f in fs if f.done()], 'doneorder')
	left = [f for f in fs if not f.done()]
	yield from ready
	while left:
		sim.wait_until(lambda: any(f.done() for f in left), 'as_completed')
		sim.maybe_run('as_completed', 2)
		ready = sorted((f for f in left if f.done()),
				key=lambda f: getattr(f, 'seq', 0))
		left = [f for f in left if f not in ready]
		yield from ready


def wait(fs, timeout=None, return_when='ALL_COMPLETED'):
	sim = core.current()
	fs = set(fs)

	def cond():
		if return_when == 'FIRST_COMPLETED':
			return any(f.done() for f in fs)
		if return_when == 'FIRST_EXCEPTION' and any(
				f.done() and not f.cancelled() and f.exception()
				for f in fs):
			return True
		return all(f.done() for f in fs)
	sim.wait_until(cond, 'wait')
	done = {f for f in fs if f.done()}
	return concurrent.futures.DoneAndNotDoneFutures(done, fs - done) if hasattr(
			concurrent.futures, 'DoneAndNotDoneFutures') else (done, fs - done)


class SimThread(threading.Thread):
	"""threading.Thread under control of the simulated scheduler (only threads
	started by the code under test while a simulation is active)."""

	def start(self):
		sim = core.current()
		if sim is None:
			return core._real_start(self)
		sim.nthreads = getattr(sim, 'nthreads', 0) + 1
		self._vt = VThread(sim, 'T%d' % sim.nthreads, self._guarded)
		sim.add(self._vt)
		sim.maybe_run()

	def _guarded(self):
		try:
			self.run()
		except Exception:  # as threading.excepthook
			traceback.print_exc()

	def join(self, timeout=None):
		vt = getattr(self, '_vt', None)
		if vt is None:
			return super().join(timeout)
		vt.sim.wait_until(lambda: vt.done, 'thread join')

	def is_alive(self):
		vt = getattr(self, '_vt', None)
		return super().is_alive() if vt is None else not vt.done


class SimLock:
	"""A lock that blocks in virtual time."""

	def __init__(self, reentrant=False):
		self.owner, self.n, self.re = None, 0, reentrant

	def _me(self):
		return (core.current().name, getattr(core._tls, 'actor', None))

	def acquire(self, blocking=True, timeout=-1):
		me = self._me()
		if self.re and self.owner == me:
			self.n += 1
			return True
		if self.owner is not None:
			if not blocking:
				return False
			core.current().wait_until(lambda: self.owner is None, 'lock')
		self.owner, self.n = me, 1
		return True

	def release(self):
		if self.owner is None:
			raise RuntimeError('release unlocked lock')
		self.n -= 1
		if self.n == 0:
			self.owner = None

	def locked(self):
		return self.owner is not None

	def __enter__(self):
		self.acquire()
		return self

	def __exit__(self, *args):
		self.release()


def install():
	"""Replace the pool classes (before the code under test is imported)."""
	multiprocessing.Pool = SimPool
	multiprocessing.pool.Pool = SimPool
	multiprocessing.context.BaseContext.Pool = (
			lambda self, *args, **kwargs: SimPool(*args, **kwargs))
	multiprocessing.cpu_count = lambda: 2
	concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
	concurrent.futures.process.ProcessPoolExecutor = SimProcessPoolExecutor
	concurrent.futures.ThreadPoolExecutor = SimThreadPoolExecutor
	concurrent.futures.thread.ThreadPoolExecutor = SimThreadPoolExecutor
	concurrent.futures.as_completed = as_completed
	concurrent.futures.wait = wait
	concurrent.futures.Future = RealFuture
	os.cpu_count = lambda: 2


def installthreads():
	"""After all imports."""
	threading.Thread = SimThread
