"""The web interfaces: load a server, perform concurrent requests."""
import os
import sys
import threading
import importlib.util
from urllib.parse import urlencode
from . import core, pool
from .common import *

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'webstubs')
WEB = os.path.join(LIB, 'web')


def locks():
	"""Locks made by the code under test block in simulated time."""
	real = threading.Lock, threading.RLock

	def ours():
		return sys._getframe(2).f_code.co_filename.startswith(LIB)
	threading.Lock = lambda: pool.SimLock() if ours() else real[0]()
	threading.RLock = lambda: pool.SimLock(True) if ours() else real[1]()


def load(name):
	"""Start a server in this process: a new instance of web/NAME.py."""
	if STUBS not in sys.path:
		sys.path.insert(0, STUBS)
		locks()
	import flask
	import cachelib
	sim = core.current()
	flask.YIELD = cachelib.YIELD = sim.yield_point
	modname = 'web_' + name
	spec = importlib.util.spec_from_file_location(modname,
			os.path.join(WEB, name + '.py'))
	mod = importlib.util.module_from_spec(spec)
	sys.modules[modname] = mod
	spec.loader.exec_module(mod)
	return mod


def request(mod, path, args, auth=None):
	"""('response', status, type, body) or ('error', class)."""
	try:
		status, headers, body = mod.APP.handle(path, args if isinstance(
				args, str) else urlencode(args), auth)
	except (core.Hang, Violation, Inconclusive, KeyboardInterrupt):
		raise
	except Exception as err:
		return 'error', '%s: %s' % (type(err).__name__, err)
	return ('response', status, headers.get('Content-Type'),
			body.decode('utf8', 'surrogateescape'))


def concurrently(sim, mod, reqs, width, pauses=None):
	"""Perform requests [(path, args, auth)] with up to ``width`` at the same
	time; the scheduler decides when each starts. ``pauses``: {n: seconds to
	wait before request n}."""
	res = [None] * len(reqs)
	queue = list(range(len(reqs)))

	def work():
		while queue:
			n = queue.pop(0)
			if pauses and n in pauses:
				sim.clock += pauses[n]
			sim.event('request %d' % n)
			res[n] = request(mod, *reqs[n])
			sim.event('response %d' % n)
	threads = [core.VThread(sim, 'request%d' % n, work) for n in range(width)]
	for t in threads:
		sim.add(t)
	sim.wait_until(lambda: all(t.done for t in threads), 'requests')
	for t in threads:
		if t.fatal is not None:
			raise t.fatal
	return res
