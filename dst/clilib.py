"""Run a command line tool as a process of its own, with simulated standard
streams: descriptors 0-2 are files of the simulated disk."""
import gc
import io
import os
import sys
import atexit
import logging
import traceback
from . import core, disk
from .common import put, get


class Result:
	"""Outcome of a command: status as a shell would see it."""

	def __init__(self, raw, status, out, err, counts=None):
		self.raw, self.status, self.out, self.err = raw, status, out, err
		self.counts = counts or {}
		self.crashed = core.wascrashed(raw)

	@property
	def ok(self):
		return self.status == 0

	def __repr__(self):
		return 'status %r; stdout %r; stderr ...%s' % (self.status,
				self.out[:500], self.err[-700:].decode('utf8', 'replace'))


def _stream(fd, path, flags):
	if path is None:
		path = os.devnull
	x = disk.R['osopen'](path, flags, 0o666)
	os.dup2(x, fd)
	if x != fd:
		disk.R['osclose'](x)


def main(sim, argv, stdin, outname, setup=None):
	"""Body of the process; returns exit status."""
	# file descriptors 0, 1, 2 are used by the process only
	_stream(0, stdin, os.O_RDONLY)
	_stream(1, outname + '.stdout', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
	_stream(2, outname + '.stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC
			| os.O_APPEND)
	d = sim.disk
	d.fds[0], d.fds[1] = '<stdin>', '<stdout>'
	sys.stdin = disk.sim_open(0, 'r', encoding='utf8', closefd=False)
	sys.stdout = disk.sim_open(1, 'w', encoding='utf8', closefd=False)
	sys.stderr = disk.R['open'](2, 'w', buffering=1, encoding='utf8',
			errors='backslashreplace', closefd=False)
	from discodop import cli
	cli.stdout, cli.stderr = sys.stdout, sys.stderr
	for h in list(logging.getLogger('').handlers):
		logging.getLogger('').removeHandler(h)
	sys.argv = ['discodop'] + list(argv)
	cli.argv = sys.argv
	for name, mod in list(sys.modules.items()):
		if name.startswith('discodop.') and mod is not cli:
			for x in ('stdout', 'stderr', 'stdin'):
				if hasattr(mod, x) and hasattr(getattr(mod, x), 'write'):
					setattr(mod, x, getattr(sys, x))
			if isinstance(getattr(mod, 'argv', None), list):
				mod.argv = sys.argv
	disk.mallocplan()
	if setup:
		setup(sim)
	d.counts.clear()
	status = 0
	try:
		cli.main()
	except SystemExit as err:
		status = err.code
		if status is None:
			status = 0
		elif not isinstance(status, int):
			print(status, file=sys.stderr)
			status = 1
		err.__traceback__ = None
	except (core.Hang, core.Violation, core.Inconclusive):
		raise
	except BaseException as err:
		traceback.print_exc()
		status = 1
		err.__traceback__ = None
		err = None
	# interpreter exit: errors in closing files that were left open go unnoticed
	gc.collect()
	try:
		sys.stdout.flush()
	except ValueError:
		pass
	except OSError:
		status = 120
	for name, mod in list(sys.modules.items()):
		# module globals are cleared
		if name.startswith('discodop.') and isinstance(
				getattr(mod, 'PARAMS', None), dict):
			mod.PARAMS.clear()
	gc.collect()
	sys.stderr.flush()
	return status & 255, dict(d.counts), disk.malloccount()


def cli(sim, argv, stdin=None, name='cmd', setup=None):
	"""Run ``discodop argv...``; stdin: bytes, or None for no input."""
	inp = None
	if stdin is not None:
		inp = name + '.stdin'
		put(inp, stdin)
	put(name + '.stdout', b'')
	put(name + '.stderr', b'')
	raw = core.call(sim, lambda sim: main(sim, argv, inp, name, setup), name)
	status = None
	counts = {}
	mallocs = (0, 0)
	if raw[0] == 'ok':
		status, counts, mallocs = raw[1]
		raw = ('ok', status)
	elif raw[0] == 'died':
		status = -1
	res = Result(raw, status, get(name + '.stdout'), get(name + '.stderr'),
			counts)
	res.mallocs = mallocs
	return res
