"""Install all hooks, import the code under test, set up a run."""
import os
import sys
import time
import random
import tempfile
import shutil
from . import core, disk, pool, procs

_real = dict(time=time.time, monotonic=time.monotonic,
		perf_counter=time.perf_counter, process_time=time.process_time,
		sleep=time.sleep)


def _clock(name):
	real = _real[name]

	def fun():
		sim = core.SIM
		if sim is None:
			return real()
		t = sim.tick(1e-5)
		if sim.cfg.get('clockjumps'):
			# wall clock and CPU clock may jump; also backwards
			k = sim.choose(4, 'clockjump')
			if k:
				sim.fault('clock-jump')
				t += (0, 3600.0, -3600.0, 1e-3)[k]
		return t
	fun.__name__ = name
	return fun


def _sleep(x):
	sim = core.SIM
	if sim is None:
		return _real['sleep'](x)
	sim.tick(x)
	sim.yield_point('sleep')


def install(libdir):
	"""To be called once, before the code under test is imported."""
	disk.install()
	pool.install()
	procs.install()
	for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
		setattr(time, name, _clock(name))
	time.sleep = _sleep
	sys.path.insert(0, libdir)
	lib = os.path.join(libdir, 'libsimio.so')
	if os.path.exists(lib):
		disk.installc(lib)


MODULES = ('util tree treebank treetransforms treebanktransforms grammar '
		'fragments _fragments containers pcfg plcfrs kbest coarsetofine '
		'disambiguation estimates lexicon eval parser runexp treesearch '
		'treedraw cli gen punctuation heads treedist functiontags').split()


def importall():
	import importlib
	mods = {}
	for name in MODULES:
		try:
			mods[name] = importlib.import_module('discodop.' + name)
		except ImportError as err:
			if os.path.exists(os.path.join(sys.path[0], 'discodop',
					name + '.py')):
				raise
	return mods


def begin(seed, tape, scratch, cfg=None):
	"""Start a run in this (forked) process."""
	sim = core.Sim(seed=seed, tape=tape, scratch=scratch, cfg=cfg)
	sim.disk = disk.Disk(sim, scratch)
	sim.programs = {}
	core.setsim(sim)
	random.seed(4711)
	tmp = os.path.join(scratch, 'tmp')
	disk.R['mkdir'](tmp)
	tempfile.tempdir = tmp
	os.environ['TMPDIR'] = tmp
	os.chdir(scratch)
	return sim
