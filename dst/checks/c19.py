"""C19: a command that reports success has written its complete output."""
import errno
from .. import core
from .. import cmdlib
from ..common import *

RUNS = (5000, 60000)
BUDGET = (40, 1500)
RULE = ('random command (treetransforms, treedraw, grammar, grammar merge/info, '
	'fragments, parser, eval, runexp) with random inputs and options x failing '
	'read, open, create, write, flush, close, or disk that fills at any byte, '
	'or compressed input cut off at any byte, or decompressor that dies; output '
	'compared with a fault-free run whenever the exit status is zero; distinct '
	'by command and faults')
REALPARTS = ('discodop.cli.main and all it calls; gzip, io buffering; standard '
	'streams as files of the simulated disk')
STUBS = ('file system (any operation may fail), zstd/lz4 programs, '
	'multiprocessing.Pool, clocks')


def run(sim):
	sim.cfg['clockjumps'] = False
	kind, case = cmdlib.mkcase(sim, ['treetransforms', 'treetransforms',
			'treedraw', 'grammar', 'grammar', 'merge', 'ptsg', 'info',
			'fragments', 'fragments', 'parser', 'parser', 'eval', 'runexp',
			'search', 'search'])
	if case is None:
		sim.stat('no case')
		return
	ref = case.run(sim, 'ref', 'ref')
	check(ref.status is not None, 'hang', lambda: repr((case, ref)))
	sim.sample = dict(case=repr(case), ref=repr(ref))
	if not ref.ok:
		check(ref.status >= 0, 'died', lambda: repr((case, ref)))
		sim.stat('%s fails' % kind)
		return
	want = case.outputs('ref', ref)
	sim.stat(kind)
	counts = ref.counts
	faults = []
	for n in range(2):
		sim.progfault = None
		plan = []
		saved = {}
		fk = sim.pick(['io', 'io', 'io', 'full', 'cut', 'program'], 'fault')
		comp = [x for x in case.inputs if x.endswith(('.gz', '.zst', '.lz4'))]
		prog = [x for x in comp if not x.endswith('.gz')]
		if fk == 'cut' and comp:
			x = sim.pick(comp, 'input')
			saved[x] = get(x)
			put(x, saved[x][:sim.choose(len(saved[x]), 'cut')])
			sim.fault('input-cut')
			desc = 'cut %s to %d of %d bytes' % (x, len(get(x)), len(saved[x]))
		elif fk == 'program' and prog:
			sim.progfault = sim.choose(101, 'frac') / 100
			sim.fault('decompressor-dies')
			desc = 'decompressor stops at %g' % sim.progfault
		else:
			op = sim.pick([a for a in sorted(counts) if a != 'mutating']
					or ['read'], 'op')
			if fk == 'full':
				op = 'write'
			plan = [disk.Fault(op, sim.choose(max(1, counts.get(op, 1)), 'at'),
					errno.ENOSPC if fk == 'full' else sim.pick(
					[errno.EIO, errno.ENOSPC], 'errno'),
					sticky=fk == 'full' or sim.chance(1, 2, 'sticky'),
					frac=sim.pick([0, 0.5, 0.9, 0.1], 'frac'))]
			desc = repr(plan[0])

		def setup(sim):
			sim.disk.plan = plan
		r = case.run(sim, 'out', 'cmd', setup)
		sim.disk.plan = []
		for x in saved:
			put(x, saved[x])
		faults.append('%s: status %r' % (desc, r.status))
		sim.sample.update(faults=faults)
		sim.key = [repr(case), faults]
		check(r.status is not None, 'hang', lambda: '%r with %s: %r' % (case,
				desc, r))
		if r.ok:
			got = case.outputs('out', r)
			sim.stat('successes')
			for x in sorted(set(want) | set(got)):
				check(got.get(x) == want.get(x), 'incomplete', lambda:
						'%r\nwith %s\n%s: %r\nexpected: %r\nstderr: %s' % (case,
						desc, x, got.get(x), want.get(x),
						r.err[-1500:].decode('utf8', 'replace')))
		elif r.status < 0:
			sim.stat('deaths')
		else:
			sim.stat('failures reported')
