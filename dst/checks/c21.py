"""C21: outputs are reproducible from run to run."""
import random
import hashlib
from .. import core
from .. import cmdlib
from ..common import *

RUNS = (3500, 60000)
BUDGET = (40, 1500)
HASHSEEDS = (0, 1, 2, 3)
RULE = ('random command (all of the command line tools that are deterministic, '
	'runexp with random models, search with three engines) with random input, '
	'executed under two hash seeds in different processes, each time twice with '
	'different order of directory entries, clock and worker schedules; all output '
	'compared; distinct by command')
REALPARTS = 'discodop.cli.main and all it calls, interpreter hash randomisation'
STUBS = ('file system (order of directory entries), clocks, external programs, '
	'multiprocessing.Pool')


def digest(kind, outputs):
	res = []
	for name in sorted(outputs):
		x = outputs[name]
		x = x.decode('utf8', 'replace') if isinstance(x, bytes) else (
				x if isinstance(x, str) else repr(x))
		h = hashlib.sha256(x.encode('utf8', 'replace')).hexdigest()
		res.append([kind, name, h, x[:20000]])
	return res


def run(sim):
	side = sim.cfg.get('side', 0)
	rng = random.Random(sim.choose(1 << 16, 'environment') * 8 + side)
	# what differs between runs, apart from the hash seed
	sim.clock += rng.choice([0, 0.37, 86400 * 200, 3e7])
	sim.disk.dirorder = rng
	garbage = [[object() for _ in range(rng.randrange(1000))]
			for _ in range(rng.randrange(20))]
	sim.multi = True
	kind, case = cmdlib.mkcase(sim, ['treetransforms', 'treetransforms',
			'treedraw', 'grammar', 'grammar', 'merge', 'ptsg', 'info',
			'fragments', 'fragments', 'parser', 'eval', 'runexp', 'search',
			'search'])
	if case is None:
		sim.stat('no case')
		return
	res = []
	for n in range(2):
		r = case.run(sim, 'out', 'cmd')
		check(r.status is not None and r.status >= 0, 'died',
				lambda: repr((case, r)))
		res.append(digest(kind, case.outputs('out', r))
				+ [[kind, '<status>', '%r' % r.status, '']])
		sim.tick(rng.choice([0.1, 3600, 86400]))
		if n == 0 and case.inputs and sim.chance(1, 3, 'sameorder'):
			break
	del garbage
	sim.sample = dict(case=repr(case), status=r.status,
			stderr=r.err[-300:].decode('utf8', 'replace') if r.status else '')
	sim.key = [repr(case)]
	sim.stat('%s %s' % (kind, 'succeeds' if r.ok else 'fails'))
	for x, y in zip(res[0], res[-1]):
		check(x == y, 'repeated:' + kind, lambda: '%r\n%s\n%s\nagain:\n%s' % (
				case, x[1], x[3][:1500], y[3][:1500]))
	check(len(res[0]) == len(res[-1]), 'repeated:' + kind, lambda: repr((case,
			[x[1] for x in res[0]], [x[1] for x in res[-1]])))
	sim.digest = res[0]
