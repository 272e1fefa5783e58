"""C30: experiments started at the same time do not mix their results."""
from .. import core
from .. import explib
from .. import clilib
from ..common import *

RUNS = (2500, 60000)
BUDGET = (38, 1500)
RULE = ('up to three experiments or grammar extractions started with one result '
	'directory, which may not exist, or hold a finished or interrupted experiment '
	'or other files x parsers started meanwhile x every interleaving of the file '
	'operations of these processes x failing writes; compared with experiments '
	'that ran alone; distinct by schedule trace')
REALPARTS = ('discodop.cli runexp, grammar, parser; runexp, parser, grammar, '
	'containers, all compiled parsers')
STUBS = ('file system operations as points at which other processes run, '
	'multiprocessing.Pool, clocks')


def snapshot(name):
	return {x: get(os.path.join(name, x)) for x in sorted(
			disk.R['listdir'](name))}


def results(name):
	res = explib.results(name)
	return {a: b for a, b in res.items() if not a.endswith('.log')}


def argv(kind, name):
	"""Start an experiment with directory ``name``."""
	if kind == 'exp':
		return ['runexp', name + '.prm']
	return ['grammar', 'param', kind + '.prm', name]


def run(sim):
	sim.cfg['clockjumps'] = False
	prms = {}
	prm, train, test = explib.mkexp(sim)
	prms['exp'] = prm
	prms['q'] = dict(prm, stages=explib.mkstages(sim, prm['corpusfmt']
			!= 'bracket')) if sim.chance(1, 2, 'otherstages') else prm
	for name in ('d', 'ref-exp'):
		put(name + '.prm', explib.prmtext(dict(prm, numproc=1)))
	put('q.prm', explib.prmtext(dict(prms['q'], numproc=1)))
	kinds = [sim.pick(['exp', 'q', 'exp'], 'kind') for _ in range(
			2 + sim.choose(2, 'nstart'))]
	state = sim.pick(['none'] * 5 + ['finished', 'interrupted', 'foreign',
			'empty'], 'state')
	sents = [' '.join(w for _, w in sorted(dleaves(t))) for t in test[:2]]
	data = ''.join(s + '\n' for s in sents).encode('utf8')
	parse = lambda name: ['parser', name, '--verbosity=0', '--prob']
	refs, prefs = {}, {}
	for kind in sorted(set(kinds)):
		r = clilib.cli(sim, argv(kind, 'ref-' + kind), None, 'ra-' + kind)
		check(r.status is not None and r.status >= 0, 'alone', lambda: repr(r))
		refs[kind] = None
		if r.ok:
			refs[kind] = results('ref-' + kind)
			prefs[kind] = clilib.cli(sim, parse('ref-' + kind), data, 'pa-'
					+ kind)
	sim.sample = dict(stages={a: b['stages'] for a, b in prms.items()},
			kinds=kinds, state=state)
	sim.key = [sim.sample, sents]
	if state == 'finished':
		clilib.cli(sim, argv(kinds[0], 'd'), None, 'first')
	elif state == 'interrupted':
		def setup(sim):
			sim.disk.plan = [disk.Fault('crash', 1 + sim.choose(30, 'at'))]
		clilib.cli(sim, argv(kinds[0], 'd'), None, 'first', setup)
	elif state == 'foreign':
		put('d/notes.txt', b'something else\n')
		put('d/output.log', b'log\n')
	elif state == 'empty':
		disk.R['mkdir']('d')
	existed = disk.R['exists']('d') if 'exists' in disk.R else os.path.isdir('d')
	before = snapshot('d') if existed else None
	sim.cfg['preempt'] = sim.pick([10, 40, 4, 150], 'preempt')
	nparsers = sim.choose(3, 'nparsers')
	procs = []
	for k, kind in enumerate(kinds + [None] * nparsers):
		name = 's%d' % k
		put(name + '.stdin', data if kind is None else b'')
		wait = 0 if k < 1 else sim.pick([0, 0, 5, 60] if kind else
				[0, 20, 100, 300, 600], 'wait')
		plan = []
		if kind and sim.chance(1, 8, 'faulty'):
			plan = [disk.Fault(sim.pick(['write', 'close-w', 'creat'], 'op'),
					sim.choose(30, 'at'))]

		def body(sim, kind=kind, name=name, wait=wait, plan=plan):
			for _ in range(wait):
				sim.yield_point('wait')

			def setup(sim):
				sim.disk.yields = True
				sim.disk.plan = plan
			r = clilib.main(sim, argv(kind, 'd') if kind else parse('d'),
					name + '.stdin', name, setup)
			return r[0], any(f.fired for f in plan)
		procs.append(sim.add(core.VProc(sim, name, body)))
	sim.wait_until(lambda: all(p.done for p in procs), 'processes')
	sim.cfg['preempt'] = 0
	errs = lambda: '\n'.join('%s %s: %r\n%s' % (k, kind, p.outcome,
			get('s%d.stderr' % k)[-600:].decode('utf8', 'replace'))
			for k, (kind, p) in enumerate(zip(kinds + ['parser'] * nparsers,
			procs)))
	for p in procs:
		check(p.outcome[0] == 'ok', 'failed', errs)
	status = [p.outcome[1][0] for p in procs[:len(kinds)]]
	fired = any(p.outcome[1][1] for p in procs[:len(kinds)])
	won = [kind for kind, x in zip(kinds, status) if x == 0]
	if existed:
		check(not won, 'existing-directory', lambda: '%r\n%s' % (sim.sample,
				errs()))
		after = snapshot('d')
		# parsers may store binary grammars
		after = {a: b for a, b in after.items() if a in before
				or not nparsers}
		check(after == before, 'overwritten', lambda: '%r\n%r\n%s' % ([a for a
				in sorted(set(before) | set(after)) if after.get(a)
				!= before.get(a)], sim.sample, errs()))
		sim.stat('existing')
		return
	check(len(won) < 2, 'both-proceed', lambda: '%r\n%s' % (sim.sample, errs()))
	if not won:
		check(fired or any(refs[a] is None for a in kinds), 'none-proceeds',
				lambda: '%r\n%s' % (sim.sample, errs()))
		sim.stat('failed')
		return
	sim.stat('one proceeds')
	kind = won[0]
	check(refs[kind] is not None, 'succeeds-only-now', errs)
	res = results('d')
	for a in sorted(refs[kind]):
		check(res.get(a) == refs[kind][a], 'other-results', lambda: '%s: %.600r'
				'\nalone %.600r\n%r\n%s' % (a, res.get(a), refs[kind][a],
				sim.sample, errs()))
	want = prefs[kind]
	for k in range(nparsers):
		p = procs[len(kinds) + k]
		if p.outcome[1][0] == 0:
			sim.stat('parsed meanwhile')
			got = get('s%d.stdout' % (len(kinds) + k))
			check(want.ok and got == want.out, 'parsed-differently', lambda:
					'%r\nalone %r\n%r\n%s' % (got, want, sim.sample, errs()))
		else:
			sim.stat('not yet parsable')
	p = clilib.cli(sim, parse('d'), data, 'pd')
	check((p.ok, p.out) == (want.ok, want.out), 'parsed-later', lambda: '%r\n'
			'alone %r\n%r' % (p, want, sim.sample))
