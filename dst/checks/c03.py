"""C03: a parse depends only on its sentence, not on what was parsed before."""
import re
import time
from .. import core
from .. import explib
from ..common import *

RUNS = (2600, 25000)
BUDGET = (38, 1500)
RULE = ('random models (one or two, from random experiments) x histories of 2-9 '
	'parses on the same parser objects: interleaved at stage boundaries, '
	'abandoned, interrupted by an exception at a clock call or failing by '
	'themselves; every finished stage compared with that of a new parser; '
	'distinct by schedule trace')
REALPARTS = ('discodop.parser Parser, readgrammars, all compiled parsers, pruning, '
	'k-best, disambiguation, lexicon')
STUBS = 'clocks (jumps; interrupts delivered at clock calls)'


class Interrupt(Exception):
	"""Stand-in for an exception raised by a signal handler, e.g. a timeout."""


def load(name):
	from discodop import parser
	explib.silent()
	params = parser.readparam(os.path.join(name, 'params.prm'))
	params.update(resultdir=name)
	parser.readgrammars(name, params.stages, params.postagging,
			params.transformations, top=getattr(params, 'top', 'ROOT'))
	params.update(verbosity=1)
	return parser.Parser(params)


TIMES = re.compile(r'[0-9.e+-]+ ?s\b')


def digest(res):
	"""Comparable form of the result of a stage."""
	msg = TIMES.sub('', res.msg)
	return dict(name=res.name, tree=str(res.parsetree), prob=repr(res.prob),
			parsetrees=[(str(a), repr(b)) for a, b, _ in res.parsetrees],
			fragments=repr(res.fragments), noparse=res.noparse,
			numitems=res.numitems, gold=(res.golditems, res.totalgolditems),
			msg=msg)


def start(parser, spec):
	from discodop.tree import ParentedTree
	kw = {}
	if spec['tags']:
		kw['tags'] = list(spec['tags'])
	if spec['gold']:
		kw['goldtree'] = ParentedTree(spec['gold'])
	if spec['root']:
		kw['root'] = spec['root']
	for x in ('require', 'block'):
		if spec[x]:
			kw[x] = spec[x]
	return parser.parse(list(spec['sent']), **kw)


def reference(spec):
	gen = start(load(spec['model']), spec)
	res = []
	try:
		for x in gen:
			res.append(digest(x))
	except Exception as err:
		return res, '%s: %s' % (type(err).__name__, err)
	return res, None


def history(sim, models, specs):
	parsers = {a: load(a) for a in models}
	interrupts = sim.chance(1, 3, 'interrupts')
	realclock = time.process_time
	due = [None]

	def clock():
		if due[0] is not None:
			due[0] -= 1
			if due[0] < 0:
				due[0] = None
				sim.fault('interrupt')
				raise Interrupt('timeout')
		return realclock()
	from discodop import parser as parsermod
	parsermod.process_time = clock
	live, todo, out = [], list(range(len(specs))), []
	progress = {}
	while live or todo:
		k = sim.choose(4, 'action')
		if todo and (not live or (k == 1 and len(live) < 3)):
			n = todo.pop(0)
			live.append((n, start(parsers[specs[n]['model']], specs[n])))
			progress[n] = []
			continue
		i = sim.choose(len(live), 'which')
		n, gen = live[i]
		if k == 3 and sim.chance(1, 3, 'abandon'):
			gen.close()
			del live[i]
			sim.stat('abandoned')
			sim.event('abandon %d' % n)
			continue
		if interrupts and sim.chance(1, 4, 'interrupt'):
			due[0] = sim.choose(6, 'interruptat')
		sim.event('step %d' % n)
		err = None
		try:
			progress[n].append(digest(next(gen)))
			due[0] = None
			out.append((n, len(progress[n]) - 1, progress[n][-1], None))
			continue
		except StopIteration:
			end = 'end'
		except Interrupt:
			end = 'interrupt'
		except Exception as x:
			err = '%s: %s' % (type(x).__name__, x)
			end = 'error'
		due[0] = None
		del live[i]
		sim.stat('parses ended by ' + end)
		if end != 'interrupt':
			out.append((n, len(progress[n]), None, err))
	return out


def run(sim):
	sim.cfg['clockjumps'] = False
	models, pools = [], {}
	for name in ['a', 'b'][:sim.pick([1, 1, 2], 'models')]:
		prm, train, test = explib.mkexp(sim, ntest=1)
		r = core.call(sim, lambda sim: explib.runexp(prm, name), 'train')
		if r[0] != 'ok':
			sim.stat('no grammar')
			continue
		models.append(name)
		pools[name] = train + test
	if not models:
		return
	specs = []
	for _ in range(2 + sim.choose(6, 'parses')):
		m = sim.pick(models, 'model')
		t = sim.pick(pools[m], 'tree')
		pre = sorted(explib.preterminals(t))
		sent = [w for _, w, _ in pre]
		tags = [x for _, _, x in pre]
		spec = dict(model=m, sent=sent, tags=None, gold=None, root=None,
				require=None, block=None)
		k = sim.choose(8, 'kind')
		if k == 1:
			spec['tags'] = tags
		elif k == 2:
			spec['gold'] = explib.indextree(t)
		elif k == 3:
			sent[sim.choose(len(sent), 'where')] = 'zyx'
		elif k == 4 and len(sent) > 1:
			del sent[0]
		elif k == 5:
			spec['root'] = sim.pick(['NP', 'VP', 'nonsense'], 'root')
		elif k == 6:
			x = sim.choose(len(sent), 'left')
			y = x + 1 + sim.choose(len(sent) - x, 'right')
			spec[sim.pick(['require', 'block'], 'what')] = [(sim.pick(['NP',
					'VP', 'PP'], 'label'), list(range(x, y)))]
		elif k == 7:
			spec['tags'] = sim.pick([['nonsense'] * len(sent),
					tags[::-1]],
					'badtags')
		if k and specs and sim.chance(1, 3, 'repeat'):
			spec = dict(specs[sim.choose(len(specs), 'repeated')])
		specs.append(spec)
	sim.sample['specs'] = specs
	sim.key = [sim.sample]
	want = {}
	for spec in specs:
		k = repr(spec)
		if k not in want:
			r = core.call(sim, lambda sim: reference(spec), 'ref')
			want[k] = r[1] if r[0] == 'ok' else None
			if r[0] != 'ok':
				# a new parser does not survive this
				raise Violation('new-parser-' + r[0], '%r %s' % (spec,
						core.describe(r)))
	sim.stat('parses', len(specs))
	sim.cfg['clockjumps'] = sim.chance(1, 5, 'clockjumps')
	r = core.call(sim, lambda sim: history(sim, models, specs), 'hist')
	if r[0] != 'ok':
		raise Violation('used-parser-' + r[0], core.describe(r))
	for n, stage, got, err in r[1]:
		ref, referr = want[repr(specs[n])]
		if got is None:
			check(stage == len(ref) and err == referr, 'end',
					lambda: '%r after %d stages: %s; expected %d: %s' % (
					specs[n], stage, err, len(ref), referr))
			continue
		check(stage < len(ref), 'more-stages', lambda: '%r %r' % (specs[n], got))
		sim.stat('stages')
		for x in ref[stage]:
			check(got[x] == ref[stage][x], 'differs-' + x,
					lambda: '%r stage %d:\n%s\nnew parser:\n%s' % (specs[n],
					stage, got[x], ref[stage][x]))
