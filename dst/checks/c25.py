"""C25: the tree drawing server answers each request with its own drawing."""
import errno
import hashlib
from .. import core
from .. import weblib
from ..common import *
from ..treelib import gennum, isterm, exportlines, alpino

RUNS = (2000, 150000)
BUDGET = (40, 1200)
RULE = ('random requests (1-6 trees of either format; text, SVG, LaTeX, PDF, PNG '
	'output with options), up to four at the same time, preempted between lines '
	'and while LaTeX and the converter run; their exit status or signal, partial '
	'output, large logs, missing programs, full disk or write errors; all '
	'answers compared with those of a server that does one request; distinct by '
	'schedule and fault trace')
REALPARTS = ('web/treedraw.py, templates, tree.DrawTree, '
	'treebank.incrementaltreereader')
STUBS = ('Flask (dst/webstubs/flask.py), LaTeX and ImageMagick as scripted '
	'children, disk faults')
NAMES = ['pdflatex', 'convert', 'magick', 'pdftoppm', 'pdftocairo']


def mkpdf(tex):
	return b'%PDF-1.5\n' + hashlib.sha256(tex).hexdigest().encode(
			) + b'\n' + tex + b'\n%%EOF\n'


def mkpng(pdf):
	return b'\x89PNG' + hashlib.sha256(pdf).digest() + b'IEND' * 40


def takefault(sim):
	sim.nprog = getattr(sim, 'nprog', 0) + 1
	return sim.progfaults.get(sim.nprog - 1)


def slowly(sim, path, data):
	"""Write a file like another process would."""
	if not os.path.dirname(path).startswith(sim.scratch):
		raise OSError(errno.EACCES, 'outside of the simulation')
	fd = disk.R['osopen'](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
	try:
		for n in range(0, len(data), 1 + len(data) // 3):
			disk.R['write'](fd, data[n:n + 1 + len(data) // 3])
			yield None
	finally:
		disk.R['osclose'](fd)


def pdflatex(io, argv):
	sim = io.sim
	cwd = io.proc.cwd
	kind, code, frac, flood = takefault(sim) or ('', 0, 1, 0)
	if flood:
		yield from io.write(b'Overfull \\hbox \n' * flood)
	outdir, job, src = cwd, None, None
	args = argv[1:]
	while args:
		a = args.pop(0)
		a = a.replace('--', '-', 1) if a.startswith('--') else a
		if a.startswith('-output-directory'):
			outdir = os.path.join(cwd, a.split('=', 1)[1] if '=' in a
					else args.pop(0))
		elif a.startswith('-jobname'):
			job = a.split('=', 1)[1] if '=' in a else args.pop(0)
		elif not a.startswith('-'):
			src = os.path.join(cwd, a)
	if src is None:
		tex = yield from io.readall()
		job = job or 'texput'
	else:
		if not os.path.exists(src) and os.path.exists(src + '.tex'):
			src += '.tex'
		yield None
		tex = get(src)
		job = job or os.path.splitext(os.path.basename(src))[0]
	base = os.path.join(outdir, job)
	yield from slowly(sim, base + '.log', b'This is pdfTeX\n' * 3)
	if kind == 'early':
		yield from io.write(b'! Emergency stop.\n')
		return code
	yield from slowly(sim, base + '.aux', b'\\relax\n')
	pdf = mkpdf(tex)
	if kind == 'late':
		pdf = pdf[:int(len(pdf) * frac)]
	yield from slowly(sim, base + '.pdf', pdf)
	return code


def convert(io, argv):
	sim = io.sim
	kind, code, frac, flood = takefault(sim) or ('', 0, 1, 0)
	if flood:
		yield from io.error(b'convert: warning\n' * flood)
	names = [os.path.join(io.proc.cwd, a) for a in argv[1:] if '/' in a
			or a.endswith(('.pdf', '.png'))]
	if kind == 'early':
		return code
	yield None
	pdf = get(names[0])
	if not pdf.endswith(b'%%EOF\n'):
		return 1
	png = mkpng(pdf)
	if kind == 'late':
		png = png[:int(len(png) * frac)]
	yield from slowly(sim, names[-1], png)
	return code


def mkrequest(sim):
	def tree():
		while True:
			t = gennum(sim, disc=sim.chance(1, 2, 'disc'), depth=1
					+ sim.choose(3, 'depth'))
			if not isterm(t):
				return t
	ts = [tree() for _ in range(1 + sim.choose(3, 'ntrees'))]
	fmt = sim.choose(4, 'fmt')
	if fmt == 3:
		text = ''.join('\n'.join(alpino(t)) + '\n' for t in ts)
	elif fmt == 2:
		text = ''.join('\n'.join(exportlines(t, n)) + '\n'
				for n, t in enumerate(ts, 1))
	else:
		text = '\n'.join(discbracket(t) for t in ts)
	args = dict(tree=text)
	if sim.chance(1, 12, 'bad'):
		args['tree'] = sim.pick(['', '(S (NP', 'x' * 11000, '(S 0=)', '\n'],
				'badtree')
	out = sim.pick(['pdf', 'png', 'pdf', 'text', 'svg', 'latex', None], 'output')
	if out:
		args['output'] = out
	typ = sim.pick([None, 'matrix', 'node', 'qtree'], 'type')
	if typ and not (typ == 'qtree' and any(t != number2(t) for t in ts)):
		args['type'] = typ
	for x in ('color', 'unicode', 'abbr', 'func', 'morph'):
		if sim.chance(1, 3, x):
			args[x] = '1'
	path = sim.pick(['/draw'] * 8 + ['/index'], 'path')
	return path, args, None


def number2(t):
	"""The tree with terminals numbered in order (i.e., no discontinuities)."""
	c = iter(range(1000))

	def walk(x):
		if isterm(x):
			return [x[0], (next(c), x[1][1])]
		return [x[0]] + [walk(a) for a in x[1:]]
	return walk(t)


def run(sim):
	sim.programs.update(pdflatex=pdflatex, convert=convert)
	reqs = [mkrequest(sim) for _ in range(1 + sim.choose(6, 'nrequests'))]
	if sim.chance(1, 4, 'same'):
		reqs.append(sim.pick(reqs, 'again'))
	width = 1 + sim.choose(4, 'width')
	faulty = sim.choose(3, 'faults')
	sim.progfaults, plan = {}, []
	if faulty == 1:
		for n in range(len(reqs)):
			if sim.chance(1, 3, 'fault'):
				kind = sim.pick(['early', 'late', 'flood', 'flood'], 'kind')
				sim.progfaults[n] = (kind, 0 if kind == 'flood' else
						sim.pick([1, -9, 127, -11], 'code'),
						sim.choose(10, 'frac') / 10, sim.pick([10, 20000],
						'flood') if kind == 'flood' or sim.chance(1, 4, 'both')
						else 0)
				sim.fault('latex-' + kind)
	elif faulty == 2:
		if sim.chance(1, 4, 'missing'):
			del sim.programs[sim.pick(['pdflatex', 'convert'], 'which')]
			sim.fault('missing-program')
		else:
			plan = [disk.Fault(sim.pick(['write', 'open', 'read', 'creat',
					'close-w'], 'op'), sim.choose(4, 'at'), err=sim.pick(
					[errno.ENOSPC, errno.EIO], 'errno'), match='tmp')]
	sim.cfg['pipecap'] = sim.pick([65536, 4096], 'pipecap')
	sim.cfg['preempt'] = sim.pick([40, 8, 150], 'preempt')
	sim.cfg['traceprefix'] = sim.pick([weblib.WEB, weblib.WEB, LIB,
			os.path.join(LIB, 'discodop', 'treebank'),
			os.path.join(LIB, 'discodop', 'tree.py')], 'traceprefix')
	sim.sample = dict(requests=reqs, width=width, faults=repr(sim.progfaults),
			plan=repr(plan))

	def session(sim, solo):
		mod = weblib.load('treedraw')
		cwd = os.getcwd()
		if solo:
			sim.cfg['preempt'] = 0
			sim.progfaults = {}
			res = [weblib.request(mod, *r) for r in reqs]
			tex = [weblib.request(mod, p, dict(a, output='latex'))
					if a.get('output') in ('pdf', 'png') else None
					for p, a, _ in reqs]
			return res, tex
		sim.disk.plan = plan
		res = weblib.concurrently(sim, mod, reqs, width)
		sim.disk.plan = []
		left = sorted(os.listdir(os.path.join(sim.scratch, 'tmp')))
		return res, left, os.getcwd() == cwd
	out = core.call(sim, lambda sim: session(sim, False), 'server')
	programs = dict(sim.programs)
	sim.programs.update(pdflatex=pdflatex, convert=convert)
	ref = core.call(sim, lambda sim: session(sim, True), 'ref')
	sim.programs = programs
	check(ref[0] == 'ok', 'reference-failed', lambda: core.describe(ref))
	check(out[0] != 'hang', 'blocked', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	check(out[0] == 'ok', 'failed', lambda: '%s\n%r' % (core.describe(out),
			sim.sample))
	res, left, samedir = out[1]
	nfail = 0
	for n, (got, want, tex) in enumerate(zip(res, *ref[1])):
		args = reqs[n][1]
		if reqs[n][0] == '/draw' and tex is not None and tex[0] == 'response' \
				and tex[1] == 200 and '\\document' in tex[3]:
			pdf = mkpdf(tex[3].encode('utf8'))
			exp = (pdf if args['output'] == 'pdf' else mkpng(pdf)).decode('utf8',
					'surrogateescape')
			check(want[0] == 'response' and want[3] == exp, 'wrong-drawing',
					lambda: 'alone: %r\n%r\n%r' % (want[:3], want[-1][:500],
					reqs[n]))
		if got == want:
			continue
		check(sim.progfaults or plan or len(sim.programs) < 2,
				'differs-from-alone:%s' % args.get('output'), lambda:
				'request %r\ngot %r\nalone %r\n%r' % (reqs[n], got, want,
				sim.sample))
		nfail += 1
		check(got[0] == 'error' or got[1] >= 400 or got[2].startswith(
				'text/plain') and args.get('output') in ('pdf', 'png')
				and '\\document' not in got[3],
				'failure-not-reported', lambda: 'request %r\ngot %r\nalone %r\n'
				'%r' % (reqs[n], got, want, sim.sample))
	nfaults = sum(1 for x in sim.progfaults.values() if x[0] != 'flood')
	if not plan and len(sim.programs) == 2:
		check(nfail <= nfaults, 'spurious-error', lambda: '%d failures\n%r\n%r'
				% (nfail, [r for r, w in zip(res, ref[1][0]) if r != w],
				sim.sample))
	# removing a directory requires opening it, which a fault may prevent
	check(not left or any(f.kind == 'open' for f in plan), 'temporary-files', lambda: '%r\n%r' % (left, sim.sample))
	check(samedir, 'working-directory', lambda: repr(sim.sample))
