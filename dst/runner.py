"""Run a check: build, explore seeds, minimise and report violations."""
import os
import re
import sys
import json
import time
import queue
import hashlib
import shutil
import tempfile
import argparse
import threading
import importlib
import subprocess

from . import build as builder

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get('DST_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAYS = os.environ.get('DST_REPLAYS', os.path.join(VERIF, 'replays'))


class Zygote:
	def __init__(self, libdir, name, scratch, hashseed=0, maxwall=None):
		env = {k: v for k, v in os.environ.items()
				if k in ('PATH', 'HOME', 'LANG', 'LC_ALL')}
		env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF,
				PYTHONDONTWRITEBYTECODE='1', DST_SCRATCH=scratch,
				LC_ALL='C.UTF-8', PYTHONUTF8='1', OMP_NUM_THREADS='1',
				OPENBLAS_NUM_THREADS='1', DST_LIB=libdir,
				DST_PYTHON=builder.PYTHON)
		if maxwall:
			env['DST_MAXWALL'] = str(maxwall)
		self.p = subprocess.Popen([builder.PYTHON, '-m', 'dst.zygote', libdir,
				name], cwd=VERIF, env=env, stdin=subprocess.PIPE,
				stdout=subprocess.PIPE, stderr=subprocess.PIPE,
				start_new_session=True)
		self.err = []
		threading.Thread(target=self._stderr, daemon=True).start()

	def _stderr(self):
		for line in self.p.stderr:
			self.err.append(line.decode('utf8', 'replace'))
			del self.err[:-50]

	def ready(self):
		line = self.p.stdout.readline()
		if line != b'ready\n':
			self.p.wait()
			time.sleep(0.1)
			raise RuntimeError('cannot import the code under test:\n'
					+ ''.join(self.err))

	def ask(self, req):
		self.p.stdin.write(json.dumps(req).encode() + b'\n')
		self.p.stdin.flush()
		line = self.p.stdout.readline()
		if not line:
			raise RuntimeError('zygote died:\n' + ''.join(self.err))
		return json.loads(line)

	def stop(self):
		try:
			self.p.stdin.close()
			self.p.wait(10)
		except Exception:
			self.p.kill()


class Group:
	"""Zygotes with different hash seeds; performs each run in two of them, and
	compares what the runs produced (``digest``)."""

	def __init__(self, libdir, name, scratch, hashseeds, maxwall=None):
		self.hashseeds = hashseeds
		self.zs = [Zygote(libdir, name, scratch, a, maxwall)
				for a in hashseeds]

	def ready(self):
		for z in self.zs:
			z.ready()

	def ask(self, req):
		cfg = dict(req.get('cfg') or {})
		other = cfg.setdefault('other', 1 + (req.get('i') or 0) % (
				len(self.zs) - 1))
		res = self.zs[0].ask(dict(req, cfg=dict(cfg, side=0)))
		if 'violation' in res or res.get('inconclusive'):
			return res
		res2 = self.zs[other].ask(dict(req, cfg=dict(cfg, side=other)))
		if 'violation' in res2 or res2.get('inconclusive'):
			return res2
		a, b = res.pop('digest', None), res2.pop('digest', None)
		if a != b:
			kind, name, x, y = difference(a, b)
			res['violation'] = ['differs:' + kind, '%r\n%s differs between '
					'runs with PYTHONHASHSEED %s and %s:\n%s\n%s' % (
					res.get('sample'), name, self.hashseeds[0],
					self.hashseeds[other], x, y)]
			if 'tape' not in res:
				full = self.zs[0].ask(dict(req, full=True, cfg=dict(cfg,
						side=0)))
				for k in ('tape', 'trace', 'hash', 'log'):
					if k in full:
						res[k] = full[k]
		return res

	def stop(self):
		for z in self.zs:
			z.stop()


def difference(a, b):
	"""First difference between digests: [[kind, name, hash, text], ...]."""
	a, b = a or [], b or []
	for x, y in zip(a, b):
		if x != y:
			n = next((n for n, (c, d) in enumerate(zip(x[3], y[3])) if c != d),
					0)
			n = max(0, n - 200)
			return x[0], x[1], x[3][n:n + 600], y[3][n:n + 600]
	x = (a[len(b):] or b[len(a):])[0]
	return x[0], x[1], 'is only present', 'in one of them'


def runseed(prop, verifseed, i):
	return int(hashlib.sha256(('%s:%s:%d' % (prop, verifseed, i)).encode()
			).hexdigest()[:15], 16)


class Session:
	def __init__(self, prop, check, jobs):
		self.prop, self.check = prop, check
		self.libdir = builder.build(verbose=True)
		base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
		self.scratch = tempfile.mkdtemp(prefix='dst-%s-' % prop, dir=base)
		self.jobs = jobs
		self.zs = [self._zygote(n) for n in range(jobs)]
		for z in self.zs:
			z.ready()

	def _zygote(self, n):
		hashseeds = getattr(self.check, 'HASHSEEDS', ())
		if len(hashseeds) > 1:
			return Group(self.libdir, self.prop.lower(), self.scratch,
					hashseeds, getattr(self.check, 'MAXWALL', None))
		return Zygote(self.libdir, self.prop.lower(), self.scratch,
				getattr(self.check, 'HASHSEEDS', (0, ))[0],
				getattr(self.check, 'MAXWALL', None))

	def map(self, reqs, budget=None, stop=None, on=None):
		"""Run requests on all zygotes; yields results in completion order."""
		it = iter(reqs)
		lock = threading.Lock()
		out = queue.Queue()
		end = None if budget is None else time.monotonic() + budget
		halt = threading.Event()

		def work(n):
			try:
				while not halt.is_set():
					if end is not None and time.monotonic() > end:
						break
					with lock:
						req = next(it, None)
					if req is None:
						break
					try:
						res = self.zs[n].ask(req)
					except RuntimeError:
						# zygote itself died: restart once
						self.zs[n] = self._zygote(n)
						self.zs[n].ready()
						res = self.zs[n].ask(req)
					out.put((req, res))
			except BaseException as err:
				out.put(err)
			finally:
				out.put(None)
		ts = [threading.Thread(target=work, args=(n, ), daemon=True)
				for n in range(self.jobs)]
		for t in ts:
			t.start()
		left = len(ts)
		try:
			while left:
				x = out.get()
				if x is None:
					left -= 1
				elif isinstance(x, BaseException):
					raise x
				else:
					yield x
		finally:
			halt.set()
			for t in ts:
				t.join(0.5)

	def close(self):
		for z in self.zs:
			z.stop()
		shutil.rmtree(self.scratch, ignore_errors=True)


def same(a, b):
	"""Same kind of violation (class up to ':')."""
	return a is not None and b is not None and (
			a[0].split(':')[0] == b[0].split(':')[0])


def minimise(sess, tape, viol, budget=40, cfg=None):
	"""Shorten the tape while the same class of violation persists."""
	end = time.monotonic() + budget
	best = list(tape)
	tried = 0

	def attempt(cands):
		nonlocal best, tried
		reqs = [{'i': n, 'tape': c, 'cfg': cfg, 'maxwall': 60}
				for n, c in enumerate(cands)]
		good = None
		for req, res in sess.map(reqs, budget=max(
				1, end - time.monotonic())):
			tried += 1
			if same(res.get('violation'), viol):
				n = req['i']
				if good is None or n < good:
					good = n
		if good is not None:
			best = cands[good]
			while best and best[-1] == 0:
				best = best[:-1]
			return True
		return False

	while best and best[-1] == 0:
		best.pop()
	improved = True
	while improved and time.monotonic() < end:
		improved = False
		# truncate
		cands = [best[:len(best) * k // 16] for k in range(0, 16)]
		if best and attempt(cands):
			improved = True
			continue
		size = max(1, len(best) // 2)
		while size >= 1 and time.monotonic() < end:
			n = 0
			changed = False
			cands = []
			for n in range(0, len(best), size):
				seg = best[n:n + size]
				cands.append(best[:n] + best[n + size:])
				if any(seg):
					cands.append(best[:n] + [0] * len(seg) + best[n + size:])
			cands = [c for c in cands if c != best][:400]
			if cands and attempt(cands):
				improved = changed = True
			if not changed:
				size //= 2
			size = min(size, max(1, len(best) // 2))
			if not best:
				break
		# lower values
		for n in range(len(best) - 1, -1, -1):
			if time.monotonic() > end:
				break
			v = best[n]
			cands = [best[:n] + [x] + best[n + 1:]
					for x in sorted({v // 2, v - 1} - {v}) if 0 <= x]
			if v and attempt(cands):
				improved = True
	return best, tried


def loadknown():
	"""Known findings: (property, signature) -> text."""
	res = {}
	path = os.path.join(VERIF, 'known-findings.txt')
	if os.path.exists(path):
		with open(path) as f:
			for line in f:
				m = re.match(r'KNOWN-FINDING: property=(\S+) '
						r'signature=(\S+) (.*)', line)
				if m:
					res[m.group(1), m.group(2)] = m.group(3).strip()
	return res


def main(argv=None):
	ap = argparse.ArgumentParser()
	ap.add_argument('property')
	ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
	ap.add_argument('--seed', type=int,
			default=int(os.environ.get('VERIF_SEED', '1') or 1))
	ap.add_argument('--runs', type=int)
	ap.add_argument('--budget', type=float)
	ap.add_argument('--jobs', type=int,
			default=int(os.environ.get('DST_JOBS', '8')))
	ap.add_argument('--replay')
	ap.add_argument('--one', type=int, help='run number i only, verbose')
	ap.add_argument('--all', action='store_true',
			help='do not stop at the first violation; summary by class')
	ap.add_argument('--nomin', action='store_true')
	args = ap.parse_args(argv)
	prop = args.property.upper()
	tier = 'thorough' if args.tier == 'thorough' else 'quick'
	sys.path.insert(0, VERIF)
	check = _load(prop)
	t0 = time.monotonic()
	jobs = 1 if args.replay or args.one is not None else args.jobs
	try:
		sess = Session(prop, check, jobs)
	except (builder.BuildError, RuntimeError) as err:
		# the tree does not build or import: no verdict on the property
		print('CHECK-ERROR property=%s %s' % (prop, str(err)[-3000:]))
		return 2
	try:
		if args.replay:
			return replay(sess, prop, args.replay)
		if args.one is not None:
			res = sess.zs[0].ask({'i': args.one, 'full': True, 'seed': runseed(
					prop, args.seed, args.one), 'cfg': _cfg(check, tier, args.one)})
			for k, v in res.items():
				print(k, ':', v if k != 'trace' else '\n  ' + '\n  '.join(v))
			if 'violation' in res:
				print(res['violation'][1])
			return 0
		return explore(sess, prop, check, tier, args, t0)
	finally:
		sess.close()


def _cfg(check, tier, i):
	res = {'tier': tier}
	hashseeds = getattr(check, 'HASHSEEDS', ())
	if len(hashseeds) > 1:
		res['other'] = 1 + i % (len(hashseeds) - 1)
	return res


def _load(prop):
	"""Read constants of the check without importing the code under test."""
	import ast
	path = os.path.join(HERE, 'checks', prop.lower() + '.py')
	with open(path) as f:
		tree = ast.parse(f.read())
	ns = type('Check', (), {})()
	for node in tree.body:
		if isinstance(node, ast.Assign) and isinstance(
				node.targets[0], ast.Name) and node.targets[0].id.isupper():
			try:
				setattr(ns, node.targets[0].id, ast.literal_eval(node.value))
			except ValueError:
				pass
	ns.__doc__ = ast.get_docstring(tree)
	return ns


def replay(sess, prop, path):
	with open(path) as f:
		rep = json.load(f)
	hashes = []
	for _ in range(2):
		req = {'i': 0, 'tape': rep['tape'], 'full': True,
				'cfg': rep.get('cfg')}
		if rep['tape'] is None:  # the run process itself died
			req['seed'] = rep['seed']
		res = sess.zs[0].ask(req)
		hashes.append((res.get('violation', [None])[0], res.get('hash')))
	ok = hashes[0] == hashes[1]
	print('replay: %s (deterministic: %s, as recorded: %s)' % (hashes[0][0],
			ok, hashes[0] == (rep['violation'][0], rep['hash'])))
	if res.get('violation'):
		print(res['violation'][1])
		print('VIOLATION property=%s replay=%s' % (prop, path))
		return 1
	return 0


def explore(sess, prop, check, tier, args, t0):
	runs = args.runs or check.RUNS[tier == 'thorough']
	budget = args.budget or check.BUDGET[tier == 'thorough']
	known = loadknown()
	tbuild = time.monotonic() - t0
	reqs = ({'i': i, 'seed': runseed(prop, args.seed, i),
			'cfg': _cfg(check, tier, i)} for i in range(runs))
	done, nsteps, simtime, inconcl = 0, 0, 0.0, 0
	faults, stats, hashes, keys, samples = {}, {}, set(), set(), []
	wall = 0.0
	bad, classes = [], {}
	seenknown = {}
	t1 = time.monotonic()
	gen = sess.map(reqs, budget=budget)
	for req, res in gen:
		done += 1
		if res.get('inconclusive'):
			inconcl += 1
		for k, v in res.get('faults', {}).items():
			faults[k] = faults.get(k, 0) + v
		for k, v in res.get('stats', {}).items():
			stats[k] = stats.get(k, 0) + v
		if res.get('hash'):
			hashes.add(res['hash'])
		if res.get('key') is not None:
			keys.add(json.dumps(res['key']))
		simtime += res.get('simtime', 0)
		wall += res.get('wall', 0)
		if len(samples) < 3 and res.get('sample'):
			samples.append({'run': req['i'], 'case': res['sample']})
		for sig in res.get('known') or ():
			if (prop, sig) in known:
				seenknown[sig] = seenknown.get(sig, 0) + 1
			else:
				res.setdefault('violation', ['unlisted:' + sig,
						'a deviation of kind %r that is not a listed known '
						'finding' % sig])
		if 'violation' in res:
			cls = res['violation'][0]
			classes.setdefault(cls, []).append(req['i'])
			bad.append((req, res))
			if not args.all:
				gen.close()
				break
	explored = time.monotonic() - t1
	status = 0
	for (p, sig), text in sorted(known.items()):
		if p == prop:
			print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (
					prop, text, seenknown.get(sig, 0)))
	if args.all and classes:
		for cls, ids in sorted(classes.items(), key=lambda x: -len(x[1])):
			print('%6d %s e.g. run %s' % (len(ids), cls, min(ids)))
			res = [r for q, r in bad if q['i'] == min(ids)][0]
			print('      ' + res['violation'][1].replace(
					'\n', '\n      ')[-1500:])
	if bad:
		status = 1
		req, res = min(bad, key=lambda x: x[0]['i'])
		path = report(sess, prop, args, req, res, check)
		print('VIOLATION property=%s replay=%s' % (prop, path))
	rule = getattr(check, 'RULE', 'distinct schedules')
	ev = dict(property=prop, tier=tier, seed=args.seed,
			level=getattr(check, 'LEVEL', 'exploration'),
			coverage=dict(
				evaluations=done,
				distinct_nontrivial=len(keys) if keys else len(hashes),
				rule=rule,
				samples=samples or [{'note': 'no sample recorded'}],
				simulated_runs=done,
				runs_inconclusive=inconcl,
				seeds_per_hour=int(done / max(explored, 1e-3) * 3600),
				simulated_seconds=round(simtime, 3),
				distinct_traces=len(hashes),
				fault_kinds_injected=faults,
				counters=stats,
				planned_runs=runs,
				real_components=getattr(check, 'REALPARTS', ''),
				stubbed_components=getattr(check, 'STUBS', ''),
				build_s=round(tbuild, 1),
				violation_classes={k: len(v) for k, v in classes.items()},
				known_findings_seen=seenknown),
			assumptions=list(getattr(check, 'ASSUMES', ())),
			violations=len(bad),
			wall_s=round(time.monotonic() - t0, 1))
	os.makedirs(EVIDENCE, exist_ok=True)
	tmp = os.path.join(EVIDENCE, prop + '.json.tmp')
	with open(tmp, 'w') as f:
		json.dump(ev, f, indent=1, sort_keys=True)
	os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))
	print('%s %s: %d runs (%d distinct traces, %d inconclusive) in %.1fs '
			'after %.1fs set-up; faults %s; violations %d' % (prop, tier,
			done, len(hashes), inconcl, explored, tbuild,
			json.dumps(faults, sort_keys=True), len(bad)))
	return status


def report(sess, prop, args, req, res, check):
	viol = res['violation']
	tape = res.get('tape')
	cfg = req.get('cfg')
	if tape is None:
		# the run process itself died; its tape is that of the seed
		rep = dict(property=prop, violation=viol, seed=req['seed'],
				verif_seed=args.seed, run=req['i'], tape=None, cfg=cfg,
				hash=None)
		tape = []
		best, tried = None, 0
		res2 = res
	else:
		best, tried = list(tape), 0
		if not args.nomin:
			best, tried = minimise(sess, tape, viol, cfg=cfg,
					budget=float(os.environ.get('DST_MINBUDGET', '30')))
		res2 = sess.zs[0].ask({'i': 0, 'tape': best, 'full': True,
				'cfg': cfg})
		if not same(res2.get('violation'), viol):
			best = list(tape)
			res2 = sess.zs[0].ask({'i': 0, 'tape': best, 'full': True,
				'cfg': cfg})
			if 'violation' not in res2:
				res2 = res
		rep = dict(property=prop, violation=res2['violation'],
				seed=req['seed'], verif_seed=args.seed, run=req['i'],
				tape=best, cfg=cfg, hash=res2.get('hash'),
				original_tape_length=len(tape), minimiser_runs=tried,
				faults=res2.get('faults'), trace=res2.get('trace'),
				case=res2.get('sample'))
	os.makedirs(REPLAYS, exist_ok=True)
	path = os.path.join(REPLAYS, '%s-%s-%d.json' % (
			prop, args.seed, req['i']))
	with open(path, 'w') as f:
		json.dump(rep, f, indent=1)
	print('%s run %d seed %d: %s' % (prop, req['i'], req['seed'],
			rep['violation'][0]))
	print(rep['violation'][1])
	if best is not None:
		print('tape: %d choices, minimised to %d in %d runs' % (
				len(tape), len(best), tried))
	return path
