"""Worker process: imports the code under test once (with hooks installed) and
forks one fresh process for each simulated run."""
import os
import sys
import json
import time
import select
import signal
import shutil
import tempfile
import importlib
import traceback

real_time = time.monotonic
real_read, real_write, real_close = os.read, os.write, os.close
MAXWALL = float(os.environ.get('DST_MAXWALL', '90'))


def _shorten(s, n=4000):
	return s if len(s) <= n else s[:n // 2] + '\n[...]\n' + s[-n // 2:]


def runchild(check, req, scratch, w):
	"""In the forked process: one simulated run."""
	from . import core, world
	os.setsid()
	out = open(os.path.join(scratch, 'run.log'), 'wb', buffering=0)
	os.dup2(out.fileno(), 1)
	os.dup2(out.fileno(), 2)
	devnull = os.open('/dev/null', os.O_RDONLY)
	os.dup2(devnull, 0)
	work = os.path.join(scratch, 'w')
	os.mkdir(work)
	t0 = real_time()
	cfg = dict(getattr(check, 'CFG', {}))
	cfg.update(req.get('cfg') or {})
	sim = world.begin(req.get('seed'), req.get('tape'), work, cfg)
	res = {}
	try:
		check.run(sim)
	except core.Violation as err:
		res['violation'] = [err.cls, _shorten(str(err.msg))]
	except core.Inconclusive as err:
		res['inconclusive'] = str(err)
	except core.Hang as err:
		res['violation'] = ['hang', str(err) + '\n' + _shorten(
				traceback.format_exc())]
	except BaseException as err:
		res['violation'] = ['exception-' + type(err).__name__,
				_shorten(traceback.format_exc())]
	sim.disk.active = False
	res.update(i=req.get('i'), tapelen=len(sim.tape), faults=sim.faults,
			stats=sim.stats, hash=sim.tracehash(), events=len(sim.trace),
			simtime=sim.clock - 1600000000.0, wall=real_time() - t0,
			sample=getattr(sim, 'sample', None),
			key=getattr(sim, 'key', None),
			digest=getattr(sim, 'digest', None),
			known=getattr(sim, 'known', None))
	if 'violation' in res or req.get('full'):
		res['tape'] = sim.tape
		res['trace'] = sim.trace[:3000]
		res['log'] = getattr(sim, 'notes', None)
	data = json.dumps(res, default=repr).encode()
	while data:
		n = real_write(w, data)
		data = data[n:]
	os._exit(0)


def main():
	libdir, checkname = sys.argv[1:3]
	signal.signal(signal.SIGINT, signal.SIG_IGN)
	from . import world
	base = tempfile.mkdtemp(prefix='dst-', dir=os.environ.get('DST_SCRATCH'))
	# keep stdin/stdout of the protocol out of reach of the code under test
	pin, pout = os.dup(0), os.dup(1)
	world.install(libdir)
	world.importall()
	check = importlib.import_module('dst.checks.' + checkname)
	if hasattr(check, 'prepare'):
		check.prepare()
	import gc
	gc.collect()
	gc.freeze()
	buf = b''
	n = 0
	try:
		real_write(pout, b'ready\n')
		while True:
			while b'\n' not in buf:
				x = real_read(pin, 65536)
				if not x:
					return
				buf += x
			line, buf = buf.split(b'\n', 1)
			req = json.loads(line)
			n += 1
			scratch = os.path.join(base, 'r%d' % n)
			os.mkdir(scratch)
			r, w = os.pipe()
			pid = os.fork()
			if pid == 0:
				real_close(r)
				real_close(pin)
				real_close(pout)
				try:
					runchild(check, req, scratch, w)
				finally:
					os._exit(97)
			real_close(w)
			chunks, end, timeout = [], real_time() + req.get(
					'maxwall', MAXWALL), False
			while True:
				left = end - real_time()
				rl, _, _ = select.select([r], [], [], max(left, 0))
				if not rl:
					timeout = True
					break
				x = real_read(r, 1 << 16)
				if not x:
					break
				chunks.append(x)
			real_close(r)
			try:
				os.killpg(pid, signal.SIGKILL)
			except (ProcessLookupError, PermissionError):
				pass
			_, status = os.waitpid(pid, 0)
			data = b''.join(chunks)
			try:
				res = json.loads(data)
			except ValueError:
				res = {'i': req.get('i')}
				try:
					with open(os.path.join(scratch, 'run.log'), 'rb') as f:
						tail = f.read()[-2000:].decode('utf8', 'replace')
				except OSError:
					tail = ''
				if timeout:
					res['violation'] = ['hang-wall', 'no end\n' + tail]
				else:
					res['violation'] = ['crash', 'run process ended with '
							'status %r\n%s' % (status, tail)]
			if 'violation' in res and 'log' not in res or req.get('full'):
				try:
					with open(os.path.join(scratch, 'run.log'), 'rb') as f:
						res['output'] = f.read()[-3000:].decode(
								'utf8', 'replace')
				except OSError:
					pass
			shutil.rmtree(scratch, ignore_errors=True)
			out = json.dumps(res).encode() + b'\n'
			while out:
				k = real_write(pout, out)
				out = out[k:]
	finally:
		shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
	main()
