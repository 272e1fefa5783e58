"""Build disco-dop from /repo's working tree into a content-addressed directory.

Everything is compiled from the current sources of /repo/discodop; nothing in
/repo is touched.  The three header-only submodules that are empty in this
checkout (sparsepp, cpp-btree, gheap) are replaced by /verif/shims (thin
wrappers around std:: containers).  C stdio calls that open files for writing or
reading are redirected to the simulator through a forced include (simio.h)."""
import os
import sys
import time
import fcntl
import shutil
import hashlib
import subprocess
import sysconfig
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DST_REPO', '/repo')
PYTHON = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
MODULES = ['disambiguation', 'pcfg', 'plcfrs', 'containers', 'coarsetofine',
		'_fragments', 'estimates', 'kbest', 'bit']
DIRECTIVES = dict(profile=False, cdivision=True, nonecheck=False,
		wraparound=False, boundscheck=False, embedsignature=True,
		auto_pickle=False)
CFLAGS = ['-O1', '-g0', '-w', '-fPIC', '-DNDEBUG', '-D__STDC_LIMIT_MACROS',
		'-D__STDC_FORMAT_MACROS', '-fno-strict-aliasing', '-fwrapv']
EXTS = ('.py', '.pyx', '.pxd', '.pxi', '.h', '.hpp')


class BuildError(Exception):
	pass


def sources(repo):
	res = []
	for root, dirs, files in os.walk(os.path.join(repo, 'discodop')):
		dirs[:] = [d for d in dirs if d != '__pycache__']
		for f in files:
			if f.endswith(EXTS):
				res.append(os.path.join(root, f))
	return sorted(res)


def websources(repo):
	"""The web interfaces (not compiled)."""
	res = []
	for root, dirs, files in os.walk(os.path.join(repo, 'web')):
		dirs[:] = [d for d in dirs if d not in ('__pycache__', 'corpus')]
		res.extend(os.path.join(root, f) for f in files
				if f.endswith(('.py', '.html', '.txt', '.js', '.css')))
	return sorted(res)


def digest(paths):
	h = hashlib.sha256()
	for p in paths:
		h.update(os.path.basename(p).encode() + b'\0')
		with open(p, 'rb') as inp:
			h.update(inp.read())
		h.update(b'\0')
	return h.hexdigest()[:20]


def cython_one(src, dst):
	"""Run Cython on one module (in a subprocess)."""
	code = ('import sys\n'
		'from Cython.Compiler.Main import compile_single, CompilationOptions\n'
		'from Cython.Compiler.Options import get_directive_defaults\n'
		'd = get_directive_defaults()\n'
		'd.update(%r)\n'
		'o = CompilationOptions(compiler_directives=d, language_level=3,\n'
		'	cplus=True, output_file=%r, include_path=["."])\n'
		'r = compile_single(%r, o, full_module_name=%r)\n'
		'sys.exit(1 if r.num_errors else 0)\n' % (
			DIRECTIVES, dst, src,
			'discodop.' + os.path.basename(src)[:-4]))
	return subprocess.run([PYTHON, '-c', code], stdout=subprocess.PIPE,
			stderr=subprocess.STDOUT)


def includes():
	out = subprocess.run([PYTHON, '-c',
		'import sysconfig, numpy, roaringbitmap, os;'
		'print(sysconfig.get_paths()["include"]);'
		'print(numpy.get_include());'
		'print(sysconfig.get_config_var("EXT_SUFFIX"))'],
		stdout=subprocess.PIPE, check=True).stdout.decode().split('\n')
	return out[0], out[1], out[2]


def build(repo=REPO, verbose=False):
	"""Build (or reuse an identical build); return directory for sys.path."""
	srcs = sources(repo)
	extra = [os.path.join(HERE, 'build.py'), os.path.join(HERE, 'simio.h'),
			os.path.join(HERE, 'simio.c')]
	for root, _, files in os.walk(os.path.join(VERIF, 'shims')):
		extra += [os.path.join(root, f) for f in files]
	csrcs = [p for p in srcs if not p.endswith('.py')]
	key = digest(csrcs + sorted(extra))
	web = websources(repo)
	fullkey = digest(srcs + sorted(extra) + web)
	cache = os.environ.get('DST_BUILD', os.path.join(VERIF, '.build'))
	os.makedirs(cache, exist_ok=True)
	bindir = os.path.join(cache, 'bin-' + key)
	outdir = os.path.join(cache, 'lib-' + fullkey)
	start = time.time()
	with open(os.path.join(cache, 'lock'), 'w') as lock:
		fcntl.flock(lock, fcntl.LOCK_EX)
		if not os.path.exists(os.path.join(bindir, 'ok')):
			shutil.rmtree(bindir, ignore_errors=True)
			_compile(repo, srcs, bindir)
			with open(os.path.join(bindir, 'ok'), 'w'):
				pass
		if not os.path.exists(os.path.join(outdir, 'ok')):
			shutil.rmtree(outdir, ignore_errors=True)
			pkg = os.path.join(outdir, 'discodop')
			os.makedirs(pkg)
			for p in srcs:
				rel = os.path.relpath(p, os.path.join(repo, 'discodop'))
				os.makedirs(os.path.dirname(os.path.join(pkg, rel)),
						exist_ok=True)
				shutil.copy(p, os.path.join(pkg, rel))
			for p in web:
				dst = os.path.join(outdir, os.path.relpath(p, repo))
				os.makedirs(os.path.dirname(dst), exist_ok=True)
				shutil.copy(p, dst)
			for f in os.listdir(bindir):
				if f.endswith('.so'):
					dst = outdir if f.startswith('lib') else pkg
					shutil.copy(os.path.join(bindir, f), dst)
			for f in os.listdir(repo):
				if f.endswith('.headrules') or f == 'alpinosample.export':
					shutil.copy(os.path.join(repo, f), outdir)
			# no python bytecode races between processes
			subprocess.run([PYTHON, '-m', 'compileall', '-q', pkg],
					stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
			with open(os.path.join(outdir, 'ok'), 'w'):
				pass
		_prune(cache, {bindir, outdir})
	if verbose:
		print('build: %s (%.1fs)' % (outdir, time.time() - start),
				file=sys.stderr)
	return outdir


def _prune(cache, keep, maxdirs=12):
	dirs = [os.path.join(cache, a) for a in os.listdir(cache)
			if a.startswith(('bin-', 'lib-'))]
	dirs = sorted((d for d in dirs if d not in keep), key=os.path.getmtime)
	for d in dirs[:max(0, len(dirs) - maxdirs)]:
		shutil.rmtree(d, ignore_errors=True)


def _compile(repo, srcs, bindir):
	work = os.path.join(bindir, 'src')
	pkg = os.path.join(work, 'discodop')
	os.makedirs(pkg)
	for p in srcs:
		rel = os.path.relpath(p, os.path.join(repo, 'discodop'))
		os.makedirs(os.path.dirname(os.path.join(pkg, rel)), exist_ok=True)
		shutil.copy(p, os.path.join(pkg, rel))
	shutil.copytree(os.path.join(VERIF, 'shims'), work, dirs_exist_ok=True)
	pyinc, npinc, suffix = includes()
	simlib = os.path.join(bindir, 'libsimio.so')
	r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w',
			'-o', simlib, os.path.join(HERE, 'simio.c')],
			stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
	if r.returncode:
		raise BuildError(r.stdout.decode())
	# further modules, should the repository have grown any
	mods = [m for m in MODULES if os.path.exists(
			os.path.join(pkg, m + '.pyx'))]
	mods += [f[:-4] for f in sorted(os.listdir(pkg)) if f.endswith('.pyx')
			and f[:-4] not in mods]

	def one(mod):
		src = os.path.join('discodop', mod + '.pyx')
		cpp = os.path.join(pkg, mod + '.cpp')
		cwd = os.getcwd()
		code = subprocess.run([PYTHON, '-m', 'cython', '-3', '--cplus']
				+ [x for k, v in DIRECTIVES.items()
					for x in ('-X', '%s=%s' % (k, v))]
				+ ['-o', cpp, src], cwd=work,
				stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		if code.returncode:
			raise BuildError(code.stdout.decode())
		cc = subprocess.run(['g++', '-shared', '-std=c++14'] + CFLAGS
				+ ['-I' + pyinc, '-I' + npinc, '-I' + work, '-I' + pkg,
				'-include', os.path.join(HERE, 'simio.h'),
				cpp, '-o', os.path.join(bindir, mod + suffix),
				'-L' + bindir, '-lsimio', '-Wl,-rpath,$ORIGIN/..'],
				cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		if cc.returncode:
			raise BuildError(cc.stdout.decode()[-5000:])

	with ThreadPoolExecutor(len(mods)) as pool:
		list(pool.map(one, mods))
	shutil.rmtree(work)


if __name__ == '__main__':
	print(build(verbose=True))
