"""Usage: build.py REPO SCRATCH SHIMS; compile disco-dop to SCRATCH/lib."""
import os
import sys
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

repo, scratch, shims = sys.argv[1:]
lib = os.path.join(scratch, 'lib')
pkg = os.path.join(lib, 'discodop')
shutil.copytree(shims, lib)
shutil.copytree(os.path.join(repo, 'discodop'), pkg,
		ignore=shutil.ignore_patterns('*.so', '*.cpp', '__pycache__'))
for f in os.listdir(repo):
	if f.endswith(('.headrules', '.export')):
		shutil.copy(os.path.join(repo, f), lib)
inc = subprocess.check_output([sys.executable, '-c',
		'import sysconfig, numpy; print(sysconfig.get_paths()["include"]);'
		'print(numpy.get_include());'
		'print(sysconfig.get_config_var("EXT_SUFFIX"))']).decode().split('\n')


def one(name):
	src = os.path.join('discodop', name + '.pyx')
	cpp = os.path.join(pkg, name + '.cpp')
	args = [sys.executable, '-m', 'cython', '-3', '--cplus']
	for x in ('profile=False', 'cdivision=True', 'nonecheck=False',
			'wraparound=False', 'boundscheck=False', 'embedsignature=True',
			'auto_pickle=False'):
		args += ['-X', x]
	subprocess.check_output(args + ['-o', cpp, src], cwd=lib,
			stderr=subprocess.STDOUT)
	subprocess.check_output(['g++', '-shared', '-std=c++14', '-O1', '-w',
			'-fPIC', '-DNDEBUG', '-D__STDC_LIMIT_MACROS',
			'-D__STDC_FORMAT_MACROS', '-fno-strict-aliasing', '-fwrapv',
			'-I' + inc[0], '-I' + inc[1], '-I' + lib, '-I' + pkg, cpp,
			'-o', os.path.join(pkg, name + inc[2])], cwd=lib,
			stderr=subprocess.STDOUT)


names = [f[:-4] for f in sorted(os.listdir(pkg)) if f.endswith('.pyx')]
try:
	with ThreadPoolExecutor(len(names)) as pool:
		list(pool.map(one, names))
except subprocess.CalledProcessError as err:
	sys.exit((err.output or b'').decode()[-3000:])
