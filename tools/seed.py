"""Manage planted bugs (development tool; no check uses it).

seed.py new ID PROPERTY NEEDS BREAKS   store diff of worktree /tmp/wt as ID
                                       (demo.py is read from /tmp/demo.py)
seed.py try ID... [--nocheck|--checkonly]  confirm against /repo
"""
import os
import sys
import json
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
WT = '/tmp/wt'


def sh(cmd, **kw):
	return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
			stderr=subprocess.STDOUT, **kw)


def new(name, prop, needs, breaks):
	d = os.path.join(VERIF, 'seeded', name)
	shutil.rmtree(d, ignore_errors=True)
	os.makedirs(d)
	diff = subprocess.check_output(['git', '-C', WT, 'diff'])
	assert diff.strip()
	with open(d + '/patch.diff', 'wb') as out:
		out.write(diff)
	for a in ('demo.sh', 'build.py'):
		shutil.copy(os.path.join(HERE, 'seedlib', a), d)
	os.chmod(d + '/demo.sh', 0o755)
	shutil.copytree(os.path.join(VERIF, 'shims'), d + '/shims')
	if prop in ('C25', 'C26', 'C27'):
		shutil.copytree(os.path.join(VERIF, 'dst/webstubs'), d + '/webstubs')
	shutil.copy('/tmp/demo.py', d + '/demo.py')
	with open(d + '/meta.json', 'w') as out:
		json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
				out, indent=1)
		out.write('\n')


def passed():
	sh('bash /opt/vp/test.sh /tmp/seedtest.json')
	base = json.load(open('/opt/vp/BASELINE.json'))
	res = json.load(open('/tmp/seedtest.json'))
	return base, res


def tryone(name, check=True, confirm=True):
	d = os.path.join(VERIF, 'seeded', name)
	meta = json.load(open(d + '/meta.json'))
	assert not sh('git -C /repo status --porcelain').stdout.strip()
	res = {}
	if confirm:
		r = sh('bash %s/demo.sh' % d, cwd='/repo')
		res['demo clean'] = r.returncode
		if r.returncode:
			print(r.stdout.decode()[-2000:])
	r = sh('git -C /repo apply %s/patch.diff' % d)
	assert r.returncode == 0, r.stdout
	try:
		if confirm:
			r = sh('(bash /opt/vp/build.sh && bash /opt/vp/test.sh '
					'/tmp/seedtest.json) 2>&1 | tail -1')
			res['tests'] = r.stdout.decode().strip()
			r = sh('bash %s/demo.sh' % d, cwd='/repo')
			res['demo bug'] = r.returncode
			res['demo output'] = r.stdout.decode().strip()[-300:]
		if check:
			r = sh('python3 check.py %s --tier quick' % meta['property'],
					cwd=VERIF, env=dict(os.environ, VERIF_SEED='1',
					VERIF_TIER='quick'))
			res['check'] = r.returncode
			res['violation'] = [a for a in r.stdout.decode().splitlines()
					if 'VIOLATION' in a or 'signature' in a][:3]
	finally:
		sh('git -C /repo checkout -- .')
		if confirm:
			sh('bash /opt/vp/build.sh')
	ok = (not confirm or (res['demo clean'] == 0 and res['demo bug'] != 0
			and res['demo bug'] not in (90, 91)
			and res['tests'].startswith('55 passed')))
	print(name, meta['property'], 'OK' if ok else 'BAD',
			'CAUGHT' if res.get('check') == 1 else
			'MISSED' if check else '', json.dumps(res, indent=1))
	sys.stdout.flush()


if __name__ == '__main__':
	if sys.argv[1] == 'new':
		new(*sys.argv[2:])
	else:
		names = [a for a in sys.argv[2:] if not a.startswith('-')]
		for x in names or sorted(os.listdir(VERIF + '/seeded')):
			tryone(x, '--nocheck' not in sys.argv,
					'--checkonly' not in sys.argv)
