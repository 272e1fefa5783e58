"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import ast
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = ('no concurrency, time, I/O, randomness or multi-party behaviour for the '
	'property to depend on: it is a pure function of its input, so there is '
	'no schedule or fault for a deterministic simulation to vary')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
	p = json.loads(line)
	path = os.path.join(V, 'dst', 'checks', p['id'].lower() + '.py')
	if not os.path.exists(path):
		reason = NA if p['id'] >= 'C40' else 'check not built yet'
		na.append(dict(property=p['id'], reason=reason))
		continue
	ns = {}
	for node in ast.parse(open(path).read()).body:
		if isinstance(node, ast.Assign):
			try:
				ns[node.targets[0].id] = ast.literal_eval(node.value)
			except (ValueError, AttributeError):
				pass
	checks.append(dict(property=p['id'],
		quick_cmd='python3 check.py %s --tier quick' % p['id'],
		thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
		evidence_file='evidence/%s.json' % p['id'],
		technique='deterministic simulation with fault injection: ' + ns[
			'TECHNIQUE'] if 'TECHNIQUE' in ns else
			'deterministic simulation with fault injection (seeded search '
			'over workloads, schedules and faults; replayable tapes)',
		level=ns.get('LEVEL', 'exploration'),
		level_note=ns.get('NOTE', 'Seeded search over simulated runs, no '
			'exhaustiveness; real code: %s. Simulated: %s.' % (
			ns['REALPARTS'], ns['STUBS']))))
m = dict(version=1, setup_cmd='python3 -m dst.build', checks=checks,
	not_applicable=na,
	notes='One entry point: python3 check.py <id> [--tier T] [--replay F] '
	'[--one RUN] [--all]. The seed is VERIF_SEED. No hooks in /repo are '
	'needed: all seams are Python/C library entry points replaced before '
	'the code under test is imported (see DESIGN.md).')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
	json.dump(m, f, indent=1)
	f.write('\n')
