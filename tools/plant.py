"""Author and judge planted bugs (development only; no check reads this or seeded/).

plant.py make FILE.py        write seeded/<id>/ for every bug defined in FILE.py
plant.py judge ID...         stable tests, demo with and without, and the check of its property, in scratch copies
plant.py catch ID...         only the check of its property
"""
import sys, os, json, subprocess, shutil, tempfile, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
DEMO = '''#!/bin/bash
PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def scratch():
	d = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
	c = os.path.join(d, 'repo')
	subprocess.run(['cp', '-a', REPO, c], check=True)
	return d, c


def make(path):
	ns = {}
	exec(open(path).read(), ns)
	only = set(sys.argv[3:])
	for b in ns['BUGS']:
		if only and b['id'] not in only:
			continue
		d, c = scratch()
		try:
			for f, old, new in b['edits']:
				p = os.path.join(c, f)
				s = open(p).read()
				assert s.count(old) == 1, (b['id'], f, s.count(old), old)
				open(p, 'w').write(s.replace(old, new))
			diff = subprocess.run(['git', '-C', c, 'diff'], check=True, capture_output=True, text=True).stdout
		finally:
			shutil.rmtree(d)
		o = os.path.join(SEEDED, b['id'])
		os.makedirs(o, exist_ok=True)
		open(os.path.join(o, 'patch.diff'), 'w').write(diff)
		open(os.path.join(o, 'demo.sh'), 'w').write(DEMO)
		os.chmod(os.path.join(o, 'demo.sh'), 0o755)
		open(os.path.join(o, 'demo.py'), 'w').write(ns.get('PRE', '') + b['demo'])
		json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)


def tests(c):
	out = os.path.join(os.path.dirname(c), 'junit.xml')
	env = {**os.environ, 'HOME': '/root', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg', 'JAX_PLATFORMS': 'cpu',
		'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1'}
	subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--randomly-seed=1', '--randomly-dont-reorganize',
		'-n', '8', '--timeout=300', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + out], cwd=c, env=env, capture_output=True)
	bad = set()
	n = 0
	for t in ET.parse(out).getroot().iter('testcase'):
		n += 1
		if t.find('failure') is not None or t.find('error') is not None:
			bad.add(t.get('classname') + '::' + t.get('name'))
	return n, bad


def demo(c, i):
	r = subprocess.run(['bash', os.path.join(SEEDED, i, 'demo.sh')], cwd=c, capture_output=True, text=True)
	return r.returncode, (r.stdout + r.stderr)[-300:]


def check(c, i, seed='1'):
	p = json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property']
	r = subprocess.run(['bash', 'check.sh', p, 'quick'], cwd=VERIF, env={**os.environ, 'NUMGA_REPO': c, 'VERIF_SEED': seed}, capture_output=True, text=True)
	return p, r.returncode, '\n'.join(r.stdout.splitlines()[-4:])[-500:] + r.stderr[-300:]


def main():
	if sys.argv[1] == 'make':
		return make(sys.argv[2])
	ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
	for i in ids:
		d, c = scratch()
		try:
			res = []
			if sys.argv[1] == 'judge':
				rc, o = demo(c, i)
				res.append('demo clean ok' if rc == 0 else f'DEMO FAILS CLEAN {o}')
			subprocess.run(['git', '-C', c, 'apply', os.path.join(SEEDED, i, 'patch.diff')], check=True)
			if sys.argv[1] == 'judge':
				rc, o = demo(c, i)
				res.append('demo detects' if rc != 0 else 'DEMO PASSES PATCHED')
				n, bad = tests(c)
				stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
				broke = [b for b in bad]
				res.append(f'tests {n} failing {len(broke)} {sorted(broke)[:2]}')
			p, rc, o = check(c, i)
			res.append({0: 'MISSED', 1: 'caught'}.get(rc, f'ERROR rc={rc}') + ' by ' + p)
			print(i, '|', ' | '.join(res), flush=True)
			if rc != 1:
				print('     ', o.replace('\n', '\n      '), flush=True)
		finally:
			shutil.rmtree(d)


main()
