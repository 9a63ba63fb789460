"""Running TLC and reading its verdicts."""
import os, re, json, subprocess, tempfile, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
	pass


def run_tlc(module, cfg, workdir, env=None, workers=8, args=(), timeout=800, heap='10g', simulate=None):
	"""Run TLC on spec/<module>.tla with spec/<cfg>; returns (stdout, wall seconds)."""
	meta = tempfile.mkdtemp(prefix='tlcmeta', dir=workdir)
	cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-cp', CP, 'tlc2.TLC',
		'-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
		'-config', os.path.join(SPEC, cfg)]
	cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
	e = dict(os.environ)
	e.pop('JAVA_TOOL_OPTIONS', None)
	e.update(env or {})
	t = time.time()
	try:
		p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
			text=True, timeout=timeout)
	except subprocess.TimeoutExpired:
		raise TLCError(f'TLC timed out after {timeout}s on {module}')
	finally:
		shutil.rmtree(meta, ignore_errors=True)
	return p.returncode, p.stdout, time.time() - t


def stats(out):
	m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
	if not m:
		m = re.search(r'(\d+) states generated', out)
		return (int(m.group(1)), 0) if m else (0, 0)
	return int(m.group(1)), int(m.group(2))


def validate(sessions, workdir, timeout=800, workers=8):
	"""Validate recorded sessions against NumgaTrace.

	Returns (bad, info); bad is a list of (session index, event index, clauses).
	A session the specification cannot evaluate at all (a recorded value outside everything it has a meaning for)
	is reported at the event where it stops, and the others are validated without it."""
	path = os.path.join(workdir, 'trace.ndjson')
	left = list(range(len(sessions)))
	bad, states, trans, total = [], 0, 0, 0
	for attempt in range(4):
		with open(path, 'w') as f:
			for i in left:
				f.write(json.dumps(sessions[i], separators=(',', ':')))
				f.write('\n')
		rc, out, wall = run_tlc('NumgaTrace', 'NumgaTrace.cfg', workdir, env={'TRACE': path}, timeout=timeout, workers=workers)
		total += wall
		for m in re.finditer(r'"BAD (\d+) (\d+) (.*)"', out):
			bad.append((left[int(m.group(1)) - 1], int(m.group(2)) - 1, m.group(3).replace('\\"', '"')))
		gen, distinct = stats(out)
		expected = sum(len(sessions[i]['ev']) + 1 for i in left)
		if 'Model checking completed. No error has been found.' in out and distinct == expected:
			states, trans = distinct, distinct - len(left)
			break
		sid, l = re.findall(r'^/\\ sid = (\d+)', out, re.M), re.findall(r'^/\\ l = (\d+)', out, re.M)
		if 'Error:' not in out or not sid or not l:
			tail = '\n'.join(out.splitlines()[-60:])
			raise TLCError(f'TLC did not complete (rc={rc}, {distinct} of {expected} states)\n{tail}')
		why = re.sub(r'\s+', ' ', out[out.index('Error:'):][:400])
		k = left[int(sid[-1]) - 1]
		bad.append((k, int(l[-1]) - 1, f'{{"no meaning: {why}"}}'))
		left.remove(k)
		if attempt == 3 or not left:
			break
	return sorted(set(bad)), dict(states=states, transitions=trans, wall=total)
