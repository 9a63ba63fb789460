"""Decide one property: record the library, model check the specification, validate the traces."""
import os, sys, json, time, random, shutil, tempfile, importlib, traceback, re
import concurrent.futures as cf
import concurrent.futures.process
import multiprocessing as mp

from . import tlc

VERIF = tlc.VERIF
EVID = os.path.join(VERIF, 'evidence')
RECORD, RECORD_DEEP = 420, 4000     # seconds after which recording stops and what there is gets validated
KNOWN = os.path.join(VERIF, 'known-findings.json')


def run_job(prop, name, args, path, deadline):
	"""In a worker: run one recording job, write its sessions as ndjson"""
	cut = False
	n = ev = 0
	f = open(path, 'w')

	def write(s):
		nonlocal n, ev
		s = s.out() if hasattr(s, 'out') else s
		if s['ev']:
			f.write(json.dumps(s, separators=(',', ':')) + '\n')
			f.flush()
			n, ev = n + 1, ev + len(s['ev'])

	try:
		from . import rec
		rec.load()
		mod = importlib.import_module(f'.drivers.{prop.lower()}', 'harness')
		t = time.time()
		rec.DEADLINE = deadline
		rec.OPEN.clear()
		last = None
		try:
			for s in getattr(mod, name)(**args):
				if last is not None:
					write(last)
					rec.OPEN[:] = [o for o in rec.OPEN if o is not last]
				last = s
				if time.time() > deadline:
					raise rec.Deadline()
		except rec.Deadline:
			cut = True
			for s in rec.OPEN:
				if s is not last:
					write(s)
		if last is not None:
			write(last)
	except BaseException:
		tb = traceback.format_exc()
		numga = re.findall(r'File "([^"]*/numga/[^"]*)"', tb)
		from . import rec
		inside = any(os.path.realpath(f).startswith(os.path.realpath(rec.REPO) + os.sep) for f in numga)
		return dict(ok=False, lib=inside, tb=tb, job=name, args=args)
	finally:
		f.close()
	return dict(ok=True, n=n, ev=ev, wall=time.time() - t, job=name, cut=cut)


def run_jobs(prop, jobs, which, work, deadline, nproc, ctx, results):
	"""Run recording jobs in worker processes; returns the jobs whose process died, and those stopped because they did not end in time"""
	broken, hung = [], []
	ex = cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctx)
	futs = {i: ex.submit(run_job, prop, *jobs[i], os.path.join(work, f'job{i}.ndjson'), deadline) for i in which}
	cf.wait(futs.values(), timeout=max(1, deadline + 45 - time.time()))
	late = any(not f.done() for f in futs.values())
	if late:
		# stuck inside a call; what has been written so far gets validated
		for p in list(ex._processes.values()):
			p.kill()
	for i, f in futs.items():
		try:
			if f.cancelled():
				hung.append(i)
			else:
				results.append(f.result(timeout=60))
		except (cf.process.BrokenProcessPool, cf.CancelledError, cf.TimeoutError):
			(hung if late else broken).append(i)
	ex.shutdown(wait=not late, cancel_futures=True)
	return broken, hung


def known(prop):
	try:
		with open(KNOWN) as f:
			return [k for k in json.load(f) if k.get('property') == prop and k.get('status') == 'known']
	except FileNotFoundError:
		return []


def main():
	prop = sys.argv[1]
	tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
	if tier not in ('quick', 'thorough'):
		tier = 'quick'
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	t0 = time.time()
	os.makedirs(EVID, exist_ok=True)
	work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
	try:
		rc = decide(prop, tier, seed, work, t0)
	finally:
		shutil.rmtree(work, ignore_errors=True)
	sys.exit(rc)


def decide(prop, tier, seed, work, t0):
	mod = importlib.import_module(f'.drivers.{prop.lower()}', 'harness')
	violations, notes = [], []

	# design level model checking runs concurrently with the recording
	models = list(getattr(mod, 'models', lambda tier: [])(tier))
	pool_m = cf.ThreadPoolExecutor(max_workers=2)
	mfut = [pool_m.submit(run_model, m, work, tier, seed) for m in models if not m.get('generate')]

	# behaviours generated from the specification, handed to the jobs
	generated = {}
	for m in models:
		if m.get('generate'):
			r = run_model(m, work, tier, seed)
			generated[m['generate']] = r
			notes.append(r)

	jobs = list(mod.jobs(tier, seed, **({'generated': {k: v['behaviours'] for k, v in generated.items()}} if generated else {})))
	ctx = mp.get_context('spawn')
	results = []
	nproc = int(os.environ.get('VERIF_PROCS', '8'))
	deadline = t0 + (RECORD if tier == 'quick' else RECORD_DEEP)
	broken, hung = run_jobs(prop, jobs, range(len(jobs)), work, deadline, min(nproc, max(1, len(jobs))), ctx, results)
	for i in broken:
		# a worker died, taking the others with it: once more, one at a time
		if time.time() < deadline:
			b, h = run_jobs(prop, jobs, [i], work, deadline, 1, ctx, results)
			hung += h
			results += [dict(ok=False, lib=False, tb='the process running the library died', job=jobs[j][0], args=jobs[j][1]) for j in b]
	cut = sum(bool(r.get('cut')) for r in results) + len(hung)
	for r in results:
		if not r['ok']:
			# the recorder is deterministic and never fails on the library as it should be: it was raised to, or handed something unusable
			violations.append(dict(kind='raised' if r['lib'] else 'unusable result', label=f"{r['job']} {r['args']}"[:500], clauses='{"raised"}', detail=r['tb'][-3000:]))
	t_rec = time.time() - t0
	sessions = []
	for i in range(len(jobs)):
		p = os.path.join(work, f'job{i}.ndjson')
		if os.path.exists(p):
			with open(p) as f:
				sessions += [json.loads(l) for l in f if l.endswith('\n')]
			os.remove(p)
	states = trans = 0
	if sessions:
		bad, info = tlc.validate(sessions, work)
		states += info['states']
		trans += info['transitions']
		for s, l, clauses in bad:
			ses = sessions[s]
			violations.append(dict(kind='trace', label=ses['label'], note=ses['note'][l] if l < len(ses['note']) else '',
				clauses=clauses, sig=ses['sig'], event=l, session=dict(sig=ses['sig'], label=ses['label'], ev=ses['ev'][:l + 1], note=ses['note'][:l + 1])))
	t_val = time.time() - t0
	for f in mfut:
		notes.append(f.result())
	for n in notes:
		states += n['states']
		trans += n['transitions']
		if n['bad']:
			print(n['out'][-3000:])
			print(f'ERROR {prop}: the specification {n["module"]} fails its own invariants')
			return 2

	# known findings
	new, seen = [], []
	kf = known(prop)
	for v in violations:
		text = json.dumps([v.get('label'), v.get('note'), v.get('clauses')])
		m = [k for k in kf if re.search(k['match'], text)]
		(seen if m else new).append((v, m))
	for k in kf:
		hit = [v for v, m in seen if k in m]
		if hit:
			print(f"KNOWN-FINDING: property={prop} {k['what']}")

	nev = sum(len(s['ev']) for s in sessions)
	kinds = {}
	for s in sessions:
		for e in s['ev']:
			key = e['e'] + (':' + str(e['op']) if 'op' in e else '') + (':' + str(e['rel']) if 'rel' in e else '')
			kinds[key] = kinds.get(key, 0) + 1
	rng = random.Random(seed)
	samples = []
	for s in rng.sample(sessions, min(3, len(sessions))):
		i = rng.randrange(len(s['ev']))
		samples.append(dict(session=s['label'], sig=s['sig'], event=trim(s["ev"][i]), note=s['note'][i]))
	evidence = dict(property=prop, tier=tier, seed=seed, level='model_checking',
		coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(sessions), events=nev,
			event_kinds=kinds, samples=samples, design_models=[{k: n[k] for k in ('module', 'cfg', 'states', 'transitions', 'wall')} for n in notes],
			what=(mod.__doc__ or '').strip(), jobs_cut_short=cut, seconds=dict(recording=round(t_rec, 1), validated=round(t_val, 1))),
		assumptions=getattr(mod, 'ASSUMPTIONS', []),
		wall_s=round(time.time() - t0, 1), violations=len(new))
	with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
		json.dump(evidence, f, indent=1)
	if new:
		path = os.path.join(EVID, f'replay-{prop}.json')
		with open(path, 'w') as f:
			json.dump([v for v, _ in new[:20]], f, indent=1)
		for v, _ in new[:12]:
			print(f"  {v['kind']}: {v['label']} | {v.get('note', '')} | {v['clauses']}"[:400])
			if 'detail' in v:
				print(v['detail'][-600:])
		print(f'{len(new)} violating events')
		print(f'VIOLATION property={prop} replay={path}')
		return 1
	print(f'OK {prop} tier={tier} sessions={len(sessions)} events={nev} states={states} wall={time.time() - t0:.1f}s (recording {t_rec:.1f}s, validation {t_val - t_rec:.1f}s)')
	return 0


def trim(e, n=600):
	s = json.dumps(e)
	return e if len(s) <= n else s[:n] + '...'


def run_model(m, work, tier, seed):
	"""Run TLC on a design level module; collects printed behaviours when it generates"""
	args = [str(a) for a in m.get('args', [])]
	if m.get('simulate'):
		args = ['-simulate', f"num={m['simulate']}", '-depth', str(m['depth']), '-seed', str(seed)] + args
	env = {k: str(v) for k, v in m.get('env', {}).items()}
	rc, out, wall = tlc.run_tlc(m['module'], m['cfg'], work, env=env, workers=m.get('workers', 4), args=args, timeout=m.get('timeout', 800))
	gen, distinct = tlc.stats(out)
	if m.get('simulate'):
		mm = re.findall(r'(\d+) states checked', out) or re.findall(r'Progress: (\d+) states', out) or ['0']
		gen = distinct = int(mm[-1].replace(',', ''))
		ok = 'Error' not in out
	else:
		ok = 'Model checking completed. No error has been found.' in out
	beh = []
	if m.get('generate'):
		for mm in re.finditer(r'^"?BEHAVIOUR (.*?)"?$', out, re.M):
			beh.append(json.loads(mm.group(1).replace('\\"', '"')))
		if not beh:
			ok = False
	return dict(module=m['module'], cfg=m['cfg'], states=distinct, transitions=max(gen, 0), wall=round(wall, 1), bad=not ok, out=out, behaviours=beh)


if __name__ == '__main__':
	main()
