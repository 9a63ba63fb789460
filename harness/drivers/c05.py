"""C05: identity and canonical form of subspace objects.  Behaviours of MCPool.tla (constructions and derivations in
several algebras, in orders chosen by TLC) and random histories are replayed on the real factories; the trace
specification keeps the pool of objects seen and requires one object per algebra and set of blades, listed in
canonical order, refused mutation, and unchanged blades afterwards."""
from ..subs import *


def models(tier):
	return [dict(module='MCPool', cfg='MCPool.cfg', workers=1, simulate=150 if tier == 'quick' else 1500, depth=32, generate='pool', timeout=600)]


def jobs(tier, seed, generated):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('replay', dict(behaviours=p, seed=rng.randrange(1 << 30))) for p in chunks(generated['pool'], 8)]
	J += [('histories', dict(dims=d, seed=rng.randrange(1 << 30), runs=4 if not deep else 30, k=70)) for d in
		([1, 1, 2], [2, 2, 3], [3, 3, 4], [4, 4, 4], [5, 2, 5], [6, 6, 3], [8, 9, 8], [7, 11, 10])]
	J += [('families', dict(sigs=p, seed=rng.randrange(1 << 30))) for p in chunks([x for n in (1, 2, 3) for x in all_sigs(n)] + sample_sigs(rng, 4, 8), 4)]
	J += [('long', dict(dims=[6, 5], seed=rng.randrange(1 << 30), k=8000 if not deep else 30000)) for _ in range(1 if not deep else 4)]
	J += [('tall', dict(dims=p, seed=rng.randrange(1 << 30), k=40 if not deep else 150)) for p in ([12, 16, 30], [15, 17, 24], [9, 14, 20])]
	return J


def long(dims, seed, k):
	"""Thousands of other constructions between a subspace and its next construction.  Only some are recorded as events;
	the others happen all the same."""
	rng = random.Random(seed)
	sigs = [sample_sigs(rng, d, 1)[0] for d in dims]
	s = SubSes(sigs, f'long history {[sig_str(x) for x in sigs]}')
	first = []
	for g in (0, 1):
		for _ in range(20):
			bits = rng.sample(range(2 ** dims[g]), rng.randint(1, 6))
			r, x = s.sub('from_blades', g, [], lambda: s.gas[g].subspace.from_blades(bits), {'bits': bits})
			if x is not None:
				first.append((g, r, x, bits))
	more = []
	for i in range(k):
		g = 0 if rng.random() < 0.8 else 1
		F = s.gas[g].subspace
		bits = rng.sample(range(2 ** dims[g]), rng.randint(1, 8))
		if i % 250 == 50:
			r, x = s.sub('from_blades', g, [], lambda: F.from_blades(bits), {'bits': bits})
			if x is not None:
				more.append((g, r, x, bits))
		else:
			s.keep.append(F.from_blades(bits))
	for g, r, x, bits in first + more:
		rng.shuffle(bits)
		s.sub('from_blades', g, [], lambda: s.gas[g].subspace.from_blades(bits), {'bits': bits}, note=f'again after {k} other constructions')
		s.sub('complement', g, [s.sub('complement', g, [r], lambda: x.complement())[0]], lambda: x.complement().complement())
		s.pred('equals', g, [r, r], lambda: x == s.gas[g].subspace.from_blades(bits), note='== itself, constructed again')
	yield s


def replay(behaviours, seed):
	rng = random.Random(seed)
	for i, b in enumerate(behaviours):
		s = SubSes([tuple(x) for x in b['sigs']], f'TLC behaviour {i}: {[sig_str(x) for x in b["sigs"]]}')
		regs = {}      # register of the specification -> (register here, subspace, algebra)
		for j, a in enumerate(b['acts']):
			g = a['g'] - 1
			F = s.gas[g].subspace
			A = [regs.get(x, (None, None)) for x in a['a']]
			if any(x is None for _, x in A):
				break
			op, p = a['op'], a['p']
			ra, xs = [r for r, _ in A], [x for _, x in A]
			f = {'named': lambda: getattr(F, p['name'])(), 'from_blades': lambda: F.from_blades(p['bits']),
				'from_grades': lambda: F.from_grades(p['ks']), 'k_vector': lambda: F.k_vector(p['k']),
				'slice': lambda: xs[0].slice_subspace(np.array(p['idx'], dtype=int)),
				'select_named': lambda: getattr(xs[0].select, p['name'])(), 'restrict_named': lambda: getattr(xs[0].restrict, p['name'])(),
				'select_grades': lambda: xs[0].select[tuple(p['ks'])], 'restrict_grades': lambda: xs[0].restrict[tuple(p['ks'])],
				}.get(op)
			if f is None:
				f = (lambda: getattr(xs[0], op)) if op in UN_CLOSE else (lambda: getattr(xs[0], op)(*xs[1:]))
			regs[j + 1] = s.sub(op, g, ra, f, p)
			if rng.random() < 0.1 and regs[j + 1][1] is not None:
				mutate(s, rng, g, *regs[j + 1])
		yield s


def histories(dims, seed, runs, k):
	rng = random.Random(seed)
	for _ in range(runs):
		sigs = [sample_sigs(rng, d, 1)[0] for d in dims]
		s = SubSes(sigs, f'histories {[sig_str(x) for x in sigs]}')
		heavy = 8 if max(dims) <= 5 else 4
		pool = [[], [], []]
		for _ in range(k):
			g = rng.randrange(3)
			c = rng.random()
			if c < 0.35 or len(pool[g]) < 2:
				r = construct(s, rng, g)
				if r[1] is not None:
					pool[g].append(r)
			elif c < 0.8:
				r = derive(s, rng, g, *rng.choice(pool[g]), *rng.choice(pool[g]), heavy)
				if r and r[1] is not None:
					pool[g].append(r)
			elif c < 0.9:
				mutate(s, rng, g, *rng.choice(pool[g]))
			else:
				predicate(s, rng, g, *rng.choice(pool[g]), *rng.choice(pool[g]), heavy)
		# everything seen is as it was
		for g in range(3):
			for r, x in pool[g]:
				s.sub('same', g, [r], lambda: x)
				s.sub('same', g, [r], lambda: s.gas[g].subspace.from_blades(rng.sample(blades(x), len(x))))
		yield s


def families(sigs, seed):
	"""Every route to the same set of blades, in random order, in two algebras of the same signature"""
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		s = SubSes([sig, sig], f'families {sig_str(sig)}')
		todo = []
		for g in (0, 1):
			for nm in names_for(n):
				todo.append(('named', g, nm))
				for w in ('complement', 'select', 'restrict', 'union', 'product', 'blades', 'slice'):
					todo.append((w, g, nm))
		rng.shuffle(todo)
		for w, g, nm in todo:
			F = s.gas[g].subspace
			r, x = s.sub('named', g, [], lambda: getattr(F, nm)(), {'name': nm})
			if x is None or w == 'named':
				continue
			if w == 'complement':
				r2, y = s.sub('complement', g, [r], lambda: x.complement())
				if y is not None:
					s.sub('complement', g, [r2], lambda: y.complement())
			elif w in ('select', 'restrict'):
				rf, f = s.sub('named', g, [], lambda: F.full(), {'name': 'full'})
				if f is not None:
					s.sub(w + '_named', g, [rf], lambda: getattr(getattr(f, w), nm)(), {'name': nm})
			elif w == 'union':
				part = rng.sample(blades(x), rng.randint(0, len(x)))
				ra, a = s.sub('from_blades', g, [], lambda: F.from_blades(part), {'bits': part})
				if a is not None:
					rb, b = s.sub('difference', g, [r, ra], lambda: x.difference(a))
					if b is not None:
						s.sub('union', g, [rb, ra], lambda: b.union(a))
			elif w == 'product':
				if len(x) <= 8:
					ro, o = s.sub('named', g, [], lambda: F.scalar(), {'name': 'scalar'})
					if o is not None:
						s.sub('product', g, [r, ro], lambda: x.product(o))
			elif w == 'blades':
				bits = rng.sample(blades(x), len(x))
				s.sub('from_blades', g, [], lambda: F.from_blades(np.array(bits)), {'bits': bits})
			else:
				s.sub('slice', g, [r], lambda: x.slice_subspace(np.ones(len(x), dtype=bool)), {'idx': list(range(len(x)))})
		yield s
