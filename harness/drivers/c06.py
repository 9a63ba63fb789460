"""C06: subspaces of the real library against the set algebra of Subspaces.tla.  Every named constructor of every
signature up to 4 generators (samples beyond), set operations, selections, derived closures and predicates on all
subsets of small algebras and on random subsets of larger ones."""
from ..subs import *


def models(tier):
	return [dict(module='MCSubspaces', cfg='MCSubspaces.cfg', workers=4, timeout=600)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	sigs = small_sigs(rng, True) + sample_sigs(rng, 5, 6 if not deep else 40) + sample_sigs(rng, 6, 3 if not deep else 12)
	J = [('named', dict(sigs=p)) for p in chunks(sigs, 8)]
	J += [('subsets', dict(sigs=p, seed=rng.randrange(1 << 30))) for p in chunks([x for n in (1, 2) for x in all_sigs(n)], 4)]
	big = [x for x in all_sigs(3)] + sample_sigs(rng, 4, 12 if not deep else 60) + sample_sigs(rng, 5, 6 if not deep else 30)
	J += [('random_', dict(sigs=p, seed=rng.randrange(1 << 30), k=60 if not deep else 300)) for p in chunks(big, 8)]
	J += [('random_', dict(sigs=sample_sigs(rng, n, 2), seed=rng.randrange(1 << 30), k=40, heavy=3)) for n in (7, 8, 9, 10)]
	J += [('closures', dict(sigs=sample_sigs(rng, n, 1 if not deep else 4), seed=rng.randrange(1 << 30), k=3 if not deep else 12)) for n in (5, 6, 6, 7)]
	J += [('tall', dict(dims=p, seed=rng.randrange(1 << 30), k=40 if not deep else 150)) for p in ([16, 28], [11, 20])]
	return J


def closures(sigs, seed, k):
	"""Closures of a few blades of larger algebras, which take many rounds of multiplication"""
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		s = SubSes([sig], f'closures {sig_str(sig)}')
		F = s.gas[0].subspace
		todo = [[1 << i for i in range(n)]]
		for _ in range(k):
			bits = [1 << i for i in rng.sample(range(n), rng.randint(n - 2, n))]
			todo.append([b | (1 << rng.randrange(n)) if rng.random() < 0.3 else b for b in bits])
			todo.append([3 << i for i in rng.sample(range(n - 1), rng.randint(2, n - 1))])
		for bits in todo:
			bits = sorted(set(bits))
			r, x = s.sub('from_blades', 0, [], lambda: F.from_blades(bits), {'bits': bits})
			if x is not None:
				for op in UN_CLOSE:
					s.sub(op, 0, [r], lambda: getattr(x, op))
				s.pred('is_subalgebra', 0, [r], lambda: x.is_subalgebra)
				r2, y = s.sub('minimal_subalgebra', 0, [r], lambda: x.minimal_subalgebra)
				if y is not None and len(y) <= 40:
					s.pred('is_subalgebra', 0, [r2], lambda: y.is_subalgebra)
		yield s


def named(sigs):
	"""Every named constructor, plain, as a predicate and as a selection"""
	for sig in sigs:
		n = len(sig)
		s = SubSes([sig], f'named subspaces {sig_str(sig)}')
		F = s.gas[0].subspace
		for nm in names_for(n):
			s.sub('named', 0, [], lambda: getattr(F, nm)(), {'name': nm})
		for k in range(-n - 1, n + 1):
			s.sub('k_vector', 0, [], lambda: F.k_vector(k), {'k': k})
			s.sub('from_grades', 0, [], lambda: F.from_grades([k]), {'ks': [k]})
		for k in range(6):
			s.sub('k_reflection', 0, [], lambda: F.k_reflection(k), {'k': k})
		for i in range(n):
			s.sub('from_blades', 0, [], lambda: F.basis()[i], {'bits': [1 << i]})
		s.pred('len', 0, [s.sub('named', 0, [], lambda: F.multivector(), {'name': 'full'})[0]], lambda: len(F.multivector()))
		s.pred('pseudo_scalar_squared', 0, [s.n], lambda: [-1, 0, 1].index(s.gas[0].pseudo_scalar_squared) - 1)
		if n <= 4:
			# named subspaces against each other
			rs = [(nm, *s.sub('named', 0, [], lambda: getattr(F, nm)(), {'name': nm})) for nm in names_for(n)]
			for a, ra, x in rs:
				if x is None:
					continue
				for b, rb, y in rs:
					s.pred('inside_named', 0, [ra], lambda: getattr(x.inside, b)(), {'name': b}, note=f'{a} inside {b}')
					s.pred('equals_named', 0, [ra], lambda: getattr(x.equals, b)(), {'name': b}, note=f'{a} equals {b}')
		yield s


def subsets(sigs, seed):
	"""Every subset of the algebras of 1 and 2 generators: every unary derivation and predicate; all pairs"""
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		s = SubSes([sig], f'all subsets {sig_str(sig)}')
		F = s.gas[0].subspace
		all_ = []
		for m in range(2 ** 2 ** n):
			bits = [b for b in range(2 ** n) if m >> b & 1]
			rng.shuffle(bits)
			all_.append(s.sub('from_blades', 0, [], lambda: F.from_blades(bits), {'bits': bits}))
		for r, x in all_:
			if x is None:
				continue
			for op in UN_CHEAP + UN_SYM + ['cubed', 'symmetric_alt_product']:
				s.sub(op, 0, [r], lambda: getattr(x, op)())
			for op in UN_CLOSE:
				s.sub(op, 0, [r], lambda: getattr(x, op))
			for op in FLAGS + ['is_subalgebra', 'simplicity', 'is_study']:
				s.pred(op, 0, [r], lambda: getattr(x, op))
			s.pred('grade', 0, [r], lambda: x.grade(), err=True)
			for op in NSIMPLE:
				for k in (1, 2):
					s.pred(op, 0, [r], lambda: getattr(x, op)(k), {'k': k})
			for nm in names_for(n):
				s.pred('inside_named', 0, [r], lambda: getattr(x.inside, nm)(), {'name': nm})
				s.sub('restrict_named', 0, [r], lambda: getattr(x.restrict, nm)(), {'name': nm})
		pairs = [(p, q) for p in all_ for q in all_]
		for (rx, x), (ry, y) in pairs if len(pairs) <= 300 else rng.sample(pairs, 256):
			for op in BIN_SET:
				s.sub(op, 0, [rx, ry], lambda: getattr(x, op)(y))
			s.pred('contains', 0, [rx, ry], lambda: x in y)
			s.pred('equals', 0, [rx, ry], lambda: x == y)
		yield s


def random_(sigs, seed, k, heavy=8):
	rng = random.Random(seed)
	for sig in sigs:
		s = SubSes([sig], f'random subspaces {sig_str(sig)}')
		pool = [p for p in (construct(s, rng, 0) for _ in range(8)) if p[1] is not None]
		for _ in range(k):
			(rx, x), (ry, y) = rng.choice(pool), rng.choice(pool)
			if rng.random() < 0.2:
				# related operands
				ry, y = rx, x
			if rng.random() < 0.5:
				r = derive(s, rng, 0, rx, x, ry, y, heavy)
				if r and r[1] is not None and len(pool) < 40:
					pool.append(r)
			else:
				predicate(s, rng, 0, rx, x, ry, y, heavy)
			if rng.random() < 0.1:
				r = construct(s, rng, 0)
				if r[1] is not None:
					pool.append(r)
		yield s
