"""C02: kernels of every grade-selected product and (anti)commutator, under all its names and through multivector
methods and python operators, on full, named and random mixed-grade subspaces of all signatures of 1-3 generators and
sampled ones of 4-6, against the grade-part definitions in Operators.tla; the definitions' laws in MCLaws."""
from ..common import *


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('kernels', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6)) for p in chunks(small_sigs(rng, deep), 8 if not deep else 16)]
	J += [('kernels', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 4, hi=12, full=False)) for p in chunks(sample_sigs(rng, 5, 8 if not deep else 40) + sample_sigs(rng, 6, 4 if not deep else 16), 8)]
	J += [('dense', dict(n=n, seed=rng.randrange(1 << 30), k=8 if not deep else 40)) for n in (2, 3, 4, 5, 6, 7, 8, 9, 10)]
	J += [('wide', dict(sigs=sample_sigs(rng, n, 1), seed=rng.randrange(1 << 30), k=5 if not deep else 20)) for n in (9, 10)]
	return J


def wide(sigs, seed, k):
	"""Hundreds of blades against a few"""
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'grade selected products on wide subspaces {sig_str(sig)}')
		A, B = wide_sub(rng, ctx.algebra), rand_sub(rng, ctx.algebra, 1, 3)
		a, b = rand_mv(rng, ctx, A), rand_mv(rng, ctx, B)
		ra, rb = s.new(a), s.new(b)
		for name in rng.sample(['wedge', 'inner', 'scalar_product', 'commutator', 'anti_commutator', 'left_contract', 'right_contract'], min(k, 7)):
			s.op(name, [ra, rb], lambda: mv_method(name, a, b), note=f'{name} of {len(A)} and {len(B)} blades')
			s.op(name, [rb, ra], lambda: mv_method(name, b, a), note=f'{name} of {len(B)} and {len(A)} blades')
		yield s


def kernels(sigs, seed, k, hi=None, full=True):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'grade selected products {sig_str(sig)}')
		F = ctx.subspace.multivector()
		for name in GRADED_CORE:
			if needs(name, n):
				if full and n < 5:
					one(s, ctx, name, [F, F], rng)
				for subs in sub_tuples(rng, ctx.algebra, 2, k, hi=hi):
					one(s, ctx, name, subs, rng)
		for name in rng.sample(GRADED, 6):
			if needs(name, n):
				one(s, ctx, name, sub_tuples(rng, ctx.algebra, 2, 1, hi=hi)[0], rng)
		for name in GRADED_METHODS + ['^', '|']:
			if needs(name, n):
				for subs in sub_tuples(rng, ctx.algebra, 2, 1, hi=hi):
					b = basis_batches(ctx, subs)
					s.kernel(SPECNAME.get(name, name), subs, lambda: mv_method(name, *b), note=f'method {name} {[blades(x) for x in subs]}')
		yield s


def one(s, ctx, name, subs, rng):
	q = None
	if name == 'n_product':
		q = rng.choice([rand_sub(rng, ctx.algebra, 0), rng.choice(named_subs(ctx.algebra))])
	s.kernel(name, subs, lambda: kernel_of(ctx, name, subs, q=q), q=None if q is None else blades(q))


def dense(n, seed, k):
	"""Batched random integers through the multivector methods"""
	rng = random.Random(seed)
	for sig in sample_sigs(rng, n, min(k, 4)):
		ctx = np_ctx(algebra(sig), dtype=rng.choice([np.float64, np.float64, np.float32]))
		s = Ses(sig, f'grade selected products on dense values {sig_str(sig)}')
		for _ in range(max(1, k // 2)):
			subs = sub_tuples(rng, ctx.algebra, 2, 1, hi=16 if n < 8 else 6, named=0.3 if n < 6 else 0)[0]
			a, b = rand_mv(rng, ctx, subs[0], (2,)), rand_mv(rng, ctx, subs[1])
			ra, rb = s.new(a), s.new(b)
			names = GRADED_METHODS + ['^', '|']
			for name in rng.sample(names, 5):
				if needs(name, n) and not (n > 8 and name in ('bivector_product', 'trivector_product', 'cross')):
					s.op(SPECNAME.get(name, name), [ra, rb], lambda: mv_method(name, a, b), note=f'method {name}')
		yield s
