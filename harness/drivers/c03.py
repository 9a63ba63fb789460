"""C03: every involution and involution-fused product on every subspace, against blade-by-blade definitions
(reversal of words in MCLaws); involutions twice; result subspace equal to the input subspace."""
from ..common import *

INV = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'study_conjugate', 'pseudoscalar_negation']


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	sigs = small_sigs(rng, deep) + sample_sigs(rng, 5, 8) + sample_sigs(rng, 6, 4) + sample_sigs(rng, 7, 4) + sample_sigs(rng, 8, 3) + sample_sigs(rng, 9, 3) + sample_sigs(rng, 10, 2)
	J = [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=2 if not deep else 12)) for p in chunks(sigs, 8 if not deep else 24)]
	return J + [('wide', dict(sigs=sample_sigs(rng, n, 1 if not deep else 3), seed=rng.randrange(1 << 30))) for n in (9, 10)]


def wide(sigs, seed):
	"""Hundreds of blades"""
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'involutions of wide subspaces {sig_str(sig)}')
		A, B = rng.choice([ctx.subspace.multivector(), wide_sub(rng, ctx.algebra)]), rand_sub(rng, ctx.algebra, 1, 3)
		a, b = rand_mv(rng, ctx, A), rand_mv(rng, ctx, B)
		ra, rb = s.new(a), s.new(b)
		for name in INV:
			s.op(name, [ra], lambda: getattr(a, name)(), note=f'{name} of {len(A)} blades')
		for name in rng.sample(['reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product'], 2):
			s.op(name, [ra, rb], lambda: getattr(a, name)(b), note=f'{name} of {len(A)} and {len(B)} blades')
		yield s


def run(sigs, seed, k):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'involutions {sig_str(sig)}')
		F = ctx.subspace.multivector()
		pool = [F] + [rand_sub(rng, ctx.algebra, 0, 16) for _ in range(k)] + rng.sample(named_subs(ctx.algebra), 2)
		for name in INV:
			for v in pool:
				s.kernel(name, [v], lambda: kernel_of(ctx, name, [v]), q=blades(v), tight=2)
				x = rand_mv(rng, ctx, v, (2,))
				f = (lambda y: ~y) if name == 'reverse' and rng.random() < 0.5 else (lambda y: getattr(y, name)())
				r = s.new(x)
				r1, y = s.op(name, [r], lambda: f(x), keep=True, note=f'x.{name}()')
				if r1:
					r2, z = s.op(name, [r1], lambda: f(y), keep=True, note=f'x.{name}().{name}()')
					if r2:
						s.op('identity', [r], lambda: z, note=f'{name} twice restores the input')
		for name in FUSED:
			for _ in range(k):
				hi = 64 // max(1, n) if n > 4 else None
				subs = sub_tuples(rng, ctx.algebra, 2, 1, hi=hi, named=0.4 if n < 6 else 0)[0]
				s.kernel(name, subs, lambda: kernel_of(ctx, name, subs))
			if name != 'study_conjugate_product':
				a, b = rand_mv(rng, ctx, subs[0], (2,)), rand_mv(rng, ctx, subs[1])
				s.op(name, [s.new(a), s.new(b)], lambda: getattr(a, name)(b), note=f'method {name}')
		if n <= 4:
			for name in FUSED:
				s.kernel(name, [F, F], lambda: kernel_of(ctx, name, [F, F]))
		yield s
