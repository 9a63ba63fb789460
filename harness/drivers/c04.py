"""C04: kernels of all duals, complements, their inverses, and all regressive, anti and interior products under every
alias, method and operator, on full, named and random subspaces, against relations to the pseudoscalar."""
from ..common import *

DUAL = ['left_complement', 'right_complement', 'left_complement_dual', 'right_complement_dual',
	'left_hodge', 'right_hodge', 'dual', 'left_hodge_inverse', 'right_hodge_inverse', 'dual_inverse']


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6)) for p in chunks(small_sigs(rng, deep), 8 if not deep else 16)]
	J += [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6, hi=12)) for p in chunks(sample_sigs(rng, 5, 10 if not deep else 40) + sample_sigs(rng, 6, 5 if not deep else 16), 8)]
	J += [('duals', dict(sigs=sample_sigs(rng, n, 4 if not deep else 16), seed=rng.randrange(1 << 30))) for n in (7, 8, 9, 10)]
	J += [('wide', dict(sigs=sample_sigs(rng, n, 1 if not deep else 3), seed=rng.randrange(1 << 30))) for n in (9, 10)]
	return J


def run(sigs, seed, k, hi=None):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'duals {sig_str(sig)}')
		F = ctx.subspace.multivector()
		unary(s, ctx, rng, [F, rng.choice(named_subs(ctx.algebra))] + [rand_sub(rng, ctx.algebra, 0, hi) for _ in range(k + 1)])
		s2 = Ses(sig, f'anti products {sig_str(sig)}')
		for name in ANTI_CORE:
			for subs in ([[F, F]] if n < 4 else []) + sub_tuples(rng, ctx.algebra, 2, k, hi=hi):
				s2.kernel(name, subs, lambda: kernel_of(ctx, name, subs))
		for name in rng.sample(ANTI, 8):
			subs = sub_tuples(rng, ctx.algebra, 2, 1, hi=hi)[0]
			s2.kernel(name, subs, lambda: kernel_of(ctx, name, subs))
		for name in ANTI_METHODS + ['&']:
			subs = sub_tuples(rng, ctx.algebra, 2, 1, hi=hi)[0]
			b = basis_batches(ctx, subs)
			s2.kernel(SPECNAME.get(name, name), subs, lambda: mv_method(name, *b), note=f'method {name} {[blades(x) for x in subs]}')
		a, b = [rand_mv(rng, ctx, x, (2,)) for x in sub_tuples(rng, ctx.algebra, 2, 1, hi=hi)[0]]
		s2.op('regressive', [s2.new(a), s2.new(b)], lambda: a & b, note='a & b')
		yield s
		yield s2


def unary(s, ctx, rng, pool):
	for v in pool:
		for name in DUAL:
			s.kernel(name, [v], lambda: kernel_of(ctx, name, [v]))
		x = rand_mv(rng, ctx, v, (2,))
		r = s.new(x)
		for f, g in (('dual', 'dual_inverse'), ('dual_inverse', 'dual')):
			r1, y = s.op(f, [r], lambda: getattr(x, f)(), keep=True)
			if r1:
				r2, z = s.op(g, [r1], lambda: getattr(y, g)(), keep=True)
				if r2:
					s.op('identity', [r], lambda: z, note=f'{f} undone by {g}')
		for f, g in (('left_hodge', 'left_hodge_inverse'), ('right_hodge', 'right_hodge_inverse')):
			r1, y = s.op(f, [r], lambda: getattr(ctx.operator, f)(x.subspace)(x), keep=True)
			if r1:
				r2, z = s.op(g, [r1], lambda: getattr(ctx.operator, g)(y.subspace)(y), keep=True)
				if r2:
					s.op('identity', [r], lambda: z, note=f'{f} undone by {g}')


def wide(sigs, seed):
	"""Hundreds of blades"""
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'duals of wide subspaces {sig_str(sig)}')
		A = rng.choice([ctx.subspace.multivector(), wide_sub(rng, ctx.algebra)])
		a = rand_mv(rng, ctx, A)
		ra = s.new(a)
		for name in DUAL:
			s.op(name, [ra], lambda: getattr(ctx.operator, name)(A)(a), note=f'{name} of {len(A)} blades')
		yield s


def duals(sigs, seed):
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'duals in high dimension {sig_str(sig)}')
		unary(s, ctx, rng, [rand_sub(rng, ctx.algebra, 3, 12) for _ in range(3)])
		yield s
