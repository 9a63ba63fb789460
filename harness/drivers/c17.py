"""C17: inverse, inverse_la, inverse_shirokov and inverse_hitzer of well conditioned multivectors over random, named and
exhaustive blade sets of every signature below six dimensions (and of some beyond for Shirokov), and quotients of
multivectors, numbers and arrays, against the defining relations x*inv(x) = 1 = inv(x)*x and (a/b)*b = a of Reals.tla,
elementwise over batches and with several backends."""
from ..common import *
from .. import ga as G

TOL = 300


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	J = [('exhaustive', dict(sigs=p, seed=r())) for p in chunks([s for n in (1, 2) for s in all_sigs(n)], 2)]
	J += [('sampled', dict(ns=ns, seed=r(), k=k if not deep else 12 * k)) for ns, k in (([3], 40), ([3], 40), ([4], 30), ([4], 30), ([5], 16), ([5], 16), ([5], 16), ([5], 16))]
	J += [('named', dict(sigs=p, seed=r())) for p in chunks([s for n in (3,) for s in all_sigs(n)] + sample_sigs(rng, 4, 16 if not deep else 81) + sample_sigs(rng, 5, 8 if not deep else 80), 8)]
	J += [('quotients', dict(kind=kind, seed=r(), k=14 if not deep else 150)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:sparse', 'jax:einsum', 'torch:einsum')]
	J += [('shirokov', dict(seed=r(), k=6 if not deep else 40, deep=deep)) for _ in range(3)]
	return J


def at_scales(rng, s, x, d, ctx):
	"""The inverse of 2^e x is 2^-e times the inverse of x"""
	e = rand_scale(rng)
	at_scale(s, 'inverse', [x], lambda x: x.inverse(), [-1], TOL, e, note=f'inverse of {d}')
	at_scale(s, 'inverse', [x], lambda x: x.inverse_shirokov(), [-1], TOL, e, note=f'inverse_shirokov of {d}')
	at_scale(s, 'inverse', [x], lambda x: x.inverse_la(), [-1], TOL, e, note=f'inverse_la of {d}')
	if blades(ctx.operator.inverse_factor_completed(x.subspace).output) == [0]:
		at_scale(s, 'inverse', [x], lambda x: x.inverse_hitzer(), [-1], TOL, e, note=f'inverse_hitzer of {d}')


def all_inverses(s, x, d, ctx, la=True):
	s.rel('inverse', [x], lambda: x.inverse(), TOL, note=f'inverse of {d}')
	s.rel('inverse', [x], lambda: x.inverse_shirokov(), TOL, note=f'inverse_shirokov of {d}')
	if la:
		s.rel('inverse', [x], lambda: x.inverse_la(), TOL, note=f'inverse_la of {d}')
	if blades(ctx.operator.inverse_factor_completed(x.subspace).output) == [0]:
		s.rel('inverse', [x], lambda: x.inverse_hitzer(), TOL, note=f'inverse_hitzer of {d}')


def exhaustive(sigs, seed):
	"""Every blade set"""
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		N = 2 ** len(sig)
		s = Ses(sig, f'inverses over every blade set of {sig_str(sig)}')
		for mask in range(1, 2 ** N):
			bl = [b for b in range(N) if mask >> b & 1]
			A = ctx.algebra.subspace.from_blades(bl)
			bl = blades(A)
			for shape in ((), (2,)):
				v = G.batch(lambda: G.invertible(rng, tuple(sig), bl, tries=60), shape)
				if v is not None:
					all_inverses(s, ctx.multivector(values=v, subspace=A), f'{bl} {shape}', ctx)
		yield s


SHAPES_ = [(), (), (2,), (3,), (2, 2), (1, 2)]


def sampled(ns, seed, k):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice(ns)
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(rng.choice(['numpy:einsum', 'numpy:sparse']), algebra(sig))
		s = Ses(sig, f'inverses of random multivectors {sig_str(sig)}')
		for _ in range(3):
			grades = rng.sample(range(n + 1), rng.randint(1, n + 1)) if rng.random() < 0.6 else None
			A = rand_sub(rng, ctx.algebra, 1, grades=grades) if rng.random() < 0.7 or grades is None else ctx.algebra.subspace.from_grades(grades)
			bl = blades(A)
			if not bl:
				continue
			shape = rng.choice(SHAPES_) if n < 5 else rng.choice([(), (2,)])
			v = G.batch(lambda: G.invertible(rng, sig, bl, tries=40), shape)
			if v is not None:
				all_inverses(s, ctx.multivector(values=layouts(rng, v), subspace=A), f'{bl} {shape}', ctx)
				if shape == ():
					at_scales(rng, s, ctx.multivector(values=v, subspace=A), f'{bl}', ctx)
		yield s


def named(sigs, seed):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'inverses of named subspaces {sig_str(sig)}')
		subs = named_subs(ctx.algebra)
		for A in subs if n < 5 else rng.sample(subs, min(6, len(subs))):
			bl = blades(A)
			if not bl:
				continue
			v = G.batch(lambda: G.invertible(rng, sig, bl, tries=60), rng.choice([(), (2,)]) if n < 5 else ())
			if v is not None:
				all_inverses(s, ctx.multivector(values=v, subspace=A), f'{A.named_str}', ctx)
		yield s


def quotients(kind, seed, k):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([1, 2, 3, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		arr = ctx.coerce_array
		s = Ses(sig, f'quotients {kind} {sig_str(sig)}')
		for _ in range(3):
			A, B = (rng.choice([rand_sub(rng, ctx.algebra, 1), rng.choice(named_subs(ctx.algebra)[:8])]) for _ in range(2))
			ha, hb = rng.choice([((), ()), ((2,), ()), ((), (2,)), ((2, 1), (2,)), ((2,), (2,))])
			bl = blades(B)
			if not bl or not len(A):
				continue
			v = G.batch(lambda: G.invertible(rng, sig, bl, tries=40), hb)
			if v is None:
				continue
			mk = lambda v, S: ctx.multivector(values=arr(v), subspace=S)
			b, a = mk(v, B), mk(G.batch(lambda: G.grid(rng, len(A)), ha), A)
			d = f'{blades(A)}{ha} / {bl}{hb}'
			s.rel('divide', [a, b], lambda: a / b, TOL, note=d)
			i, j = rng.choice([(1, 0), (0, 1), (1, 1), (1, -1)])
			at_scale(s, 'divide', [a, b], lambda a, b: a / b, [i - j], TOL, rand_scale(rng), [i, j], note=d)
			s.rel('inverse', [b], lambda: b.inverse(), TOL, note=f'inverse {d}')
			c = rng.choice([1, 2, -1.5, 3.0, 0.5])
			one = lambda c: mk(np.array([c], float), ctx.subspace.scalar())
			s.rel('divide', [one(c), b], lambda: c / b, TOL, note=f'{c} / {d}')
			s.rel('divide', [a, one(c)], lambda: a / c, TOL, note=f'{d} / {c}')
			z = G.batch(lambda: np.array([rng.choice([-1, 1]) * rng.randint(4, 16) / 8]), hb)
			s.rel('divide', [a, mk(z, ctx.subspace.scalar())], lambda: a / mk(z, ctx.subspace.scalar()), TOL, note=f'{d} / scalar multivector')
			s.rel('divide', [a, mk(z, ctx.subspace.scalar())], lambda: a / arr(z[..., 0]), TOL, note=f'{d} / array {hb}')
			if ha == hb:
				s.rel('close', [a * b.inverse()], lambda: a / b, TOL, note=f'a * inverse(b) {d}')
			s.rel('close', [b], lambda: b, 1, note='operand unchanged')
		yield s


def shirokov(seed, k, deep=False):
	"""Beyond five dimensions"""
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([6, 6, 7, 7] + [8] * deep)
		sig = sample_sigs(rng, n, 1)[0]
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'inverse_shirokov {sig_str(sig)}')
		for _ in range(2):
			A = rand_sub(rng, ctx.algebra, 1, rng.choice([2, 3, 5]))
			if n == 8 or rng.random() < 0.5:
				# commuting planes or more: inverses that need the whole of the algebra
				A = ctx.algebra.subspace.from_blades([3 << 2 * i for i in range(n // 2)] + ([1 << n - 1] if n % 2 else []))
			if rng.random() < 0.6:
				A = A.union(ctx.algebra.subspace.scalar())
			bl = blades(A)
			v = G.invertible(rng, sig, bl, tries=30, cond=8, lo=0.5)
			if v is not None:
				x = ctx.multivector(values=v, subspace=A)
				s.rel('inverse', [x], lambda: x.inverse_shirokov(), 4 * TOL, note=f'inverse_shirokov of {bl}')
		yield s
