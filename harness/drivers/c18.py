"""C18: norms, normalisation, roots and means over random and named blade sets of all signatures below six dimensions
(elliptic, hyperbolic, null and mixed; scalars and generalised study numbers; motors from the exponential of bivectors),
elementwise over batches, against the defining relations of Reals.tla."""
from ..common import *
from .. import ga as G

TOL = 300


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	m = 12 if deep else 1
	J = [('norms', dict(seed=r(), k=24 * m)) for _ in range(4)]
	J += [('roots', dict(sigs=p, seed=r())) for p in chunks([s for n in (1, 2) for s in all_sigs(n)] + all_sigs(3), 3)]
	J += [('roots', dict(sigs=sample_sigs(rng, 4, 8 * m) + sample_sigs(rng, 5, 5 * m), seed=r())) for _ in range(2)]
	J += [('motors', dict(seed=r(), k=18 * m, kind=kind)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:einsum', 'numpy:sparse', 'jax:einsum', 'torch:einsum')]
	J.append(('optimized', dict(seed=r(), k=6 * m)))
	return J


def optimized(**args):
	yield from isolated('c18', 'optimized_', **args)


def optimized_(seed, k):
	"""The optimized extension, which replaces implementations of the algebra x+y+z+w0"""
	rng = random.Random(seed)
	early = rng.random() < 0.5
	def prime(ctx):
		for A in (ctx.subspace.motor(), ctx.subspace.rotor(), ctx.subspace.translator()):
			ctx.multivector(values=np.eye(len(A))[0] * 2, subspace=A).normalized()
	if early:
		prime(np_ctx(algebra((1, 1, 1, 0))))
	import numga.multivector.extension.optimized
	for _ in range(k):
		sig = rng.choice([(1, 1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 0), (1, 1, 0, 1), (1, 1, 1, 1), (1, 1, 1)])
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'optimized normalisation {sig_str(sig)}')
		for A, bl2 in [(ctx.subspace.motor(), [b for b in range(2 ** len(sig)) if bin(b).count('1') == 2])] * 2 + motor_subs(rng, ctx.algebra):
			bl = blades(A)
			if 0 not in bl or not bl2:
				continue
			shape = rand_shape(rng)
			bump = rng.choice([0, 0.25])

			def one():
				for _ in range(40):
					m = (G.motor(rng, sig, bl2, rng.choice([0.1, 0.5, 1.5]))[bl] + G.grid(rng, len(bl)) * bump) * rng.choice([0.5, 1, 1.5])
					e = G.dense(sig, bl, m)
					if np.abs(m).max() < 6 and (G.root_margin(sig, G.mul(sig, e, G.rev(e))) or 0) > 0.3:
						return m
			v = G.batch(one, shape)
			R = A.symmetric_reverse()
			if v is None or not (blades(R) == [0] or R.is_study):
				continue
			x = mvs(ctx, v, A)
			d = f'{bl} {shape}'
			s.rel('normalized' if blades(R) == [0] else 'study_normalized', [x], lambda: x.normalized(), TOL, note=f'normalized of {d}')
			at_scale(s, 'normalized' if blades(R) == [0] else 'study_normalized', [x], lambda x: x.normalized(), [0], TOL, rand_scale(rng), note=f'normalized of {d}')
			s.rel('norm', [x], lambda: x.norm(), TOL, note=f'norm of {d}')
			s.rel('close', [mvs(ctx, v, A)], lambda: x, 0, note='operand unchanged')
		yield s


def mvs(ctx, v, A):
	return ctx.multivector(values=ctx.coerce_array(np.array(v)), subspace=A)


def rand_shape(rng):
	return rng.choice([(), (), (2,), (3,), (2, 2), (1, 2)])


def norms(seed, k):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([1, 2, 3, 3, 4, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'norms {sig_str(sig)}')
		for _ in range(4):
			A = rng.choice([rand_sub(rng, ga, 1, 6), rng.choice(named_subs(ga)), rand_sub(rng, ga, 1, grades=[rng.randint(0, n)]), ga.subspace.vector()])
			bl = blades(A)
			if not bl:
				continue
			shape = rand_shape(rng)
			x = mvs(ctx, G.batch(lambda: G.grid(rng, len(bl)), shape), A)
			d = f'{bl} {shape}'
			s.rel('norm_squared', [x], lambda: x.norm_squared(), TOL, note=f'norm_squared of {d}')
			e = rand_scale(rng)
			at_scale(s, 'norm_squared', [x], lambda x: x.norm_squared(), [2], TOL, e, note=f'norm_squared of {d}')
			if A.is_study:
				s.rel('study_norm_squared', [x], lambda: x.study_norm_squared(), TOL, note=f'study_norm_squared of {d}')
			R = A.symmetric_reverse()
			if bl == [0]:
				s.rel('scalar_norm', [x], lambda: x.norm(), TOL, note=f'norm of scalars {shape}')
				s.rel('scalar_norm', [x], lambda: x.abs(), TOL, note=f'abs of scalars {shape}')

			def make(lo):
				def one():
					for _ in range(40):
						v = G.grid(rng, len(bl))
						e = G.dense(sig, bl, v)
						q = G.root_margin(sig, G.mul(sig, e, G.rev(e)))
						if q is not None and q >= lo:
							return v
				return G.batch(one, shape)
			if not (blades(R) in ([], [0]) or R.is_study):
				continue
			v = make(0.3)
			if v is not None:
				x = mvs(ctx, v, A)
				s.rel('norm', [x], lambda: x.norm(), TOL, note=f'norm of {d}')
				scalar = blades(R) == [0]
				s.rel('normalized' if scalar else 'study_normalized', [x], lambda: x.normalized(), TOL, note=f'normalized of {d}')
				at_scale(s, 'norm', [x], lambda x: x.norm(), [1], TOL, e, note=f'norm of {d}')
				at_scale(s, 'normalized' if scalar else 'study_normalized', [x], lambda x: x.normalized(), [0], TOL, e, note=f'normalized of {d}')
				if A.is_study and bl != [0]:
					one = G.batch(lambda: next((w for w in (G.grid(rng, len(bl)) for _ in range(60)) if (lambda e: G.mul(sig, e, np.where(np.arange(len(e)) == 0, e, -e))[0])(G.dense(sig, bl, w)) > 0.2), None), shape)
					if one is not None:
						y = mvs(ctx, one, A)
						s.rel('study_norm', [y], lambda: y.study_norm(), TOL, note=f'study_norm of {d}')
						at_scale(s, 'study_norm', [y], lambda y: y.study_norm(), [1], TOL, e, note=f'study_norm of {d}')
			s.rel('close', [x], lambda: x, 0, note='operand unchanged')
		yield s


def study_subs(rng, ga, k):
	"""Scalars and generalised study numbers: scalar with mutually anticommuting blades"""
	n = ga.n_dimensions
	sig = None
	out = [ga.subspace.scalar()]
	for _ in range(k * 4):
		pool = list(range(1, 2 ** n))
		rng.shuffle(pool)
		pick = []
		for b in pool:
			if all((bin(b).count('1') * bin(c).count('1') - bin(b & c).count('1')) % 2 for c in pick):
				pick.append(b)
			if len(pick) >= rng.randint(1, 4):
				break
		A = ga.subspace.from_blades(pick if rng.random() < 0.15 else [0] + pick)
		if A not in out:
			out.append(A)
		if len(out) > k:
			break
	return out


def roots(sigs, seed):
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig)) if rng.random() < 0.7 else make_ctx('numpy:sparse', algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'roots {sig_str(sig)}')
		for A in study_subs(rng, ga, 10):
			bl = blades(A)
			shape = rand_shape(rng)

			def one():
				for _ in range(40):
					v = G.grid(rng, len(bl)) if rng.random() < 0.85 else G.grid(rng, len(bl)) * (np.array(bl) == 0)
					q = G.root_margin(sig, G.dense(sig, bl, v))
					if q is not None and q >= 0.2:
						return v
			v = G.batch(one, shape)
			if v is None:
				continue
			x = mvs(ctx, v, A)
			d = f'{bl} {shape}'
			s.rel('square_root', [x], lambda: x.square_root(), TOL, note=f'square_root of {d}')
			s.rel('inverse_square_root', [x], lambda: x.inverse_square_root(), TOL, note=f'inverse_square_root of {d}')
			e = rand_scale(rng)
			at_scale(s, 'square_root', [x], lambda x: x.square_root(), [1], TOL, e, [2], note=f'square_root of {d}')
			at_scale(s, 'inverse_square_root', [x], lambda x: x.inverse_square_root(), [-1], TOL, e, [2], note=f'inverse_square_root of {d}')
			if 0 in bl:
				z = mvs(ctx, v * (np.array(bl) == 0) * 0, A)
				s.rel('square_root', [z], lambda: z.square_root(), TOL, note=f'square_root of zero over {bl}')
			if bl == [0]:
				s.rel('square_root', [x], lambda: x.sqrt(), TOL, note='sqrt of scalars')
				s.rel('inverse_square_root', [x], lambda: x.invsqrt(), TOL, note='invsqrt of scalars')
			s.rel('close', [x], lambda: x, 0, note='operand unchanged')
		yield s


def motor_subs(rng, ga):
	"""Motor subspaces with the bivector blades generating them"""
	sub = ga.subspace
	n = ga.n_dimensions
	allb = [b for b in range(2 ** n) if bin(b).count('1') == 2]
	out = [(sub.even_grade(), allb)]
	null = sum(1 << i for i, g in enumerate(sig_of(ga)) if g == 0)
	out.append((sub.rotor(), [b for b in allb if not b & null]))
	if bin(null).count('1') == 1:
		out.append((sub.translator(), [b for b in allb if b & null]))
	# the even subalgebra of a coordinate subspace
	g = sum(1 << i for i in rng.sample(range(n), rng.randint(2, n)))
	out.append((sub.from_blades([b for b in range(2 ** n) if b & ~g == 0 and bin(b).count('1') % 2 == 0]), [b for b in allb if b & ~g == 0]))
	if n in (2, 3):
		out.append((sub.bireflection(), allb))
	# a plane of rotation
	p = rng.choice(allb)
	out.append((sub.from_blades([0, p]), [p]))
	return out


def sig_of(ga):
	from numga.algebra.algebra import Algebra
	z = int(ga.zeros) if hasattr(ga, 'zeros') else 0
	return [0 if z >> i & 1 else 1 for i in range(ga.n_dimensions)]


def motors(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'motor roots and means {kind} {sig_str(sig)}')
		for A, bl2 in motor_subs(rng, ctx.algebra):
			if 0 not in blades(A) or not bl2 or n == 5 and len(A) == 16 and rng.random() < 0.5:
				continue
			bl = blades(A)
			shape = rand_shape(rng) if n < 5 else rng.choice([(), (2,)])
			mar = lambda e: G.root_margin(sig, G.mul(sig, e, G.rev(e)))

			def motor():
				for _ in range(40):
					m = G.motor(rng, sig, bl2, rng.choice([0.1, 0.5, 1.5]))
					one = (np.arange(len(m)) == 0) * 1.
					if np.abs(m).max() < 6 and G.versor_error(sig, m) < 1e-12 and (mar(m + one) or 0) > 0.3:
						return m
			ms = [[motor() for _ in range(int(np.prod(shape, dtype=int)))] for _ in range(2)]
			if any(m is None for r in ms for m in r):
				continue
			arr = lambda r: np.array([m[bl] for m in r]).reshape(shape + (len(bl),))
			a, b = mvs(ctx, arr(ms[0]), A), mvs(ctx, arr(ms[1]), A)
			d = f'{bl} {shape}'
			s.rel('motor_square_root', [a], lambda: a.motor_square_root(), TOL, note=f'motor_square_root {d}')
			s.rel('close', [a], lambda: a.normalized(), TOL, note=f'normalized of a motor {d}')
			s.rel('close', [mvs(ctx, np.eye(len(bl))[bl.index(0)], A)], lambda: mvs(ctx, np.eye(len(bl))[bl.index(0)], A).motor_square_root(), TOL, note=f'root of one {bl}')
			s.rel('inverse', [a], lambda: a.motor_inverse(), TOL, note=f'motor_inverse {d}')
			if all((mar(x + y) or 0) > 0.3 for x, y in zip(*ms)):
				s.rel('motor_geometric_mean', [a, b], lambda: a.motor_geometric_mean(b), TOL, note=f'motor_geometric_mean {d}')
			c = rng.choice([0.5, 1.25, 1.5])
			x = mvs(ctx, arr(ms[0]) * c, A)
			s.rel('close', [a], lambda: x.normalized(), TOL, note=f'normalized of {c} times a motor {d}')
			s.rel('norm', [x], lambda: x.norm(), TOL, note=f'norm of {c} times a motor {d}')
			at_scale(s, 'close', [a], lambda a: a.normalized(), [0], TOL, rand_scale(rng), note=f'normalized of a motor {d}')
		yield s
