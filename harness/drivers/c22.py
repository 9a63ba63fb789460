"""C22: normalize_motor of perturbed normalised motors over the motor subspaces of all signatures below six dimensions, and
inverse_sandwich of self-reverse elements near one, elementwise over batches, against the defining relations of Reals.tla;
normalised motors come back unchanged."""
from ..common import *
from .. import ga as G
from .c18 import mvs, rand_shape, motor_subs

TOL = 300


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	m = 12 if deep else 1
	J = [('normalize', dict(sigs=p, seed=r())) for p in chunks((all_sigs(1) + all_sigs(2) + all_sigs(3)) * (3 if deep else 1), 5)]
	J += [('normalize', dict(sigs=sample_sigs(rng, 4, 9 * m if m < 6 else 70) + sample_sigs(rng, 5, 4 * m), seed=r())) for _ in range(6)]
	J += [('sandwiches', dict(sigs=all_sigs(2) + all_sigs(3) + sample_sigs(rng, 4, 16 * m if m < 6 else 81) + sample_sigs(rng, 5, 3 * m), seed=r())) for _ in range(2)]
	return J


def normalize(sigs, seed):
	from numga.multivector.numerical_normalize import normalize_motor
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig)) if rng.random() < 0.8 else make_ctx('numpy:sparse', algebra(sig))
		s = Ses(sig, f'normalize_motor {sig_str(sig)}')
		for A, bl2 in motor_subs(rng, ctx.algebra) if n > 1 else [(ctx.subspace.even_grade(), [])]:
			bl = blades(A)
			if 0 not in bl:
				continue
			shape = rand_shape(rng) if n < 5 else rng.choice([(), (2,)])

			def rows(eps):
				def one():
					for _ in range(40):
						m = G.motor(rng, sig, bl2, rng.choice([0, 0.3, 0.8]))
						x = m[bl] * rng.choice([1, 1, 0.9, 1.1] if eps else [1]) + eps * G.grid(rng, len(bl), 1)
						d = G.dense(sig, bl, x)
						if np.abs(m).max() < 3 and (G.root_margin(sig, G.mul(sig, d, G.rev(d))) or 0) > 0.5:
							return x
				return G.batch(one, shape)
			for eps in (0, 0.01, 0.06):
				v = rows(eps)
				if v is None:
					continue
				x = mvs(ctx, v, A)
				d = f'{bl} {shape}'
				if eps == 0:
					s.rel('close', [x], lambda: normalize_motor(x), TOL, note=f'normalize_motor of a normalised motor {d}')
				s.rel('normalize_motor', [x], lambda: normalize_motor(x), TOL, note=f'normalize_motor {d}')
				at_scale(s, 'normalize_motor', [x], lambda x: normalize_motor(x), [0], TOL, rand_scale(rng), note=f'normalize_motor {d}')
				s.rel('normalize_motor', [x], lambda: normalize_motor(x, scalar_norm=False), TOL, note=f'normalize_motor without scalar norm {d}')
				s.rel('close', [x], lambda: x, 0, note='operand unchanged')
		yield s


def sandwiches(sigs, seed):
	from numga.multivector.numerical_normalize import inverse_sandwich
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		sub = ctx.subspace
		s = Ses(sig, f'inverse_sandwich {sig_str(sig)}')
		subs = [sub.scalar(), sub.self_reverse(), sub.mod4()]
		b = rng.choice(blades(sub.self_reverse().difference(sub.scalar())))
		subs.append(sub.from_blades([0, b]))
		for S in subs:
			bl = blades(S)
			shape = rand_shape(rng) if n < 5 else ()
			for eps in (0, 0.02, 0.12):
				v = G.batch(lambda: (np.array(bl) == 0) + eps * G.grid(rng, len(bl), 1), shape)
				x = mvs(ctx, v, S)
				s.rel('inverse_sandwich', [x], lambda: inverse_sandwich(x), TOL, note=f'inverse_sandwich {bl} {shape} {eps}')
				s.rel('close', [x], lambda: x, 0, note='operand unchanged')
		yield s
