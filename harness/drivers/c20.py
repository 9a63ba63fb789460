"""C20: decompose_invariant and decompose_polar of random bivectors (any bivector blades, all signatures below six
dimensions, where the study norm of b*b, respectively the root of b*~b, is real and not near zero), motor_translator and
motor_rotor of Euclidean PGA motors (null generator at any position), and motor_split with respect to the canonical
origin, dual basis vectors and moved points, against the defining relations of Reals.tla, elementwise over batches."""
from ..common import *
from .. import ga as G
from .c18 import mvs, rand_shape, motor_subs

TOL = 300


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	m = 12 if deep else 1
	J = [('bivectors', dict(sigs=p, seed=r(), k=3 * m)) for p in chunks(all_sigs(2) + all_sigs(3), 3)]
	J += [('bivectors', dict(sigs=sample_sigs(rng, 4, 12 * m if m < 6 else 70) + sample_sigs(rng, 5, 5 * m), seed=r(), k=5, kind=kind)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:einsum', 'numpy:sparse', 'jax:einsum', 'torch:einsum')]
	J += [('euclidean', dict(seed=r(), k=10 * m, kind=kind)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:sparse', 'jax:einsum', 'torch:einsum')]
	J += [('splits', dict(seed=r(), k=12 * m, kind=kind)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:sparse', 'numpy:einsum', 'jax:einsum', 'torch:einsum')]
	return J


def bivectors(sigs, seed, k, kind='numpy:einsum'):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		allb = [b for b in range(2 ** n) if bin(b).count('1') == 2]
		s = Ses(sig, f'decompositions of bivectors {kind} {sig_str(sig)}')
		for bl in [allb] + [rng.sample(allb, rng.randint(1, len(allb))) for _ in range(k)]:
			B = ga.subspace.from_blades(bl)
			bl = blades(B)
			shape = rand_shape(rng) if n < 5 else rng.choice([(), (2,)])

			def study(v):
				d = G.dense(sig, bl, v)
				q = G.mul(sig, d, d)
				ns = q.copy()
				ns[0] = 0
				w = G.mul(sig, ns, ns)
				return q[0] ** 2 - w[0] if np.abs(w[1:]).max() < 1e-9 else -1

			def polar(v):
				d = G.dense(sig, bl, v)
				return G.root_margin(sig, G.mul(sig, d, G.rev(d))) or 0

			def pick(f, lo):
				return G.batch(lambda: next((v for v in (G.grid(rng, len(bl), 1, 16) for _ in range(40)) if f(v) > lo), None), shape)
			v = pick(study, 0.2)
			d = f'{bl} {shape}'
			if v is not None:
				b = mvs(ctx, v, B)
				s.rel('decompose_invariant', [b], lambda: b.decompose_invariant(), TOL, note=f'decompose_invariant of {d}', shape=False)
				at_scale(s, 'decompose_invariant', [b], lambda b: b.decompose_invariant(), [1, 1], TOL, rand_scale(rng), note=f'decompose_invariant of {d}', shape=False)
				s.rel('close', [b], lambda: b, 0, note='operand unchanged')
			v = pick(polar, 0.2)
			if v is not None:
				b = mvs(ctx, v, B)
				s.rel('decompose_polar', [b], lambda: b.decompose_polar(), TOL, note=f'decompose_polar of {d}')
				at_scale(s, 'decompose_polar', [b], lambda b: b.decompose_polar(), [0, 1], TOL, rand_scale(rng), note=f'decompose_polar of {d}')
		# the sum of two orthogonal bivectors in batches with simple ones
		yield s


def motor_batch(rng, sig, bl2, bl, shape, cap=4, size=(0, 0.3, 1.0), ok=lambda m: True):
	def one():
		for _ in range(40):
			m = G.motor(rng, sig, bl2, rng.choice(size))
			if np.abs(m).max() < cap and ok(m):
				return m[bl]
	return G.batch(one, shape)


def euclidean(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4, 4, 4, 5])
		sig = [1] * (n - 1) + [0]
		rng.shuffle(sig)
		sig = tuple(sig)
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'translators and rotors {kind} {sig_str(sig)}')
		for A, bl2 in motor_subs(rng, ctx.algebra):
			bl = blades(A)
			if 0 not in bl or not bl2:
				continue
			shape = rand_shape(rng)
			v = motor_batch(rng, sig, bl2, bl, shape)
			if v is None:
				continue
			m = mvs(ctx, v, A)
			s.rel('euclidean_factors', [m], lambda: (m.motor_translator(), m.motor_rotor()), TOL, note=f'motor_translator, motor_rotor of {bl} {shape}', shape=False)
			s.rel('close', [m], lambda: m, 0, note='operand unchanged')
		yield s


def splits(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4, 4, 5])
		c = rng.randrange(3)
		sig = [1] * (n - 1) + [[1], [0], [-1]][c]
		rng.shuffle(sig)
		sig = tuple(sig)
		ctx = make_ctx(kind, algebra(sig))
		A = ctx.subspace.even_grade()
		bl = blades(A)
		bl2 = [b for b in bl if bin(b).count('1') == 2]
		s = Ses(sig, f'motor_split {kind} {sig_str(sig)}')
		pss = 2 ** n - 1
		for _ in range(3):
			# the origin: the dual of the null generator, or of any other one
			if c == 1:
				g = sig.index(0)
			else:
				g = rng.randrange(n)
			o0 = np.zeros(2 ** n)
			o0[pss ^ 1 << g] = 1
			moved = rng.random() < 0.5
			oshape, shape = rng.choice([((), ()), ((), (3,)), ((2,), (2,)), ((2, 1), (2,))]) if n < 5 else ((), ())
			if moved:
				O = ctx.subspace.antivector()
				ob = blades(O)
				ov = G.batch(lambda: (lambda w: G.mul(sig, G.mul(sig, w, o0), G.rev(w)))(G.motor(rng, sig, bl2, 0.4))[ob], oshape)
			else:
				O = ctx.subspace.from_blades([pss ^ 1 << g])
				ob = blades(O)
				ov = G.batch(lambda: np.array([rng.choice([1., 1., 0.5])]), oshape)
			mv_ = motor_batch(rng, sig, bl2, bl, shape, size=(0, 0.2, 0.6))
			if mv_ is None or np.abs(ov).max() > 4:
				continue

			# (m >> o) / o away from -1, for every combination of the batches
			good = True
			for row in mv_.reshape(-1, len(bl)):
				for orow in ov.reshape(-1, len(ob)):
					M, Od = G.dense(sig, bl, row), G.dense(sig, ob, orow)
					oo = G.mul(sig, Od, Od)
					inv = Od / oo[0] if abs(oo[0]) > 0.05 else None
					if inv is None:
						good = False
						break
					q = G.mul(sig, G.mul(sig, G.mul(sig, M, Od), G.rev(M)), inv)
					q[0] += 1
					good = good and (G.root_margin(sig, G.mul(sig, q, G.rev(q))) or 0) > 0.4
			if not good:
				continue
			m, o = mvs(ctx, mv_, A), mvs(ctx, ov, O)
			at_scale(s, 'motor_split', [m, o], lambda m, o: m.motor_split(o), [0, 0], TOL, rand_scale(rng), [0, 1], note=f'motor_split {shape} {"moved" if moved else "canonical"} origin {oshape}', shape=False)
			s.rel('motor_split', [m, o], lambda: m.motor_split(o), TOL, note=f'motor_split {shape} {"moved" if moved else "canonical"} origin {oshape}', shape=False)
		yield s
