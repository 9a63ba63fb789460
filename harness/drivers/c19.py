"""C19: exp of scalars and bivectors (elliptic, hyperbolic, null and mixed, any set of bivector blades, every signature
below six dimensions) against the power series of Reals.tla and m*~m = 1; motor_log against exp(log(m)) = m and, near the
identity, log(exp(b)) = b; the quadratic, linear-normalised, linear and bisection variants against their defining
relations and as inverses of each other in both directions; elementwise over batches.

motor_log_linear_normalized is excluded in algebras of null generators only, where its dispatch has no implementation."""
from ..common import *
from .. import ga as G
from .c18 import mvs, rand_shape, motor_subs

TOL = 300
TOLL = 40000     # and at about 1e-7 for those of several turns
TOLX = 800       # bisection truncates exp at about 1e-9 for the largest bivectors used


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	m = 12 if deep else 1
	J = [('bivectors', dict(sigs=p, seed=r(), k=2 * m)) for p in chunks(all_sigs(2) + all_sigs(3), 4)]
	J += [('bivectors', dict(sigs=sample_sigs(rng, 4, 7 * m) + sample_sigs(rng, 5, 3 * m), seed=r(), k=3, kind=kind)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:einsum', 'numpy:sparse', 'jax:einsum', 'torch:einsum')]
	J += [('motors', dict(seed=r(), k=12 * m)) for _ in range(4)]
	J += [('scalars', dict(seed=r(), k=4 * m, kind=kind)) for kind in ('numpy:einsum', 'jax:einsum', 'torch:einsum')]
	J.append(('optimized', dict(seed=r(), k=6 * m)))
	return J


def optimized(**args):
	yield from isolated('c19', 'optimized_', **args)


def optimized_(seed, k):
	"""The optimized extension, which replaces implementations of the algebra x+y+z+w0"""
	rng = random.Random(seed)
	if rng.random() < 0.5:
		ctx = np_ctx(algebra((1, 1, 1, 0)))
		for A in (ctx.subspace.bivector(), ctx.subspace.from_blades([3, 5, 6]), ctx.subspace.from_blades([9, 10, 12])):
			ctx.multivector(values=np.zeros(len(A)), subspace=A).exp()
	import numga.multivector.extension.optimized
	for _ in range(k):
		sig = rng.choice([(1, 1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 0), (1, 1, 0, 1), (1, 1, 1, 1), (1, 1, 1)])
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'optimized exponential {sig_str(sig)}')
		n = len(sig)
		allb = [b for b in range(2 ** n) if bin(b).count('1') == 2]
		null = sum(1 << i for i, g in enumerate(sig) if g == 0)
		for bl in [allb, allb, [b for b in allb if b & null], [b for b in allb if not b & null], rng.sample(allb, rng.randint(1, len(allb)))]:
			if not bl:
				continue
			B = ctx.subspace.from_blades(bl)
			bl = blades(B)
			shape = rand_shape(rng)

			def one():
				v = G.grid(rng, len(bl), 1, 16) * rng.choice([0, 0.1, 0.5, 1])
				keep = rng.choice(['all', 'all', 'null', 'other'])
				w = np.array([bool(b & null) for b in bl])
				return v * (1 if keep == 'all' else w if keep == 'null' else ~w)
			v = G.batch(one, shape)
			b = mvs(ctx, v, B)
			d = f'{bl} {shape}'
			s.rel('motor_exp', [b], lambda: b.exp(), TOLX, note=f'exp of {d}')
			tiny(rng, s, b, d)
			k = rng.choice([2, 4])
			if np.abs(np.array([G.expm(sig, G.dense(sig, bl, r) * k) for r in np.asarray(v).reshape(-1, len(bl))])).max() < 12 and np.abs(v).max() * k <= 4:
				big = mvs(ctx, v * k, B)
				s.rel('exp_large', [big], lambda: big.exp(), TOLL, note=f'exp of {k} times {d}')
			small = mvs(ctx, v / np.maximum(1, 4 * np.abs(v).max()), B)
			s.rel('close', [small], lambda: small.exp().motor_log(), TOL, note=f'motor_log(exp(b)) {d}')
			s.rel('close', [mvs(ctx, v, B)], lambda: b, 0, note='operand unchanged')
		yield s


def tiny(rng, s, b, d):
	"""Close to the identity, to the precision of the small bivector: (exp(tb) - 1) / t and log(exp(tb)) / t for t = 2^-e"""
	e = rng.choice([2, 3, 5, 6, 8, 10, 12, 16, 22])
	t = b.context.multivector(values=b.context.coerce_array(np.array([2. ** -e])), subspace=b.context.subspace.scalar())
	s.rel('exp_tiny', [b, t], lambda: scaled(scaled(b, -e).exp().select_subspace(b.context.subspace.even_grade()) - 1, e), TOLX, note=f'exp of 2^-{e} times {d}')
	s.rel('close', [b], lambda: scaled(scaled(b, -e).exp().motor_log(), e), TOL, note=f'motor_log(exp(b)) of 2^-{e} times {d}')
	if b.algebra.n_dimensions > 1:
		s.rel('close', [b], lambda: scaled(scaled(b, -e).exp_quadratic().motor_log_quadratic(), e), TOL, note=f'motor_log_quadratic(exp_quadratic(b)) of 2^-{e} times {d}')


def scalars(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([1, 2, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'exp and log of scalars {kind} {sig_str(sig)}')
		for shape in ((), (3,), (2, 2)):
			x = mvs(ctx, G.batch(lambda: G.grid(rng, 1), shape), ctx.subspace.scalar())
			s.rel('exp', [x], lambda: x.exp(), TOL, note=f'exp of scalars {shape}')
			s.rel('close', [x], lambda: x.exp().log(), TOL, note=f'log(exp(s)) {shape}')
			y = mvs(ctx, G.batch(lambda: np.abs(G.grid(rng, 1)) + 0.25, shape), ctx.subspace.scalar())
			s.rel('scalar_log', [y], lambda: y.log(), TOL, note=f'log of scalars {shape}')
		e = ctx.multivector.empty()
		s.rel('exp', [e], lambda: e.exp(), 0, note='exp of empty')
		yield s


def bivectors(sigs, seed, k, kind='numpy:einsum'):
	from numga.multivector.extension.logexp import exp_bisect, motor_log_bisect
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		allb = [b for b in range(2 ** n) if bin(b).count('1') == 2]
		null = sum(1 << i for i, g in enumerate(sig) if g == 0)
		s = Ses(sig, f'exp of bivectors {kind} {sig_str(sig)}')
		picks = [allb, [b for b in allb if b & null], [b for b in allb if not b & null]] + [rng.sample(allb, rng.randint(1, len(allb))) for _ in range(k)]
		for bl in picks:
			if not bl or (n == 5 and len(bl) > 6 and rng.random() < 0.5):
				continue
			B = ga.subspace.from_blades(bl)
			bl = blades(B)
			shape = rand_shape(rng) if n < 5 else ()
			size = rng.choice([0.1, 0.5, 1])

			def one():
				for _ in range(50):
					v = G.grid(rng, len(bl), 1, 16) * (rng.random() > 0.1) * size
					if np.abs(G.expm(sig, G.dense(sig, bl, v))).max() < 4:
						return v
			v = G.batch(one, shape)
			if v is None:
				continue
			b = mvs(ctx, v, B)
			d = f'{bl} {shape}'
			s.rel('motor_exp', [b], lambda: b.exp(), TOLX, note=f'exp of {d}')
			s.rel('motor_exp', [b], lambda: b.exp_bisect(), TOLX, note=f'exp_bisect of {d}')
			s.rel('exp_linear', [b], lambda: b.exp_linear(), 4, note=f'exp_linear of {d}')
			s.rel('close', [b], lambda: b.exp_linear().motor_log_linear(), 4, note=f'motor_log_linear(exp_linear(b)) {d}')
			# conditioning of the Cayley map and the normalisation
			rows = [G.dense(sig, bl, r) for r in np.asarray(v).reshape(-1, len(bl))]
			one_ = G.dense(sig, [0], 1.)
			lo = min(G.cond_inverse(sig, one_ - r / 2)[1] for r in rows)
			if lo > 0.4:
				s.rel('exp_quadratic', [b], lambda: b.exp_quadratic(), TOL, note=f'exp_quadratic of {d}')
			mar = lambda e: G.root_margin(sig, G.mul(sig, e, G.rev(e))) or 0
			if min(mar(one_ + r) for r in rows) > 0.4:
				s.rel('exp_linear_normalized', [b], lambda: b.exp_linear_normalized(), TOL, note=f'exp_linear_normalized of {d}')
				if any(sig):
					s.rel('close', [b], lambda: b.exp_linear_normalized().motor_log_linear_normalized(), TOL, note=f'motor_log_linear_normalized(exp_linear_normalized(b)) {d}')
			tiny(rng, s, b, d)
			k = rng.choice([2, 4])
			if np.abs(np.array([G.expm(sig, G.dense(sig, bl, r) * k) for r in np.asarray(v).reshape(-1, len(bl))])).max() < 12 and np.abs(v).max() * k <= 4:
				big = mvs(ctx, v * k, B)
				s.rel('exp_large', [big], lambda: big.exp(), TOLL, note=f'exp of {k} times {d}')
			small = mvs(ctx, v / np.maximum(1, 4 * np.abs(v).max()), B)
			s.rel('close', [small], lambda: small.exp().motor_log(), TOL, note=f'motor_log(exp(b)) {d}')
			s.rel('close', [small], lambda: small.exp_quadratic().motor_log_quadratic(), TOL, note=f'motor_log_quadratic(exp_quadratic(b)) {d}')
			s.rel('close', [small], lambda: small.exp_bisect().motor_log_bisect(), TOL, note=f'motor_log_bisect(exp_bisect(b)) {d}')
			i = rng.choice([1, 2, 3, 6])
			s.rel('close', [small], lambda: motor_log_bisect(exp_bisect(small, i), i), TOL, note=f'motor_log_bisect(exp_bisect(b, {i}), {i}) {d}')
			s.rel('close', [b], lambda: b, 0, note='operand unchanged')
		yield s


def motors(seed, k):
	from numga.multivector.extension.logexp import exp_bisect, motor_log_bisect
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(rng.choice(['numpy:einsum', 'numpy:sparse']), algebra(sig))
		s = Ses(sig, f'logarithms of motors {sig_str(sig)}')
		for A, bl2 in motor_subs(rng, ctx.algebra):
			bl = blades(A)
			if 0 not in bl or not bl2 or n == 5 and len(A) == 16 and rng.random() < 0.5:
				continue
			shape = rand_shape(rng) if n < 5 else ()
			mar = lambda e: G.root_margin(sig, G.mul(sig, e, G.rev(e)))

			def motor():
				for _ in range(40):
					m = G.motor(rng, sig, bl2, rng.choice([0, 0.1, 0.5, 1.0]))
					one = (np.arange(len(m)) == 0) * 1.
					if np.abs(m).max() < 4 and (mar(m + one) or 0) > 0.5:
						return m[bl]
			v = G.batch(motor, shape)
			if v is None:
				continue
			m = mvs(ctx, v, A)
			d = f'{bl} {shape}'
			s.rel('motor_log', [m], lambda: m.motor_log(), TOLX, note=f'motor_log of {d}')
			s.rel('motor_log', [m], lambda: m.motor_log_bisect(), TOLX, note=f'motor_log_bisect of {d}')
			s.rel('motor_log_linear', [m], lambda: m.motor_log_linear(), 4, note=f'motor_log_linear of {d}')
			s.rel('close', [m], lambda: m.motor_log().exp(), TOL, note=f'exp(motor_log(m)) {d}')
			s.rel('close', [m], lambda: m.motor_log_quadratic().exp_quadratic(), TOL, note=f'exp_quadratic(motor_log_quadratic(m)) {d}')
			g4 = np.array([bin(b).count('1') == 4 for b in bl])
			near = (v[..., bl.index(0)] - np.abs(v[..., g4]).sum(-1)).min() > 0.3     # the branch of the root of s*s that is s
			if any(sig) and near:
				s.rel('close', [m], lambda: m.motor_log_linear_normalized().exp_linear_normalized(), TOL, note=f'exp_linear_normalized(motor_log_linear_normalized(m)) {d}')
			i = rng.choice([1, 2, 3, 6])
			s.rel('close', [m], lambda: exp_bisect(motor_log_bisect(m, i), i), TOL, note=f'exp_bisect(motor_log_bisect(m, {i}), {i}) {d}')
		yield s
