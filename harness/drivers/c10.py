"""C10: polarised kernels of all operators simplified under repeated arguments (arity 2-4) and dense evaluation on
integer multivectors (a homogeneous polynomial agreeing on enough points agrees everywhere), against the
unsimplified multilinear forms; step-by-step plain expressions through the public interface as well."""
from ..common import *


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 8)) for p in chunks(small_sigs(rng, deep), 8 if not deep else 24)]
	J += [('dense', dict(n=n, seed=rng.randrange(1 << 30), k=8 if not deep else 40, j=3 if not deep else 10)) for n in (3, 4, 5, 6, 7) for _ in range(2)]
	return J


LIM = {2: 16, 3: 8, 4: 5}


def run(sigs, seed, k):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		F = ctx.subspace.multivector()
		s = Ses(sig, f'repeated argument kernels {sig_str(sig)}')
		for name in TIED2 + TIED3 + TIED4:
			ar = len(POS[name])
			lim = LIM[ar]
			pool = [rand_sub(rng, ga, 1, lim) for _ in range(k + 1)]
			pool += [x for x in rng.sample(named_subs(ga), 3) + [F] if len(x) <= lim]
			for v in pool:
				s.kernel(name, [v] * ar, lambda: kernel_of(ctx, name, [v], POS[name]))
				if ar == 2 or name == 'inverse_factor':
					x = rand_mv(rng, ctx, v, (2,))
					if hasattr(x, name):
						r = s.new(x)
						s.op(name, [r] * ar, lambda: getattr(x, name)(), note=f'x.{name}() on {blades(v)}')
		for _ in range(k + 1):
			lim = 6
			R, v = rand_sub(rng, ga, 1, lim), rand_sub(rng, ga, 1, lim)
			for name in ('full_sandwich', 'inertia'):
				subs = [(R, v)[p] for p in POS[name]]
				s.kernel(name, subs, lambda: kernel_of(ctx, name, [R, v], POS[name]))
			x, y = rand_mv(rng, ctx, R, (2,)), rand_mv(rng, ctx, v)
			rx, ry = s.new(x), s.new(y)
			s.op('full_sandwich', [rx, ry, rx], lambda: x.full_sandwich(y), note='R.full_sandwich(v)')
			s.op('inertia', [rx, rx, ry], lambda: x.inertia_map(v)(y), note='inertia_map')
		yield s


def dense(n, seed, k, j):
	"""Larger subspaces: evaluate at points"""
	rng = random.Random(seed)
	for sig in sample_sigs(rng, n, j):
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'repeated arguments on values {sig_str(sig)}')
		for _ in range(k):
			name = rng.choice(TIED2 + TIED3 + TIED4 + ['full_sandwich', 'inertia'])
			ar = len(POS[name])
			lim = {2: 32, 3: 16 if n < 6 else 8, 4: 8 if n < 6 else 5}[ar]
			v = rand_sub(rng, ga, 2, lim)
			ns = [x for x in named_subs(ga) if 0 < len(x) <= lim]
			if rng.random() < 0.5 and ns:
				v = rng.choice(ns)
			h = (1,) if ar == 4 else (2,)
			x = rand_mv(rng, ctx, v, h, m=2)
			r = s.new(x)
			if name in ('full_sandwich', 'inertia'):
				w = rand_sub(rng, ga, 1, 6)
				y = rand_mv(rng, ctx, w, m=2)
				ry = s.new(y)
				ids, mvs = [(r, ry)[p] for p in POS[name]], [(x, y)[p] for p in POS[name]]
				s.op(name, ids, lambda: getattr(ctx.operator, name)(v, w)(*mvs), note=f'{name} {blades(v)} {blades(w)}')
			else:
				s.op(name, [r] * ar, lambda: getattr(ctx.operator, name)(v)(*[x] * ar), note=f'{name} on {blades(v)}')
			# the plain expression, step by step
			if name == 'cubed':
				r2, y = s.op('product', [r, r], lambda: x * x, keep=True)
				if r2:
					s.op('cubed', [r, r, r], lambda: y * x, note='x * x * x')
			elif name == 'inverse_factor':
				s.op(name, [r] * 3, lambda: ~x * (x * ~x).conjugate(), note='~x * conj(x * ~x)')
			elif name == 'inverse_factor_completed':
				s.op(name, [r] * 4, lambda: x * x.inverse_factor(), note='x * inverse_factor(x)')
				s.op('product', [r, s.new(x.inverse_factor())], lambda: ctx.operator.inverse_factor_completed(v)(x, x, x, x), note='completed factor')
			elif name == 'full_sandwich':
				s.op(name, ids, lambda: x * y * ~x, note='R * v * ~R')
			elif name == 'inertia':
				s.op(name, ids, lambda: x & x.commutator(y), note='p & (p x b)')
		yield s
