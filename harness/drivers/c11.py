"""C11: polarised kernels of the sandwiches and of transform for both parities, partial bindings of them, and chains of
sandwiches by products of vectors, in all signatures of 1-3 generators and sampled ones beyond."""
from ..common import *


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=2 if not deep else 10, hi=6)) for p in chunks(small_sigs(rng, deep), 8 if not deep else 24)]
	J += [('run', dict(sigs=sample_sigs(rng, 5, 2 if not deep else 8), seed=rng.randrange(1 << 30), k=1, hi=5)) for _ in range(4)]
	J += [('versors', dict(n=n, seed=rng.randrange(1 << 30), k=3 if not deep else 12)) for n in (1, 2, 3, 4, 5, 6) for _ in range(2)]
	return J


def run(sigs, seed, k, hi):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'sandwiches {sig_str(sig)}')
		named = [x for x in named_subs(ga) if 0 < len(x) <= 8]
		for _ in range(k):
			for name in ('sandwich', 'reverse_sandwich', 'transform', 'inverse_transform', 'full_sandwich'):
				R = rng.choice(named) if rng.random() < 0.4 else rand_sub(rng, ga, 1, hi)
				v = rng.choice(named) if rng.random() < 0.4 else rand_sub(rng, ga, 1, hi)
				op, q = name, grades_of(v)
				if 'transform' in name:
					par = rng.choice((0, 1))
					R = rand_sub(rng, ga, 1, hi, grades=range(par, n + 1, 2))
					op = name + ('_odd' if par else '_even')
				if name == 'full_sandwich':
					q = None
				subs = [R, v, R]
				s.kernel(op, subs, lambda: kernel_of(ctx, name, [R, v], POS[name]), q=q)
				# values: methods, operators, and partial bindings
				hx, hy = rng.choice([((), ()), ((2,), ()), ((), (3,)), ((2, 1), (3,)), ((2,), (2,)), ((1,), (2,)), ((2, 1), (1, 2))])
				x, y = rand_mv(rng, ctx, R, hx, m=2), rand_mv(rng, ctx, v, hy, m=2)
				rx, ry = s.new(x), s.new(y)
				ids = [rx, ry, rx]
				if name == 'sandwich':
					s.op(op, ids, lambda: x >> y, q=q, note='R >> v')
					s.op(op, ids, lambda: x.sandwich(y), q=q)
					# the binding broadcasts its own batch axes against those of v
					s.op(op, ids, lambda: x.sandwich_map(v)(y), q=q, note='sandwich_map')
					w = rand_mv(rng, ctx, ctx.subspace.vector(), (), m=2)
					s.op(op, [rx, s.new(w), rx], lambda: x.sandwich_map()(w), q=[1], note='sandwich_map()')
				if name == 'reverse_sandwich':
					s.op(op, ids, lambda: x << y, q=q, note='R << v')
					s.op(op, ids, lambda: x.reverse_sandwich(y), q=q)
				if name == 'full_sandwich':
					s.op(op, ids, lambda: x.full_sandwich(y), note='full_sandwich')
				if name == 'transform':
					s.op(op, ids, lambda: x.transform(y), q=q, note='R.transform(v)')
				if name == 'inverse_transform':
					s.op(op, ids, lambda: x.reverse_transform(y), q=q, note='R.reverse_transform(v)')
				s.op(op, ids, lambda: getattr(ctx.operator, name)(R, v).partial({0: x, 2: x})(y), q=q, note=f'{name} partial 0,2')
				s.op(op, ids, lambda: getattr(ctx.operator, name)(R, v).partial({2: x}).partial({0: x})(y), q=q, note=f'{name} partial 2 then 0')
				s.op(op, ids, lambda: getattr(ctx.operator, name)(R, v)(x, v, x)(y), q=q, note=f'{name} with a subspace argument')
				# binding the middle argument first leaves a quadratic operator, which is only determined on equal arguments
				s.op(op, ids, lambda: getattr(ctx.operator, name)(R, v).partial({1: y})(x, x), q=q, note=f'{name} partial 1')
		yield s


def versors(n, seed, k):
	"""Products of vectors: nothing lost, composition, inversion, outermorphism"""
	rng = random.Random(seed)
	for sig in sample_sigs(rng, n, min(k, 3 ** n)):
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'versors {sig_str(sig)}')

		def versor(j):
			"""An integer versor and its register, built by the library and by the specification alike"""
			v = rand_mv(rng, ctx, ctx.subspace.vector(), m=1)
			if j == 0:
				o = ctx.multivector.scalar([1])
				return s.new(o), o
			r, x = s.new(v), v
			for _ in range(j - 1):
				w = rand_mv(rng, ctx, ctx.subspace.vector(), m=1)
				rw = s.new(w)
				r2, y = s.op('product', [r, rw], lambda: x * w, keep=True)
				if not r2:
					return None, None
				r, x = r2, y
			return r, x
		for _ in range(4):
			i, j = rng.randint(0, min(3, n + 1)), rng.randint(0, min(3, n + 1))
			(rR, R), (rS, S) = versor(i), versor(j)
			if not rR or not rS or not len(R.subspace) or not len(S.subspace):  # parity of an empty subspace is undefined
				continue
			v = rand_mv(rng, ctx, ctx.subspace.k_vector(rng.randint(0, n)), (2,), m=2)
			u = rand_mv(rng, ctx, ctx.subspace.k_vector(rng.randint(0, n)), (2,), m=2)
			rv, ru = s.new(v), s.new(u)
			# nothing lost: the sandwich is the full sandwich
			s.op('full_sandwich', [rR, rv, rR], lambda: R >> v, note='R >> v loses nothing for a versor')
			s.op('full_sandwich', [rS, rv, rS], lambda: S >> v, note='S >> v loses nothing for a versor')
			rRS, RS = s.op('product', [rR, rS], lambda: R * S, keep=True)
			if rRS:
				r1, y = s.op('full_sandwich', [rS, rv, rS], lambda: S >> v, keep=True)
				if r1:
					r2, z = s.op('full_sandwich', [rR, r1, rR], lambda: R >> y, keep=True)
					s.op('full_sandwich', [rRS, rv, rRS], lambda: R >> (S >> v), note='(R S) >> v = R >> (S >> v)')
					s.op('full_sandwich', [rR, r1, rR], lambda: RS >> v, note='R >> (S >> v) = (R S) >> v')
			# inversion
			rN, N = s.op('reverse_product', [rR, rR], lambda: R * ~R, keep=True)
			if rN:
				rNN, NN = s.op('product', [rN, rN], lambda: N * N, keep=True)
				if rNN:
					s.op('product', [rNN, rv], lambda: R << (R >> v), note='R << (R >> v) = N^2 v')
					s.op('product', [rNN, rv], lambda: R >> (R << v), note='R >> (R << v) = N^2 v')
			# transform: sign (-1)^(k grade), outermorphism
			par = 'odd' if i % 2 else 'even'
			q = grades_of(v.subspace)
			s.op('transform_' + par, [rR, rv, rR], lambda: R.transform(v), q=q, note=f'transform by {i} vectors')
			s.op('inverse_transform_' + par, [rR, rv, rR], lambda: R.reverse_transform(v), q=q, note=f'reverse_transform by {i} vectors')
			ra, a = s.op('wedge', [rv, ru], lambda: v ^ u, keep=True)
			if ra and rN and rNN and len(a.subspace):
				rb, b = s.op('transform_' + par, [rR, ra, rR], lambda: R.transform(a), q=grades_of(a.subspace), keep=True)
				if rb:
					rc, c = s.op('product', [rN, rb], lambda: N * b, keep=True)
					# N * transform(v ^ u) = transform(v) ^ transform(u)
					if rc:
						s.op('identity', [rc], lambda: R.transform(v) ^ R.transform(u), note='outermorphism')
		yield s
