"""C13: every operation on batches of mixed shapes (size one, size zero, several axes) and memory layouts against the
elementwise definition (Batch.tla MapOp), and every batch helper against its index arithmetic (BatchOps.tla)."""
from ..common import *
from .. import ga as G

OPS2 = [o for o in GRADED_METHODS + ANTI_METHODS + ['product', 'reverse_product', 'involute_product', 'conjugate_product',
	'scalar_negation_product', 'pseudoscalar_negation_product', '*', '^', '|', '&', 'add', 'sub']]
OPS1 = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'study_conjugate', 'pseudoscalar_negation', 'dual', 'dual_inverse',
	'degenerate', 'nondegenerate', 'neg', '~', 'squared', 'symmetric_reverse_product', 'symmetric_involute_product',
	'symmetric_conjugate_product', 'symmetric_scalar_negation_product', 'symmetric_pseudoscalar_negation_product', 'inverse_factor']
OPS3 = ['sandwich', 'reverse_sandwich', 'full_sandwich', '>>', '<<', 'transform']


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('ops', dict(seed=rng.randrange(1 << 30), k=10 if not deep else 60, kind=kind)) for kind in ('numpy:einsum', 'numpy:sparse', 'numpy:einsum/f4') for _ in range(3)]
	J += [('functions', dict(seed=rng.randrange(1 << 30), k=8 if not deep else 60, kind=kind)) for kind in ('numpy:einsum', 'numpy:einsum', 'numpy:sparse')]
	J += [('large', dict(seed=rng.randrange(1 << 30), k=9 if not deep else 54, kind=kind)) for kind in ('numpy:einsum', 'numpy:sparse')]
	J += [('helpers', dict(seed=rng.randrange(1 << 30), k=30 if not deep else 200)) for _ in range(4)]
	return J


def mv_layout(rng, ctx, sub, h, m=2):
	v = layouts(rng, ints(rng, tuple(h) + (len(sub),), m).astype(ctx.dtype))
	x = ctx.multivector(values=v, subspace=sub)
	if rng.random() < 0.4:
		x.values = v	# keep exactly this storage
	return x


def ops(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'batched operations {kind} {sig_str(sig)}')
		for _ in range(5):
			A, B = [rand_sub(rng, ga, 1, 6) for _ in range(2)]
			ha, hb = compatible_shapes(rng, 2)
			x, y = mv_layout(rng, ctx, A, ha), mv_layout(rng, ctx, B, hb)
			rx, ry = s.new(x), s.new(y)
			for name in rng.sample(OPS2, 4):
				if needs(name, n):
					sn = SPECNAME.get(name, name)
					f = {'add': lambda: x + y, 'sub': lambda: x - y}.get(name, lambda: mv_method(name, x, y))
					s.op(sn, [rx, ry], f, note=f'{name} on batches {ha} {hb}')
			for name in rng.sample(OPS1, 4):
				sn = SPECNAME.get(name, name)
				ar = 3 if name == 'inverse_factor' else 2 if name in TIED2 else 1
				f = {'neg': lambda: -x, '~': lambda: ~x}.get(name, lambda: getattr(x, name)())
				s.op(sn, [rx] * ar, f, note=f'{name} on batch {ha}')
			name = rng.choice(OPS3)
			q = grades_of(B)
			if name == 'transform':
				R = mv_layout(rng, ctx, rng.choice([ga.subspace.even_grade(), ga.subspace.odd_grade()]), ha)
				rR = s.new(R)
				op = 'transform_' + ('odd' if grades_of(R.subspace)[0] % 2 else 'even')
				s.op(op, [rR, ry, rR], lambda: R.transform(y), q=q, note=f'transform on batches {ha} {hb}')
			else:
				s.op(SPECNAME.get(name, name), [rx, ry, rx], lambda: mv_method(name, x, y), q=q if 'full' not in name else None, note=f'{name} on batches {ha} {hb}')
			o = rand_sub(rng, ga, 1)
			s.op('select', [rx], lambda: x.select_subspace(o), q=blades(o), sub='select', note=f'select on batch {ha}')
			s.op('restrict', [rx], lambda: x.restrict_subspace(o), q=blades(o), sub='restrict', note=f'restrict on batch {ha}')
			c = layouts(rng, ints(rng, hb))
			rc = s.raw([0], c[..., None])
			s.op('product', [rx, rc], lambda: x * c, note=f'times array {hb} on batch {ha}')
			s.op('add', [rx, rc], lambda: x + c, note=f'plus array {hb} on batch {ha}')
			s.op('identity', [rx], lambda: x, note='source unchanged')
			s.op('identity', [ry], lambda: y, note='source unchanged')
		yield s


def large(seed, k, kind):
	"""Batches of hundreds to thousands of elements"""
	rng = random.Random(seed)
	for i in range(k):
		sig = sample_sigs(rng, rng.choice([2, 3, 3, 4]), 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'large batches {kind} {sig_str(sig)}')
		large_batches(s, ctx, rng, lambda A, h: mv_layout(rng, ctx, A, h), i)
		for name in rng.sample(['inverse', 'normalized', 'norm', 'norm_squared', 'exp', 'motor_square_root', 'abs'], 3):
			A = ctx.subspace.bivector() if name == 'exp' else rng.choice([ctx.subspace.even_grade(), ctx.subspace.scalar_pseudoscalar()]) if name != 'motor_square_root' else ctx.subspace.even_grade()
			N = rng.choice([300, 1025, 2500])
			v = np.array([rng.randint(-8, 8) / 8 * 0.15 for _ in range(N * len(A))]).reshape(N, len(A)) + np.array([b == 0 for b in blades(A)])
			i = sorted({0, N - 1} | {rng.randrange(N) for _ in range(4)})
			x, y = [ctx.multivector(values=w, subspace=A) for w in (v, v[i])]
			want = s.call(lambda: getattr(y, name)())
			if isinstance(want, Exception) or not np.all(np.isfinite(want.values)):
				continue

			def got():
				r = getattr(x, name)()
				assert r.shape == (N,), f'batch {r.shape}'
				return r.copy(r.values[i])
			s.rel('close', [want], got, 300, note=f'{name} of a batch of {N} over {blades(A)}')
		yield s


def helpers(seed, k):
	rng = random.Random(seed)
	s = None
	for i in range(k):
		if i % 6 == 0:
			if s:
				yield s
			sig = sample_sigs(rng, rng.choice([1, 2, 3, 4]), 1)[0]
			ctx = make_ctx(rng.choice(['numpy:einsum', 'numpy:sparse', 'numpy:einsum/f4']), algebra(sig))
			s = Ses(sig, f'batch helpers {sig_str(sig)}')
		sub = rand_sub(rng, ctx.algebra, 1, 8)
		h = rng.choice([(2,), (3,), (4,), (2, 3), (3, 2), (4, 1), (2, 3, 2), (3, 2, 2), (0, 2), (1, 3), ()])
		x = mv_layout(rng, ctx, sub, h, m=9)
		batch_helpers(s, ctx, rng, x, s.new(x), 12)
	yield s


def functions(seed, k, kind):
	"""The functions that are not multilinear: on a batch they give what they give on every element by itself"""
	from numga.multivector.numerical_normalize import normalize_motor, inverse_sandwich
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		F = ctx.subspace
		s = Ses(sig, f'functions on batches {kind} {sig_str(sig)}')

		def near_one(sub, h, size=0.15):
			v = np.array([rng.randint(-8, 8) / 8 * size for _ in range(int(np.prod(h, dtype=int)) * len(sub))]).reshape(tuple(h) + (len(sub),))
			return v + np.array([b == 0 for b in blades(sub)]) * rng.choice([1, 1, 2])
		def mv(sub, v):
			return ctx.multivector(values=layouts(rng, v), subspace=sub)
		def motors(h):
			E = F.even_grade()
			bl2 = [b for b in range(2 ** n) if bin(b).count('1') == 2]
			m = int(np.prod(h, dtype=int))
			rows = [G.motor(rng, sig, bl2, 0.3)[blades(E)] if bl2 else np.ones(1) for _ in range(m)]
			return np.array(rows).reshape(tuple(h) + (len(E),))
		with1 = [x for x in (F.even_grade(), F.scalar(), F.self_reverse(), F.scalar_pseudoscalar(), F.multivector() if n < 5 else F.even_grade(), rand_sub(rng, ctx.algebra, 1, 4).union(F.scalar()))]
		B = F.bivector() if n > 1 else None
		tests = []
		for _ in range(9):
			w = rng.random()
			hs = compatible_shapes(rng, 2)
			S = rng.choice(with1)
			if w < 0.4:
				name = rng.choice(['inverse', 'norm', 'norm_squared', 'normalized', 'square_root', 'inverse_square_root', 'inverse_hitzer', 'inverse_la', 'inverse_shirokov',
					'study_norm', 'study_norm_squared', 'sqrt', 'invsqrt', 'abs', 'cos', 'sin', 'nan_to_num', 'exp', 'log'])
				if name in ('sqrt', 'invsqrt', 'exp', 'log'):
					S = F.scalar()
				tests.append((f'{name} of {blades(S)}', lambda x, name=name: getattr(x, name)(*([0.] if name == 'nan_to_num' else [])), [(S, near_one(S, hs[0]))]))
			elif w < 0.6:
				A = rng.choice([S, rand_sub(rng, ctx.algebra, 1, 4)])
				va = near_one(A, hs[0], 1)
				S = rng.choice([S, F.scalar()])
				tests.append((f'{blades(A)} / {blades(S)}', lambda x, y: x / y, [(A, va), (S, near_one(S, hs[1]))]))
			elif w < 0.7:
				c = near_one(F.scalar(), hs[0], 1)[..., 0]
				if rng.random() < 0.5:
					tests.append((f'{blades(S)} / array', lambda x, y: x / y.values[..., 0], [(S, near_one(S, hs[1], 1)), (F.scalar(), near_one(F.scalar(), hs[0]))]))
				else:
					tests.append((f'2 / {blades(S)}', lambda x: 2 / x, [(S, near_one(S, hs[1]))]))
			elif B is None:
				continue
			elif w < 0.8:
				name = rng.choice(['exp', 'exp_quadratic', 'exp_linear', 'exp_linear_normalized', 'exp_bisect', 'decompose_invariant', 'decompose_polar'])
				D = rng.choice([B, rand_sub(rng, ctx.algebra, 1, 4, grades=[2])])
				tests.append((f'{name} of {blades(D)}', lambda x, name=name: getattr(x, name)(), [(D, near_one(D, hs[0], 0.4))]))
			elif w < 0.9:
				name = rng.choice(['motor_log', 'motor_square_root', 'motor_log_quadratic', 'motor_log_linear', 'motor_log_bisect', 'motor_inverse', 'normalize_motor', 'motor_translator', 'motor_rotor'])
				if name in ('motor_translator', 'motor_rotor') and 0 not in sig:
					continue
				f = (lambda x: normalize_motor(x)) if name == 'normalize_motor' else lambda x, name=name: getattr(x, name)()
				tests.append((name, f, [(F.even_grade(), motors(hs[0]))]))
			elif w < 0.95:
				tests.append(('motor_geometric_mean', lambda x, y: x.motor_geometric_mean(y), [(F.even_grade(), motors(h)) for h in hs]))
			else:
				tests.append(('inverse_sandwich', lambda x: inverse_sandwich(x), [(F.self_reverse(), near_one(F.self_reverse(), hs[0], 0.1))]))
		for note, f, args in tests:
			elementwise(s, ctx, note, f, args, mv)
		yield s


def elementwise(s, ctx, note, f, args, mv):
	h = np.broadcast_shapes(*[v.shape[:-1] for _, v in args])
	full = [np.broadcast_to(v, h + v.shape[-1:]) for _, v in args]
	tup = lambda r: r if isinstance(r, tuple) else (r,)
	at = list(np.ndindex(*h)) or [None]
	want = []
	for i in at:
		one = [mv(S, v[i] if i is not None else np.array([float(b == 0) for b in blades(S)]) + 0.125) for (S, _), v in zip(args, full)]
		r = s.call(lambda: f(*one))
		if isinstance(r, Exception) or not all(np.all(np.isfinite(x.values)) and np.all(np.abs(x.values) < 200) and x.shape == () for x in tup(r)):
			return		# not defined here; other properties say where it has to be
		want.append([x for x in tup(r)])
	xs = [mv(S, v) for S, v in args]
	res = s.call(lambda: tup(f(*xs)))
	for j, w in enumerate(want[0]):
		W = ctx.multivector(values=np.array([r[j].values for r in want if 0 not in h]).reshape(h + (len(w.subspace),)), subspace=w.subspace)
		def got(j=j):
			if isinstance(res, Exception):
				raise res
			return res[j]
		s.rel('close', [W], got, 700, note=f'{note} on batches {[v.shape[:-1] for _, v in args]}', shape='/' in note or not (isinstance(res, tuple) and res[j].shape == ()))
	for x, (S, v) in zip(xs, args):
		s.rel('close', [ctx.multivector(values=np.array(v), subspace=S)], lambda: x, 0, note='operand unchanged')
