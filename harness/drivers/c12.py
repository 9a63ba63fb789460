"""C12: every execution strategy and backend (numpy einsum/sparse, jax dense/einsum/sparse eager and jitted, torch
einsum/sparse, plain python) against the one specification: complete kernels of the operators, batched integer operations,
constructors, coercion and batch helpers; float functions are compared between backends by the closeness relation."""
from ..common import *

NUMPY = ['numpy:einsum', 'numpy:sparse', 'numpy:einsum/f4', 'numpy:sparse/f4', 'numpy:einsum/i8']
JAX = ['jax:dense', 'jax:einsum', 'jax:sparse', 'jax:einsum/f4']
TORCH = ['torch:einsum', 'torch:sparse', 'torch:einsum/f4', 'torch:sparse/f4']
ALL = NUMPY + JAX + TORCH + ['python']


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = []
	for kind in sorted(ALL, key=lambda k: not k.startswith('jax')):
		J.append(('kernels', dict(kind=kind, seed=rng.randrange(1 << 30), k=5 if not deep else 30)))
	for kind in sorted(NUMPY + JAX + TORCH, key=lambda k: not k.startswith('jax')):
		J.append(('programs', dict(kind=kind, seed=rng.randrange(1 << 30), k=8 if not deep else 50)))
		J.append(('helpers', dict(kind=kind, seed=rng.randrange(1 << 30), k=14 if not deep else 100)))
	for kind in sorted(NUMPY[:4] + JAX + TORCH, key=lambda k: not k.startswith('jax')):
		J.append(('large', dict(kind=kind, seed=rng.randrange(1 << 30), k=2 if not deep else 15)))
	for kind in ALL:
		J.append(('constructors', dict(kind=kind, seed=rng.randrange(1 << 30), k=4 if not deep else 20)))
	for kind in sorted(NUMPY[:4] + JAX + TORCH, key=lambda k: not k.startswith('jax')):
		J.append(('functions', dict(kind=kind, seed=rng.randrange(1 << 30), k=(4 if kind.startswith('jax') else 10) * (10 if deep else 1))))
	J.append(('codegen', dict(seed=rng.randrange(1 << 30), k=6 if not deep else 60)))
	J.append(('mapped', dict(seed=rng.randrange(1 << 30), k=3 if not deep else 20)))
	J.append(('jitted', dict(kind='jax:einsum', seed=rng.randrange(1 << 30), k=6 if not deep else 30)))
	J.append(('jitted', dict(kind='jax:sparse', seed=rng.randrange(1 << 30), k=6 if not deep else 30)))
	J.append(('jitted', dict(kind='jax:dense', seed=rng.randrange(1 << 30), k=6 if not deep else 30)))
	return J


class Rows:
	"""Results of a backend without batches, assembled"""
	def __init__(self, mvs, subspace, shape):
		self.values = np.array([m.values for m in mvs], dtype=float).reshape(tuple(shape) + (len(subspace),))
		self.subspace = subspace


def run_kernel(ctx, kind, name, subs, pos=None, q=None):
	if kind != 'python':
		return kernel_of(ctx, name, subs, pos, q)
	op = getattr(ctx.operator, name)(*subs) if q is None else getattr(ctx.operator, name)(*subs, q)
	args = [subs[p] for p in (pos or range(len(subs)))]
	mvs = []
	for t in itertools.product(*[range(len(a)) for a in args]):
		mvs.append(op(*[ctx.multivector(values=[1 if i == j else 0 for j in range(len(a))], subspace=a) for i, a in zip(t, args)]))
	return Rows(mvs, op.output, [len(a) for a in args])


def kernels(kind, seed, k):
	rng = random.Random(seed)
	slow = kind.startswith('jax')
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'kernels {kind} {sig_str(sig)}', tol=1e-4 if 'f4' in kind else 1e-9)
		hi = 4 if slow or kind == 'python' else 8
		for name in rng.sample(UNARY, 8 if slow else 16):
			v = rand_sub(rng, ga, 1, hi)
			s.kernel(name, [v], lambda: run_kernel(ctx, kind, name, [v]))
		for name in ['product'] + rng.sample([o for o in GRADED_CORE + ANTI_CORE + FUSED if needs(o, n)], 8 if slow else 16):
			subs = [rand_sub(rng, ga, 1, hi) for _ in range(2)]
			q = rand_sub(rng, ga, 0) if name == 'n_product' else None
			s.kernel(name, subs, lambda: run_kernel(ctx, kind, name, subs, q=q), q=None if q is None else blades(q))
		for name in rng.sample(TIED2 + ['sandwich', 'reverse_sandwich', 'full_sandwich', 'cubed', 'inverse_factor', 'inertia'], 5):
			R, v = rand_sub(rng, ga, 1, 3), rand_sub(rng, ga, 1, 3)
			build = [R, v] if name in ('sandwich', 'reverse_sandwich', 'full_sandwich', 'inertia') else [R]
			q = grades_of(v) if name in ('sandwich', 'reverse_sandwich') else None
			s.kernel(name, [build[p] for p in POS[name]], lambda: run_kernel(ctx, kind, name, build, POS[name]), q=q)
		for name in ('select', 'restrict'):
			v, o = rand_sub(rng, ga, 1, hi), rand_sub(rng, ga, 1)
			s.kernel(name, [v], lambda: run_kernel(ctx, kind, name, [v], q=o), q=blades(o), tight=2 if name == 'select' else 1)
		# operators with fractional coefficients
		if not any(t in kind for t in ('f4', 'i8')):
			for _ in range(3):
				name = rng.choice(['product', 'wedge', 'commutator', 'anti_commutator', 'regressive', 'reverse_product'])
				subs = [rand_sub(rng, ga, 1, hi) for _ in range(2)]
				a, b = [ctx.multivector(values=[f * rng.randint(-4, 4) for _ in range(len(u))], subspace=u) for f, u in zip((4, 1), subs)]
				ra, rb = s.new(a), s.new(b)
				op = getattr(ga.operator, name)(*subs)
				c = rng.choice([2, 4])
				r, _ = s.op(name, [ra, rb], lambda: ctx.operator(op)(a, b), keep=True, note=name)
				if r:
					s.op('scalar_div', [r, s.raw([0], [c])], lambda: ctx.operator(op * (1 / c))(a, b), note=f'{name} * {1 / c}')
					s.op('product', [r, s.raw([0], [1000])], lambda: ctx.operator(op * 1000)(a, b), note=f'{name} * 1000')
		# a dense integer point of the same operators
		for name in rng.sample([o for o in GRADED_METHODS + ANTI_METHODS if needs(o, n)] + ['product', 'reverse_product', 'conjugate_product'], 4):
			a, b = [ctx.multivector(values=[rng.randint(-4, 4) for _ in range(len(u))], subspace=u) for u in (rand_sub(rng, ga, 1, 6), rand_sub(rng, ga, 1, 6))]
			s.op(name, [s.new(a), s.new(b)], lambda: mv_method(name, a, b), note=f'{name} method')
		for name in rng.sample(['reverse', 'dual', 'dual_inverse', 'involute', 'squared', 'symmetric_reverse_product', '~'], 3):
			a = ctx.multivector(values=[rng.randint(-4, 4) for _ in range(3)], subspace=rand_sub(rng, ga, 3, 3))
			ra = s.new(a)
			s.op(SPECNAME.get(name, name), [ra] * (2 if name in TIED2 else 1), lambda: mv_method(name, a), note=f'{name} method')
		yield s


def dense(ctx, rng, sub, h, m=3):
	return ctx.multivector(values=ints(rng, tuple(h) + (len(sub),), m), subspace=sub)


def programs(kind, seed, k):
	"""Batched operations, coercion, division, selection"""
	rng = random.Random(seed)
	slow = kind.startswith('jax')
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'operations {kind} {sig_str(sig)}', tol=1e-4 if 'f4' in kind else 1e-9)
		for _ in range(2 if slow else 4):
			A, B = [rand_sub(rng, ga, 1, 5) for _ in range(2)]
			ha, hb = compatible_shapes(rng, 2)
			x, y = dense(ctx, rng, A, ha), dense(ctx, rng, B, hb)
			rx, ry = s.new(x), s.new(y)
			d = f'{kind} batches {ha} {hb}'
			for name in rng.sample([o for o in GRADED_METHODS + ANTI_METHODS if needs(o, n)] + ['*', '^', '|', '&'], 4):
				s.op(SPECNAME.get(name, name), [rx, ry], lambda: mv_method(name, x, y), note=f'{name} {d}')
			name = rng.choice(['>>', '<<', 'full_sandwich'])
			s.op(SPECNAME.get(name, name), [rx, ry, rx], lambda: mv_method(name, x, y), q=None if 'full' in name else grades_of(B), note=f'{name} {d}')
			s.op('add', [rx, ry], lambda: x + y, sub='union', note=f'+ {d}')
			s.op('sub', [rx, ry], lambda: x - y, sub='union', note=f'- {d}')
			s.op('neg', [rx], lambda: -x, sub='same', note=f'neg {d}')
			c = rng.choice([-3, 2, 5])
			rc = s.raw([0], [c])
			s.op('product', [rx, rc], lambda: x * c, note=f'x * {c} {d}', sub='same')
			s.op('product', [rc, rx], lambda: float(c) * x, note=f'{c} * x {d}')
			s.op('add', [rc, rx], lambda: c + x, note=f'{c} + x {d}', sub='union')
			s.op('sub', [rc, rx], lambda: c - x, note=f'{c} - x {d}', sub='union')
			s.op('sub', [rx, rc], lambda: x - c, note=f'x - {c} {d}', sub='union')
			if 'i8' not in kind:
				p = ctx.multivector(values=array(x.values) * c, subspace=A)
				s.op('scalar_div', [s.new(p), rc], lambda: p / c, note=f'x / {c} {d}', sub='same')
			o = rand_sub(rng, ga, 1)
			s.op('select', [rx], lambda: x.select_subspace(o), q=blades(o), sub='select', note=f'select {d}')
			s.op('restrict', [rx], lambda: x.restrict_subspace(o), q=blades(o), sub='restrict', note=f'restrict {d}')
			gr = rng.randint(0, n)
			s.op('select', [rx], lambda: x.select[gr], q=[b for b in range(2 ** n) if bin(b).count('1') == gr], sub='select', note=f'select[{gr}] {d}')
			s.op('identity', [rx], lambda: x, note='operand unchanged')
			s.op('identity', [ry], lambda: y, note='operand unchanged')
		yield s


def large(kind, seed, k):
	"""Batches of hundreds to thousands of elements"""
	rng = random.Random(seed)
	first = rng.randrange(18)
	for i in range(k):
		sig = sample_sigs(rng, rng.choice([2, 3, 3, 4]), 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'large batches {kind} {sig_str(sig)}', tol=1e-4 if 'f4' in kind else 1e-9)
		large_batches(s, ctx, rng, lambda A, h: dense(ctx, rng, A, h), first + i)
		yield s


def helpers(kind, seed, k):
	rng = random.Random(seed)
	kinds = ['index', 'set', 'concatenate', 'sum', 'rearrange', 'repeat', 'take_along_axis', 'copy']
	if 'i8' not in kind:
		kinds.append('mean')
	if kind.startswith('numpy'):
		kinds += ['reshape', 'flatten']
	for _ in range(k):
		sig = sample_sigs(rng, rng.choice([1, 2, 3, 4]), 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'batch helpers {kind} {sig_str(sig)}', tol=1e-4 if 'f4' in kind else 1e-9)
		for _ in range(2):
			sub = rand_sub(rng, ctx.algebra, 1, 6)
			h = rng.choice([(2,), (3,), (4,), (2, 3), (3, 2), (4, 1), (2, 3, 2), (1, 3)])
			x = dense(ctx, rng, sub, h, 9)
			batch_helpers(s, ctx, rng, x, s.new(x), 8, kinds=kinds, adv=True, steps=not kind.startswith('torch'))
		yield s


def constructors(kind, seed, k):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		m = ctx.multivector
		s = Ses(sig, f'constructors {kind} {sig_str(sig)}')
		g = lambda *ks: sorted((b for b in range(2 ** n) if bin(b).count('1') in ks), key=lambda b: (bin(b).count('1'), b))
		forms = {'scalar': [0], 'vector': [1], 'bivector': [2], 'pseudoscalar': [n], 'antivector': [n - 1], 'antibivector': [n - 2],
			'even_grade': range(0, n + 1, 2), 'rotor': range(0, n + 1, 2), 'motor': range(0, n + 1, 2)}
		if n >= 3:
			forms.update({'trivector': [3], 'antitrivector': [n - 3]})
		for name, gs in forms.items():
			bl = g(*gs)
			v = [rng.randint(-9, 9) for _ in bl]
			r = s.raw(bl, v)
			s.op('identity', [r], lambda: getattr(m, name)(v), sub='same', note=f'{name}({v})')
			s.op('identity', [s.raw(bl, [int(b == 0) for b in bl])], lambda: getattr(m, name)(), sub='same', note=f'{name}() default')
		v = [rng.randint(-9, 9) for _ in range(2 ** n)]
		s.op('identity', [s.raw(g(*range(n + 1)), v)], lambda: m(values=v), sub='same', note='full multivector')
		s.op('identity', [s.raw(g(*range(n + 1)), v)], lambda: m.multivector(v), sub='same', note='full multivector')
		for kk in range(-n - 1, n + 1):
			bl = g(kk % (n + 1))
			v = [rng.randint(-9, 9) for _ in bl]
			s.op('identity', [s.raw(bl, v)], lambda: m.k_vector(kk, v), sub='same', note=f'k_vector({kk}, {v})')
		for _ in range(4):
			sub = rand_sub(rng, ga, 1)
			v = [rng.randint(-9, 9) for _ in range(len(sub))]
			s.op('identity', [s.raw(blades(sub), v)], lambda: m(values=v, subspace=sub), sub='same', note=f'multivector on {blades(sub)}')
			s.op('identity', [s.raw(blades(sub), v)], lambda: m(sub, v), sub='same', note=f'multivector on {blades(sub)} positional')
			s.op('identity', [s.raw(blades(sub), [int(b == 0) for b in blades(sub)])], lambda: m(sub), sub='same', note=f'default on {blades(sub)}')
			b, c = rng.randrange(2 ** n), rng.choice([-2, 1, 3])
			s.op('identity', [s.raw([b], [c])], lambda: m.blade(b, c), sub='same', note=f'blade({b}, {c})')
			s.op('identity', [s.raw([b], [1])], lambda: m.blade(b), sub='same', note=f'blade({b})')
		s.op('identity', [s.raw([], np.zeros((0,)))], lambda: m.empty(), sub='same', note='empty')
		basis = s.call(lambda: m.basis())
		for i in range(n):
			s.op('identity', [s.raw([1 << i], [1])], lambda: basis[i], sub='same', note=f'basis()[{i}]')
		yield s


def jitted(kind, seed, k):
	"""jit compiled programs, called repeatedly with other values and other subspaces"""
	import jax
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'jit {kind} {sig_str(sig)}')
		name = rng.choice(['*', '^', '|', '&', 'commutator', 'anti_product', 'reverse_product', '+', '-', '>>'])
		f0 = {'+': lambda x, y: x + y, '-': lambda x, y: x - y}.get(name, lambda x, y: mv_method(name, x, y))
		f = jax.jit(f0)
		for _ in range(4):
			A, B = rand_sub(rng, ga, 1, 4), rand_sub(rng, ga, 1, 4)
			for h in rng.sample([(), (2,), (1, 3)], 2):
				x, y = dense(ctx, rng, A, h), dense(ctx, rng, B, rng.choice([h, ()]))
				rx, ry = s.new(x), s.new(y)
				sn = {'+': 'add', '-': 'sub'}.get(name, SPECNAME.get(name, name))
				a = [rx, ry, rx] if name == '>>' else [rx, ry]
				s.op(sn, a, lambda: f(x, y), q=grades_of(B) if name == '>>' else None, note=f'jit {name} {h} {blades(A)} {blades(B)}')
				s.op(sn, a, lambda: f0(x, y), q=grades_of(B) if name == '>>' else None, note=f'eager {name} {h} {blades(A)} {blades(B)}')
		# several operations compiled as one
		g = jax.jit(lambda x, y: (x * y) | x)
		for _ in range(2):
			x, y = [dense(ctx, rng, rand_sub(rng, ga, 1, 4), (2,), m=2) for _ in range(2)]
			rx, ry = s.new(x), s.new(y)
			r1, _ = s.op('product', [rx, ry], lambda: x * y, keep=True, note='product, eager')
			if r1:
				s.op('inner', [r1, rx], lambda: g(x, y), note='jit of (x * y) | x')
		yield s


def codegen(seed, k):
	"""The source generated by PythonCodegenOperator, executed: assignments to the components of o"""
	from numga.backend.python.context import PythonContext
	from numga.backend.python.operator import PythonCodegenOperator
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = PythonContext(algebra(sig), otype=PythonCodegenOperator)
		s = Ses(sig, f'generated source {sig_str(sig)}')
		names = [(o, None) for o in rng.sample(UNARY, 4)] + [(o, rand_sub(rng, ctx.algebra, 0)) for o in ['product'] + rng.sample([o for o in GRADED_CORE + ANTI_CORE + FUSED if needs(o, n)], 6)]
		names += [(o, None) for o in ('sandwich', 'symmetric_reverse_product')]
		for name, q in names:
			A, B = rand_sub(rng, ctx.algebra, 1, 6), rand_sub(rng, ctx.algebra, 1, 6)
			build = [A] if name in UNARY or name in TIED2 else [A, B]
			pos = POS.get(name, range(len(build)))
			args = [[rng.randint(-4, 4) for _ in range(len(b))] for b in build]

			def run():
				op = getattr(ctx.operator, name)(*build, *([q] if name == 'n_product' else []))
				out, space = {}, {}
				text = op()
				if not op.precompute_sparse:
					text += '\tpass'
				space['o'] = out
				exec(text, space)
				f = [v for k, v in space.items() if callable(v)][0]
				f(*[args[i] for i in pos])
				return Rows([type('R', (), dict(values=[out.get(i, 0) for i in range(len(op.output))]))], op.output, ())
			qq = blades(q) if name == 'n_product' else grades_of(B) if name == 'sandwich' else None
			s.op(name, [s.raw(blades(build[i]), args[i]) for i in pos], run, q=qq, note=f'source of {name}')
		yield s


def mapped(seed, k):
	"""Multivectors as jax pytrees: vmap, loops, tree maps"""
	import jax
	import jax.numpy as jnp
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([2, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx('jax:' + rng.choice(['einsum', 'sparse', 'dense']), algebra(sig))
		s = Ses(sig, f'pytrees {sig_str(sig)}')
		for _ in range(2):
			A, B = rand_sub(rng, ctx.algebra, 1, 4), rand_sub(rng, ctx.algebra, 1, 4)
			x, y, z = dense(ctx, rng, A, (3,)), dense(ctx, rng, B, (3,)), dense(ctx, rng, B, ())
			rx, ry, rz = s.new(x), s.new(y), s.new(z)
			name = rng.choice(['*', '^', '|', '&', 'commutator', 'anti_product'])
			sn = SPECNAME.get(name, name)
			f = lambda a, b: mv_method(name, a, b)
			s.op(sn, [rx, ry], lambda: jax.vmap(f)(x, y), note=f'vmap of {name}')
			s.op(sn, [rx, rz], lambda: jax.vmap(f, in_axes=(0, None))(x, z), note=f'vmap of {name}, one axis')
			s.op('add', [rx, rx], lambda: jax.tree_util.tree_map(lambda a: a + a, x), note='tree_map')
			s.op('identity', [rx], lambda: jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(x))), sub='same', note='flatten and unflatten')
			c = rng.randint(2, 5)
			s.op('product', [s.raw([0], [c]), rx], lambda: jax.lax.fori_loop(0, c - 1, lambda i, a: a + x, x), note='fori_loop')
			s.op('identity', [rx], lambda: jax.device_get(x) and x, note='operand unchanged')
		yield s


def functions(kind, seed, k):
	"""The extension functions, elementwise functions and division against the reference backend (numpy einsum, float64)"""
	from .. import ga as G
	from .c18 import motor_subs
	rng = random.Random(seed)
	f4 = 'f4' in kind
	tol = 3_000_000 if f4 else 300
	for _ in range(k):
		n = rng.choice([2, 3, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		ref, ctx = np_ctx(algebra(sig)), make_ctx(kind, algebra(sig))
		s = Ses(sig, f'functions {kind} {sig_str(sig)}')

		def both(name, f, sub, *vals):
			A = blades(sub)
			mk = lambda c: [c.multivector(values=c.coerce_array(np.array(v)), subspace=c.subspace.from_blades(A)) for v in vals]
			want = s.call(lambda: f(*mk(ref)))
			if isinstance(want, Exception):
				raise want
			got = []
			for i, w in enumerate(want if isinstance(want, tuple) else (want,)):
				def run():
					r = f(*mk(ctx))
					got.append(r[i] if isinstance(want, tuple) else r)
					return got[-1]
				s.rel('close', [w], run, tol, note=f'{name} of {A} {np.shape(vals[0])}')
				if got:
					s.add({'e': 'eqsub', 's': blades(w.subspace), 't': blades(got[-1].subspace), 'same': 1}, f'{name} of {A}: subspace')
				got.clear()
		shape = rng.choice([(), (2,), (2, 2), (1, 2)])
		cond = dict(tries=60, cond=6 if f4 else 15, lo=0.5)
		for _ in range(2):
			A = rng.choice([rand_sub(rng, ref.algebra, 1, 6), rng.choice(named_subs(ref.algebra))])
			bl = blades(A)
			v = G.batch(lambda: G.invertible(rng, sig, bl, **cond), shape) if bl else None
			if v is not None:
				both('inverse', lambda x: x.inverse(), A, v)
				both('division', lambda x, y: x / y, A, G.batch(lambda: G.grid(rng, len(bl)), shape), v)
				both('1 / x', lambda x: 1 / x, A, v)
				if not f4:
					both('inverse_shirokov', lambda x: x.inverse_shirokov(), A, v)
					if 'torch' not in kind:
						both('inverse_la', lambda x: x.inverse_la(), A, v)
			if bl:
				v = G.batch(lambda: G.grid(rng, len(bl)), shape)
				both('norm_squared', lambda x: x.norm_squared(), A, v)
				for nm in ('abs', 'cos', 'sin'):
					both(nm, lambda x: getattr(x, nm)(), A, v)
				both('sqrt', lambda x: x.abs().sqrt(), A, v)
				both('invsqrt', lambda x: x.invsqrt(), A, np.abs(v) + 0.5)
				w = v.copy()
				w[..., 0] = np.nan
				both('nan_to_num', lambda x: x.nan_to_num(0), A, w)
		for A, bl2 in motor_subs(rng, ref.algebra):
			bl = blades(A)
			if 0 not in bl or not bl2:
				continue
			v = np.array([G.motor(rng, sig, bl2, 0.3)[bl] for _ in range(int(np.prod(shape, dtype=int)))]).reshape(shape + (-1,))
			if np.abs(v).max() > 3:
				continue
			both('motor_square_root', lambda x: x.motor_square_root(), A, v)
			both('normalized', lambda x: x.normalized(), A, v * 1.25)
			both('norm', lambda x: x.norm(), A, v * 1.25)
			both('motor_geometric_mean', lambda x, y: x.motor_geometric_mean(y), A, v, v[..., ::1])
			both('motor_log_linear', lambda x: x.motor_log_linear(), A, v)
			both('motor_log_quadratic', lambda x: x.motor_log_quadratic(), A, v)
			B = ref.subspace.from_blades(bl2)
			b = G.batch(lambda: G.grid(rng, len(bl2), 1, 16) * 0.3, shape)
			both('exp_quadratic', lambda x: x.exp_quadratic(), B, b)
			both('exp_linear_normalized', lambda x: x.exp_linear_normalized(), B, b)
			if not f4:
				both('exp', lambda x: x.exp(), B, b)
				both('motor_log', lambda x: x.motor_log(), A, v)
		x = G.batch(lambda: np.abs(G.grid(rng, 1)) + 0.25, shape)
		both('scalar functions', lambda x: (x.exp(), x.log(), x.square_root(), x.inverse_square_root(), x.norm()), ref.subspace.scalar(), x)
		yield s
