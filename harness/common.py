"""Shared parts of the drivers."""
import random, itertools
import numpy as np
from .rec import *


def np_ctx(alg, dtype=np.float64, otype=None):
	from numga.backend.numpy.context import NumpyContext
	if otype is None:
		return NumpyContext(alg, dtype=dtype)
	return NumpyContext(alg, dtype=dtype, otype=otype)


def algebra(sig, names=None):
	from numga.algebra.algebra import Algebra
	return Algebra(sig_str(sig, names))


def chunks(l, n):
	"""Split l in n interleaved parts"""
	return [p for p in (l[i::n] for i in range(n)) if p]


def sample_sigs(rng, n, k):
	"""k random signatures of n generators, favouring degenerate and permuted ones"""
	res = set()
	pools = [(1, -1, 0), (1, 1, -1), (1, 1, 0), (1, -1), (1, 1, 1, 0)]
	while len(res) < k:
		p = rng.choice(pools)
		res.add(tuple(rng.choice(p) for _ in range(n)))
	return sorted(res)


def sub_tuples(rng, ga, arity, k, lo=1, hi=None, named=0.4):
	"""k random tuples of subspaces, some of them named"""
	ns = named_subs(ga)
	res = []
	for _ in range(k):
		res.append([rng.choice(ns) if rng.random() < named else rand_sub(rng, ga, lo, hi) for _ in range(arity)])
	return res


def kernel_of(ctx, name, subs, pos=None, q=None):
	"""Evaluate the concrete operator `name` built for subspaces `subs` on all basis tuples.

	pos maps argument positions of the operator to subspaces (default one each)"""
	op = getattr(ctx.operator, name)(*subs) if q is None else getattr(ctx.operator, name)(*subs, q)
	args = [subs[p] for p in (pos or range(len(subs)))]
	return op(*basis_batches(ctx, args))


# operators by name in the factory: op -> (number of subspaces it is built from, argument -> subspace position)
UNARY = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'study_conjugate', 'pseudoscalar_negation',
	'left_complement', 'right_complement', 'left_complement_dual', 'right_complement_dual',
	'left_hodge', 'right_hodge', 'dual', 'left_hodge_inverse', 'right_hodge_inverse', 'dual_inverse',
	'degenerate', 'nondegenerate', 'identity']
GRADED = ['wedge', 'op', 'outer', 'outer_product', 'wedge_product', 'inner', 'ip', 'inner_product',
	'scalar_product', 'sp', 'dp', 'dot', 'scalar', 'dot_product',
	'left_contract', 'lc', 'left_contraction_product', 'right_contract', 'rc', 'right_contraction_product',
	'bivector_product', 'commutator', 'commutator_product', 'anti_commutator', 'anti_commutator_product', 'cross_product']
GRADED_CORE = ['wedge', 'inner', 'scalar_product', 'left_contract', 'right_contract', 'bivector_product', 'n_product',
	'commutator', 'anti_commutator', 'cross_product']
GRADED_METHODS = ['wedge', 'outer', 'inner', 'scalar_product', 'bivector_product', 'trivector_product', 'commutator',
	'anti_commutator', 'commutator_product', 'anti_commutator_product', 'left_contract', 'right_contract', 'cross']
FUSED = ['reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product',
	'study_conjugate_product', 'pseudoscalar_negation_product']
ANTI = ['regressive', 'rp', 'regressive_product', 'anti_product', 'agp', 'anti_geometric_product',
	'anti_wedge', 'aop', 'anti_outer', 'anti_outer_product', 'anti_wedge_product', 'anti_inner', 'aip', 'anti_inner_product',
	'anti_scalar', 'asp', 'adp', 'anti_dot', 'anti_dot_product', 'anti_scalar_product',
	'left_interior', 'lip', 'left_interior_product', 'right_interior', 'rip', 'right_interior_product',
	'anti_left_interior', 'alip', 'anti_left_interior_product', 'anti_right_interior', 'arip', 'anti_right_interior_product',
	'commutator_anti', 'commutator_anti_product', 'anti_commutator_anti', 'anti_commutator_anti_product', 'anti_reverse_product']
ANTI_CORE = ['regressive', 'anti_product', 'anti_wedge', 'anti_inner', 'anti_scalar', 'left_interior', 'right_interior',
	'anti_left_interior', 'anti_right_interior', 'commutator_anti', 'anti_commutator_anti', 'anti_reverse_product']
ANTI_METHODS = ['anti_product', 'anti_wedge', 'regressive', 'anti_inner', 'commutator_anti', 'anti_commutator_anti',
	'commutator_anti_product', 'anti_commutator_anti_product', 'anti_reverse_product']
TIED2 = ['squared', 'symmetric_reverse_product', 'symmetric_involute_product', 'symmetric_conjugate_product',
	'symmetric_study_conjugate_product', 'symmetric_scalar_negation_product', 'symmetric_pseudoscalar_negation_product']
TIED3 = ['cubed', 'inverse_factor', 'inverse_factor_alt']
TIED4 = ['inverse_factor_completed', 'inverse_factor_completed_alt']
ARITY = dict([(o, 1) for o in UNARY] + [(o, 2) for o in GRADED + FUSED + ANTI + ['product', 'n_product', 'gp', 'geometric_product']])
# positions of the building subspaces among the arguments
POS = dict([(o, (0, 0)) for o in TIED2 + ['euclidian_factorization', 'study_norm_squared']] + [(o, (0, 0, 0)) for o in TIED3] + [(o, (0, 0, 0, 0)) for o in TIED4]
	+ [(o, (0, 1, 0)) for o in ('full_sandwich', 'sandwich', 'reverse_sandwich', 'transform', 'inverse_transform')] + [('inertia', (0, 0, 1))])


def mv_method(name, *a):
	"""Apply through the multivector interface"""
	ops = {'^': lambda x, y: x ^ y, '|': lambda x, y: x | y, '&': lambda x, y: x & y, '*': lambda x, y: x * y,
		'~': lambda x: ~x, '>>': lambda x, y: x >> y, '<<': lambda x, y: x << y}
	if name in ops:
		return ops[name](*a)
	return getattr(a[0], name)(*a[1:])


SPECNAME = {'^': 'wedge', '|': 'inner', '&': 'regressive', '*': 'product', '~': 'reverse', '>>': 'sandwich', '<<': 'reverse_sandwich',
	'trivector_product': 'trivector_product'}


def grades_of(sub):
	return sorted({bin(b).count('1') for b in blades(sub)})


def wide_sub(rng, ga):
	"""A random subspace of 257 up to 600 blades, of 9 or more generators"""
	n = 2 ** ga.n_dimensions
	return ga.subspace.from_blades(sorted(rng.sample(range(n), rng.randint(257, min(n, 600)))))


def needs(name, n):
	"""Dimension an operator needs to exist"""
	return {'bivector_product': 2, 'trivector_product': 3, 'euclidian_factorization': 2}.get(name, 0) <= n


def small_sigs(rng, deep):
	"""All signatures of 1-3 generators, and some (all when deep) of 4"""
	s = [x for n in (1, 2, 3) for x in all_sigs(n)]
	return s + (all_sigs(4) if deep else sample_sigs(rng, 4, 12))


def make_ctx(kind, alg, **k):
	"""A context of any backend / execution strategy"""
	b, _, o = kind.partition(':')
	if b == 'numpy':
		from numga.backend.numpy import context, operator
		ot = {'': operator.NumpyEinsumOperator, 'einsum': operator.NumpyEinsumOperator, 'sparse': operator.NumpySparseOperator}[o.split('/')[0]]
		dt = {'f4': np.float32, 'i8': np.int64}.get(o.partition('/')[2], np.float64)
		return context.NumpyContext(alg, otype=ot, dtype=dt)
	if b == 'jax':
		import jax
		jax.config.update('jax_enable_x64', True)
		from numga.backend.jax import context, operator
		ot = {'dense': operator.JaxDenseOperator, 'einsum': operator.JaxEinsumOperator, 'sparse': operator.JaxSparseOperator}[o.split('/')[0]]
		import jax.numpy as jnp
		dt = {'f4': jnp.float32}.get(o.partition('/')[2], jnp.float64)
		return context.JaxContext(alg, otype=ot, dtype=dt)
	if b == 'torch':
		import torch
		torch.set_num_threads(1)
		from numga.backend.torch import context, operator
		ot = {'einsum': operator.TorchEinsumOperator, 'sparse': operator.TorchSparseOperator}[o.split('/')[0]]
		dt = {'f4': torch.float32}.get(o.partition('/')[2], torch.float64)
		return context.TorchContext(alg, otype=ot, dtype=dt)
	if b == 'python':
		from numga.backend.python.context import PythonContext
		return PythonContext(alg)
	raise ValueError(kind)


def layouts(rng, v, ctx=None):
	"""The same numbers in another memory layout"""
	v = np.array(v)
	k = rng.randrange(6) if v.ndim else 6
	if k == 0:
		return np.asfortranarray(v)
	if k == 1:
		w = np.zeros(tuple(2 * n for n in v.shape), dtype=v.dtype) + 7
		w[tuple(slice(None, None, 2) for _ in v.shape)] = v
		return w[tuple(slice(None, None, 2) for _ in v.shape)]
	if k == 2:
		w = v[tuple(slice(None, None, -1) for _ in v.shape)].copy()
		return w[tuple(slice(None, None, -1) for _ in v.shape)]
	if k == 3 and v.ndim > 1:
		return np.ascontiguousarray(np.moveaxis(v, -1, 0)).transpose(tuple(range(1, v.ndim)) + (0,))
	if k == 4 and v.ndim > 1:
		p = list(range(v.ndim))
		rng.shuffle(p)
		return np.ascontiguousarray(v.transpose(p)).transpose(np.argsort(p))
	return np.ascontiguousarray(v)


SHAPES = [(), (1,), (2,), (3,), (2, 3), (1, 3), (2, 1), (3, 1, 2), (0,), (2, 0), (1, 1, 1)]


def compatible_shapes(rng, k):
	"""k batch shapes that broadcast together"""
	out = rng.choice([(), (2,), (3,), (2, 3), (2, 2), (1, 2), (2, 3, 2), (0,), (2, 0), (4, 1)])
	res = []
	for _ in range(k):
		h = list(out[rng.randint(0, len(out)):] if rng.random() < 0.5 else out)
		h = [n if rng.random() < 0.75 else 1 for n in h]
		res.append(tuple(h))
	return res


def ints(rng, shape, m=3):
	n = int(np.prod(shape, dtype=int))
	return np.array([rng.randint(-m, m) for _ in range(n)], dtype=float).reshape(shape)


def scaled(x, e):
	"""x times 2^e, which is exact"""
	return x.context.multivector(values=x.values * 2. ** e, subspace=x.subspace) if e else x


def at_scale(s, name, xs, f, deg, tol, e, indeg=None, note='', **k):
	"""f(*xs), a homogeneous function of its arguments, recorded from arguments scaled by powers of two: applied to
	2^(e indeg) x it gives 2^(e deg) times what it gives for x"""
	ys = [scaled(x, d * e) for x, d in zip(xs, indeg or [1] * len(xs))]

	def run():
		r = f(*ys)
		if isinstance(r, tuple):
			return tuple(scaled(y, -d * e) for y, d in zip(r, deg))
		return scaled(r, -deg[0] * e)
	return s.rel(name, xs, run, tol, note=f'{note}, of arguments scaled by 2^{e}', **k)


def rand_scale(rng, hi=24):
	return rng.choice([-1, 1]) * rng.randint(8, hi)


def large_batches(s, ctx, rng, dense, i):
	"""Operations on batches of hundreds to thousands of elements, checked at some of them"""
	ga = ctx.algebra
	n = ga.n_dimensions
	L = rng.choice([600, 1030, 4100, 9200][0 if i % 3 == 1 else 2:])
	h = [(L // 4, 4), (L,), (3, L // 3), (L,), (2, L // 2), (L // 4, 2, 2)][i % 6]
	N = int(np.prod(h))
	idx = np.array(sorted({0, N - 1} | {rng.randrange(N) for _ in range(5)}))

	def take(m):
		v = array(m.values)
		if v.shape[:-1] != h:
			raise ValueError(f'batch {v.shape[:-1]} instead of {h}')
		v = np.broadcast_to(v, h + v.shape[-1:]).reshape(N, -1)[idx]
		return Given(v, m.subspace)
	class Given:
		def __init__(self, values, subspace):
			self.values, self.subspace = values, subspace
	A, B = [rand_sub(rng, ga, 1, 4) for _ in range(2)]
	hb = [h[1:], h, (1,) * len(h), h, (), h[1:], h, h[:-1] + (1,), (1,) + h[1:]][i % 9]
	x, y = dense(A, h), dense(B, hb)
	rx, ry = s.new(take(x)), s.new(take_any(y, h, N, idx, Given))
	d = f'batches {h} {hb}'
	for name in rng.sample([o for o in GRADED_METHODS + ANTI_METHODS if needs(o, n)] + ['*', '^', '|', '&', 'reverse_product'], 4):
		s.op(SPECNAME.get(name, name), [rx, ry], lambda: take(mv_method(name, x, y)), note=f'{name} on {d}')
	s.op('add', [rx, ry], lambda: take(x + y), note=f'+ on {d}')
	s.op('sub', [ry, rx], lambda: take(y - x), note=f'- on {d}')
	s.op('sandwich', [rx, ry, rx], lambda: take(x >> y), q=grades_of(B), note=f'>> on {d}')
	for name in rng.sample(['reverse', 'involute', 'conjugate', 'dual', 'dual_inverse', 'squared', 'symmetric_reverse_product'], 3):
		s.op(name, [rx] * (2 if name in TIED2 else 1), lambda: take(getattr(x, name)()), note=f'{name} on {d}')
	c = rng.choice([-2, 3])
	s.op('product', [rx, s.raw([0], [c])], lambda: take(x * c), note=f'* {c} on {d}')
	s.op('identity', [rx], lambda: take(x), note='operand unchanged')
	# sums and selections of them
	C = rand_sub(rng, ga, 1, 2)
	L = rng.choice([140, 300, 520])
	z = dense(C, (L,))
	rz = s.new(z)
	s.bat('sum', [rz], lambda: z.sum(0), {'axes': [0]}, note=f'sum of {L}')
	i = rng.randint(100, L)
	s.bat('index', [rz], lambda: z[i - L:i:3], {'idx': idx_json(slice(i - L, i, 3))}, note=f'slice of {L}')
	s.bat('concatenate', [rz, rz], lambda: z.concatenate(z, axis=0), {'axis': 0}, note=f'concatenate {L}')


def take_any(m, h, N, idx, G):
	v = np.broadcast_to(array(m.values), h + (len(m.subspace),)).reshape(N, -1)
	return G(v[idx], m.subspace)


def idx_json(idx, ndim=None):
	"""Python index expression as items of BatchOps.Index"""
	idx = idx if isinstance(idx, tuple) else (idx,)
	out = []
	for i in idx:
		if i is None:
			out.append({'t': 'n'})
		elif isinstance(i, slice):
			d = {'t': 's', 'c': 1 if i.step is None else i.step}
			if i.start is not None:
				d['a'] = i.start
			if i.stop is not None:
				d['b'] = i.stop
			out.append(d)
		elif isinstance(i, (int, np.integer)):
			out.append({'t': 'i', 'n': int(i)})
		else:
			i = np.asarray(i)
			out.append({'t': 'm', 'v': [int(x) for x in i]} if i.dtype == bool else {'t': 'a', 'v': [int(x) for x in i]})
	return out


def rand_index(rng, h, adv=True, steps=True, dup=True):
	"""A random index of batch shape h (as python object)"""
	items, used_adv, used_int = [], False, False
	n = rng.randint(1, len(h)) if h else 0
	for k in range(n):
		L = h[k]
		c = rng.random()
		if rng.random() < 0.1:
			items.append(None)
		if c < 0.3 and L > 0 and not used_adv:
			items.append(rng.randint(-L, L - 1))
			used_int = True
		elif c < 0.55 and adv and not used_adv and not used_int and L > 0:
			used_adv = True
			if rng.random() < 0.5:
				items.append(np.array([rng.randint(-L, L - 1) for _ in range(rng.randint(1, 3))] if dup else rng.sample(range(L), rng.randint(1, L))))
			else:
				items.append(np.array([rng.random() < 0.6 for _ in range(L)], dtype=bool))
		else:
			f = lambda: rng.choice([None, rng.randint(-L - 1, L + 1)])
			items.append(slice(f(), f(), rng.choice([None, 1, 2, -1, -2]) if steps else rng.choice([None, 1, 2])))
	if used_adv and any(i is None for i in items):
		items = [i for i in items if i is not None]
	if len(items) == 1 and rng.random() < 0.7:
		return items[0]
	return tuple(items)


def batch_helpers(s, ctx, rng, x, rx, k, kinds=None, adv=True, steps=True):
	"""Exercise the batch helpers of multivector x held in register rx"""
	h = tuple(x.shape) if not isinstance(x.values, list) else ()
	sub = x.subspace
	dup = lambda shape: (lambda w: (s.new(w), w))(ctx.multivector(values=ints(rng, tuple(shape) + (len(sub),)), subspace=sub))
	kinds = kinds or ['index', 'set', 'reshape', 'flatten', 'concatenate', 'sum', 'mean', 'rearrange', 'repeat', 'take_along_axis', 'copy']
	for _ in range(k):
		op = rng.choice(kinds)
		if op in ('index', 'set') and not h:
			op = 'copy'
		if op == 'index':
			i = rand_index(rng, h, adv, steps)
			s.bat('index', [rx], lambda: x[i], {'idx': idx_json(i)}, note=f'x[{i}] of batch {h}')
		elif op == 'set':
			i = rand_index(rng, h, adv, steps, dup=isinstance(x.values, np.ndarray))
			try:
				shape = np.zeros(h)[i].shape
			except Exception:
				continue
			shape = rng.choice([shape, (), shape[-1:]])
			rw, w = dup(shape)
			s.bat('set', [rx, rw], lambda: x.at[i].set(w if rng.random() < 0.7 else w.values), {'idx': idx_json(i)}, note=f'x.at[{i}].set of batch {h}')
		elif op == 'reshape':
			n = int(np.prod(h, dtype=int))
			opts = [(n,), (1, n), (n, 1), (-1,)] + ([(2, n // 2), (-1, 2)] if n % 2 == 0 and n else [])
			if n == 0:
				opts = [(n,), (1, n), (0, 3)]
			sh = rng.choice(opts)
			s.bat('reshape', [rx], lambda: x.reshape(sh), {'shape': list(sh)}, note=f'reshape {h} to {sh}')
		elif op == 'flatten':
			s.bat('flatten', [rx], lambda: x.flatten(), note=f'flatten {h}')
		elif op == 'concatenate' and h:
			ax = rng.randrange(len(h))
			rw, w = dup(tuple(rng.randint(0, 3) if i == ax else n for i, n in enumerate(h)))
			s.bat('concatenate', [rx, rw], lambda: x.concatenate(w, axis=ax), {'axis': ax}, note=f'concatenate {h} {w.shape} axis {ax}')
		elif op in ('sum', 'mean') and h:
			axes = sorted(rng.sample(range(len(h)), rng.randint(1, len(h))))
			n = int(np.prod([h[a] for a in axes], dtype=int))
			if op == 'mean' and n == 0:
				continue
			y, ry = x, rx
			if op == 'mean':
				y = x * n
				ry = s.new(y)
			a = axes[0] if len(axes) == 1 else tuple(axes)
			s.bat(op, [ry], lambda: getattr(y, op)(a), {'axes': axes}, note=f'{op} of batch {h} over {a}')
		elif op in ('rearrange', 'repeat') and h:
			nm = 'abcdef'[:len(h)]
			sizes = dict(zip(nm, h))
			frm, to = [[c] for c in nm], [c for c in nm]
			rng.shuffle(to)
			lhs, kw = ' '.join(nm) + ' z', {}
			if op == 'repeat':
				sizes['r'] = kw['r'] = rng.randint(1, 3)
				to.insert(rng.randint(0, len(to)), 'r')
			groups = []
			for c in to:
				if groups and rng.random() < 0.4 and sizes[c] and all(sizes[g] for g in groups[-1]):
					groups[-1].append(c)
				else:
					groups.append([c])
			rhs = ' '.join(g[0] if len(g) == 1 else '(' + ' '.join(g) + ')' for g in groups) + ' z'
			pat = f'{lhs} -> {rhs}'
			s.bat(op, [rx], lambda: getattr(x, op)(pat, **kw), {'from': frm, 'to': groups, 'sizes': sizes}, note=f'{op} {pat} {kw} of batch {h}')
		elif op == 'take_along_axis' and h and all(h):
			ax = rng.randrange(len(h))
			ih = tuple(rng.randint(1, 3) if i == ax else n for i, n in enumerate(h))
			idx = np.array([rng.randint(0, h[ax] - 1) for _ in range(int(np.prod(ih)))]).reshape(ih)
			p = {'shape': list(ih), 'idx': [int(i) for i in idx.ravel()], 'axis': ax}
			if hasattr(x.values, 'detach'):
				import torch
				idx = torch.asarray(idx)
			s.bat('take_along_axis', [rx], lambda: x.take_along_axis(idx, ax), p, note=f'take_along_axis {ih} of {h} axis {ax}')
		elif op == 'copy':
			s.bat('copy', [rx], lambda: x.copy(), {}, note='copy')
	# the source is unchanged
	s.op('identity', [rx], lambda: x, note='source unchanged')


def isolated(driver, name, **args):
	"""Sessions recorded in a process of its own, for code that changes the library it is imported into"""
	import subprocess, sys, json
	here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
	code = ('import sys, json; from harness import rec; rec.load(); import importlib; m = importlib.import_module("harness.drivers." + sys.argv[1])\n'
		'for s in getattr(m, sys.argv[2])(**json.loads(sys.argv[3])):\n\tprint("SESSION " + json.dumps(s.out()))')
	p = subprocess.run([sys.executable, '-c', code, driver, name, json.dumps(args)], cwd=here, capture_output=True, text=True, timeout=600)
	n = 0
	for l in p.stdout.splitlines():
		if l.startswith('SESSION '):
			n += 1
			yield json.loads(l[8:])
	if p.returncode:
		raise RuntimeError(p.stderr[-3000:])
