"""C15: sessions generated by MCSession.tla (30 actions over four contexts: inputs, shared constants, operations, repeated
operations, real valued functions, views, functional updates, switches of execution strategy, looks at earlier registers) are
replayed on the library under several histories: in a fresh process, in a fresh process with unrelated work on other algebras,
dtypes, strategies and batch shapes in between, and with the contexts one after another in the process that ran all sessions
before.  Contexts of a session share algebra objects, signatures, or nothing but the dimension.  The trace specification computes
every multilinear result from its own registers, keeps every register and constant as it was born, and requires everything
computed from the same values in the same configuration to be the same in type and value over all histories."""
import hashlib, json as _json
import multiprocessing as mp
from ..common import *

ASSUMPTIONS = ['single threaded use']
CAP = 30
REAL_TOL = 2000


def models(tier):
	q = tier == 'quick'
	return [dict(module='MCSession', cfg='MCSession.cfg' if q else 'MCSessionDeep.cfg', workers=4, timeout=700),
		dict(module='MCSession', cfg='MCSessionLong.cfg', workers=1, simulate=120 if q else 1500, depth=31, generate='sessions', timeout=600)]


def jobs(tier, seed, generated):
	rng = random.Random(seed)
	beh = [b for b in generated['sessions'] if len(b) >= 20]
	n = 16 if tier == 'quick' else 120
	J = [('sessions', dict(behaviours=p, seed=rng.randrange(1 << 30), foreign=True)) for p in chunks(beh[:n], 8)]
	J += [('sessions', dict(behaviours=p, seed=rng.randrange(1 << 30), foreign=False)) for p in chunks(beh[n:], 8 if tier == 'quick' else 32)]
	return J


def plan(rng, foreign):
	"""The four contexts of a session: algebra objects and how each context uses one"""
	n = rng.choice([2, 2, 3, 3, 3, 4])
	a, b = sample_sigs(rng, n, 1)[0], rng.choice(all_sigs(n))
	algs = [a, b, a]                        # objects 0 and 2 are equal but distinct
	kinds = ['numpy:einsum', 'numpy:sparse', 'numpy:einsum/f4', 'numpy:sparse/f4', 'numpy:einsum/i8']
	ctx = [(0, 'numpy:einsum'), (0, rng.choice(['numpy:einsum/f4', 'numpy:sparse/f4', 'numpy:sparse', 'numpy:einsum'])), (1, rng.choice(kinds)), (2, rng.choice(kinds))]
	if foreign:
		ctx[rng.choice([1, 3])] = (rng.choice([0, 2]), rng.choice(['torch:einsum', 'torch:sparse', 'jax:einsum', 'jax:sparse', 'jax:dense', 'torch:einsum/f4', 'jax:einsum/f4']))
	rng.shuffle(ctx)
	return [list(x) for x in algs], ctx


def digest(mv):
	v = np.ascontiguousarray(array(mv.values))
	h = hashlib.sha1(v.tobytes()).hexdigest()[:16]
	return f'{type(mv).__name__} {mv.values.dtype} {list(v.shape)} {blades(mv.subspace)} {list(mv.algebra.description.signature)} {h}'


def typed(mv):
	v = array(mv.values)
	return f'{type(mv).__name__} {mv.values.dtype} {list(v.shape)} {blades(mv.subspace)}'


class Run(Ses):
	"""One history of one session"""
	def __init__(self, behaviour, seed, algs, ctx, variant, n0):
		super().__init__(algs[0], 'x')
		self.n, self.seed, self.variant, self.beh = n0, seed, variant, behaviour
		self.algs = [algebra(s) for s in algs]
		self.kinds = ctx
		self.ctx = [make_ctx(k, self.algs[a]) for a, k in ctx]
		self.g = 1
		self.regs = {}
		self.arrays = []
		self.extra = {}

	def add(self, e, note=''):
		super().add({**e, 'g': self.g}, f'{note} [history {self.variant}]')

	def rng(self, *key):
		return random.Random(f'{self.seed} {key}')

	# inputs
	def fresh(self, c, key, shape=None, sub=None):
		"""A seeded input of context c: (multivector, spec register)"""
		rng = self.rng(*key)
		ctx = self.ctx[c]
		A = ctx.algebra
		if sub is None:
			sub = rng.choice([rand_sub(rng, A, 1, 8), rng.choice(named_subs(A)), A.subspace.vector(), A.subspace.even_grade(), A.subspace.bivector()])
		shape = rng.choice([(), (), (), (2,), (3,), (1,), (2, 1), (2, 3)]) if shape is None else shape
		v = ints(rng, tuple(shape) + (len(sub),))
		arr = v.astype(array(ctx.multivector.scalar([0]).values).dtype)
		if rng.random() < 0.3:
			arr = np.asfortranarray(arr)
		given = arr
		if 'torch' in self.kinds[c][1]:
			import torch
			given = torch.asarray(arr.copy())
		mv = ctx.multivector(values=given, subspace=sub)
		self.g = self.kinds[c][0] + 1
		r = self.new(mv)
		self.arrays.append((given, array(given).copy(), r))
		return mv, r

	def config(self, c):
		ctx = self.ctx[c]
		return f'{self.kinds[c][1]} {ctx.otype.__name__}'

	def memo(self, k, mv, tol=0):
		"""What key k denotes: a multivector, an exception, or several multivectors"""
		x = {'s': [], 'h': [], 'd': []}
		if isinstance(mv, Exception):
			t = f'raised {type(mv).__name__}'
		else:
			try:
				t = typed(mv)
				e = encr(mv, 256)
				if isinstance(e, str):
					t += f' {e}'
				else:
					x = e
				if not tol:
					t += ' ' + digest(mv)[-16:]
			except Exception as ex:
				t = f'not a multivector {type(mv).__name__}'
		self.add({'e': 'memo', 'k': k, 't': t, 'x': x, 'tol': tol}, f'memo {k}')

	def mtol(self, c):
		return 40000000 if '/f4' in self.kinds[c][1] else REAL_TOL

	def put(self, i, c, mv, r):
		"""Step i made a register: what it holds from now on"""
		self.regs[i] = (c, mv, r)
		if mv is not None and not isinstance(mv, Exception):
			self.memo(f'register {self.variant}.{i}', mv)

	def look(self, i):
		c, mv, r = self.regs[i]
		if mv is None:
			return
		self.g = self.kinds[c][0] + 1
		self.memo(f'register {self.variant}.{i}', mv)
		if r:
			self.op('identity', [r], lambda: mv, note=f'register {i} unchanged')

	def operand(self, i, key, ints_only=True, cap=CAP):
		"""Register i, or a substitute where it holds nothing suitable"""
		c, mv, r = self.regs[i]
		self.g = self.kinds[c][0] + 1
		if mv is not None and (r or not ints_only):
			v = array(mv.values)
			if v.size <= 100 and (v.size == 0 or np.abs(v).max() <= cap):
				return c, mv, r
		return (c, *self.fresh(c, key))

	# steps; registers of the behaviour are numbered in order of creation
	def run(self, order=None, noise=None):
		makes = {}
		for i, e in enumerate(self.beh):
			if e['a'] not in ('switch', 'look'):
				makes[len(makes) + 1] = i
		self.reg_step = makes
		self.step_ctx = {}
		for i, e in enumerate(self.beh):
			self.step_ctx[i] = e['c'] - 1 if 'c' in e else self.step_ctx[makes[e['x'][0]]]
		idx = list(range(len(self.beh)))
		if order:
			idx.sort(key=lambda i: order.index(self.step_ctx[i]))
		for i in idx:
			if noise:
				self.noise(noise)
			self.step(i, self.beh[i])
		for i in idx:
			if i in self.regs:
				self.look(i)
		for given, copy, r in self.arrays:
			self.add({'e': 'text', 'op': 'same', 'p': {'_': 0}, 'v': {'n': int(np.array_equal(array(given), copy))}}, 'the array an input was made of is unchanged')
		return self.ev, self.note, self.n

	def src(self, e, j=0):
		return self.reg_step[e['x'][j]]

	def step(self, i, e):
		a = e['a']
		c = self.step_ctx[i]
		ctx = self.ctx[c]
		self.g = self.kinds[c][0] + 1
		if a == 'new':
			self.put(i, c, *self.fresh(c, (i, 'new')))
		elif a == 'const':
			names = ctx.algebra.description.basis_names
			rng = self.rng(e['k'], 'const')
			w = rng.sample(range(len(names)), min(len(names), e['k']))
			word = ''.join(names[j] for j in w)
			mv = self.call(lambda: getattr(ctx.multivector, word))
			s = (-1) ** sum(w[p] > w[q] for p in range(len(w)) for q in range(p + 1, len(w)))
			r = self.raw([sum(1 << j for j in w)], np.array([s]))
			self.op('identity', [r], lambda: mv, note=f'constant {word}')
			self.put(i, c, None if isinstance(mv, Exception) else mv, r)
		elif a == 'switch':
			other = {'NumpyEinsumOperator': 'NumpySparseOperator', 'NumpySparseOperator': 'NumpyEinsumOperator', 'JaxEinsumOperator': 'JaxSparseOperator',
				'JaxSparseOperator': 'JaxDenseOperator', 'JaxDenseOperator': 'JaxEinsumOperator', 'TorchEinsumOperator': 'TorchSparseOperator', 'TorchSparseOperator': 'TorchEinsumOperator'}
			import sys
			m = sys.modules[ctx.otype.__module__]
			ctx.otype = getattr(m, other[ctx.otype.__name__])
		elif a == 'look':
			if self.src(e) in self.regs:
				self.look(self.src(e))
		elif a == 'op':
			self.regs[i] = (c, None, None)
			self.operation(i, i, e['op'], e)
		elif a == 'real':
			self.regs[i] = (c, None, None)
			self.real(i, i, e['op'], e)
		elif a == 'again':
			self.regs[i] = (c, None, None)
			first = self.beh[e['i'] - 1]
			(self.operation if first['a'] == 'op' else self.real)(i, e['i'] - 1, e['op'], first)
		elif a == 'view':
			self.view(i, e)
		elif a == 'copy':
			self.copy_(i, e)

	def operation(self, i, origin, op, e):
		"""A multilinear operation; a repetition (origin < i) uses the operands of the original"""
		ops = self.extra.get(origin)
		if ops is None:
			c, x, rx = self.operand(self.src(e), (origin, 'x'), cap=12 if op in ('cubed', 'inverse_factor', 'sandwich', 'reverse_sandwich', 'full_sandwich', 'transform') else CAP)
			y = ry = None
			if len(e['x']) > 1:
				_, y, ry = self.operand(self.src(e, 1), (origin, 'y'))
				try:
					np.broadcast_shapes(tuple(x.shape), tuple(y.shape))
				except ValueError:
					y, ry = self.fresh(c, (origin, 'y2'), ())
			ops = self.extra[origin] = (c, x, rx, y, ry)
		c, x, rx, y, ry = ops
		self.g = self.kinds[c][0] + 1
		q, args = None, [rx] if y is None else [rx, ry]
		name = op
		if op == 'neg':
			f = lambda: -x
		elif op in ('add', 'sub'):
			f = (lambda: x + y) if op == 'add' else (lambda: x - y)
		elif op in ('select', 'restrict'):
			q, args = blades(y.subspace), [rx]
			f = lambda: getattr(x, op + '_subspace')(y.subspace)
		elif op in ('squared', 'symmetric_reverse_product', 'symmetric_involute_product', 'symmetric_conjugate_product'):
			args = [rx, rx]
			f = lambda: getattr(x, op)()
		elif op in ('cubed', 'inverse_factor'):
			args = [rx] * 3
			f = (lambda: x.inverse_factor()) if op == 'inverse_factor' else (lambda: x.operator.cubed(x.subspace)(x, x, x))
		elif op in ('sandwich', 'reverse_sandwich', 'full_sandwich', 'transform'):
			args = [rx, ry, rx]
			q = grades_of(y.subspace) if op != 'full_sandwich' else None
			if op == 'transform':
				par = {k % 2 for k in grades_of(x.subspace)}
				if len(par) != 1:
					name = op = 'sandwich'
				else:
					name = 'transform_odd' if par == {1} else 'transform_even'
			f = lambda: getattr(x, op)(y)
		elif y is None:
			f = lambda: getattr(x.operator, op)(x.subspace)(x)
		elif self.rng(origin, 'route').random() < 0.5 and hasattr(x, op):
			f = lambda: getattr(x, op)(y)
		else:
			f = lambda: getattr(x.operator, op)(x.subspace, y.subspace)(x, y)
		key = f'{self.config(c)} {op} {digest(x)}' + (f' {digest(y)}' if y is not None else '')
		r, res = self.op(name, args, f, q=q, keep=True, note=f'{op} of register {e["x"]}')
		self.memo(key, res)
		if not isinstance(res, Exception):
			ok = array(res.values).size <= 300
			self.put(i, c, res if ok else None, r if ok else None)

	def real(self, i, origin, op, e):
		ops = self.extra.get(origin)
		if ops is None:
			c, x, _ = self.operand(self.src(e), (origin, 'x'), ints_only=False)
			ctx = self.ctx[c]
			S = ctx.algebra.subspace
			fl = lambda m: m * 0.125
			if op in ('exp', 'exp_quadratic', 'exp_linear', 'decompose_invariant', 'decompose_polar'):
				x = x.select_subspace(S.bivector())
				x = x / 16
			elif op in ('motor_square_root', 'motor_log', 'motor_translator', 'motor_rotor', 'normalize_motor', 'bound', 'log'):
				x = x.select_subspace(S.even_grade()) / 16 + 1
			elif op == 'square_root':
				x = x.select_subspace(S.scalar()).abs() + 1
			elif self.rng(origin, 'f').random() < 0.6:
				x = x + 5
			ops = self.extra[origin] = (c, x)
			self.memo(f'{self.config(c)} operand {self.seed} {origin}', x, self.mtol(c))
		c, x = ops
		self.g = self.kinds[c][0] + 1
		before = digest(x)
		V = self.ctx[c].algebra.subspace.vector()
		forms = {'divide': lambda: x / x, 'scalar_divide': lambda: x / 4, 'log': lambda: x.exp() if False else x.motor_log(), 'normalize_motor': lambda: normalize_motor(x),
			'bound': lambda: x.sandwich_map(V)(x.context.multivector.vector()), 'norm_squared': lambda: x.norm_squared()}
		f = forms.get(op) or (lambda: getattr(x, op)())
		res = self.call(f)
		key = f'{self.config(c)} {op} {before}'
		parts = res if isinstance(res, tuple) else (res,)
		for j, p in enumerate(parts):
			self.memo(f'{key} {j}' if j else key, p, self.mtol(c))
		self.memo(f'operand {before}', x)
		if not isinstance(res, Exception):
			self.put(i, c, parts[0] if hasattr(parts[0], 'subspace') and array(parts[0].values).size <= 300 else None, None)

	def view(self, i, e):
		c, x, rx = self.operand(self.src(e), (i, 'x'))
		op = e['op']
		h = [int(k) for k in x.shape]
		if op in ('reshape', 'flatten') and not isinstance(x.values, np.ndarray):
			op = 'index' if h else 'pos'
		if op == 'index' and not h:
			op = 'pos'
		if op == 'pos':
			r, res = self.op('identity', [rx], lambda: +x, keep=True, note='+x')
		elif op == 'self_select':
			r, res = self.op('select', [rx], lambda: x.select_subspace(x.subspace), q=blades(x.subspace), keep=True, note='select its own subspace')
		elif op == 'index':
			r, res = self.bat('index', [rx], lambda: x[:], {'idx': idx_json(slice(None))}, keep=True)
		elif op == 'reshape':
			sh = tuple([1] + h)
			r, res = self.bat('reshape', [rx], lambda: x.reshape(sh), {'shape': list(sh)}, keep=True)
		else:
			r, res = self.bat('flatten', [rx], lambda: x.flatten(), keep=True)
		self.put(i, c, None if isinstance(res, Exception) else res, r)

	def copy_(self, i, e):
		c, x, rx = self.operand(self.src(e), (i, 'x'))
		op = e['op']
		h = tuple(int(k) for k in x.shape)
		rng = self.rng(i, 'copy')
		if not isinstance(x.values, np.ndarray) and op not in ('copy', 'set', 'sum'):
			op = 'set'
		if not h and op != 'copy':
			x, rx = self.fresh(c, (i, 'batch'), (3,))
			h = (3,)
		if op == 'set':
			j = rng.randrange(h[0])
			w, rw = self.fresh(c, (i, 'w'), h[1:], x.subspace)
			r, res = self.bat('set', [rx, rw], lambda: x.at[j].set(w), {'idx': idx_json(j)}, keep=True, note='at.set')
		elif op == 'copy':
			r, res = self.bat('copy', [rx], lambda: x.copy(), {}, keep=True)
		else:
			batch_helpers(self, self.ctx[c], rng, x, rx, 2, kinds=[op])
			r = res = None
		self.put(i, c, None if isinstance(res, Exception) else res, r)

	# unrelated work
	def noise(self, rng):
		for _ in range(rng.randint(0, 2)):
			c = rng.randrange(len(self.ctx))
			how = rng.random()
			if how < 0.5:
				ctx = self.ctx[c]
			else:
				n = len(self.algs[0].description.signature)
				sig = rng.choice(all_sigs(n)) if how < 0.8 else tuple(self.algs[0].description.signature)
				ctx = make_ctx(rng.choice(['numpy:einsum', 'numpy:sparse', 'numpy:einsum/f4', 'numpy:einsum/i8']), rng.choice([algebra(sig), self.algs[0]]) if how < 0.8 else self.algs[rng.randrange(3)])
			def work():
				A = ctx.algebra
				one = lambda: ctx.multivector(values=ints(rng, rng.choice([(), (2,), (3,)]) + (len(s),)), subspace=s) if (s := rng.choice([rand_sub(rng, A, 0, 6), rng.choice(named_subs(A))])) is not None else None
				x, y = one(), one()
				k = rng.randrange(7)
				if k == 0:
					return getattr(x.operator, rng.choice(UNARY))(x.subspace)(x)
				if k == 1:
					return getattr(x, rng.choice(['inverse', 'norm', 'normalized', 'exp', 'motor_log', 'square_root', 'motor_square_root', 'inverse_shirokov']))()
				if k == 2:
					w = ''.join(rng.sample(A.description.basis_names, rng.randint(1, 2)))
					z = getattr(ctx.multivector, w)
					return z * 3, -z, z + x, z.squared()
				if k == 3:
					return x.at[0].set(7), x.copy(), x + y
				if k == 4:
					return getattr(x, rng.choice(['sandwich', 'full_sandwich', 'transform']))(y)
				return getattr(x.operator, rng.choice(GRADED_CORE + ANTI_CORE + FUSED + ['product']))(x.subspace, y.subspace)(x, y)
			self.call(work)


def normalize_motor(x):
	from numga.multivector.numerical_normalize import normalize_motor as f
	return f(x)


def history(conn, variant, beh, seed, algs, ctx, n0):
	"""In a process of its own"""
	try:
		from .. import rec
		rec.load()
		r = Run(beh, seed, algs, ctx, variant, n0)
		if variant == 'noise':
			out = r.run(noise=random.Random(seed))
		else:
			out = r.run()
		conn.send(('ok', out))
	except BaseException:
		import traceback
		conn.send(('error', traceback.format_exc()))
	finally:
		conn.close()


def apart(method, *a):
	m = mp.get_context(method)
	here, there = m.Pipe(False)
	p = m.Process(target=history, args=(there, *a))
	p.start()
	there.close()
	try:
		kind, out = here.recv()
	except EOFError:
		raise RuntimeError(f'history {a[0]} ended without a result')
	p.join()
	if kind == 'error':
		raise RuntimeError(out)
	return out


def sessions(behaviours, seed, foreign):
	"""Every session under its histories, as one trace"""
	import numga.backend.numpy.context, numga.multivector.extension
	rng = random.Random(seed)
	for b, beh in enumerate(behaviours):
		algs, ctx = plan(rng, foreign)
		sd = rng.randrange(1 << 30)
		s = Ses(algs[0], f'session {b} on {[sig_str(a) for a in algs]} {ctx}')
		n = 0
		how = 'spawn' if foreign else 'fork'
		for variant in ('fresh', 'noise', 'after'):
			if variant == 'after':
				r = Run(beh, sd, algs, ctx, variant, n)
				ev, note, n = r.run(order=[3, 1, 0, 2])
			else:
				ev, note, n = apart(how, variant, beh, sd, algs, ctx, n)
			s.ev += ev
			s.note += note
		yield {**s.out(), 'sigs': algs}
