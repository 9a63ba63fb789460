"""C08: operators as expression trees.  Random programs over operators of arity one to four (composition, partial binding,
several bindings at once, restriction, extension, sums, multiples, exact division, axis swaps, output and grade selection,
squeezing, summing an axis, symmetrisation, and operators passed where subspaces are expected) are run on the real operators;
each result is recorded on all tuples of argument blades, with its declared inputs and output, and compared with the value
Maps.tla computes from its own registers."""
from ..maps import *

LIMIT = 220      # tuples of argument blades per operator


def models(tier):
	return [dict(module='MCMaps', cfg='MCMaps.cfg', workers=4, timeout=600)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('programs', dict(dims=d, seed=rng.randrange(1 << 30), runs=25 if not deep else 250, k=20)) for d in ([1, 2], [2, 3], [2, 3], [3], [3], [3, 4], [4], [2, 3, 4])]
	J += [('factory', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6)) for p in chunks([x for n in (2, 3) for x in all_sigs(n)], 4)]
	J += [('scaled', dict(seed=rng.randrange(1 << 30), runs=4 if not deep else 30))]
	return J


def size(subs):
	return int(np.prod([len(s) for s in subs], dtype=int))


class Prog:
	def __init__(self, rng, sig, otype):
		from numga.backend.numpy import operator
		self.rng = rng
		ctx = np_ctx(algebra(sig), otype=getattr(operator, otype))
		self.s = MapSes(sig, f'operators {sig_str(sig)} {otype}', ctx)
		self.ga, self.F = ctx.algebra, ctx.algebra.operator
		self.n = len(sig)
		self.ops = []

	def sub(self, hi=4):
		return self.rng.choice(named_subs(self.ga)[:8]) if self.rng.random() < 0.2 else rand_sub(self.rng, self.ga, 1, hi)

	def keep(self, r, op):
		if r:
			self.ops.append((r, op))
		return r, op

	def base(self, name=None, subs=None):
		rng = self.rng
		name = name or rng.choice(['product', 'wedge', 'inner', 'reverse', 'involute', 'identity', 'dual', 'reverse_product', 'commutator', 'regressive',
			'left_contract', 'conjugate', 'anti_commutator', 'right_hodge_inverse', 'product', 'degenerate'])
		k = ARITY[name]
		subs = subs or [self.sub() for _ in range(k)]
		return self.factory(name, subs)

	def factory(self, name, args, q=None):
		"""args: subspaces or (register, operator)"""
		regs = [{'r': a[0]} if isinstance(a, tuple) else {'s': blades(a)} for a in args]
		vals = [a[1] if isinstance(a, tuple) else a for a in args]
		build = [vals[p] for p in sorted(set(POS[name]))] if name in POS else vals
		if name in POS:
			# building arguments in order of first use
			order = []
			for p in POS[name]:
				if p not in order:
					order.append(p)
			first = {p: vals[POS[name].index(p)] for p in order}
			build = [first[p] for p in sorted(order)]
		extra = []
		if q is not None and name in ('n_product', 'select', 'restrict'):
			extra = [self.ga.subspace.from_blades(sorted(q))]
		return self.keep(*self.s.map('factory', [], lambda: getattr(self.F, name)(*build, *extra), {'name': name, 'args': regs}, q=q,
			note=f'{name} of {[("op " + str([blades(x) for x in a[1].axes])) if isinstance(a, tuple) else blades(a) for a in args]}'))

	def step(self):
		rng, s = self.rng, self.s
		if len(self.ops) < 3 or rng.random() < 0.15:
			return self.base()
		r, op = rng.choice(self.ops)
		ins, out = op.inputs, op.output
		k = len(ins)
		if not len(out):
			return self.base()
		what = rng.choice(['bind', 'bind', 'fuse', 'slice', 'getitem', 'deslice', 'add', 'sub', 'neg', 'mul', 'div', 'swapaxes', 'select', 'grade',
			'squeeze', 'grade_selection', 'sum', 'symmetry', 'factory', 'factory', 'call', 'same'])
		m = lambda *a, **kw: self.keep(*s.map(*a, **kw))
		if what == 'bind' and k:
			axes = sorted(rng.sample(range(k), rng.randint(1, k)))
			gs = []
			for a in axes:
				# an operator whose output is this input
				c = [(x, y) for x, y in self.ops if y.output is ins[a]]
				if not c or rng.random() < 0.5:
					x, y = self.feeder(ins[a])
					if not x:
						return
					c = [(x, y)]
				gs.append(rng.choice(c))
			rest = [i for i in range(k) if i not in axes]
			new = [ins[i] for i in rest] + [x for _, g in gs for x in g.inputs]
			if size(new) > LIMIT or len(new) > 4 or any(not len(g.inputs) for _, g in gs):
				return
			if len(axes) == k and rng.random() < 0.5:
				f = lambda: op.bind(*[g for _, g in gs])
			else:
				order = list(zip(axes, gs))
				rng.shuffle(order)
				f = lambda: op.bind({a: g for a, (_, g) in order})
			return m('bind', [r] + [x for x, _ in gs], f, {'axes': axes}, note=f'bind axes {axes} of arity {k} with arities {[g.arity for _, g in gs]}')
		if what == 'fuse' and k:
			a = rng.randrange(k)
			x, y = self.feeder(ins[a])
			if not x or size(list(ins) + list(y.inputs)) > LIMIT * len(ins[a]) or k + y.arity > 5:
				return
			return m('fuse', [x, r], lambda: y.fuse(op, a), {'axis': a}, note=f'fuse arity {y.arity} into axis {a} of arity {k}')
		if what in ('slice', 'getitem') and k:
			pick = lambda sub: self.ga.subspace.from_blades(rng.sample(blades(sub), rng.randint(min(1, len(sub)), len(sub))))
			subs = [pick(x) for x in (op.axes if what == 'slice' else ins)[:rng.randint(1, k + (what == 'slice'))]]
			f = (lambda: op.slice(tuple(subs))) if what == 'slice' else (lambda: op[tuple(subs) if len(subs) > 1 or rng.random() < 0.5 else subs[0]])
			return m('slice', [r], f, {'subs': [blades(x) for x in subs]}, note=f'{what} {[blades(x) for x in subs]} of {[blades(x) for x in op.axes]}')
		if what == 'deslice' and k:
			big = [self.ga.subspace.from_blades(sorted(set(blades(x)) | set(blades(self.sub(2))))) for x in op.axes]
			if size(big[:-1]) > LIMIT:
				return
			return m('deslice', [r], lambda: op.deslice(tuple(big)), {'subs': [blades(x) for x in big]}, note=f'deslice {[blades(x) for x in op.axes]} to {[blades(x) for x in big]}')
		if what in ('add', 'sub') and k:
			# another operator on the same axes
			c = [(x, y) for x, y in self.ops if y.axes == op.axes]
			x, y = rng.choice(c)
			if rng.random() < 0.5:
				x, y = s.map('mul', [x], lambda: y * 3, {'n': 3})
			if not x:
				return
			return m(what, [r, x], (lambda: op + y if rng.random() < 0.7 else op.add(y)) if what == 'add' else (lambda: op - y))
		if what == 'neg':
			return m('neg', [r], lambda: -op)
		if what == 'mul':
			c = rng.choice([2, -1, 3, -2, 0, 5])
			return m('mul', [r], rng.choice([lambda: op * c, lambda: c * op, lambda: op.mul(c)]), {'n': c})
		if what == 'div':
			c = rng.choice([2, 3, -1])
			x, y = s.map('mul', [r], lambda: op * c, {'n': c})
			f = rng.choice([lambda: y.div(c), lambda: y.mul(1 / c)] if c == 2 else [lambda: y.div(c)])
			return m('div', [x], f, {'n': c}) if x else None
		if what == 'swapaxes' and k > 1:
			i, j = rng.sample(range(k), 2)
			return m('swapaxes', [r], lambda: op.swapaxes(i, j), {'i': i, 'j': j}, note=f'swapaxes {i} {j} of arity {k}')
		if what in ('select', 'grade'):
			if what == 'grade':
				g = rng.randint(0, self.n)
				t = self.ga.subspace.k_vector(g)
				return m('select', [r], lambda: op.select_grade(g), {'out': blades(t)}, note=f'select_grade {g}')
			t = self.sub(5)
			return m('select', [r], lambda: op.select_subspace(t), {'out': blades(t)}, note=f'select_subspace {blades(t)} of {blades(out)}')
		if what == 'squeeze':
			return m('squeeze', [r], lambda: op.squeeze())
		if what == 'grade_selection' and k:
			f = rng.choice([{'k': 'out', 'q': sorted(rng.sample(range(self.n + 1), rng.randint(1, self.n)))}, {'k': 'sum'}, {'k': 'below'}, {'k': 'last'}, {'k': 'parity'},
				{'k': 'arg', 'n': rng.randint(1, k), 'q': sorted(rng.sample(range(self.n + 1), rng.randint(1, self.n)))}])
			isin = lambda g: sum((g == x) for x in f['q']) > 0
			py = {'out': lambda *g: isin(g[-1]), 'sum': lambda *g: sum(g[:-1]) == g[-1], 'below': lambda *g: np.all(np.stack(np.broadcast_arrays(*[x <= g[-1] for x in g[:-1]])), axis=0),
				'last': lambda *g: g[-1] == g[-2], 'parity': lambda *g: (g[-1] + g[0]) % 2 == 0, 'arg': lambda *g: isin(g[f['n'] - 1])}[f['k']]
			return m('grade_selection', [r], lambda: op.grade_selection(py), {'f': f}, note=f'grade_selection {f}')
		if what == 'sum' and k > 1:
			a = rng.randrange(k)
			return m('sum_arg', [r], lambda: op.sum(a), {'axis': a}, note=f'sum axis {a} of arity {k}')
		if what == 'symmetry' and k > 1:
			groups = {}
			for i, x in enumerate(ins):
				groups.setdefault(id(x), []).append(i)
			groups = [g for g in groups.values() if len(g) > 1]
			if not groups:
				return self.tied()
			g = rng.choice(groups)
			g = rng.sample(g, rng.randint(2, min(3, len(g))))
			return m('symmetry', [r], lambda: op.symmetry(tuple(g)), {'axes': [i + 1 for i in g]}, note=f'symmetry {g} of arity {k}')
		if what == 'factory':
			name = rng.choice(UNARY + GRADED_CORE + FUSED + ANTI_CORE + ['product', 'product'])
			if not needs(name, self.n) or name == 'n_product':
				return
			if ARITY[name] == 1:
				return self.factory(name, [(r, op)])
			args = [(r, op), rng.choice([self.sub(3), rng.choice(self.ops)])]
			rng.shuffle(args)
			tot = [x for a in args for x in (a[1].inputs if isinstance(a, tuple) else [a])]
			if size(tot) > LIMIT or len(tot) > 4:
				return
			return self.factory(name, args)
		if what == 'call' and k:
			xs = [rand_mv(rng, s.ctx, x, rng.choice([(), (2,), (2, 1)]) if i == 0 else ()) for i, x in enumerate(ins)]
			rs = [s.new(x) for x in xs]
			s.mapcall('call', [r] + rs, lambda: s.ctx.operator(op)(*xs), note=f'apply to {[x.shape for x in xs]}')
		if what == 'same':
			return s.map('same', [r], lambda: op, note='operator unchanged')

	def feeder(self, target):
		"""An operator with output `target`"""
		rng = self.rng
		x, y = rng.choice(self.ops) if rng.random() < 0.5 else self.base()
		if not x:
			return None, None
		if len(y.inputs) == 0:
			return None, None
		return self.keep(*self.s.map('select', [x], lambda: y.select_subspace(target), {'out': blades(target)}))

	def tied(self):
		rng = self.rng
		a, b = self.sub(3), self.sub(3)
		name = rng.choice(['product', 'wedge', 'inner', 'reverse_product'])
		x = self.base(name, [a, a])
		if not x[0] or not len(x[1].output):
			return
		if rng.random() < 0.6 and size([a, a, a]) <= LIMIT:
			x = self.factory('product', rng.choice([[x, a], [a, x], [x, b], [b, x]]))
			if not x[0]:
				return
		r, op = x
		same = [i for i, y in enumerate(op.inputs) if y is a]
		g = rng.sample(same, rng.randint(2, min(3, len(same))))
		return self.keep(*self.s.map('symmetry', [r], lambda: op.symmetry(tuple(g)), {'axes': [i + 1 for i in g]}, note=f'symmetry {g} of arity {op.arity}'))


def programs(dims, seed, runs, k):
	rng = random.Random(seed)
	for i in range(runs):
		sig = sample_sigs(rng, rng.choice(dims), 1)[0]
		p = Prog(rng, sig, rng.choice(['NumpyEinsumOperator', 'NumpySparseOperator']))
		for _ in range(k):
			p.step()
		for r, op in rng.sample(p.ops, min(3, len(p.ops))):
			p.s.map('same', [r], lambda: op, note='operator unchanged')
		yield p.s


def factory(sigs, seed, k):
	"""Every operator of the factory with operators in place of its subspaces"""
	rng = random.Random(seed)
	for sig in sigs:
		p = Prog(rng, sig, 'NumpyEinsumOperator')
		n = len(sig)
		for _ in range(k):
			un = [x for x in UNARY if needs(x, n)]
			bi = [x for x in GRADED_CORE + FUSED + ANTI_CORE + ['product'] if needs(x, n)]
			two = p.base('product', [p.sub(2), p.sub(2)])
			one = p.base(rng.choice(un), [p.sub(3)])
			if not (two[0] and one[0]):
				continue
			for name in rng.sample(un, min(8, len(un))):
				p.factory(name, [rng.choice([two, one])])
			for name in rng.sample(bi, min(14, len(bi))):
				arg = [rng.choice([two, one, p.sub(2)]), rng.choice([two, one])]
				rng.shuffle(arg)
				q = None
				if name == 'n_product':
					q = sorted(rng.sample(range(2 ** n), rng.randint(1, 2 ** n)))
				p.factory(name, arg, q)
			for name in rng.sample(TIED2 + TIED3 + ['full_sandwich', 'inertia', 'reverse_sandwich', 'sandwich'], 6):
				x = p.base(rng.choice(['reverse', 'dual', 'involute', 'conjugate', 'identity']), [p.sub(3)])
				if not x[0]:
					continue
				args = [x] * len(POS[name])
				q = None
				if name in ('full_sandwich', 'reverse_sandwich', 'sandwich'):
					v = p.sub(3)
					args = [x, v, x]
					q = grades_of(v)
				if name == 'inertia':
					if n < 2:
						continue
					args = [x, x, p.sub(3)]
				p.factory(name, args, q)
			t = sorted(rng.sample(range(2 ** n), rng.randint(1, 2 ** n)))
			for name in ('select', 'restrict'):
				p.factory(name, [rng.choice([two, one])], t)
		yield p.s


def scaled(seed, runs):
	"""Large multiples, and what is made of them"""
	rng = random.Random(seed)
	for _ in range(runs):
		p = Prog(rng, sample_sigs(rng, 2, 1)[0], rng.choice(['NumpyEinsumOperator', 'NumpySparseOperator']))
		r, op = p.base()
		for _ in range(6):
			if not r:
				break
			c = rng.choice([100, 127, -128, 50, 7])
			if np.abs(np.asarray(op.kernel, float)).max(initial=0) * abs(c) < 10 ** 6:
				r2, op2 = p.s.map('mul', [r], lambda: op * c, {'n': c})
			else:
				r2, op2 = p.s.map('sub', [r, r], lambda: op - op)
			if r2:
				r2, op2 = p.s.map('add', [r2, r2], lambda: op2 + op2)
			r, op = r2, op2
		# multiples fed into each other, symmetrized, summed, selected
		for _ in range(5):
			a = p.sub(3)
			def multiple(name, subs, hi=110):
				x, y = p.base(name, subs)
				if not x:
					return x, y
				c = rng.choice([1, 2, 11, -12, 50, 64, 100, -128 if hi > 100 else 7])
				return p.s.map('mul', [x], lambda: y * c, {'n': c})
			r, op = multiple(rng.choice(['product', 'product', 'reverse_product', 'wedge', 'regressive', 'anti_product']), [a, a])
			if not r or not len(op.output):
				continue
			p.s.map('symmetry', [r], lambda: op.symmetry((0, 1)), {'axes': [1, 2]}, note='symmetry of a multiple')
			p.s.map('sum_arg', [r], lambda: op.sum(0), {'axis': 0}, note='sum of a multiple')
			b = p.sub(2)
			x, y = multiple(rng.choice(['product', 'commutator', 'conjugate_product']), [b, a])
			if not x or not len(y.output):
				continue
			x, y = p.s.map('select', [x], lambda: y.select_subspace(a), {'out': blades(a)})
			if not x:
				continue
			p.s.map('fuse', [x, r], lambda: y.fuse(op, 1), {'axis': 1}, note='a multiple fed into a multiple')
			q, z = p.s.map('bind', [r, x, x], lambda: op.bind(y, y), {'axes': [0, 1]}, note='multiples bound to a multiple')
			f, g = multiple(rng.choice(['reverse', 'involute', 'identity']), [a])
			if f:
				p.s.map('bind', [r, f, f], lambda: op.bind(g, g), {'axes': [0, 1]}, note='multiples bound to a multiple')
				p.factory(rng.choice(['product', 'wedge', 'anti_product', 'commutator']), [(f, g), (f, g)])
				p.factory('squared', [(f, g)] * 2)
		yield p.s
