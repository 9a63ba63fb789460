"""C09: partial application and bound operators, on numpy, JAX and torch operators.  Arguments are bound in random stages and
orders (dictionaries in any key order) before the rest is supplied; intermediate operators are recorded as maps on all argument
blades, results as values.  Sum, squeezing, indexing, functional update, concatenation, transposition and inversion of bound operators,
sandwich_map and inertia_map are compared with Maps.tla, and the originals are recorded again afterwards."""
from ..maps import *

KINDS = ['numpy:einsum', 'numpy:sparse', 'jax:einsum', 'jax:sparse', 'jax:dense', 'torch:einsum', 'torch:sparse']
NAMES = ['product', 'wedge', 'inner', 'commutator', 'regressive', 'reverse_product', 'left_contract', 'anti_wedge', 'scalar_product', 'conjugate_product']
TERNARY = ['sandwich', 'reverse_sandwich', 'full_sandwich', 'cubed', 'inertia', 'inverse_factor']


def models(tier):
	return [dict(module='MCMaps', cfg='MCMaps.cfg', workers=2, timeout=600)] if tier == 'thorough' else []


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	m = 1 if not deep else 8
	J = []
	for kind in KINDS:
		b = kind.split(':')[0]
		runs = {'numpy': 30, 'jax': 5, 'torch': 18}[b] * m
		J.append(('staged', dict(kind=kind, seed=rng.randrange(1 << 30), runs=runs)))
	for kind in ('numpy:einsum', 'numpy:sparse', 'jax:einsum', 'jax:dense', 'torch:einsum'):
		b = kind.split(':')[0]
		runs = {'numpy': 24, 'jax': 4, 'torch': 14}[b] * m
		J.append(('utilities', dict(kind=kind, seed=rng.randrange(1 << 30), runs=runs)))
		J.append(('maps', dict(kind=kind, seed=rng.randrange(1 << 30), runs=max(3, runs // 2))))
	return sorted(J, key=lambda j: not j[1]['kind'].startswith('jax'))


def shapes(rng, k, few=False):
	"""Mutually broadcastable batch shapes"""
	full = rng.choice([(), (2,), (3,), (2, 3)] if not few else [(), (2,)])
	res = []
	for _ in range(k):
		cut = full[rng.randint(0, len(full)):] if rng.random() < 0.5 else full
		res.append(tuple(1 if rng.random() < 0.25 else n for n in cut))
	return res




def session(rng, kind, sig, label):
	ctx = make_ctx(kind, algebra(sig))
	return MapSes(sig, f'{label} {kind} {sig_str(sig)}', ctx, tol=1e-6), ctx


def staged(kind, seed, runs):
	rng = random.Random(seed)
	few = kind.startswith('jax')
	for _ in range(runs):
		n = rng.choice([2, 3, 3, 4] if not few else [2, 3])
		sig = sample_sigs(rng, n, 1)[0]
		s, ctx = session(rng, kind, sig, 'staged')
		for _ in range(3):
			name = rng.choice(NAMES + TERNARY * 2)
			if not needs(name, n):
				continue
			pos = POS.get(name, tuple(range(ARITY.get(name, 2))))
			hi = 4 if len(pos) < 3 else 3
			subs = [rand_sub(rng, ctx.algebra, 1, hi) for _ in sorted(set(pos))]
			hs = shapes(rng, len(subs), few)
			mvs = [rand_mv(rng, ctx, x, h, m=2) for x, h in zip(subs, hs)]
			regs = [s.new(x) for x in mvs]
			op = s.call(lambda: getattr(ctx.operator, name)(*subs))
			args, ra = [mvs[p] for p in pos], [regs[p] for p in pos]
			q = grades_of(subs[1]) if 'sandwich' in name else None
			tied = name in POS
			if not tied:
				r0, _ = s.map('factory', [], lambda: op, {'name': name, 'args': [{'s': blades(x)} for x in subs]})
			for _ in range(2 if few else 4):
				left = list(range(len(pos)))     # original positions not yet bound
				cur, reg = op, None if tied else r0
				plan = []
				try:
					while len(left) > 1 and rng.random() < (0.9 if len(left) == len(pos) else 0.5):
						b = rng.sample(range(len(left)), rng.randint(1, len(left) - 1))
						plan.append([left[i] for i in b])
						d = {i: args[left[i]] for i in b}
						cur = (lambda c, d: s.call(lambda: c.partial(d)))(cur, d)
						if isinstance(cur, Exception):
							break
						if reg:
							c = cur
							reg, _ = s.map('partial', [reg] + [ra[left[i]] for i in b], lambda: c, {'axes': b}, note=f'{name} partial {plan}')
						left = [x for i, x in enumerate(left) if i not in b]
				except Exception as e:
					cur = e
				def finish():
					if isinstance(cur, Exception):
						raise cur
					return cur(*[args[i] for i in left])
				s.op(name, ra, finish, q=q, note=f'{name} of batches {[x.shape for x in args]} bound in stages {plan} then {left}')
			if kind == 'numpy:einsum' and not tied:
				# subspaces in place of arguments bind the others
				b = rng.sample(range(len(pos)), 1)
				s.map('partial', [r0] + [ra[i] for i in b], lambda: op(*[args[i] if i in b else subs[i] for i in range(len(pos))]), {'axes': b}, note=f'{name} called with subspaces')
			for x, r in zip(mvs, regs):
				s.op('identity', [r], lambda: x, note='argument unchanged')
			if not tied:
				s.map('same', [r0], lambda: op, note='operator unchanged')
		yield s


def bound(rng, s, ctx, n, h, name=None):
	"""A bound operator of batch shape h: (register, operator)"""
	name = name or rng.choice(NAMES)
	if not needs(name, n):
		name = 'product'
	subs = [rand_sub(rng, ctx.algebra, 1, 4) for _ in range(2)]
	op = getattr(ctx.operator, name)(*subs)
	x = rand_mv(rng, ctx, subs[0], h)
	a = rng.randrange(2)
	x = rand_mv(rng, ctx, subs[a], h)
	rx = s.new(x)
	r0, _ = s.map('factory', [], lambda: op, {'name': name, 'args': [{'s': blades(y)} for y in subs]})
	if not r0:
		return None, None, None
	r, b = s.map('partial', [r0, rx], lambda: op.partial({a: x}), {'axes': [a]})
	def another(h2):
		y = rand_mv(rng, ctx, subs[a], h2)
		return s.map('partial', [r0, s.new(y)], lambda: op.partial({a: y}), {'axes': [a]})
	return r, b, another


def utilities(kind, seed, runs):
	rng = random.Random(seed)
	b = kind.split(':')[0]
	few = b == 'jax'
	for _ in range(runs):
		n = rng.choice([2, 3, 4] if not few else [2, 3])
		sig = sample_sigs(rng, n, 1)[0]
		s, ctx = session(rng, kind, sig, 'utilities')
		h = rng.choice([(3,), (2, 3), (2, 1), (4,), ()])
		r, op, another = bound(rng, s, ctx, n, h)
		if not r:
			yield s
			continue
		for _ in range(6 if not few else 4):
			what = rng.choice(['index', 'set', 'concatenate', 'sum', 'transpose', 'call', 'index', 'set', 'sum', 'squeeze', 'squeeze'])
			if what in ('index', 'set', 'concatenate', 'sum') and not h:
				what = 'transpose'
			if what == 'index':
				i = rand_index(rng, h, steps=b != 'torch')
				s.map('index', [r], lambda: op[i], {'idx': idx_json(i)}, note=f'operator[{i}] of batch {h}')
			elif what == 'set':
				i = rand_index(rng, h, steps=b != 'torch', dup=b == 'numpy')
				try:
					hs = np.zeros(h)[i].shape
				except Exception:
					continue
				rw, w = another(rng.choice([hs, ()]))
				if rw:
					s.map('set', [r, rw], lambda: op.at[i].set(w.kernel), {'idx': idx_json(i)}, note=f'operator.at[{i}].set of batch {h}')
			elif what == 'concatenate':
				ax = rng.randrange(len(h))
				rw, w = another(tuple(rng.randint(1, 3) if i == ax else m for i, m in enumerate(h)))
				if rw:
					s.map('concatenate', [r, rw], lambda: op.concatenate(w, axis=ax), {'axis': ax}, note=f'concatenate along {ax} of {h}')
			elif what == 'sum':
				axes = sorted(rng.sample(range(len(h)), rng.randint(1, len(h))))
				a = axes[0] if len(axes) == 1 else tuple(axes)
				s.map('sum', [r], lambda: op.sum(a), {'axes': axes}, note=f'sum over {a} of {h}')
			elif what == 'squeeze':
				s.map('squeeze', [r], lambda: op.squeeze(), note=f'squeeze of batch {h}')
			elif what == 'transpose' and b == 'numpy':
				s.map('transpose', [r], lambda: op.transpose(), note=f'transpose of batch {h}')
			elif what == 'call':
				x = rand_mv(rng, ctx, op.inputs[0], rng.choice([h, h[-1:], ()]))
				s.mapcall('call', [r, s.new(x)], lambda: op(x), note=f'apply to batch {x.shape}')
		s.map('same', [r], lambda: op, note='operator unchanged')
		invert(rng, s, ctx, n, h[:1] if few else h)
		yield s


def invert(rng, s, ctx, n, h):
	"""Inverse of a bound operator between subspaces of the same size"""
	ga = ctx.algebra
	for _ in range(12):
		S = ga.subspace
		sub, by = rng.choice([(S.full(), S.full()), (S.even_grade(), S.even_grade()), (S.vector(), S.even_grade()),
			# onto another subspace of the same size
			(S.even_grade(), S.odd_grade()), (S.odd_grade(), S.odd_grade()), (S.odd_grade(), S.even_grade()), (None, S.pseudoscalar()), (None, S.vector())])
		# between different subspaces
		sub = sub or rng.choice([S.vector(), S.antivector(), rand_sub(rng, ga, 1, 4)])
		name = 'sandwich' if sub is S.vector() and by is S.even_grade() else rng.choice(['product', 'reverse_product'])
		x = rand_mv(rng, ctx, by, h)
		rx = s.new(x)
		f = (lambda: ctx.operator.sandwich(x.subspace, sub).partial({0: x, 2: x})) if name == 'sandwich' else (lambda: getattr(ctx.operator, name)(x.subspace, sub).partial({0: x}))
		op = s.call(f)
		if isinstance(op, Exception) or len(op.output) != len(op.inputs[0]):
			continue
		k = np.asarray(array(op.kernel), dtype=float).reshape((-1, len(sub), len(sub)))
		if any(np.linalg.matrix_rank(m) < len(sub) or np.linalg.cond(m) > 1e4 for m in k):
			continue
		q = grades_of(sub) if name == 'sandwich' else None
		r, _ = s.map('fixed', [], lambda: op, {'name': name, 'args': [rx, 0, rx] if name == 'sandwich' else [rx, 0], 'v': blades(sub)}, q=q)
		if not r:
			return
		y = rand_mv(rng, ctx, sub, rng.choice([h, ()]))
		ry = s.new(y)
		s.mapcall('inverse', [r, ry], lambda: op.inverse()(op(y)), note=f'inverse of {name} applied to the image, batch {h}')
		z = rand_mv(rng, ctx, op.output, rng.choice([h, ()]))
		s.mapcall('inverse', [r, s.new(z)], lambda: op(op.inverse()(z)), note=f'{name} of the inverse, batch {h}')
		s.map('same', [r], lambda: op, note='operator unchanged')
		return


def maps(kind, seed, runs):
	rng = random.Random(seed)
	few = kind.startswith('jax')
	for _ in range(runs):
		n = rng.choice([2, 3, 3, 4])
		sig = sample_sigs(rng, n, 1)[0]
		s, ctx = session(rng, kind, sig, 'maps')
		ga = ctx.algebra
		h = rng.choice([(), (2,), (2, 2)])
		R = rand_mv(rng, ctx, rng.choice([ga.subspace.even_grade() if n < 4 else rand_sub(rng, ga, 2, 5), rand_sub(rng, ga, 1, 4)]), h, m=2)
		rr = s.new(R)
		v = rng.choice([None, ga.subspace.bivector(), rand_sub(rng, ga, 1, 4)])
		sub = v or ga.subspace.vector()
		r, op = s.map('fixed', [], lambda: R.sandwich_map() if v is None else R.sandwich_map(v), {'name': 'sandwich', 'args': [rr, 0, rr], 'v': blades(sub)}, q=grades_of(sub), note=f'sandwich_map over {blades(sub)}')
		if r:
			x = rand_mv(rng, ctx, sub, rng.choice([h, (), h[-1:]]), m=2)
			rx = s.new(x)
			s.op('sandwich', [rr, rx, rr], lambda: op(x), q=grades_of(sub), note='sandwich_map applied')
			s.mapcall('call', [r, rx], lambda: op(x))
		P = rand_mv(rng, ctx, rng.choice([ga.subspace.antivector(), ga.subspace.vector()]), h, m=2)
		rp = s.new(P)
		v = rng.choice([None, rand_sub(rng, ga, 1, 4)])
		sub = v or ga.subspace.bivector()
		r, op = s.map('fixed', [], lambda: P.inertia_map() if v is None else P.inertia_map(v), {'name': 'inertia', 'args': [rp, rp, 0], 'v': blades(sub)}, note=f'inertia_map over {blades(sub)}')
		if r:
			x = rand_mv(rng, ctx, sub, rng.choice([h, ()]), m=2)
			rx = s.new(x)
			s.op('inertia', [rp, rp, rx], lambda: op(x), note='inertia_map applied')
			if h:
				s.map('sum', [r], lambda: op.sum(0), {'axes': [0]}, note='sum of inertia maps')
			s.map('same', [r], lambda: op, note='operator unchanged')
		s.op('identity', [rr], lambda: R, note='argument unchanged')
		s.op('identity', [rp], lambda: P, note='argument unchanged')
		yield s
