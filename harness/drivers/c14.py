"""C14: sums, differences, negation, coercion of numbers and arrays as scalars in + - * / on either side, division by
scalars, and every form of select and restrict, against Operators.tla on integer coefficients (exact), with the declared
subspace checked against union / requested / shared blades."""
from ..common import *

KINDS = ['numpy:einsum', 'numpy:sparse', 'numpy:einsum/f4', 'numpy:einsum/i8', 'numpy:sparse/f4']


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = []
	for kind in KINDS:
		J += [('linear', dict(seed=rng.randrange(1 << 30), k=14 if not deep else 120, kind=kind)) for _ in range(2)]
		J += [('selection', dict(seed=rng.randrange(1 << 30), k=14 if not deep else 120, kind=kind)) for _ in range(1)]
	J += [('pairs', dict(sigs=p, seed=rng.randrange(1 << 30))) for p in chunks([s for n in (1, 2) for s in all_sigs(n)], 4)]
	return J


def scalar_forms(rng, kind):
	"""Numbers and arrays that act as scalars: (object, integer values, allowed on the left)"""
	c = rng.choice([-3, -2, -1, 1, 2, 3, 4])
	k = rng.randrange(7)
	if k == 0:
		return c, np.array(c), True
	if k == 1:
		return float(c), np.array(c), True
	if k == 2:
		return np.array(float(c)), np.array(c), False
	if k == 3:
		return np.float64(c), np.array(c), False
	if k == 4:
		return np.int64(c), np.array(c), False
	if k == 5 and 'i8' not in kind:
		return True, np.array(1), True
	h = rng.choice([(1,), (3,), (2, 3), (2, 1)])
	a = np.array([rng.choice([-2, -1, 1, 2, 3]) for _ in range(int(np.prod(h)))]).reshape(h)
	return (a.astype(float) if 'i8' not in kind and rng.random() < 0.5 else a), a, False


def pairs(sigs, seed):
	"""Every pair of subspaces of the small algebras"""
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		N = 2 ** len(sig)
		subs = [[b for b in range(N) if m >> b & 1] for m in range(2 ** N)]
		s = Ses(sig, f'sums over all pairs of subspaces {sig_str(sig)}')
		mvs = []
		for bl in subs:
			x = rand_mv(rng, ctx, ga.subspace.from_blades(bl), (), m=9)
			mvs.append((s.new(x), x))
		for rx, x in mvs:
			for ry, y in mvs:
				s.op('add', [rx, ry], lambda: x + y, sub='union', note=f'{blades(x.subspace)} + {blades(y.subspace)}')
				s.op('sub', [rx, ry], lambda: x - y, sub='union', note=f'{blades(x.subspace)} - {blades(y.subspace)}')
				q = blades(y.subspace)
				s.op('select', [rx], lambda: x.select_subspace(y.subspace), q=q, sub='select', note=f'{blades(x.subspace)} select {q}')
				s.op('restrict', [rx], lambda: x.restrict_subspace(y.subspace), q=q, sub='restrict', note=f'{blades(x.subspace)} restrict {q}')
		yield s


def linear(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([1, 2, 3, 3, 4, 5, 6])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'linear structure {kind} {sig_str(sig)}')
		for _ in range(6):
			A = rng.choice([rand_sub(rng, ga, 0, 8), rng.choice(named_subs(ga))])
			B = rng.choice([rand_sub(rng, ga, 0, 8), rng.choice(named_subs(ga)), A, A.union(rand_sub(rng, ga, 0, 4)), A.complement()])
			ha, hb = rng.choice([((), ()), ((3,), ()), ((), (2,)), ((2, 1), (3,)), ((2, 3), (2, 3)), ((1,), (3,))])
			x, y = rand_mv(rng, ctx, A, ha, m=9), rand_mv(rng, ctx, B, hb, m=9)
			rx, ry = s.new(x), s.new(y)
			desc = f'{blades(A)}{list(ha)} {blades(B)}{list(hb)}'
			s.op('add', [rx, ry], lambda: x + y, sub='union', note=f'+ {desc}')
			s.op('sub', [rx, ry], lambda: x - y, sub='union', note=f'- {desc}')
			s.op('sub', [ry, rx], lambda: y - x, sub='union', note=f'- reversed {desc}')
			s.op('neg', [rx], lambda: -x, sub='same', note=f'neg {desc}')
			s.op('identity', [rx], lambda: +x, sub='same', note=f'pos {desc}')
			r0 = s.raw([0], [0])
			r1, _ = s.op('add', [r0, rx], lambda: 0 + x, keep=True, sub='union', note='0 + x')
			if r1:
				s.op('add', [r1, ry], lambda: sum([x, y]), sub='union', note=f'sum([x, y]) {desc}')
			for _ in range(3):
				obj, val, left = scalar_forms(rng, kind)
				rc = s.raw([0], val[..., None])
				d = f'{type(obj).__name__} {np.shape(obj)} with {desc}'
				s.op('add', [rx, rc], lambda: x + obj, sub='union', note=f'x + {d}')
				s.op('sub', [rx, rc], lambda: x - obj, sub='union', note=f'x - {d}')
				s.op('product', [rx, rc], lambda: x * obj, note=f'x * {d}', sub='same')
				if left:
					s.op('add', [rc, rx], lambda: obj + x, sub='union', note=f'{d} + x')
					s.op('sub', [rc, rx], lambda: obj - x, sub='union', note=f'{d} - x')
					s.op('product', [rc, rx], lambda: obj * x, note=f'{d} * x')
				sc = ctx.multivector.scalar(np.asarray(val)[..., None])
				s.op('product', [rc, rx], lambda: sc * x, note=f'scalar multivector {np.shape(val)} * x {desc}')
				if 'i8' in kind:
					continue
				# exact quotients
				p = ctx.multivector(values=x.values * np.asarray(val)[..., None], subspace=A)
				rp = s.new(p)
				s.op('scalar_div', [rp, rc], lambda: p / obj, sub='same', note=f'x / {d}')
				s.op('scalar_div', [rp, rc], lambda: p / sc, sub='same', note=f'x / scalar multivector {np.shape(val)} {desc}')
				if left:
					u = rng.choice([-2, -1, 1, 2])
					one = ctx.multivector.scalar([u])
					rn = s.raw([0], [int(val) * u])
					num = type(obj)(int(val) * u) if obj is not True else u
					s.op('scalar_div', [rn, s.new(one)], lambda: num / one, note=f'{num} / scalar')
			s.op('identity', [rx], lambda: x, note='operands unchanged')
			s.op('identity', [ry], lambda: y, note='operands unchanged')
		yield s


NAMED_FORMS = ['scalar', 'vector', 'bivector', 'trivector', 'pseudoscalar', 'antivector', 'even_grade', 'odd_grade', 'self_reverse',
	'multivector', 'empty', 'nonscalar', 'degenerate', 'nondegenerate', 'rotor', 'translator', 'scalar_pseudoscalar']


def selection(seed, k, kind):
	rng = random.Random(seed)
	for _ in range(k):
		n = rng.choice([1, 2, 3, 3, 4, 5])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'selection {kind} {sig_str(sig)}')
		g = lambda *ks: sorted(b for b in range(2 ** n) if bin(b).count('1') in [q % (n + 1) for q in ks])
		for _ in range(5):
			A = rng.choice([rand_sub(rng, ga, 0, 10), rng.choice(named_subs(ga))])
			x = rand_mv(rng, ctx, A, rng.choice([(), (3,), (2, 1)]), m=9)
			rx = s.new(x)
			d = f'of {blades(A)}'
			for _ in range(3):
				g1 = rng.randint(-n - 1, n)
				gs = rng.sample(range(n + 1), rng.randint(1, n + 1))
				gs = tuple(q - (n + 1) if rng.random() < 0.3 else q for q in gs)
				o = rand_sub(rng, ga, 0)
				for op in ('select', 'restrict'):
					ns = getattr(x, op)
					s.op(op, [rx], lambda: ns[g1], q=g(g1), sub=op, note=f'{op}[{g1}] {d}')
					s.op(op, [rx], lambda: ns[gs], q=g(*gs), sub=op, note=f'{op}[{gs}] {d}')
					s.op(op, [rx], lambda: getattr(x, op + '_subspace')(o), q=blades(o), sub=op, note=f'{op}_subspace({blades(o)}) {d}')
					s.op(op, [rx], lambda: getattr(x, op + '_grade')(g1), q=g(g1), sub=op, note=f'{op}_grade({g1}) {d}')
					s.op(op, [rx], lambda: ns.k_vector(g1), q=g(g1), sub=op, note=f'{op}.k_vector({g1}) {d}')
					s.op(op, [rx], lambda: ns.from_blades(blades(o)), q=blades(o), sub=op, note=f'{op}.from_blades({blades(o)}) {d}')
					for nm in rng.sample(NAMED_FORMS, 4):
						sub = ctx.subspace
						try:
							q = blades(getattr(sub, nm)())
						except Exception:
							continue
						s.op(op, [rx], lambda: getattr(ns, nm)(), q=q, sub=op, note=f'{op}.{nm}() {d}')
					# blades by name
					bl = rng.sample(range(1, 2 ** n), rng.randint(1, min(3, 2 ** n - 1)))
					name = '_'.join(''.join(NAMES[i] for i in range(n) if b >> i & 1) for b in bl)
					s.op(op, [rx], lambda: getattr(ns, name), q=sorted(bl), sub=op, note=f'{op}.{name} {d}')
			for name in ('degenerate', 'nondegenerate'):
				s.op(name, [rx], lambda: getattr(x, name)(), note=f'{name} {d}')
			s.op('identity', [rx], lambda: x, note='operand unchanged')
		yield s
