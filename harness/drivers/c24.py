"""C24: sparse matrices of multivectors.  Random programs build matrices from entries in any order with repetitions, diagonals and
scipy matrices, add, negate, scale, reverse, dualise and multiply them with multivectors, vectors of multivectors and each other
under any product, bound and unbound, dense and as flat linear operators; Matrices.tla computes what each denotes."""
from ..common import *

OPS = ['product', 'wedge', 'inner', 'regressive', 'commutator', 'anti_commutator', 'left_contract', 'right_contract', 'scalar_product',
	'reverse_product', 'conjugate_product', 'anti_wedge', 'anti_product']
GLYPH = {'product': lambda a, b: a * b, 'wedge': lambda a, b: a ^ b, 'inner': lambda a, b: a | b, 'regressive': lambda a, b: a & b}


def models(tier):
	return [dict(module='MCMatrices', cfg='MCMatrices.cfg' if tier == 'quick' else 'MCMatricesDeep.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	return [('probe', dict())] + [('programs', dict(kind=k, seed=rng.randrange(1 << 30), runs=20 if not deep else 150)) for k in ('numpy', 'numpy', 'numpy:sparse', 'numpy:sparse')]


def dense_event(s, rA, B, op, note):
	def dense(D):
		D = np.asarray(D)
		return {'m': [[int(y) for y in row] for row in to_int(D, s.tol)], 'rs': blades(B.row_subspace), 'cs': blades(B.column_subspace)}
	square = len(B.row_subspace) == len(B.column_subspace)
	s.mat('dense', [rA], lambda: B.as_dense(), {'op': op}, keep=False, dec=dense, note=f'{note} as dense matrix of {"square" if square else "oblong"} blocks')


class MatSes(Ses):
	def encmat(self, A):
		v = enc(A.values, self.tol)
		r, c = [int(i) for i in A.rows], [int(i) for i in A.columns]
		if 'err' in v or v['h'] != [len(r)] or len(c) != len(r):
			return {'err': v.get('err', f'{len(r)} rows, {len(c)} columns, {v.get('h')} values')}
		return {'h': [int(i) for i in A.shape], 'r': r, 'c': c, 's': v['s'], 'd': v['d']}

	def mat(self, op, args, f, p=None, keep=True, note=None, dec=None, q=None):
		res = self.call(f)
		e = {'e': 'mat', 'op': op, 'a': list(args), 'p': p or {'_': 0}}
		v = {'err': f'{type(res).__name__}: {res}'[:200]} if isinstance(res, Exception) else self.call(dec or self.encmat, res)
		if isinstance(v, Exception):
			v = {'err': f'{type(v).__name__}: {v}'[:200]}
		e['v'] = v
		r = None
		if keep and 'err' not in v:
			self.n += 1
			e['r'] = r = self.n
		self.add(e, note or f'{op} {p or ''}')
		return (r, res) if r else (None, None)


def probe():
	"""The known findings, always in the same way"""
	from numga.examples.ga_sparse import Builder, MatrixContainer
	ctx = make_ctx('numpy', algebra((1, 1)))
	s = MatSes((1, 1), 'builders and dense matrices')
	V = ctx.subspace.vector()
	x, y = [ctx.multivector(values=np.array(v), subspace=V) for v in ((1., 2.), (3., 4.))]
	rx, ry = s.new(x), s.new(y)

	def second():
		a, b = Builder((2, 2), V), Builder((2, 2), V)
		a.add(0, 0, x)
		b.add(1, 1, y)
		return b.finalize()
	s.mat('build', [ry], second, {'h': [2, 2], 'r': [1], 'c': [1]}, keep=False, note='build next to another builder')
	D = ctx.multivector(values=np.array([[1., 2.], [3., 4.]]), subspace=V)
	rA, A = s.mat('diag', [s.new(D)], lambda: MatrixContainer.diag(D))
	for S in (ctx.subspace.even_grade(), V, ctx.subspace.scalar(), ctx.subspace.full()):
		B = s.call(lambda: A.product(S)) if rA else None
		if rA and not isinstance(B, Exception):
			dense_event(s, rA, B, 'product', f'product bound to {blades(S)}')
	yield s


def programs(kind, seed, runs):
	from numga.examples.ga_sparse import Builder, MatrixContainer
	import scipy.sparse
	rng = random.Random(seed)
	for _ in range(runs):
		n = rng.choice([1, 2, 2, 3, 3])
		sig = sample_sigs(rng, n, 1)[0]
		alg = algebra(sig)
		ctx = make_ctx(kind, alg)
		s = MatSes(sig, f'sparse matrices, {kind} {sig_str(sig)}')
		mats = []

		def sub(hi=3):
			return rng.choice(named_subs(alg)[:6]) if rng.random() < 0.3 else rand_sub(rng, alg, 1, hi)

		def build(h, full=False):
			"""From entries, in any order, some repeated, some smaller than the declared subspace"""
			S = sub()
			if not len(S):
				S = alg.subspace.scalar()
			at = [(i, j) for i in range(h[0]) for j in range(h[1])]
			es = rng.sample(at, rng.randint(1, len(at)))
			if full:
				es += [(i, rng.randrange(h[1])) for i in range(h[0]) if i not in {e[0] for e in es}]
			es += [rng.choice(es) for _ in range(rng.randint(0, 2))]
			rng.shuffle(es)
			vs = []
			for _ in es:
				T = S if rng.random() < 0.7 else alg.subspace.from_blades(sorted(rng.sample(blades(S), rng.randint(1, len(S)))))
				vs.append(rand_mv(rng, ctx, T, (), 3))

			def make():
				b = Builder(h, S)
				b.entries = []		# known finding: builders share them; see probe
				for (i, j), v in zip(es, vs):
					b.add(i, j, v)
				return b.finalize()
			rs = [s.new(v) for v in vs]
			return s.mat('build', rs, make, {'h': list(h), 'r': [e[0] for e in es], 'c': [e[1] for e in es]}, note=f'build {h} at {es}')

		def put(rA):
			if rA[0]:
				mats.append(rA)
			return rA

		def vec(S, m):
			x = rand_mv(rng, ctx, S, (m,), 2)
			return s.new(x), x

		for h in [(2, 3), (3, 2), (3, 3)][:rng.randint(1, 3)]:
			put(build(h, True))
		for _ in range(14):
			what = rng.choice(['build', 'diag', 'scipy', 'add', 'sub', 'neg', 'pos', 'scale', 'adjoint', 'dual', 'matmat', 'matmat', 'matscalar', 'matvec', 'matvec', 'bound', 'bound', 'old'])
			if what == 'build' or not mats:
				put(build((rng.randint(1, 3), rng.randint(1, 4)), rng.random() < 0.7))
				continue
			if what == 'diag':
				x = rand_mv(rng, ctx, sub() if rng.random() < 0.5 else alg.subspace.vector(), (rng.randint(1, 4),), 3)
				if len(x.subspace):
					put(s.mat('diag', [s.new(x)], lambda: MatrixContainer.diag(x)))
				continue
			if what == 'scipy':
				h = (rng.randint(1, 3), rng.randint(1, 3))
				es = [(rng.randrange(h[0]), rng.randrange(h[1]), rng.randint(-3, 3)) for _ in range(rng.randint(1, 5))]
				rs = [s.new(ctx.multivector(values=np.array([float(v)]), subspace=alg.subspace.scalar())) for *_, v in es]
				sp = scipy.sparse.coo_matrix(([float(e[2]) for e in es], ([e[0] for e in es], [e[1] for e in es])), h)
				sp = rng.choice([lambda: sp, sp.tocsr, sp.tocsc])()
				put(s.mat('build', rs, lambda: MatrixContainer.from_scipy(ctx, sp), {'h': list(h), 'r': [e[0] for e in es], 'c': [e[1] for e in es]}, note=f'from scipy {h} {es}'))
				continue
			rA, A = rng.choice(mats)
			if what in ('add', 'sub'):
				c = [m for m in mats if m[1].shape == A.shape]
				rB, B = rng.choice(c) if rng.random() < 0.6 else build(A.shape)
				if rB:
					put(s.mat(what, [rA, rB], (lambda: A + B) if what == 'add' else (lambda: A - B)))
			elif what == 'neg':
				put(s.mat('neg', [rA], lambda: -A))
			elif what == 'pos':
				put(s.mat('pos', [rA], lambda: +A))
			elif what == 'scale':
				k = rng.randint(-3, 3)
				put(s.mat('scale', [rA], lambda: A * (k if rng.random() < 0.5 else float(k)), {'n': k}))
			elif what == 'adjoint':
				put(s.mat('adjoint', [rA], (lambda: ~A) if rng.random() < 0.5 else (lambda: A.reverse())))
			elif what == 'dual':
				put(s.mat('dual', [rA], lambda: A.dual()))
			elif what in ('matmat', 'matscalar', 'matvec', 'bound'):
				op = rng.choice(OPS)
				if not needs(op, n):
					continue
				apply = (lambda X, Y: GLYPH[op](X, Y)) if op in GLYPH and rng.random() < 0.5 else (lambda X, Y: getattr(X, op)(Y))
				if what == 'matmat':
					c = [m for m in mats if m[1].shape[0] == A.shape[1]]
					rB, B = rng.choice(c) if c and rng.random() < 0.6 else build((A.shape[1], rng.randint(1, 3)))
					# some pair of entries has to meet
					if rB and set(map(int, A.columns)) & set(map(int, B.rows)):
						r, M = s.mat('matmat', [rA, rB], lambda: apply(A, B), {'op': op}, note=f'{op} of matrices {A.shape} {B.shape}')
						if r and len(M.subspace) and np.abs(array(M.values.values)).max(initial=0) < 3000:
							mats.append((r, M))
					continue
				S = sub()
				if what == 'matscalar':
					x = rand_mv(rng, ctx, S, (), 2)
					r, M = s.mat('matscalar', [rA, s.new(x)], lambda: apply(A, x), {'op': op}, note=f'{op} of matrix {A.shape} and a multivector')
					if r and len(M.subspace) and np.abs(array(M.values.values)).max(initial=0) < 3000:
						mats.append((r, M))
					continue
				if set(map(int, A.rows)) != set(range(A.shape[0])):
					continue	# products with vectors need an entry in every row
				rx, x = vec(S, A.shape[1])
				if what == 'matvec':
					s.mat('matvec', [rA, rx], lambda: apply(A, x), {'op': op}, keep=False, dec=s.val, note=f'{op} of matrix {A.shape} and a vector')
					continue
				B = s.call(lambda: getattr(A, op)(S))
				if isinstance(B, Exception):
					s.mat('matvec', [rA, rx], lambda: (_ for _ in ()).throw(B), {'op': op}, keep=False, note=f'bind {op}')
					continue
				s.mat('matvec', [rA, rx], lambda: B(x), {'op': op}, keep=False, dec=s.val, note=f'{op} of matrix {A.shape} bound to {blades(S)}')

				dense_event(s, rA, B, op, f'{op} of matrix {A.shape} bound to {blades(S)}')
				if len(B.row_subspace) and len(S):
					def flat():
						y = B.as_operator() @ np.asarray(x.values, dtype=float).reshape(-1)
						return ctx.multivector(values=y.reshape(A.shape[0], len(B.row_subspace)), subspace=B.row_subspace)
					s.mat('matvec', [rA, rx], flat, {'op': op}, keep=False, dec=s.val, note=f'{op} of matrix {A.shape} bound to {blades(S)} as linear operator')
				s.op('identity', [rx], lambda: x, note='vector unchanged')
			elif what == 'old':
				s.mat('pos', [rA], lambda: A, keep=False, note='matrix unchanged')
		for rA, A in mats:
			s.mat('pos', [rA], lambda: A, keep=False, note='matrix unchanged')
		yield s
