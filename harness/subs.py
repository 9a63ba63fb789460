"""Recording constructions of subspaces and predicates on them: events of Subspaces.tla."""
from .common import *

K_NAMES = {'scalar': 0, 'vector': 1, 'bivector': 2, 'trivector': 3, 'quadvector': 4, 'pseudoscalar': -1, 'antiscalar': -1,
	'antivector': -2, 'antibivector': -3, 'antitrivector': -4, 'antiquadvector': -5}
PLAIN = ['empty', 'multivector', 'full', 'scalar_pseudoscalar', 'nonscalar', 'even_grade', 'motor', 'self_involute', 'odd_grade',
	'rotor', 'translator', 'self_reverse', 'mod4', 'degenerate', 'nondegenerate', 'scalar_degenerate',
	'reflection', 'bireflection', 'trireflection', 'quadreflection']
UN_CHEAP = ['complement', 'dual', 'degenerate', 'nondegenerate', 'scalar_degenerate']
UN_SYM = ['squared', 'symmetric_reverse', 'symmetric_involute', 'symmetric_conjugate', 'symmetric_scalar_negation', 'symmetric_pseudoscalar_negation']
UN_CLOSE = ['minimal_subalgebra', 'minimal_exponential']
BIN_SET = ['intersection', 'union', 'difference', 'select_subspace', 'restrict_subspace']
BIN_OP = ['product', 'wedge', 'inner', 'reverse_product', 'involute_product', 'conjugate_product', 'scalar_negation_product',
	'pseudoscalar_negation_product', 'anti_reverse_product', 'left_contract', 'right_contract', 'regressive', 'anti_wedge', 'commutator']
NSIMPLE = ['is_n_simple', 'is_squared_n_simple', 'is_reverse_n_simple', 'is_involute_n_simple', 'is_conjugate_n_simple',
	'is_scalar_negation_n_simple', 'is_pseudoscalar_negation_n_simple']
FLAGS = ['is_blade', 'is_degenerate_scalar', 'is_degenerate', 'in_even', 'in_odd', 'is_even', 'is_odd', 'is_empty', 'in_self_reverse']


def names_for(n):
	"""Named constructors that exist in n dimensions"""
	return [k for k, g in K_NAMES.items() if (g <= n if g >= 0 else -g <= n + 1)] + [p for p in PLAIN if n > 1 or p != "translator"]


class SubSes(Ses):
	"""A session over one or more algebras, tracking the identity of subspace objects"""
	def __init__(self, sigs, label, names=None):
		self.sigs = [list(s) for s in sigs]
		super().__init__(sigs[0], label)
		self.gas = [algebra(s, names) for s in sigs]
		self.tokens, self.keep = {}, []

	def out(self):
		return {**super().out(), 'sigs': self.sigs}

	def token(self, x):
		self.keep.append(x)
		return self.tokens.setdefault(id(x), len(self.tokens) + 1)

	def sub(self, op, g, args, f, p=None, note=None):
		"""Record subspace f(); returns (register, subspace or None)"""
		res = self.call(f)
		e = {'e': 'sub', 'op': op, 'g': g + 1, 'a': list(args), 'p': p or {'_': 0}}
		try:
			b = blades(res)
			e['v'] = {'b': b, 't': self.token(res)}
			self.n += 1
			e['r'] = self.n
		except Exception:
			e['v'] = {'err': f'{type(res).__name__}: {res}'[:200]}
			res = None
		self.add(e, note or f'{op} {p or ""}')
		return e.get('r'), res

	def pred(self, op, g, args, f, p=None, note=None, err=False):
		res = self.call(f)
		e = {'e': 'pred', 'op': op, 'g': g + 1, 'a': list(args), 'p': p or {'_': 0}}
		if isinstance(res, Exception):
			e['v'] = {'n': -1} if err and not isinstance(res, Timeout) else {'err': f'{type(res).__name__}: {res}'[:200]}
		elif res is None:
			e['v'] = {'n': -1}
		elif isinstance(res, (bool, np.bool_, int, np.integer)):
			e['v'] = {'n': int(res)}
		else:
			try:
				e['v'] = {'q': [int(i) for i in np.asarray(res).reshape(-1)]}
			except Exception:
				e['v'] = {'err': f'{type(res).__name__}'}
		self.add(e, note or f'{op} {p or ""}')


def construct(s, rng, g, by_grade_cap=12):
	"""One direct construction of a subspace in algebra g"""
	ga = s.gas[g]
	n = ga.n_dimensions
	F = ga.subspace
	kind = rng.choice(['named', 'named', 'k_vector', 'from_grades', 'from_blades', 'from_blades', 'words', 'bit_str', 'blade', 'basis', 'k_reflection'])
	if kind == 'named':
		nm = rng.choice(names_for(n))
		return s.sub('named', g, [], lambda: getattr(F, nm)(), {'name': nm})
	if kind == 'k_vector':
		k = rng.randint(-n - 1, n)
		return s.sub('k_vector', g, [], lambda: F.k_vector(k), {'k': k})
	if kind == 'k_reflection':
		k = rng.randint(0, min(n + 1, 5))
		return s.sub('k_reflection', g, [], lambda: F.k_reflection(k), {'k': k})
	if kind == 'from_grades':
		ks = rng.sample(range(n + 1), rng.randint(1, n + 1))
		ks = [k - n - 1 if rng.random() < 0.3 else k for k in ks]
		arg = rng.choice([list, np.array])(ks)
		return s.sub('from_grades', g, [], lambda: F.from_grades(arg), {'ks': ks})
	if kind == 'from_blades':
		bits = rng.sample(range(2 ** n), rng.randint(0, min(2 ** n, 10)))
		arg = rng.choice([list, np.array, lambda b: np.array(b, dtype=np.uint8 if n <= 8 else np.uint32), tuple])(bits)
		return s.sub('from_blades', g, [], lambda: F.from_blades(arg), {'bits': bits})
	if kind in ('words', 'bit_str'):
		bits = rng.sample(range(1 if kind == 'words' else 0, 2 ** n), rng.randint(1, min(2 ** n - 1, 5)))
		words = [[i + 1 for i in range(n) if b >> i & 1] for b in bits]
		if kind == 'bit_str':
			txt = ','.join(''.join(str(b >> i & 1) for i in range(n)) for b in bits)
			return s.sub('words', g, [], lambda: F.from_bit_str(txt), {'words': words}, f'from_bit_str {txt}')
		for w in words:
			rng.shuffle(w)
		txt = '_'.join(''.join(ga.description.basis_names[i - 1] for i in w) for w in words)
		if hasattr(type(F), txt):
			txt, words = ga.description.basis_names[0], [[1]]
		return s.sub('words', g, [], lambda: getattr(F, txt), {'words': words}, f'attribute {txt}')
	if kind == 'blade':
		b = rng.randrange(2 ** n)
		b2 = rng.choice([b, np.uint8(b) if n <= 8 else np.uint32(b)])
		return s.sub('from_blades', g, [], lambda: F.blade(b2), {'bits': [b]}, f'blade {b}')
	i = rng.randrange(n)
	return s.sub('from_blades', g, [], lambda: F.basis()[i], {'bits': [1 << i]}, f'basis()[{i}]')


def derive(s, rng, g, rx, x, ry, y, heavy=8):
	"""One derivation from subspaces x, y of algebra g"""
	n = s.gas[g].n_dimensions
	kinds = ['un', 'set', 'set', 'sel_named', 'sel_grades', 'same'] + (['slice'] if len(x) <= 64 else [])
	if len(x) <= heavy and len(y) <= heavy:
		kinds += ['sym', 'bin', 'bin', 'operator', 'mvop']
	if n <= 5 and len(x) <= heavy:
		kinds += ['close']
	if len(x) <= 4:
		kinds += ['cubed', 'alt']
	kind = rng.choice(kinds)
	if kind == 'un':
		op = rng.choice(UN_CHEAP)
		return s.sub(op, g, [rx], lambda: getattr(x, op)())
	if kind == 'set':
		op = rng.choice(BIN_SET)
		return s.sub(op, g, [rx, ry], lambda: getattr(x, op)(y))
	if kind == 'slice':
		idx = rng.sample(range(len(x)), rng.randint(0, len(x)))
		form = rng.choice([lambda i: np.array(i, dtype=int), lambda i: list(i) if i else np.array([], dtype=int)])
		return s.sub('slice', g, [rx], lambda: x.slice_subspace(form(idx)), {'idx': idx})
	if kind == 'sel_named':
		nm = rng.choice(names_for(n))
		w = rng.choice(['select', 'restrict'])
		return s.sub(w + '_named', g, [rx], lambda: getattr(getattr(x, w), nm)(), {'name': nm})
	if kind == 'sel_grades':
		ks = rng.sample(range(n + 1), rng.randint(1, min(3, n + 1)))
		ks = [k - n - 1 if rng.random() < 0.3 else k for k in ks]
		w = rng.choice(['select', 'restrict'])
		if rng.random() < 0.4:
			ks = ks[:1]
			return s.sub(w + '_grades', g, [rx], lambda: getattr(x, w)[ks[0]], {'ks': ks})
		return s.sub(w + '_grades', g, [rx], lambda: getattr(x, w)[tuple(ks)], {'ks': ks})
	if kind == 'same':
		how = rng.choice(['call', 'attr', 'copy', 'blades'])
		F = s.gas[g].subspace
		if how == 'call':
			w = rng.choice(['select', 'restrict'])
			return s.sub(w + '_subspace', g, [rx, ry], lambda: getattr(x, w)(y))
		if how == 'attr':
			return s.sub('same', g, [rx], lambda: x.subspace)
		arr = np.array(x.blades)
		if how == 'blades':
			return s.sub('same', g, [rx], lambda: F.from_blades(arr[::-1]))
		r = s.sub('same', g, [rx], lambda: F.from_blades(arr))
		arr[:] = 0      # the caller's array is the caller's
		s.pred('blades', g, [rx], lambda: x.blades, note='blades after the source array changed')
		return r
	if kind == 'sym':
		op = rng.choice(UN_SYM)
		return s.sub(op, g, [rx], lambda: getattr(x, op)())
	if kind == 'close':
		op = rng.choice(UN_CLOSE)
		return s.sub(op, g, [rx], lambda: getattr(x, op))
	if kind == 'cubed':
		return s.sub('cubed', g, [rx], lambda: x.cubed())
	if kind == 'alt':
		return s.sub('symmetric_alt_product', g, [rx], lambda: x.symmetric_alt_product())
	op = rng.choice(BIN_OP)
	ga = s.gas[g]
	if kind == 'operator':
		return s.sub(op, g, [rx, ry], lambda: getattr(ga.operator, op)(x, y).output, note=f'output of operator {op}')
	if kind == 'mvop':
		ctx = np_ctx(ga)
		one = lambda z: ctx.multivector(values=np.ones(len(z)), subspace=z)
		return s.sub(op, g, [rx, ry], lambda: getattr(ctx.operator, op)(x, y)(one(x), one(y)).subspace, note=f'subspace of computed {op}')
	return s.sub(op, g, [rx, ry], lambda: (lambda r: r if hasattr(r, 'blades') else r.subspace)(getattr(x, op)(y)))


def mutate(s, rng, g, rx, x):
	"""Try to write to a subspace through its own interface; every attempt must be refused and have no effect"""
	if len(x):
		def w1():
			x.blades[0] = 0
			return 1
		def w2():
			x.blades[...] += 1
			return 1
		def w3():
			x.blades.sort()
			return 1
		s.pred('mutate', g, [rx], rng.choice([w1, w2, w3]), err=True, note='write to .blades')
	v = x.blades.copy()
	v += 1
	gr = x.grades()
	try:
		gr += 1
	except Exception:
		pass
	s.pred('blades', g, [rx], lambda: x.blades, note='blades unchanged')
	s.pred('grades', g, [rx], lambda: x.grades(), note='grades unchanged')


def predicate(s, rng, g, rx, x, ry, y, heavy=8):
	n = s.gas[g].n_dimensions
	kinds = ['pair', 'pair', 'named', 'named', 'k', 'flag', 'flag', 'grade', 'seq', 'label', 'hash', 'relative']
	if len(x) <= heavy:
		kinds += ['subalgebra', 'study']
		if n <= 4:
			kinds += ['simplicity', 'nsimple', 'nsimple']
	if len(x) <= 4 and n <= 4:
		kinds += ['alt']
	kind = rng.choice(kinds)
	if kind == 'pair':
		how = rng.choice(['contains', 'is_subspace', 'inside', 'equals', '=='])
		if how == 'contains':
			return s.pred('contains', g, [rx, ry], lambda: x in y)
		if how == 'is_subspace':
			return s.pred('is_subspace', g, [rx, ry], lambda: x.is_subspace(y))
		if how == 'inside':
			return s.pred('contains', g, [rx, ry], lambda: x.inside(y), note='inside(...)')
		if how == 'equals':
			return s.pred('equals', g, [rx, ry], lambda: x.equals(y))
		return s.pred('equals', g, [rx, ry], lambda: x == y, note='==')
	if kind == 'hash':
		return s.pred('equals', g, [rx, ry], lambda: int({x: 1}.get(y, 0)), note='as dictionary key')
	if kind == 'named':
		nm = rng.choice(names_for(n))
		w = rng.choice(['inside', 'equals'])
		return s.pred(w + '_named', g, [rx], lambda: getattr(getattr(x, w), nm)(), {'name': nm})
	if kind == 'k':
		k = rng.randint(-n - 1, n)
		w = rng.choice(['inside', 'equals'])
		return s.pred(w + '_k_vector', g, [rx], lambda: getattr(x, w).k_vector(k), {'k': k})
	if kind == 'flag':
		f = rng.choice(FLAGS)
		return s.pred(f, g, [rx], lambda: getattr(x, f))
	if kind == 'grade':
		return s.pred('grade', g, [rx], lambda: x.grade(), err=True)
	if kind == 'seq':
		if rng.random() < 0.3:
			return s.pred('len', g, [rx], lambda: len(x))
		return s.pred('grades', g, [rx], lambda: x.grades()) if rng.random() < 0.5 else s.pred('blades', g, [rx], lambda: x.blades)
	if kind == 'relative':
		if not len(x):
			return
		bits = [rng.choice(blades(x)) for _ in range(rng.randint(1, 4))]
		return s.pred('relative', g, [rx], lambda: x.to_relative_indices(np.array(bits, dtype=x.blades.dtype)), {'bits': bits})
	if kind == 'label':
		t = s.call(lambda: x.pretty_str)
		if isinstance(t, str) and t[:3] in ('is_', 'in_') and (t[3:] in names_for(n)):
			s.add({'e': 'pred', 'op': 'label_' + t[:2], 'g': g + 1, 'a': [rx], 'p': {'name': t[3:]}, 'v': {'n': 1}}, f'printed label {t}')
		return
	if kind == 'subalgebra':
		return s.pred('is_subalgebra', g, [rx], lambda: x.is_subalgebra)
	if kind == 'study':
		return s.pred('is_study', g, [rx], lambda: x.is_study)
	if kind == 'simplicity':
		return s.pred('simplicity', g, [rx], lambda: x.simplicity)
	if kind == 'nsimple':
		f = rng.choice(NSIMPLE)
		k = rng.randint(0 if f == 'is_n_simple' else 1, 2)
		return s.pred(f, g, [rx], lambda: getattr(x, f)(k), {'k': k})
	if kind == 'alt':
		return s.pred('is_alt_n_simple', g, [rx], lambda: x.is_alt_n_simple(2), {'k': 2})


def tall(dims, seed, k=40):
	"""Small subspaces of algebras of many generators, whose blades fill wider integers.  Beyond 20 generators only
	operations that do not enumerate all blades are used."""
	rng = random.Random(seed)
	for n in dims:
		sig = sample_sigs(rng, n, 1)[0]
		s = SubSes([sig], f'{n} generators {sig_str(sig)}', None if n <= 20 else [chr(97 + i) if i < 26 else chr(65 + i - 26) for i in range(n)])
		F = s.gas[0].subspace
		top = lambda: rng.choice([1 << n - 1, 1 << rng.randrange(n), rng.randrange(2 ** n), 2 ** n - 1 - (1 << rng.randrange(n)), 3 << rng.randrange(n - 1),
			(1 << rng.choice([i for i in (0, 7, 8, 15, 16, 23, 24) if i < n])) + (1 << rng.randrange(n)) & 2 ** n - 1])
		pool = []
		for _ in range(k):
			c = rng.random()
			if len(pool) < 3 or c < 0.3:
				bits = list({top() for _ in range(rng.randint(1, 7))})
				rng.shuffle(bits)
				if rng.random() < 0.7:
					arg = rng.choice([list, tuple, lambda b: np.array(b), lambda b: np.array(b, dtype=np.uint32)])(bits)
					x = s.sub('from_blades', 0, [], lambda: F.from_blades(arg), {'bits': bits})
				else:
					txt = ','.join(''.join(str(b >> i & 1) for i in range(n)) for b in bits)
					x = s.sub('words', 0, [], lambda: F.from_bit_str(txt), {'words': [[i + 1 for i in range(n) if b >> i & 1] for b in bits]}, f'from_bit_str {txt}')
			else:
				(ra, a), (rb, b) = rng.choice(pool), rng.choice(pool)
				if c < 0.5:
					op = rng.choice(BIN_SET)
					x = s.sub(op, 0, [ra, rb], lambda: getattr(a, op)(b))
				elif c < 0.6:
					op = rng.choice(UN_CHEAP if n <= 17 else ['degenerate', 'nondegenerate'])
					x = s.sub(op, 0, [ra], lambda: getattr(a, op)())
				elif c < 0.7:
					idx = rng.sample(range(len(a)), rng.randint(0, len(a)))
					x = s.sub('slice', 0, [ra], lambda: a.slice_subspace(np.array(idx, dtype=int)), {'idx': idx})
				else:
					x = None
					w = rng.choice(['contains', 'equals', 'grades', 'blades', 'relative', 'degenerate'])
					if w == 'contains':
						s.pred(w, 0, [ra, rb], lambda: a in b)
					elif w == 'equals':
						s.pred(w, 0, [ra, rb], lambda: a == b)
					elif w == 'relative' and len(a):
						bits = [rng.choice(blades(a)) for _ in range(3)]
						s.pred(w, 0, [ra], lambda: a.to_relative_indices(np.array(bits, dtype=a.blades.dtype)), {'bits': bits})
					elif w == 'degenerate':
						s.pred('is_degenerate', 0, [ra], lambda: a.is_degenerate)
					elif w in ('grades', 'blades'):
						s.pred(w, 0, [ra], lambda: a.grades() if w == 'grades' else a.blades)
			if x is not None and x[1] is not None:
				pool.append(x)
		for r, x in pool:
			s.sub('same', 0, [r], lambda: F.from_blades(rng.sample(blades(x), len(x))))
		yield s
