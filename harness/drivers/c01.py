"""C01: every product kernel, for all signatures of up to 4 generators on the full algebra, random subspaces
and dense integer coefficients beyond that, up to blade widths of 8, 16 and 32 bits, against the word-rewriting
product of Clifford.tla (trace validation); laws of the product model checked in MCLaws."""
from ..common import *

ASSUMPTIONS = ['coefficients are integers: the product is bilinear, so a kernel correct on basis blades is correct on all reals',
	'numpy arithmetic on float64 integers below 2^53 is exact']


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = []
	sigs = [s for n in (1, 2, 3, 4) for s in all_sigs(n)]
	if deep:
		sigs += all_sigs(5)
	else:
		sigs += sample_sigs(rng, 5, 10)
	sigs.sort(key=len)
	for part in chunks(sigs, 16 if deep else 8):
		J.append(('full', dict(sigs=part)))
	for n, k in ((3, 12), (4, 12), (5, 10), (6, 8), (7, 6), (8, 6), (9, 6), (10, 4)) if not deep else ((3, 60), (4, 80), (5, 80), (6, 60), (7, 40), (8, 40), (9, 40), (10, 30), (11, 20), (12, 20)):
		for part in chunks(sample_sigs(rng, n, k if n > 3 else min(k, 15)), 2 if not deep else 4):
			J.append(('dense', dict(sigs=part, seed=rng.randrange(1 << 30), k=6)))
	for n in (15, 16, 17, 18):
		J.append(('dense', dict(sigs=sample_sigs(rng, n, 2 if not deep else 6), seed=rng.randrange(1 << 30), k=3)))
	for n in (9, 10) if not deep else (9, 9, 10, 10, 11):
		J.append(('wide', dict(sigs=sample_sigs(rng, n, 2), seed=rng.randrange(1 << 30))))
	J.append(('construct', dict(seed=rng.randrange(1 << 30), k=12 if not deep else 80)))
	return J


def full(sigs):
	"""The complete multiplication table"""
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		f = ctx.subspace.multivector()
		s = Ses(sig, f'full table {sig_str(sig)}')
		s.kernel('product', [f, f], lambda: kernel_of(ctx, 'product', [f, f]))
		b = basis_batches(ctx, [f, f])
		s.kernel('product', [f, f], lambda: b[0] * b[1], note='x * y on all blades')
		pss(s, ctx)
		yield s


def pss(s, ctx):
	I = ctx.multivector.pseudoscalar([1])
	r = s.new(I)
	v = s.call(lambda: ctx.algebra.pseudo_scalar_squared)
	val = {'err': str(v)} if isinstance(v, Exception) else {'s': [0], 'h': [], 'd': rows_of(np.array([int(v)]), [0])}
	s.add({'e': 'op', 'op': 'product', 'a': [r, r], 'v': val}, 'pseudo_scalar_squared')


def dense(sigs, seed, k):
	"""Random subspaces with random integers"""
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		dt = np.float32 if rng.random() < 0.3 else np.float64
		ctx = np_ctx(algebra(sig), dtype=dt)
		s = Ses(sig, f'random subspaces {sig_str(sig)} {np.dtype(dt)}')
		for _ in range(k):
			hi = 24 if n <= 8 else 10
			A, B = [high(rng, ctx.algebra, hi) for _ in range(2)]
			a, b = rand_mv(rng, ctx, A, rng.choice([(), (2,)])), rand_mv(rng, ctx, B)
			ra, rb = s.new(a), s.new(b)
			s.op('product', [ra, rb], lambda: a * b, note=f'{blades(A)} * {blades(B)}')
			s.op('product', [rb, ra], lambda: b.product(a))
			name = rng.choice(['gp', 'product', 'geometric_product'])
			s.op('product', [ra, rb], lambda: getattr(ctx.operator, name)(A, B)(a, b), note=name)
		if n <= 12:
			pss(s, ctx)
		yield s


def high(rng, ga, hi):
	"""Random subspace, its blades spread over all grades including the highest bits"""
	n = ga.n_dimensions
	if n <= 8:
		return rand_sub(rng, ga, 1, hi)
	pick = set()
	for _ in range(rng.randint(1, hi)):
		b = rng.getrandbits(n) if rng.random() < 0.6 else (1 << (n - 1)) | rng.getrandbits(n) & rng.getrandbits(n) & rng.getrandbits(n)
		pick.add(b)
	return ga.subspace.from_blades(sorted(pick))


def wide(sigs, seed):
	"""Factors of hundreds of blades, more than a byte can count"""
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'wide subspaces {sig_str(sig)}')
		for A in (ctx.subspace.multivector(), wide_sub(rng, ctx.algebra)):
			B = high(rng, ctx.algebra, 3)
			a, b = rand_mv(rng, ctx, A), rand_mv(rng, ctx, B)
			ra, rb = s.new(a), s.new(b)
			s.op('product', [ra, rb], lambda: a * b, note=f'{len(A)} blades * {blades(B)}')
			s.op('product', [rb, ra], lambda: b * a, note=f'{blades(B)} * {len(A)} blades')
		yield s


def construct(seed, k):
	"""Every way of declaring an algebra"""
	from numga.algebra.algebra import Algebra
	from numga.algebra.description import AlgebraDescription
	rng = random.Random(seed)
	for i in range(k):
		p, q, r = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 2)
		if p + q + r == 0:
			p = 1
		sig = (1,) * p + (-1,) * q + (0,) * r
		yield table(lambda: Algebra((p, q, r)), sig, f'Algebra(({p},{q},{r}))')
		yield table(lambda: AlgebraDescription.from_pqr(p, q, r) and Algebra(AlgebraDescription.from_pqr(p, q, r)), sig, f'from_pqr {p} {q} {r}')
		s1 = tuple(rng.choice((1, -1, 0)) for _ in range(rng.randint(1, 3)))
		s2 = tuple(rng.choice((1, -1, 0)) for _ in range(rng.randint(1, 2)))
		names = list('abcdefghuvwxyz')
		rng.shuffle(names)
		n1, n2 = names[:len(s1)], names[len(s1):len(s1) + len(s2)]
		yield table(lambda: Algebra(sig_str(s1, n1)) * Algebra(sig_str(s2, n2)), s1 + s2, f'product of {sig_str(s1, n1)} and {sig_str(s2, n2)}')
		long = ['e%d' % j for j in range(1, len(s1) + 1)]
		yield table(lambda: Algebra(sig_str(s1, long)), s1, f'multi-character names {sig_str(s1, long)}')
		yield table(lambda: Algebra(AlgebraDescription.from_signature(''.join({1: '+', -1: '-', 0: '0'}[x] for x in s1))), s1, 'from_signature')


def table(make, sig, label):
	s = Ses(sig, label)
	alg = s.call(make)
	if isinstance(alg, Exception):
		s.add({'e': 'kern', 'op': 'product', 'subs': [[0], [0]], 'tight': 0, 's': [], 'rows': [], 'err': str(alg)}, label)
		return s
	ctx = np_ctx(alg)
	f = ctx.subspace.multivector()
	s.kernel('product', [f, f], lambda: kernel_of(ctx, 'product', [f, f]), note=label)
	return s
