"""C21: strings of the real library against Names.tla, which specifies them on their characters: descriptions parsed and
printed for every signature up to 4 generators (single and multi character names, products of algebras, (p,q,r) up to 32
generators), every word of up to 4 generator names in small algebras and random permutations in large ones, bit and name
strings of subspaces, subspaces named by words, and every cell of the printed tables of unary and binary operators."""
import re
from ..common import *

ASSUMPTIONS = ['generator names contain none of + - 0, and read back in one way (though one may start with another); blade names that are also attributes of the factories are not used']
WORDY = [('e1', 'e2', 'e3', 'n', 'e4', 'e5'), ('no', 'e1', 'ninf', 'e2', 'e3', 'q'), ('y1', 'ab', 'x', 'zz', 'b2', 'c'), ('wx', 'xy', 'yw', 'u', 'vu', 'ww'), ('t1', 'p', 'q1', 'r', 's11', 'a'),
	('e11', 'e1', 'e2', 'e12', 'e21', 'e1x'), ('ab2', 'c', 'ab', 'd', 'ab22', 'dx'), ('x', 'xy', 'z', 'zt', 'w', 'wq')]
TABLE1 = ['reverse', 'involute', 'conjugate', 'scalar_negation', 'pseudoscalar_negation', 'left_complement', 'right_complement',
	'left_complement_dual', 'right_complement_dual', 'left_hodge', 'right_hodge', 'dual', 'left_hodge_inverse', 'right_hodge_inverse',
	'dual_inverse', 'degenerate', 'nondegenerate', 'identity']
TABLE2 = ['product', 'wedge', 'inner', 'scalar_product', 'left_contract', 'right_contract', 'commutator', 'anti_commutator', 'cross_product',
	'regressive', 'anti_product', 'anti_wedge', 'anti_inner', 'left_interior', 'right_interior', 'anti_reverse_product'] + FUSED


def models(tier):
	return [dict(module='MCNames', cfg='MCNames.cfg', workers=3, timeout=600)]


class TextSes(Ses):
	def text(self, op, p, f, note=None):
		res = self.call(f)
		v = {'err': f'{type(res).__name__}: {res}'[:200]} if isinstance(res, Exception) else res
		self.add({'e': 'text', 'op': op, 'p': p, 'v': v}, note or f'{op} {p}')
		return res


def desc_of(d):
	return {'names': [str(n) for n in d.basis_names], 'sig': [int(x) for x in d.signature]}


def ints(*qs):
	return {'q': [int(i) for q in qs for i in (q if hasattr(q, '__iter__') else [q])]}


def cells(txt):
	"""The texts between the rules of a printed table"""
	return {'table': [re.split('[║│]', line)[1:-1] for line in txt.split('\n') if line[:1] == '║']}


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	sigs = small_sigs(rng, True) + sample_sigs(rng, 5, 6 if not deep else 60) + sample_sigs(rng, 6, 4 if not deep else 30)
	J = [('descriptions', dict(sigs=p, seed=rng.randrange(1 << 30))) for p in chunks(sigs, 4)]
	J += [('pqr', dict(seed=rng.randrange(1 << 30), k=120 if not deep else 1000))]
	small = [x for n in (1, 2, 3) for x in all_sigs(n)] + sample_sigs(rng, 4, 9 if not deep else 60)
	J += [('words', dict(sigs=p, seed=rng.randrange(1 << 30), all_=True)) for p in chunks(small, 6)]
	J += [('words', dict(sigs=sample_sigs(rng, n, 2 if not deep else 8), seed=rng.randrange(1 << 30), all_=False, k=40 if not deep else 150)) for n in (5, 6, 8, 9, 10)]
	J += [('strings', dict(sigs=p, seed=rng.randrange(1 << 30))) for p in chunks(sigs + [s for n in (7, 8, 9, 10) for s in sample_sigs(rng, n, 2)], 4)]
	J += [('tables', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6)) for p in chunks(small + sample_sigs(rng, 5, 4 if not deep else 20) + sample_sigs(rng, 9, 1), 8)]
	return J


def namings(rng, n):
	return [NAMES[:n]] + ([rng.choice(WORDY)[:n]] if n <= 6 else [rng.choice([[f'e{c}' for c in 'abcdefghijklmnop'[:n]], ['e1', 'e11', 'e2', 'e12', 'e3', 'e13', 'e113', 'e4', 'e21', 'e112'][:n], ['e' + '1' * (i + 1) for i in range(n)]])])


def descriptions(sigs, seed):
	from numga.algebra.description import AlgebraDescription
	from numga.algebra.algebra import Algebra
	rng = random.Random(seed)
	for sig in sigs:
		for names in namings(rng, len(sig)):
			d = sig_str(sig, names)
			s = TextSes(sig, f'description {d}')
			p = {'desc': d}
			s.text('parse', p, lambda: desc_of(AlgebraDescription.from_str(d)))
			for mk in (lambda: Algebra(d), lambda: Algebra.from_str(d), lambda: Algebra(AlgebraDescription.from_str(d))):
				s.text('parse', p, lambda: desc_of(mk().description), note='Algebra from string')
			A = s.call(lambda: Algebra(d))
			D = A.description if not isinstance(A, Exception) else None
			s.text('print', p, lambda: {'t': D.description_str})
			s.text('signature', p, lambda: {'t': D.signature_str})
			s.text('counts', p, lambda: ints(D.pqr, D.n_dimensions, D.n_grades, D.n_blades))
			s.text('counts', p, lambda: ints(D.pqr, A.n_dimensions, A.n_grades, len(A)))
			s.text('counts', p, lambda: ints([int(c) for c in D.pqr_str], A.n_dimensions, A.n_grades, A.n_blades))
			s.text('masks', p, lambda: ints(D.positives, D.negatives, D.zeros, D.all))
			bits = lambda m: [int(m) >> i & 1 for i in range(len(sig))]
			s.text('masks', p, lambda: ints(bits(A.positives), bits(A.negatives), bits(A.zeros), D.all), note='bit masks of the algebra')
			# malformed descriptions are refused
			bad = d + rng.choice(['q', 'xq', 'e'])
			s.text('parse', {'desc': bad}, lambda: desc_of(AlgebraDescription.from_str(bad)))
			# products of algebras: the generators of the second follow those of the first
			n2 = rng.randint(1, 3)
			sig2 = tuple(rng.choice((1, -1, 0)) for _ in range(n2))
			names2 = rng.choice([['r1', 's1', 't'], 'hkl', ['m', 'f9', 'g2']])[:n2]
			d2 = sig_str(sig2, names2)
			p2 = {'desc': d, 'desc2': d2}
			B = Algebra(d2)
			if not isinstance(A, Exception):
				s.text('mul', p2, lambda: desc_of((A * B).description))
				s.text('mul', {'desc': d2, 'desc2': d}, lambda: desc_of((B * A).description))
				s.text('mul', p2, lambda: desc_of(AlgebraDescription.from_str(d) * AlgebraDescription.from_str(d2)))
				s.text('mul', {'desc': d, 'desc2': d}, lambda: desc_of((A * Algebra(d)).description))
				s.text('mul', {'desc': d2 , 'desc2': d}, lambda: desc_of(AlgebraDescription.from_str((B * A).description.description_str)), note='product printed and parsed')
				s.text('print', p, lambda: {'t': A.description.description_str}, note='factor unchanged by the product')
			yield s


def pqr(seed, k):
	from numga.algebra.description import AlgebraDescription
	from numga.algebra.algebra import Algebra
	rng = random.Random(seed)
	s = TextSes([1], 'pqr')
	cases = [(p, q, r) for p in range(4) for q in range(4) for r in range(4) if 0 < p + q + r <= 6]
	for _ in range(k):
		n = rng.randint(1, 32)
		a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
		cases.append((a, b - a, n - b))
	for p, q, r in cases:
		pp = {'p': p, 'q': q, 'r': r}
		mk = rng.choice([lambda: Algebra((p, q, r)).description, lambda: Algebra.from_pqr(p, q, r).description, lambda: AlgebraDescription.from_pqr(p, q, r),
			lambda: AlgebraDescription.from_signature('+' * p + '-' * q + '0' * r)])
		s.text('pqr', pp, lambda: desc_of(mk()))
	yield s


def words(sigs, seed, all_, k=0):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		for names in namings(rng, n):
			d = sig_str(sig, names)
			s = TextSes(sig, f'words over {d}')
			A = algebra(sig, names)
			D, F = A.description, A.subspace
			kinds = ['numpy:einsum']
			if rng.random() < 0.3:
				kinds.append(rng.choice(['numpy:sparse', 'jax:dense', 'torch:einsum']))
			ctxs = [make_ctx(kd, A) for kd in kinds]
			W = [t for m in range(1, min(n, 3) + 2) for t in itertools.product(range(n), repeat=m)] if all_ else []
			if len(W) > 400:
				W = rng.sample(W, 400)
			for _ in range(k):
				t = rng.sample(range(n), rng.randint(1, n))
				if rng.random() < 0.2:
					t.insert(rng.randint(0, len(t)), rng.choice(t))
				W.append(tuple(t))
			for t in W:
				w = ''.join(names[i] for i in t)
				s.text('tokens', {'desc': d, 'word': w}, lambda: ints(D.parse_tokens(w)))
				for ctx in ctxs:
					M = ctx.multivector
					if hasattr(type(M), w):
						continue
					s.text('blade', {'desc': d, 'word': w}, lambda: (lambda v: {'s': v['s'], 'mv': v['d'][0]} if 'd' in v and v['h'] == [] else v)(enc(getattr(M, w))))
				if rng.random() < 0.3 and not hasattr(type(F), w):
					s.text('words', {'desc': d, 'words': w}, lambda: {'s': blades(getattr(F, w))})
			for _ in range(30 if all_ else 10):
				ws = [''.join(names[i] for i in rng.choice(W)) for _ in range(rng.randint(2, 4))]
				toks = [frozenset(D.parse_tokens(w)) for w in ws]
				if len(set(toks)) == len(toks):
					txt = '_'.join(ws)
					s.text('words', {'desc': d, 'words': txt}, lambda: {'s': blades(getattr(F, txt))})
			w = ''.join(names[i] for i in rng.choice(W))
			for bad in (w + '?', 'Q' + w, w + 'Q'):
				s.text('tokens', {'desc': d, 'word': bad}, lambda: ints(D.parse_tokens(bad)))
				s.text('blade', {'desc': d, 'word': bad}, lambda: enc(getattr(ctxs[0].multivector, bad)))
			yield s


def strings(sigs, seed):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		for names in namings(rng, n):
			d = sig_str(sig, names)
			A = algebra(sig, names)
			s = TextSes(sig, f'subspace strings {d}')
			ctx = np_ctx(A)
			subs = (named_subs(A) if n <= 6 else []) + [rand_sub(rng, A, 0, 12) for _ in range(8)]
			for x in subs:
				if len(x) > 64:
					continue
				p = {'desc': d, 'bl': blades(x)}
				s.text('bits', p, lambda: {'t': x.bit_str})
				s.text('names', p, lambda: {'t': x.named_str})
				s.text('names', p, lambda: {'t': repr(x).split(': ', 1)[1]}, note='printed subspace')
				mv = rand_mv(rng, ctx, x)
				s.text('names', p, lambda: {'t': re.search('<(.*)>', repr(mv)).group(1)}, note='printed multivector')
				if len(x):
					# the strings read back as the same object
					s.add({'e': 'eqsub', 's': blades(x), **same(A.subspace.from_bit_str, x.bit_str, x)}, 'from_bit_str(bit_str)')
					if 0 not in blades(x):
						txt = x.named_str.replace(',', '_')
						if not hasattr(type(A.subspace), txt):
							s.add({'e': 'eqsub', 's': blades(x), **same(lambda t: getattr(A.subspace, t), txt, x)}, f'subspace by its own name {txt}')
			yield s


def same(f, txt, x):
	try:
		y = f(txt)
		return {'t': blades(y), 'same': int(y is x)}
	except Exception as e:
		return {'t': [SENT], 'same': 0}


def tables(sigs, seed, k):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		names = rng.choice(namings(rng, n))
		d = sig_str(sig, names)
		A = algebra(sig, names)
		s = TextSes(sig, f'printed tables {d}')
		O, full = A.operator, A.subspace.full()
		for op in TABLE1 + TABLE2:
			ar = 1 if op in TABLE1 else 2
			if not needs(op, n):
				continue
			todo = [[full] * ar] if n <= 2 or (n == 3 and rng.random() < 0.3) else []
			todo += [[rand_sub(rng, A, 0, min(2 ** n, 10)) for _ in range(ar)] for _ in range(k)]
			for subs in todo:
				o = s.call(lambda: getattr(O, op)(*subs))
				p = {'desc': d, 'name': op, 'bl': blades(subs[0])}
				if ar == 2:
					p['bl2'] = blades(subs[1])
				s.text(f'table{ar}', p, lambda: cells(str(o)), note=f'table of {op} on {[blades(x) for x in subs]}')
		yield s
