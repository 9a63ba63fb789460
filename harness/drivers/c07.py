"""C07: for every operator and input subspaces, the declared result subspace against the exact support of the
multilinear map of Operators.tla (sound always, tight for the listed operators), and every symbolic route to the
subspace (operator output, subspace methods) against the subspace of the computed multivector."""
from ..common import *

TIGHT = (['product', 'wedge', 'inner', 'scalar_product', 'left_contract', 'right_contract', 'bivector_product', 'n_product',
	'commutator', 'anti_commutator', 'cross_product'] + ANTI_CORE + FUSED)
SUBMETHODS = {'product': 'product', 'wedge': 'wedge', 'inner': 'inner', 'reverse_product': 'reverse_product',
	'involute_product': 'involute_product', 'conjugate_product': 'conjugate_product',
	'scalar_negation_product': 'scalar_negation_product', 'pseudoscalar_negation_product': 'pseudoscalar_negation_product',
	'anti_reverse_product': 'anti_reverse_product',
	'squared': 'squared', 'cubed': 'cubed', 'symmetric_reverse_product': 'symmetric_reverse',
	'symmetric_involute_product': 'symmetric_involute', 'symmetric_conjugate_product': 'symmetric_conjugate',
	'symmetric_scalar_negation_product': 'symmetric_scalar_negation',
	'symmetric_pseudoscalar_negation_product': 'symmetric_pseudoscalar_negation'}


def models(tier):
	return [dict(module='MCLaws', cfg='MCLaws.cfg' if tier == 'quick' else 'MCLaws4.cfg', workers=4, timeout=3000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	J = [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6)) for p in chunks(small_sigs(rng, deep), 8 if not deep else 24)]
	J += [('run', dict(sigs=p, seed=rng.randrange(1 << 30), k=1 if not deep else 6, hi=8)) for p in chunks(sample_sigs(rng, 4, 8) + sample_sigs(rng, 5, 8 if not deep else 40) + sample_sigs(rng, 6, 4 if not deep else 16), 8)]
	J += [('expressions', dict(n=n, seed=rng.randrange(1 << 30), k=10 if not deep else 60)) for n in (2, 3, 4, 5)]
	return J


def sym_routes(ctx, name, subs, q=None):
	ga = ctx.algebra
	extra = [q] if q is not None else []
	routes = [lambda: getattr(ga.operator, name)(*subs, *extra)]
	routes.append(lambda: getattr(ctx.operator, name)(*subs, *extra).output and getattr(ctx.operator, name)(*subs, *extra).output)
	if name in SUBMETHODS:
		routes.append(lambda: getattr(subs[0], SUBMETHODS[name])(*subs[1:]))
	elif q is None:
		routes.append(lambda: getattr(subs[0], name)(*subs[1:]))
	return routes


def run(sigs, seed, k, hi=None):
	rng = random.Random(seed)
	for sig in sigs:
		n = len(sig)
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'result subspaces {sig_str(sig)}')
		for name in TIGHT:
			if not needs(name, n):
				continue
			for subs in sub_tuples(rng, ga, 2, k + 1, hi=hi, lo=0):
				q = rand_sub(rng, ga, 0) if name == 'n_product' else None
				s.kernel(name, subs, lambda: kernel_of(ctx, name, subs, q=q), q=None if q is None else blades(q), tight=1, sym=sym_routes(ctx, name, subs, q))
		yield s
		s = Ses(sig, f'result subspaces of repeated arguments {sig_str(sig)}')
		cap = {1: 2, 2: 4, 3: 8, 4: 8}.get(n, 6)
		for name in TIED2 + ['study_norm_squared'] + TIED3 + TIED4 + ['euclidian_factorization']:
			if not needs(name, n):
				continue
			if name == 'euclidian_factorization' and sum(x == 0 for x in sig) > 1:
				continue
			ar = len(POS[name])
			lim = {2: hi or 16, 3: min(cap, hi or cap), 4: min(cap, 6)}[ar]
			pool = [rand_sub(rng, ga, 0, lim) for _ in range(k + 1)]
			pool += [x for x in rng.sample(named_subs(ga), 3) if len(x) <= lim]
			for v in pool:
				subs = [v] * ar
				routes = sym_routes(ctx, name, [v]) if name != 'study_norm_squared' else sym_routes(ctx, name, [v])[:2]
				s.kernel(name, subs, lambda: kernel_of(ctx, name, [v], POS[name]), tight=1, sym=routes)
		for name in ('full_sandwich', 'sandwich', 'reverse_sandwich', 'transform', 'inverse_transform', 'inertia'):
			for _ in range(k + 1):
				lim = hi or 8
				R, v = rand_sub(rng, ga, 1, lim), rand_sub(rng, ga, 1, lim)
				op, q = name, grades_of(v)
				if 'transform' in name:
					par = rng.choice((0, 1))
					R = rand_sub(rng, ga, 1, lim, grades=range(par, n + 1, 2))
					op = name + ('_odd' if par else '_even')
				if name == 'inertia':
					q = None
				subs = [(R, v)[p] for p in POS[name]]
				s.kernel(op, subs, lambda: kernel_of(ctx, name, [R, v], POS[name]), q=q, tight=1, sym=sym_routes(ctx, name, [R, v])[:2])
		for name in ('reverse', 'involute', 'conjugate', 'right_hodge', 'left_hodge', 'left_complement', 'right_complement',
				'right_complement_dual', 'left_complement_dual', 'right_hodge_inverse', 'left_hodge_inverse'):
			v = rand_sub(rng, ga, 0, hi)
			s.kernel(name, [v], lambda: kernel_of(ctx, name, [v]), tight=1, sym=sym_routes(ctx, name, [v]))
		for name in ('degenerate', 'nondegenerate'):
			v = rand_sub(rng, ga, 0, hi)
			s.kernel(name, [v], lambda: kernel_of(ctx, name, [v]), tight=1,
				sym=[lambda: getattr(v, name)(), lambda: getattr(ga.operator, name)(v), lambda: getattr(basis_batches(ctx, [v])[0], name)()])
		for name in ('select', 'restrict'):
			for _ in range(2):
				v, o = rand_sub(rng, ga, 0, hi), rng.choice([rand_sub(rng, ga, 0, hi), rng.choice(named_subs(ga))])
				want = o if name == 'select' else v.intersection(o)
				s.kernel(name, [v], lambda: kernel_of(ctx, name, [v], q=o), q=blades(o), tight=2 if name == 'select' else 1,
					sym=[lambda: getattr(v, name)(o), lambda: getattr(v, name + '_subspace')(o), lambda: getattr(ga.operator, name)(v, o)])
		yield s


def expressions(n, seed, k):
	"""Random expression trees: the subspace computed symbolically is the subspace of the computed value"""
	rng = random.Random(seed)
	for sig in sample_sigs(rng, n, min(6, 3 ** n)):
		ctx = np_ctx(algebra(sig))
		ga = ctx.algebra
		s = Ses(sig, f'expression subspaces {sig_str(sig)}')
		bin_ops = [o for o in GRADED_CORE + ANTI_CORE + FUSED if o != 'n_product' and needs(o, n) and o != 'study_conjugate_product']
		un_ops = [o for o in UNARY if o not in ('identity', 'study_conjugate')]
		for _ in range(k):
			x = rand_mv(rng, ctx, rand_sub(rng, ga, 1, 6))
			r = s.new(x)
			sub = x.subspace
			for _ in range(3):
				if rng.random() < 0.5:
					name = rng.choice(un_ops)
					r2, y = s.op(name, [r], lambda: getattr(ctx.operator, name)(x.subspace)(x), keep=True)
					new = s.call(lambda: getattr(sub, name)() if name in ('degenerate', 'nondegenerate') else getattr(ga.operator, name)(sub))
				else:
					name = rng.choice(bin_ops)
					z = rand_mv(rng, ctx, rand_sub(rng, ga, 1, 6), m=1)
					rz = s.new(z)
					r2, y = s.op(name, [r, rz], lambda: getattr(ctx.operator, name)(x.subspace, z.subspace)(x, z), keep=True)
					new = s.call(lambda: getattr(ga.operator, name)(sub, z.subspace))
				if not r2:
					break
				r, x = r2, y
				ok = not isinstance(new, Exception)
				s.add({'e': 'eqsub', 's': s.ev[-1]['v'].get('s', []), 't': blades(new.subspace) if ok else [SENT], 'same': int(ok and new.subspace is x.subspace)}, f'symbolic subspace after {name}')
				if not ok:
					break
				sub = new.subspace
				if np.max(np.abs(x.values), initial=0) > 2000:
					break
		yield s
