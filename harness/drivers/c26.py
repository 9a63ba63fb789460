"""C26: the integrators.  RK1, RK4 and RK8 are executed on symbolic states, which yields the weights with which every stage and the
result combine the evaluations of the vector field; RungeKutta.tla enumerates the rooted trees and decides the order of the method
for every smooth vector field by Butcher's conditions.  On multivector states and linear fields their result is the truncated power
series.  The Lie group integrators and their building blocks (jax) are checked against the equations they solve: Cayley maps and
their squares and inverses, the Newton solver, and the two half steps and the motion of the Lie-Newmark method."""
from ..common import *
from .. import ga as G

TOL = 3000
ASSUMPTIONS = ['RK8 is the ten stage method of Shanks: exactly of order seven, the conditions of order eight hold to 2e-4']


def models(tier):
	return [dict(module='MCRungeKutta', cfg='MCRungeKutta.cfg', workers=2, timeout=600)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	J = [('lie', dict(sig=g, seed=r(), k=2 if not deep else 14)) for g in ((1, 1), (1, 1, 1), (1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 1))]
	J += [('maps', dict(seed=r(), k=4 if not deep else 40))]
	J += [('tableau', dict(seed=r()))]
	J += [('linear', dict(seed=r(), kind=k, runs=(6 if k.startswith('numpy') else 3) * (1 if not deep else 12))) for k in ('numpy', 'jax:einsum', 'torch:einsum')]
	return J


def tableau(seed):
	from numga.examples import integrators as I
	rng = random.Random(seed)
	s = Ses((1,), 'tableaus')
	for name, order, soft in (('RK1', 1, None), ('RK4', 4, None), ('RK8', 7, round(2e-4 * ONE))):
		for h in (1.0, 0.5, -2.0):
			e = {'e': 'rk', 'order': order, 'tol': 4000, 'name': name}
			stages = []

			def f(y):
				stages.append(np.array(y, dtype=float))
				k = np.zeros(64)
				k[len(stages)] = 1
				return k
			y = np.zeros(64)
			y[0] = 1
			r = s.call(lambda: getattr(I, name)(f, y.copy(), h))
			m = len(stages)
			if isinstance(r, Exception):
				e['err'] = f'raised {type(r).__name__}: {r}'[:200]
			elif not m or m > 30 or np.shape(r) != (64,) or not np.all(np.isfinite(r)) or max(np.abs(x).max() for x in stages + [r]) > 256 or np.abs([x[m + 1:] for x in stages + [r]]).max() > 0:
				e['err'] = 'not a step'
			else:
				e['y'] = [digits(x[0]) for x in stages + [r]]
				e['A'] = [[digits(x[j] / h) for j in range(1, m + 1)] for x in stages]
				e['b'] = [digits(r[j] / h) for j in range(1, m + 1)]
				if soft:
					e['soft'] = soft
					e['slip'] = [8, 1, digits(-234 / 20), digits(-231 / 20)]
			s.add(e, f'{name} with step {h}')
	yield s


def linear(seed, kind, runs):
	"""y' = y * z: the truncated power series"""
	from numga.examples import integrators as I
	rng = random.Random(seed)
	for _ in range(runs):
		n = rng.choice([2, 2, 3])
		sig = sample_sigs(rng, n, 1)[0]
		ctx = make_ctx(kind, algebra(sig))
		s = Ses(sig, f'linear fields {kind} {sig_str(sig)}')
		E = ctx.subspace.even_grade()
		for name in ('RK1', 'RK4', 'RK8'):
			shape = rng.choice([(), (), (2,), (2, 2)])
			mv = lambda S, a, sh: ctx.multivector(values=ctx.coerce_array(G.batch(lambda: G.grid(rng, len(S), 1) * a, sh)), subspace=S)
			full = ctx.subspace.full()
			Y = rng.choice([E, full])
			y, z = mv(Y, 1, shape), mv(rng.choice([ctx.subspace.scalar(), E]), 1, rng.choice([shape, ()]))
			h = rng.choice([0.25, 0.5, -0.5]) if name != 'RK8' else rng.choice([1, -1]) / 16
			H = ctx.multivector(values=ctx.coerce_array(np.array([h])), subspace=ctx.subspace.scalar())
			s.rel(name.lower() + '_linear', [y, z, H], lambda: getattr(I, name)(lambda u: u * z, y, h), TOL, note=f'{name} step {h} batches {shape} {tuple(z.shape)}')
			s.rel('close', [y], lambda: y, 0, note='state unchanged')
		yield s


def maps(seed, k):
	"""Logarithms and exponentials of the Lie group integrators, and the Newton solver"""
	from numga.examples.physics import lie_integrators as L
	rng = random.Random(seed)
	for _ in range(k):
		sig = rng.choice([(1, 1), (1, 1, 1), (1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 1)])
		ctx = make_ctx(rng.choice(['numpy', 'numpy', 'numpy:sparse', 'jax:einsum']), algebra(sig))
		s = Ses(sig, f'Lie group maps {sig_str(sig)}')
		B = ctx.subspace.bivector()
		for shape in ((), (3,)):
			b = ctx.multivector(values=ctx.coerce_array(G.batch(lambda: G.grid(rng, len(B), 1) * rng.choice([0, 0.25, 0.5]), shape)), subspace=B)
			s.rel('exp_quadratic', [b], lambda: L.exp2(b), TOL, note=f'exp2 {shape}')
			s.rel('half_cayley_squared', [b], lambda: L.exp4(b), TOL, note=f'exp4 {shape}')
			s.rel('close', [b], lambda: L.log2(L.exp2(b)), TOL, note=f'log2(exp2(b)) {shape}')
			s.rel('close', [b], lambda: L.log4(L.exp4(b)), TOL, note=f'log4(exp4(b)) {shape}')
			bl = blades(ctx.subspace.even_grade())
			m = ctx.multivector(values=ctx.coerce_array(G.batch(lambda: G.motor(rng, sig, blades(B), rng.choice([0.1, 0.4]))[bl], shape)), subspace=ctx.subspace.even_grade())
			s.rel('cayley_log', [m], lambda: L.log2(m), TOL, note=f'log2 {shape}')
			s.rel('half_cayley_log', [m], lambda: L.log4(m), TOL, note=f'log4 {shape}')
		yield s
	ctx = make_ctx('jax:einsum', algebra((1, 1, 1)))
	import jax.numpy as jnp
	s = Ses((1, 1, 1), 'Newton solver')
	V = ctx.subspace.bivector()
	for _ in range(max(2, k // 4)):
		# roots of x + A x x - c through the scalar solver, with componentwise squares
		x = G.grid(rng, 3, 1) / 2 + 1
		c = jnp.asarray(x * x + np.roll(x, 1) / 4)
		mk = lambda v: ctx.multivector(values=jnp.asarray(v), subspace=V)
		f = lambda u: u * u + jnp.roll(u, 1) / 4 - c
		n = rng.choice([8, 10, 12])
		s.rel('close', [mk(x)], lambda: mk(L.newton_solver(f, n)(jnp.ones(3) + 0.1)), TOL, note=f'{n} Newton steps')
		# as few steps as converge from nearby
		s.rel('close', [mk(x)], lambda: mk(L.newton_solver(f, 3)(jnp.asarray(x + 1e-2))), TOL, note='3 Newton steps')
		# a step towards the root of u*u halves u
		s.rel('close', [mk(x)], lambda: mk(L.newton_solver(lambda u: u * u, n)(jnp.asarray(x)) * 2 ** n), TOL, note=f'{n} Newton steps exactly')
		s.rel('close', [mk(x)], lambda: mk(L.newton_solver(lambda u: u * u)(jnp.asarray(x)) * 2 ** 10), TOL, note='ten Newton steps by default')
		q = ctx.multivector(values=jnp.asarray(G.grid(rng, 3, 1) / 4), subspace=V)
		g = lambda u: u + u.commutator(q) - mk(x)
		r = s.call(lambda: L.newton_solver_wrap(g, mk(np.zeros(3))))
		if isinstance(r, Exception):
			s.rel('close', [mk(x)], lambda: (_ for _ in ()).throw(r), TOL, note='Newton solver on multivectors')
		else:
			s.rel('close', [mk(x)], lambda: r + r.commutator(q), TOL, note='Newton solver on multivectors')
	yield s


def hodge(n, v):
	"""Right complement, up to signs of the metric"""
	N = 2 ** n
	r = np.zeros(N)
	for b in range(N):
		r[N - 1 - b] = G.sign((1,) * n, b, N - 1 - b) * v[b]
	return r


def inertia_matrix(sig, pts):
	"""The inertia map of points (coefficients over antivectors), as a matrix; to bound its condition"""
	n = len(sig)
	N = 2 ** n
	inv = np.linalg.inv(np.array([hodge(n, e) for e in np.eye(N)]).T)
	anti = [b for b in range(N) if bin(b).count('1') == n - 1]
	biv = [b for b in range(N) if bin(b).count('1') == 2]
	out = []
	for b in biv:
		e = np.eye(N)[b]
		t = np.zeros(N)
		for p in pts:
			p = G.dense(sig, anti, p)
			c = (G.mul(sig, p, e) - G.mul(sig, e, p)) / 2
			w = G.mul((0,) * n, hodge(n, p), hodge(n, c))		# null generators: the wedge
			t += inv @ w
		out.append(t[[N - 1 - x for x in biv]])
	return np.array(out)


def cloud(rng, sig, tries=200):
	"""Coefficients over the antivectors of a cloud of points whose inertia map is well conditioned, or None"""
	n = len(sig)
	anti = [b for b in range(2 ** n) if bin(b).count('1') == n - 1]
	for _ in range(tries):
		m = rng.randint(n, n + 2)
		pts = np.array([G.grid(rng, n, 1, 4) for _ in range(m)])
		if 0 in sig:
			# normalised: all of the same weight at the blade without the null generator
			w = [i for i, b in enumerate(anti) if not b & sum(1 << j for j, g in enumerate(sig) if g == 0)]
			pts[:, w] = rng.choice([1, -1])
		S = np.linalg.svd(inertia_matrix(sig, pts), compute_uv=False)
		if S[-1] > 0.4 and S[0] / S[-1] < 25:
			return pts
	return None


def lie(sig, seed, k):
	from numga.examples.physics import lie_integrators as L
	import jax
	rng = random.Random(seed)
	ctx = make_ctx('jax:einsum', algebra(sig))
	n = len(sig)
	A, B, E = ctx.subspace.antivector(), ctx.subspace.bivector(), ctx.subspace.motor()
	AB = ctx.subspace.antibivector()
	import jax.numpy as jnp
	mk = lambda S, v: ctx.multivector(values=jnp.asarray(np.asarray(v, dtype=float)), subspace=S)
	s = Ses(sig, f'Lie group integrators {sig_str(sig)}')
	ones = lambda pts: [mk(A, p) for p in pts]
	for i in range(k):
		pts = cloud(rng, sig)
		if pts is None:
			continue
		P = mk(A, pts)
		I = P.inertia_map().sum(axis=-3)
		Inv = I.inverse()
		rate = mk(B, G.grid(rng, len(B), 1) * 0.75)
		m = mk(E, G.motor(rng, sig, blades(B), 0.5)[blades(E)])
		F = mk(AB, G.grid(rng, len(AB), 1) * rng.choice([0, 0.5]))
		dt = rng.choice([0.125, 0.25])
		H = mk(ctx.subspace.scalar(), [dt / 2])
		force = lambda motor, r: F

		def newmark():
			r = L.explicit_lie_newmark(m, rate, I, Inv, dt, force)
			return r
		# the rate at half step is a witness, checked against its equation by the specification
		half = s.call(lambda: rate + Inv((F - I(rate).commutator(rate)) * (dt / 2)))
		if isinstance(half, Exception):
			s.rel('lie_newmark', [m], lambda: (_ for _ in ()).throw(half), TOL, note='witness')
			continue
		s.rel('lie_newmark', [m, rate, half, F, H] + ones(pts), newmark, TOL, note=f'explicit_lie_newmark dt {dt}')
		dr = lambda r: Inv(F - I(r).commutator(r))
		for name, steps in (('explicit_rk1', 1), ('explicit_rk4', 4)):
			res = s.call(lambda: getattr(L, name)(m, rate, I, Inv, dt, force))
			if isinstance(res, Exception):
				s.rel('close', [m], lambda: (_ for _ in ()).throw(res), TOL, note=name)
				continue
			# the motion: m' = cayley(rate' dt / 2) m
			s.rel('cayley_step', [m, res[1], H], lambda: res[0], TOL, note=f'{name} motion, dt {dt}')
			s.rel('euler_rk', [rate, F, mk(ctx.subspace.scalar(), [dt])] + ones(pts), lambda: stages(dr, rate, dt, steps) + (res[1],), TOL, note=f'{name} rate, dt {dt}')
	yield s


def stages(dr, rate, h, order):
	"""The witnesses k_i of the classical methods; each is checked against its equation"""
	k1 = dr(rate)
	if order == 1:
		return (k1,)
	k2 = dr(rate + k1 * (h / 2))
	k3 = dr(rate + k2 * (h / 2))
	k4 = dr(rate + k3 * h)
	return k1, k2, k3, k4
