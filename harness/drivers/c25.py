"""C25: rigid bodies.  First moments, inertia maps and their inverses, kinetic energies, forques, rate derivatives and integration
steps of bodies made from clouds of points, in flat and curved spaces of two to four generators, against the mechanics of
Mechanics.tla, which knows a body by its points only; constraints conserve momentum, dissipate energy, and do not move their
anchors apart; batches of bodies and sets of constraints behave as their elements; on numpy, JAX and torch."""
from ..common import *
from .. import ga as G
from .c26 import cloud

TOL = 6000
SPACES = [(1, 1), (1, 1, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1, 0), (1, 1, 1, 1), (1, 1, -1)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	m = 1 if not deep else 10
	J = [('probe', dict())]
	J += [('chains', dict(kind=k, seed=r(), runs=(4 if k == 'numpy' else 2) * m)) for k in ('numpy', 'numpy', 'jax:einsum', 'torch:einsum')]
	J += [('links', dict(kind=k, seed=r(), runs=(4 if k == 'numpy' else 2) * m)) for k in ('numpy', 'jax:einsum', 'torch:einsum')]
	J += [('bodies', dict(kind=k, seed=r(), runs=(5 if k.startswith('numpy') else 3) * m)) for k in ('numpy', 'numpy', 'numpy:sparse', 'jax:einsum', 'torch:einsum')]
	J.append(('jitted', dict(seed=r(), runs=1 * m)))
	return J


class Phys(Ses):
	def __init__(self, sig, label, ctx):
		super().__init__(sig, label)
		self.ctx = ctx

	def mv(self, S, v):
		return self.ctx.multivector(values=self.ctx.coerce_array(np.asarray(v, dtype=float)), subspace=S)

	def same(self, x, f, note, tol=TOL):
		return self.rel('close', [x], f, tol, note=note)

	def need(self, f, x, note):
		"""A value later events need; raising is recorded"""
		r = self.call(f)
		if isinstance(r, Exception):
			self.rel('close', [x], lambda: (_ for _ in ()).throw(r), TOL, note=note)
			return None
		return r


def motors(rng, sig, E, B, shape, size=0.5):
	return G.batch(lambda: G.motor(rng, sig, blades(B), size)[blades(E)], shape)


def body_events(s, rng, sig, body, P, h, dt):
	"""A set of bodies of shape h with points P: [h, points, coefficients]"""
	ctx = s.ctx
	A, B, E, AB = ctx.subspace.antivector(), ctx.subspace.bivector(), ctx.subspace.motor(), ctx.subspace.antibivector()
	S = ctx.subspace.scalar()
	pts = [s.mv(A, P[..., j, :]) for j in range(P.shape[-2])]
	g = lambda sub, a: s.mv(sub, G.batch(lambda: G.grid(rng, len(sub), 1) * a, h))
	rate, mom = g(B, 0.5), g(AB, 0.5)
	m = s.mv(E, motors(rng, sig, E, B, h))
	s.rel('first_moment', pts, lambda: body.first_moment, TOL, note='first moment')
	s.rel('momentum', [rate] + pts, lambda: body.inertia(rate), TOL, note='inertia map')
	s.rel('rate_of', [mom] + pts, lambda: body.inertia_inv(mom), TOL, note='inverse inertia map')
	damp, grav = s.mv(S, np.abs(G.batch(lambda: G.grid(rng, 1, 1), h))), g(A, 0.5)
	b = s.need(lambda: body.copy(motor=m, rate=rate, damping=damp, gravity=grav), rate, 'copy of bodies')
	if b is None:
		return None
	s.rel('kinetic', [rate] + pts, lambda: b.kinetic_energy(), TOL, note='kinetic energy')
	s.rel('forques', [m, rate, damp, grav] + pts, lambda: b.forques(), TOL, note='forques')
	s.rel('euler', [m, rate, damp, grav] + pts, lambda: b.rate_derivative(), TOL, note='rate derivative')
	H = s.mv(S, [dt])
	n = s.need(lambda: b.pre_integrate(dt), rate, 'pre_integrate')
	if n is not None:
		s.rel('moved', [m, H], lambda: (n.motor, n.rate), TOL, note='pre_integrate: motion')

		def slopes():
			d = lambda r: b.copy(rate=r).rate_derivative()
			k1 = d(rate)
			k2 = d(rate + k1 * (dt / 2))
			k3 = d(rate + k2 * (dt / 2))
			return k1, k2, k3, d(rate + k3 * dt), n.rate
		s.rel('body_rk4', [rate, m, damp, grav, H] + pts, slopes, TOL, note='pre_integrate: rates')
	n2 = s.need(lambda: b.integrate(dt), rate, 'integrate')
	if n is not None and n2 is not None:
		s.rel('moved', [m, H], lambda: (n2.motor, n2.rate), TOL * 4, note='integrate')
		s.same(n.motor, lambda: n2.motor, 'motion of free bodies')
	for x, f, what in ((m, lambda: b.motor, 'motor'), (rate, lambda: b.rate, 'rate'), (damp, lambda: b.damping, 'damping'), (grav, lambda: b.gravity, 'gravity')):
		s.same(x, f, f'{what} unchanged', 0)
	return b


def bodies(kind, seed, runs):
	from numga.examples.physics import core
	rng = random.Random(seed)
	for _ in range(runs):
		for sig in rng.sample(SPACES, 3):
			ctx = make_ctx(kind, algebra(sig))
			s = Phys(sig, f'bodies {kind} {sig_str(sig)}', ctx)
			A, B, E = ctx.subspace.antivector(), ctx.subspace.bivector(), ctx.subspace.motor()
			h = rng.choice([(), (2,), (2, 2)]) if len(sig) < 4 else rng.choice([(), (2,)])
			n = int(np.prod(h, dtype=int))
			cs = [cloud(rng, sig) for _ in range(n)]
			if any(c is None for c in cs):
				continue
			k = min(len(c) for c in cs)
			if k != max(len(c) for c in cs):
				cs = [cs[0]] * n
			P = np.array(cs).reshape(h + cs[0].shape)
			dt = rng.choice([0.125, 0.25])
			body = s.need(lambda: core.Body.from_point_cloud(s.mv(A, P)), s.mv(A, P), 'from_point_cloud')
			if body is None:
				yield s
				continue
			zero = lambda S: s.mv(S, np.zeros(h + (len(S),)))
			one = np.zeros(h + (len(E),))
			one[..., blades(E).index(0)] = 1
			s.same(s.mv(E, one), lambda: body.motor, 'motor of a new body', 0)
			s.same(zero(B), lambda: body.rate, 'rate of a new body', 0)
			s.same(zero(A), lambda: body.gravity, 'gravity of a new body', 0)
			s.same(zero(ctx.subspace.scalar()), lambda: body.damping, 'damping of a new body', 0)
			b = body_events(s, rng, sig, body, P, h, dt)
			# steps
			if any(sig):
				step = s.mv(B, G.batch(lambda: G.grid(rng, len(B), 1) * 0.25, h))
				m, q = [s.mv(E, motors(rng, sig, E, B, h, z)) for z in (0.5, 0.5)]
				near = s.mv(E, array((m * s.mv(B, array(step.values)).exp()).values))
				s.rel('add_step', [m, step], lambda: core.motor_add_step(m, step), TOL, note='motor_add_step')
				s.rel('relative_step', [m, near], lambda: core.motor_relative_step(m, near), TOL, note='motor_relative_step')
			# parts of sets of bodies, and their union
			if b is not None and h:
				i = rng.choice([0, -1, slice(None, None, -1) if kind != 'torch:einsum' else slice(0, 1), slice(1, None), np.array([1, 0, 1])])
				c = s.need(lambda: b[i], b.rate, f'bodies[{i}]')
				if c is not None:
					body_events(s, rng, sig, c, P[i], np.zeros(h)[i].shape, dt)
					x = s.need(lambda: b.integrate(dt), b.rate, 'integrate')
					if x is not None:
						y = s.need(lambda: c.integrate(dt), b.rate, 'integrate')
						if y is not None:
							s.same(x.motor[i], lambda: y.motor, f'motion of bodies[{i}]')
							s.same(x.rate[i], lambda: y.rate, f'rates of bodies[{i}]')
				d = s.need(lambda: b.concatenate(b[:1]), b.rate, 'concatenate')
				if d is not None:
					hh = (h[0] + 1,) + h[1:]
					s.same(s.mv(E, np.concatenate([array(b.motor.values), array(b.motor.values)[:1]])), lambda: d.motor, 'concatenate: motors', 4)
					s.same(s.mv(A, np.concatenate([array(b.gravity.values), array(b.gravity.values)[:1]])), lambda: d.gravity, 'concatenate: gravity', 4)
					body_events(s, rng, sig, d, np.concatenate([P, P[:1]]), hh, dt)
			yield s


def chains(kind, seed, runs):
	from numga.examples.physics import core
	from numga.examples.physics.setup_chain import setup_bodies
	rng = random.Random(seed)
	for _ in range(runs):
		for sig in rng.sample([(1, 1), (1, 1, 1), (1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 1)], 2):
			ctx = make_ctx(kind, algebra(sig))
			s = Phys(sig, f'chains {kind} {sig_str(sig)}', ctx)
			A, B, E, S = ctx.subspace.antivector(), ctx.subspace.bivector(), ctx.subspace.motor(), ctx.subspace.scalar()
			N = rng.choice([2, 3, 4, 5])
			dt = rng.choice([0.125, 0.25])
			soft = rng.choice([0, 0, 0.03125])
			res = s.need(lambda: setup_bodies(ctx, fixing=False, n_bodies=N, compliance=soft, distance=0.75, size=0.75, damping=0.125), s.mv(B, np.zeros(len(B))), 'setup_bodies')
			if res is None:
				yield s
				continue
			chain, sets = res
			rate = s.mv(B, G.batch(lambda: G.grid(rng, len(B), 1) * 0.5, (N,)))
			*axes, origin = ctx.multivector.basis()

			def octagon(k, z):
				"""The translation along an axis of the origin"""
				return ((origin / -2) ^ (axes[k] * z)).exp() >> origin.dual_inverse()
			n = len(axes)
			points = [octagon(k, z * 0.75 * (k + 1) / n) for k in range(n) for z in (1, -1)]
			s.rel('first_moment', points, lambda: chain.first_moment[0], TOL, note='first moment of a body of the chain')
			s.rel('momentum', [rate[0]] + points, lambda: chain.inertia(rate)[0], TOL, note='inertia of a body of the chain')
			s.same(s.mv(A, np.array([array(((((origin / -2) ^ (axes[-1] * (0.75 * i))).exp() >> origin.dual_inverse()).select_subspace(A)).values) for i in range(N)])), lambda: (chain.motor >> origin.dual_inverse()).select_subspace(A), 'bodies of a chain')
			s.same(s.mv(A, np.array([array((axes[0] * 0.05).dual_inverse().select_subspace(A).values)] * N)), lambda: chain.gravity.select_subspace(A), 'gravity of a chain')
			s.same(s.mv(S, np.full((N, 1), 0.125)), lambda: chain.damping, 'damping of a chain', 4)
			bump = s.mv(B, G.batch(lambda: G.grid(rng, len(B), 1) * 0.0625, (N,)))
			hand = s.mv(E, motors(rng, sig, E, B, ()))
			still = s.need(lambda: chain.copy(rate=rate, motor=hand * chain.motor), rate, 'copy')
			loose = s.need(lambda: chain.copy(rate=rate, motor=still.motor * bump.exp()), rate, 'copy')
			if still is None or loose is None:
				yield s
				continue
			sets = [c for c in sets if c.body_idx.shape[1]]
			for c in sets:
				s.same(s.mv(S, np.full((c.body_idx.shape[1], 1), float(soft))), lambda: c.compliance, 'compliance of a chain', 4)
			if rng.random() < 0.6:
				mixed = lambda k: s.mv(S, np.array([[rng.choice([0, 0.015625, 0.03125])] for _ in range(k)]))
				sets = s.need(lambda: [core.Constraint(c.body_idx, c.anchors, mixed(c.body_idx.shape[1])) for c in sets], rate, 'constraints')
				if sets is None:
					yield s
					continue
			seen = set()
			for c in sets:
				seen |= set(zip(*[[int(x) for x in row] for row in array(c.body_idx)]))
				constraint_events(s, core, c, [(still, 'joined'), (loose, 'loose')], lambda i: points, dt)
			s.same(s.mv(S, [float(N - 1)]), lambda: s.mv(S, [float(len({(i, i + 1) for i in range(N - 1)} & seen))]), 'the links of the chain', 0)
			# a whole step is its parts in order
			def whole():
				n = loose.pre_integrate(dt)
				for c in sets:
					n = c.apply(n, dt)
				n = n.post_integrate(loose, dt)
				for c in sets:
					n = c.v_apply(n, dt)
				return n
			n, q = s.need(lambda: loose.integrate(dt, sets), rate, 'integrate'), s.need(whole, rate, 'parts of a step')
			if n is not None and q is not None:
				s.same(q.motor, lambda: n.motor, 'step: motors')
				s.same(q.rate, lambda: n.rate, 'step: rates')
			s.same(rate, lambda: loose.rate, 'rates unchanged', 0)
			# bodies at rest whose constraints are satisfied stay at rest
			rest = s.need(lambda: chain.copy(motor=still.motor, gravity=chain.gravity * 0), rate, 'copy')
			n = rest and s.need(lambda: rest.integrate(dt, sets), rate, 'integrate')
			if n is not None:
				rigid = ' (exactly satisfied without compliance)' if any(exact(c, rest) for c in sets) else ''
				s.same(still.motor, lambda: n.motor, 'bodies at rest: motors' + rigid)
				s.same(s.mv(B, np.zeros((N, len(B)))), lambda: n.rate, 'bodies at rest: rates (exactly satisfied without compliance)', TOL * 4)
			# the first body is fixed in place: its reaction to any forque is a rotation about the origin
			res = s.need(lambda: setup_bodies(ctx, fixing=True, n_bodies=2, distance=0.75, size=0.75), rate, 'setup_bodies')
			if res is not None:
				AB = ctx.subspace.antibivector()
				F = s.mv(AB, G.grid(rng, len(AB), 1))
				o = 1 << (len(sig) - 1)
				hor = ctx.subspace.from_blades([b for b in blades(B) if b & o])
				rot = ctx.subspace.from_blades([b for b in blades(B) if not b & o])
				s.same(s.mv(hor, np.zeros(len(hor))), lambda: res[0].inertia_inv[0](F).select_subspace(hor), 'the first body stays in place', 4)
				if len(rot):
					s.same(res[0].inertia_inv[1](F).select_subspace(rot), lambda: res[0].inertia_inv[0](F).select_subspace(rot), 'the first body turns', TOL)
			yield s


def constraint_events(s, core, c, states, points, dt):
	"""A set of constraints that share no bodies, applied to bodies in some states; points(i) are those of body i"""
	S = s.ctx.subspace.scalar()
	idx = [[int(x) for x in row] for row in array(c.body_idx)]
	N = int(states[0][0].motor.shape[0])
	each = lambda v: [v[i] for i in range(N)]
	zero = states[0][0].rate
	if len(set(sum(idx, []))) != 2 * len(idx[0]):
		raise AssertionError('constraints of a set share bodies')
	# the anchors of linked bodies meet
	ends = lambda b: b.motor[c.body_idx] >> c.anchors
	gap = lambda u: (lambda z: (z[0] & z[1]).norm())(ends(u))

	def impulses(name, b, step, rates, note):
		"""Impulses of each constraint; the impulse per violation is a witness, worked out from the steps"""
		for j, pair in enumerate(zip(*idx)):
			ms, an = [b.motor[i] for i in pair], [c.anchors[k, j] for k in (0, 1)]
			if rates:
				V = [m >> (a & a.commutator(b.rate[i])) for m, a, i in zip(ms, an, pair)]
				F, xs = (V[1] - V[0]) * 0.5, [b.rate[i] for i in pair]
			else:
				F, xs = (ms[0] >> an[0]) & (ms[1] >> an[1]), [c.compliance[j] / dt ** 2]
			D, mom = array((ms[0] << F).values), array(b.inertia[pair[0]](step(pair[0])).values)
			t = s.mv(S, [float((D * mom).sum() / ((D * D).sum() + 1e-30))])
			if abs(array(t.values)).max() < 8:
				s.rel(name, ms + an + xs + points(pair[0]) + points(pair[1]), lambda: (step(pair[0]), step(pair[1]), t), TOL, note=note)

	for b, what in states:
		# known findings
		even = ' (exactly satisfied without compliance)' if exact(c, b, True) else ''
		screws = 'screws: ' if what != 'joined' and len(s.sig) > 3 else ''
		rigid = ' (exactly satisfied without compliance)' if exact(c, b) else ''
		rate0, motor0 = s.mv(b.rate.subspace, np.array(array(b.rate.values))), s.mv(b.motor.subspace, np.array(array(b.motor.values)))
		if what == 'joined':
			w = s.need(lambda: ends(b), zero, 'anchors')
			if w is not None:
				s.same(w[0], lambda: w[1], 'anchors meet')
		v = s.need(lambda: c.v_apply(b, dt), zero, 'v_apply')
		if v is not None:
			s.rel('conserve', each(b.motor), lambda: tuple(each(b.inertia(v.rate) - b.inertia(b.rate))), TOL, note=f'v_apply: momentum, {screws}{what}{even}')
			s.same(b.motor, lambda: v.motor, 'v_apply: motors stay', 0)
			if what == 'joined':
				s.rel('not_more', [b.kinetic_energy().sum(axis=0)], lambda: v.kinetic_energy().sum(axis=0), TOL, note='v_apply: energy' + even)
			impulses('impulse_rate', b, lambda i: v.rate[i] - b.rate[i], True, f'v_apply: impulses, {screws}{what}{even}')
			one_by_one = s.call(lambda: apply_each(c, lambda k, u: k.v_apply(u, dt), b))
			s.same(v.rate, lambda: give(one_by_one).rate, 'v_apply one by one' + even)
		a = s.need(lambda: c.apply(b, dt), zero, 'apply')
		if a is not None:
			steps = s.need(lambda: core.motor_relative_step(a.motor.reverse(), b.motor.reverse()), zero, 'motor_relative_step')
			if steps is not None:
				s.rel('add_step', [b.motor, steps], lambda: a.motor, TOL, note='apply: steps (witness)' + rigid)
				impulses('impulse_gap', b, lambda i: steps[i], False, 'apply: impulses' + rigid)
				s.rel('conserve', each(b.motor), lambda: tuple(each(b.inertia(steps))), TOL, note=f'apply: momentum, {what}{rigid}')
			s.same(b.rate, lambda: a.rate, 'apply: rates stay', 0)
			if what == 'joined':
				s.same(b.motor, lambda: a.motor, 'apply: satisfied constraints' + rigid)
			elif what == 'loose':
				s.rel('not_more', [gap(b)], lambda: gap(a), TOL, note='apply: distance of the anchors')
			one_by_one = s.call(lambda: apply_each(c, lambda k, u: k.apply(u, dt), b))
			s.same(a.motor, lambda: give(one_by_one).motor, 'apply one by one' + rigid)
		s.same(rate0, lambda: b.rate, 'rates unchanged', 0)
		s.same(motor0, lambda: b.motor, 'motors unchanged', 0)
	both = s.need(lambda: c.concatenate(c[:1]), zero, 'concatenate')
	if both is not None:
		k = c.body_idx.shape[1]
		s.same(c.anchors, lambda: both[:k].anchors, 'concatenated anchors', 0)
		s.same(c.anchors[:, :1], lambda: both[k:].anchors, 'concatenated anchors', 0)
		s.same(c.compliance, lambda: both[:k].compliance, 'concatenated compliance', 0)
		ids = lambda z: s.mv(S, np.array(array(z), dtype=float)[..., None])
		s.same(ids(c.body_idx), lambda: ids(both[:k].body_idx), 'concatenated bodies', 0)
		s.same(ids(c.body_idx[:, :1]), lambda: ids(both[k:].body_idx), 'concatenated bodies', 0)


def exact(c, b, rates=False):
	"""Does some rigid constraint have no gap at all, or its anchors the same velocities?"""
	try:
		m = b.motor[c.body_idx]
		if rates:
			v = m >> (c.anchors & c.anchors.commutator(b.rate[c.body_idx]))
			return bool(np.any(np.abs(array((v[0] - v[1]).values)).reshape(c.body_idx.shape[1], -1).max(axis=-1) < 1e-12))
		z = m >> c.anchors
		g = np.abs(array((z[0] & z[1]).values)).reshape(c.body_idx.shape[1], -1).max(axis=-1)
		k = array(c.compliance.values).reshape(-1)
		return bool(np.any((g < 1e-12) & (k == 0)))
	except Exception:
		return False


def probe():
	"""The known findings, always in the same way"""
	from numga.examples.physics import core
	rng = random.Random(5)
	for sig in [(1, 1, 1), (1, 1, 1, 0), (1, 1, 1, 1)]:
		ctx = make_ctx('numpy', algebra(sig))
		s = Phys(sig, f'two bodies {sig_str(sig)}', ctx)
		A, B, E, S = ctx.subspace.antivector(), ctx.subspace.bivector(), ctx.subspace.motor(), ctx.subspace.scalar()
		p = cloud(rng, sig)
		P = np.array([p, p])
		body = core.Body.from_point_cloud(s.mv(A, P))
		rate = s.mv(B, G.batch(lambda: G.grid(rng, len(B), 1) * 0.5, (2,)))
		an = np.array([[p[0]], [p[0]]])
		if 0 not in sig:
			an = an / np.linalg.norm(an, axis=-1, keepdims=True)
		c = core.Constraint(np.array([[0], [1]]), s.mv(A, an), s.mv(S, np.zeros((1, 1))))
		b = body.copy(rate=rate)
		loose = body.copy(rate=rate, motor=s.mv(E, motors(rng, sig, E, B, (2,), 0.25)))
		constraint_events(s, core, c, [(b, 'joined'), (loose, 'loose')], lambda i: [s.mv(A, x) for x in p], 0.125)
		yield s


def links(kind, seed, runs):
	"""Constraints between bodies that all differ"""
	from numga.examples.physics import core
	rng = random.Random(seed)
	for _ in range(runs):
		for sig in rng.sample([(1, 1), (1, 1, 1), (1, 1, 0), (0, 1, 1), (1, 1, 1, 0), (1, 1, 1, 1), (1, 0, 1, 1)], 2):
			ctx = make_ctx(kind, algebra(sig))
			s = Phys(sig, f'linked bodies {kind} {sig_str(sig)}', ctx)
			A, B, E, S = ctx.subspace.antivector(), ctx.subspace.bivector(), ctx.subspace.motor(), ctx.subspace.scalar()
			N = rng.choice([2, 3, 4, 5])
			dt = rng.choice([0.125, 0.25])
			cs = [cloud(rng, sig) for _ in range(N)]
			if any(c is None for c in cs):
				continue
			k = max(len(c) for c in cs)
			P = np.array([np.concatenate([c, np.zeros((k - len(c), len(A)))]) for c in cs])		# points without weight change nothing
			body = s.need(lambda: core.Body.from_point_cloud(s.mv(A, P)), s.mv(A, P), 'from_point_cloud')
			if body is None:
				yield s
				continue
			rate = s.mv(B, G.batch(lambda: G.grid(rng, len(B), 1) * 0.5, (N,)))
			b = s.need(lambda: body.copy(motor=s.mv(E, motors(rng, sig, E, B, (N,), 0.25)), rate=rate), rate, 'copy')
			ids = list(range(N))
			rng.shuffle(ids)
			n = N // 2
			ids = np.array(ids[:2 * n]).reshape(2, n)
			an = np.array([[cs[i][rng.randrange(len(cs[i]))] for i in row] for row in ids])
			if 0 not in sig:
				an = an / np.linalg.norm(an, axis=-1, keepdims=True)
			soft = s.mv(S, np.array([[rng.choice([0, 0.015625, 0.03125])] for _ in range(n)]))
			c = s.need(lambda: core.Constraint(ids, s.mv(A, an), soft), rate, 'constraints')
			if b is not None and c is not None:
				pts = lambda i: [s.mv(A, p) for p in P[i]]
				constraint_events(s, core, c, [(b, 'apart')], pts, dt)
			yield s


def give(x):
	if isinstance(x, Exception):
		raise x
	return x


def apply_each(c, f, b):
	for j in range(c.body_idx.shape[1]):
		b = f(c[j:j + 1], b)
	return b


def jitted(**args):
	yield from isolated('c25', 'jitted_', **args)


def jitted_(seed, runs):
	"""Bodies and constraints as jax pytrees: compiled and looped steps are the eager ones"""
	from numga.examples.physics import core
	from numga.backend.jax.pytree import register
	from numga.examples.physics.setup_chain import setup_bodies
	import jax
	register(core.Body), register(core.Constraint)
	rng = random.Random(seed)
	for _ in range(runs):
		sig = rng.choice([(1, 1), (1, 1, 1), (1, 1, 0)])
		dt = 0.125
		N = rng.choice([3, 4])
		chains = {}
		for kind in ('numpy', 'jax:einsum'):
			ctx = make_ctx(kind, algebra(sig))
			chain, sets = setup_bodies(ctx, fixing=False, n_bodies=N, compliance=0, distance=0.75, size=0.75, damping=0.125)
			chains[kind] = ctx, chain, sets
		ctx, chain, sets = chains['numpy']
		s = Phys(sig, f'compiled chains {sig_str(sig)}', ctx)
		B = ctx.subspace.bivector()
		rate = G.batch(lambda: G.grid(rng, len(B), 1) * 0.5, (N,))
		w = chain.copy(rate=s.mv(B, rate))
		one = w.integrate(dt, sets)
		three = one.integrate(dt, sets).integrate(dt, sets)
		jc, jchain, jsets = chains['jax:einsum']
		start = jchain.copy(rate=jc.multivector(values=jc.coerce_array(rate), subspace=jc.subspace.bivector()))
		step = jax.jit(lambda b, c: b.integrate(dt, c))
		loop = jax.jit(lambda b, c: jax.lax.fori_loop(0, 3, lambda i, u: u.integrate(dt, c), b))
		for f, want, what in ((lambda: start.integrate(dt, jsets), one, 'eager'), (lambda: step(start, jsets), one, 'compiled'), (lambda: loop(start, jsets), three, 'compiled loop')):
			r = s.need(f, w.rate, what)
			if r is not None:
				s.same(want.motor, lambda: r.motor, f'{what} step: motors')
				s.same(want.rate, lambda: r.rate, f'{what} step: rates')
				s.same(want.gravity, lambda: r.gravity, f'{what} step: gravity')
		yield s
