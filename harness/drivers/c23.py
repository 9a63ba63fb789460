"""C23: the conformal helpers (both implementations) over base spaces of every signature of 1-3 dimensions: constants, embedded
points and spheres, positions, normalisation, distances, reflections in spheres, and the points of point pairs, against
Conformal.tla, whose laws are model checked in MCConformal; and the planar projective helpers."""
from ..common import *
from .. import ga as G

TOL = 3000


def models(tier):
	return [dict(module='MCConformal', cfg='MCConformal.cfg' if tier == 'quick' else 'MCConformalDeep.cfg', workers=4, timeout=2000)]


def jobs(tier, seed):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	r = lambda: rng.randrange(1 << 30)
	sigs = [s for n in (1, 2, 3) for s in all_sigs(n)]
	J = [('conformal', dict(sigs=p, seed=r(), k=2 if not deep else 12)) for p in chunks(sigs, 6)]
	J += [('pairs', dict(sigs=[s for n in (1, 2) for s in all_sigs(n) if 1 in s] * 2, seed=r(), k=2 if not deep else 16))]
	J += [('planar', dict(seed=r(), k=10 if not deep else 120))]
	return J


def models_of(rng, base):
	"""Both ways to set up the conformal model of a base space"""
	from numga.examples.conformal import Conformal, Conformalize
	d = sig_str(base)
	kind = rng.choice(['numpy', 'numpy', 'numpy:sparse', 'jax:einsum', 'torch:einsum'])
	A = Conformal.algebra(d)
	ctx = make_ctx(kind, A)
	yield 'Conformal ' + kind, Conformal(ctx), ctx
	from numga.algebra.algebra import Algebra
	ctx = make_ctx(kind, Algebra(d))
	c = Conformalize(ctx)
	yield 'Conformalize ' + kind, c, c


def doubled(x, n=2):
	return x.copy(values=x.values * n)


def conformal(sigs, seed, k):
	rng = random.Random(seed)
	for base in sigs:
		n = len(base)
		sig = base + (1, -1)
		for name, c, ctx in models_of(rng, base):
			s = Ses(sig, f'{name} {sig_str(base)}')
			V, E = ctx.subspace.vector(), ctx.subspace.from_blades([1 << i for i in range(n)])
			mk = lambda bl, v: ctx.multivector(values=ctx.coerce_array(np.asarray(v, dtype=float)), subspace=bl)
			s.cga('ni', [], lambda: c.ni)
			s.cga('no2', [], lambda: doubled(c.no))
			s.cga('N', [], lambda: c.N)
			for _ in range(k):
				h = rng.choice([(), (3,), (2, 2)])
				pts = []
				for j in range(2):
					P = ints(rng, h + (n,), 4)
					r = rng.choice([0, 0, 1, 2, 3])
					rP = s.new(mk(E, P))
					arg = P if rng.random() < 0.6 or h else tuple(float(x) for x in P)
					f = lambda: c.embed_point(arg, r) if r or rng.random() < 0.5 else c.embed_point(arg)
					rX, X = s.cga('embed2', [rP], lambda: doubled(f()), p=r, keep=True, note=f'embed {h} radius {r}')
					if rX:
						pts.append((rX, X, r, P))
						s.cga('position', [rX], lambda: c.point_position(X), note='position of a point or sphere')
						w = rng.choice([-4, -2, -1, 1, 2])
						rW = s.new(mk(V, w * array(X.values)))
						W = mk(V, w * array(X.values))
						s.cga('normalize2', [rW], lambda: doubled(c.normalize(W)), note=f'normalise, weight {w}')
				# any vector has a position: its part outside the null plane
				U = mk(V, ints(rng, h + (n + 2,), 4))
				s.cga('position', [s.new(U)], lambda: c.point_position(U), note='position of a vector')
				if len(pts) == 2:
					(rX, X, r, P), (rY, Y, q, Q) = pts
					s.op('scalar_product', [rX, rY], lambda: X.inner(Y), note='inner product of embeddings')
					s.op('product', [rX, rX], lambda: X * X, note='square of an embedding')
					s.op('full_sandwich', [rY, rX, rY], lambda: Y >> X, note='reflection of a point in a sphere')
					s.op('wedge', [rX, rY], lambda: X ^ Y, note='point pair')
			yield s


def pairs(sigs, seed, k):
	"""The two points of a real point pair"""
	rng = random.Random(seed)
	for base in sigs:
		n = len(base)
		sig = base + (1, -1)
		for name, c, ctx in models_of(rng, base):
			s = Ses(sig, f'point pairs, {name} {sig_str(base)}')
			for _ in range(k):
				batch = name.startswith('Conformalize') and rng.random() < 0.5
				m = 3 if batch else 1
				a, b = [], []
				while len(a) < m:
					p, q = G.grid(rng, n, 2) * 0.75, G.grid(rng, n, 2) * 0.75
					if sum(e * (x - y) ** 2 for e, x, y in zip(base, p, q)) > 0.5:
						a.append(p)
						b.append(q)
				A, B = np.array(a), np.array(b)
				if not batch:
					A, B = A[0], B[0]
				X, Y = c.embed_point(A), c.embed_point(B)
				T = (X ^ Y) * rng.choice([1, -1, 0.5, -2])
				pts = s.call(lambda: c.split_points(T))
				d = f'{A.tolist()} {B.tolist()}'
				if isinstance(pts, Exception):
					s.rel('cga_split', [T], lambda: pts.__class__ and (_ for _ in ()).throw(pts), TOL, note=f'points of a pair {d}')
					continue
				pts = tuple(pts) if isinstance(pts, tuple) else (pts[0], pts[1])
				s.rel('cga_split', [T], lambda: pts, TOL, note=f'points of a pair {d}')
		yield s


def planar(seed, k):
	"""numga.examples.pga2d registers an exponential of its own: in a process of its own"""
	return isolated('c23', 'planar_sessions', seed=seed, k=k)


def planar_sessions(seed, k):
	from numga.examples import pga2d as m
	rng = random.Random(seed)
	ctx = m.pga
	s = Ses((0, 1, 1), 'planar projective geometry')
	vec = ctx.subspace.from_blades([2, 4])
	mk = lambda bl, v: ctx.multivector(values=np.asarray(v, dtype=float), subspace=bl)
	for _ in range(k):
		t = [2.0 * rng.randint(-3, 3) for _ in range(2)]
		rt = s.new(mk(vec, t))
		rT, T = s.cga('translator2', [rt], lambda: doubled(m.translator(*t)), keep=True, note=f'translator {t}')
		s.cga('point', [rt], lambda: doubled(m.point(*t), 4), note=f'point {t}')
		p = [float(rng.randint(-3, 3)) for _ in range(3)]
		s.cga('plane', [s.new(mk(ctx.subspace.from_blades([1, 2, 4]), [-p[2], p[0], p[1]]))], lambda: m.plane(*p), note=f'plane {p}')
		a = rng.randint(-12, 12) / 4
		s.rel('motor_exp', [mk(ctx.subspace.from_blades([6]), [-a / 2])], lambda: m.rotor(a), TOL, note=f'rotor by {a}')
		B = ctx.subspace.bivector()
		sub = rng.choice([B, ctx.subspace.from_blades([6]), ctx.subspace.from_blades([3, 5]), ctx.subspace.from_blades([5, 6])])
		h = rng.choice([(), (), (3,), (2, 2)])
		b = mk(sub, G.batch(lambda: G.grid(rng, len(sub), 1) * rng.choice([1, 1, 1, 0]), h))
		s.rel('motor_exp', [b], lambda: b.exp(), TOL, note=f'exponential {"" if 6 in blades(sub) else "of translations "}{blades(sub)} {h}')
		M = m.translator(*G.grid(rng, 2)) * m.rotor(a)
		pts = G.batch(lambda: G.grid(rng, 2), (3,))

		def moved():
			return mk(vec, m.transform_points(M, pts))
		s.rel('planar_points', [M, mk(vec, pts)], moved, TOL, note='transform_points')
	yield s
	# the exponentials of other algebras stay what they were
	for sig in [(1, 1), (1, -1), (0, 1), (1, 1, -1), (1, 1, 0), (1, -1, -1), (1, 1, 1)]:
		o = np_ctx(algebra(sig))
		s = Ses(sig, f'exponentials of {sig_str(sig)} next to the planar ones')
		B = o.subspace.bivector()
		for _ in range(max(2, k // 8)):
			b = o.multivector(values=G.batch(lambda: G.grid(rng, len(B), 1), rng.choice([(), (3,)])), subspace=B)
			s.rel('motor_exp', [b], lambda: b.exp(), TOL, note='exponential')
		yield s
