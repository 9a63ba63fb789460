"""C16: dispatch on the subspaces of the arguments.  Histories of MCDispatch.tla (registrations appended or at a position,
interleaved with calls; all of a bounded length, and long simulated ones) are replayed on the real dispatcher, together with
random histories over several algebras, arities, dispatchers and ways of calling (free object, bound method, class attribute).
The trace specification holds the ordered options of every dispatcher and decides which implementation runs; the library's own
dispatchers are recorded too, with the outcome of their conditions on the argument subspaces."""
from ..common import *


def models(tier):
	q = tier == 'quick'
	return [dict(module='MCDispatch', cfg='MCDispatch.cfg' if q else 'MCDispatchDeep.cfg', workers=4, generate='all', timeout=600),
		dict(module='MCDispatch', cfg='MCDispatchLong.cfg', workers=1, simulate=400 if q else 4000, depth=20, generate='long', timeout=600)]


def jobs(tier, seed, generated):
	rng = random.Random(seed)
	deep = tier == 'thorough'
	beh = generated['all']
	if deep and len(beh) > 60000:
		beh = rng.sample(beh, 60000)
	J = [('replay', dict(behaviours=p, seed=rng.randrange(1 << 30))) for p in chunks(beh, 4)]
	J += [('replay', dict(behaviours=generated['long'], seed=rng.randrange(1 << 30)))]
	J += [('histories', dict(seed=rng.randrange(1 << 30), runs=12 if not deep else 120, k=60)) for _ in range(3)]
	J += [('library', dict(sigs=p, seed=rng.randrange(1 << 30))) for p in chunks([x for n in (2, 3) for x in all_sigs(n)] + sample_sigs(rng, 4, 4 if not deep else 20), 4)]
	return J


class Boom(KeyError):
	pass


class Dsp:
	"""A dispatcher under recording"""
	def __init__(self, s, how='free'):
		from numga.dynamic_dispatch import SubspaceDispatch
		self.s, self.how = s, how
		self.d = SubspaceDispatch('probe')
		s.n += 1
		self.r = s.n
		s.add({'e': 'disp', 'op': 'new', 'r': self.r}, 'new dispatcher')
		self.nf = 0
		self.ran, self.seen = [], []
		self.extra = None

	def impl(self, raises=False):
		self.nf += 1
		f, res = self.nf, object()
		boom = Boom(f'implementation {f}')
		def run(*args):
			self.ran.append(f)
			self.seen.append(args)
			if self.extra:
				e, self.extra = self.extra, None
				e()
			if raises:
				raise boom
			return res
		return f, run, (boom if raises else res)

	def register(self, cond, pos=None, impl=None, raises=False, ways=None):
		f, run, res = impl or self.impl(raises)
		c = condition(cond)
		ev = {'e': 'disp', 'op': 'reg', 'r': self.r, 'c': cond, 'f': f}
		if pos is not None:
			ev['pos'] = pos
		try:
			if cond['k'] == 'any' and ways == 'default':
				deco = self.d.register() if pos is None else self.d.register(position=pos)
			else:
				deco = self.d.register(c) if pos is None else self.d.register(c, position=pos) if ways != 'positional' else self.d.register(c, pos)
			ret = deco(run)
		except Exception as e:
			ret = e
		ev['v'] = {'ret': int(ret is run)}
		self.s.add(ev, f'register {cond} at {pos}')
		self.results = getattr(self, 'results', {})
		self.results[f] = res
		return f, run, res

	def call(self, args, how=None):
		self.ran.clear()
		self.seen.clear()
		how = how or self.how
		try:
			if how == 'free':
				res = self.d(*args)
			elif how == 'bound':
				res = self.d.__get__(args[0], type(args[0]))(*args[1:])
			elif how == 'class':
				res = self.d.__get__(None, type(args[0]))(*args)
			else:
				t = type(args[0])
				t.verif_probe = self.d
				try:
					res = getattr(args[0], 'verif_probe')(*args[1:])
				finally:
					del t.verif_probe
		except Exception as e:
			res = e
		ran = list(self.ran)
		want = self.results.get(ran[0]) if ran else None
		ok = isinstance(res, Exception) if not ran else res is want
		same = not ran or (len(self.seen[0]) == len(args) and all(a is b for a, b in zip(self.seen[0], args)))
		self.s.add({'e': 'disp', 'op': 'call', 'r': self.r, 't': [blades(a.subspace) for a in args], 'v': {'ran': ran, 'args': int(same), 'res': int(ok)}},
			f'call {how} with {[blades(a.subspace) for a in args]}')


def condition(c):
	k = c['k']
	q = set(c.get('q', ()))
	n = c.get('n', 1)
	bl = lambda s: set(blades(s))
	return {
		'any': lambda *s: True,
		'never': lambda *s: False,
		'arity': lambda *s: len(s) == n,
		'grades': lambda *s: all(bin(b).count('1') in q for x in s for b in bl(x)),
		'inside': lambda *s: len(s) >= n and bl(s[n - 1]) <= q,
		'equals': lambda *s: len(s) >= n and bl(s[n - 1]) == q,
		'size': lambda *s: len(s) >= n and len(s[n - 1]) <= c['m'],
		'same': lambda *s: all(bl(x) == bl(s[0]) for x in s),
		'not': lambda *s: len(s) < n or not bl(s[n - 1]) <= q,
	}[k]


class Thing:
	"""Anything with a subspace can be dispatched on"""
	def __init__(self, subspace):
		self.subspace = subspace


def replay(behaviours, seed):
	rng = random.Random(seed)
	ctx = np_ctx(algebra((1, 1)))
	F = ctx.subspace
	per = 100
	for i in range(0, len(behaviours), per):
		s = Ses((1, 1), f'TLC histories {i}')
		for b in behaviours[i:i + per]:
			d = Dsp(s, rng.choice(['free', 'free', 'bound', 'method', 'class']))
			for ev in b:
				if ev['e'] == 'reg':
					d.register(ev['c'], ev.get('pos'), ways=rng.choice(['default', 'positional', None]))
				else:
					subs = [F.from_blades(list(t)) for t in ev['t']]
					d.call([ctx.multivector(values=np.ones(len(x)), subspace=x) if d.how == 'method' or rng.random() < 0.3 else Thing(x) for x in subs])
		yield s


def rand_cond(rng, n, subs):
	k = rng.choice(['any', 'never', 'arity', 'grades', 'inside', 'inside', 'equals', 'equals', 'size', 'same', 'not'])
	c = {'k': k}
	if k == 'arity':
		c['n'] = rng.randint(1, 3)
	if k == 'grades':
		c['q'] = sorted(rng.sample(range(n + 1), rng.randint(1, n)))
	if k in ('inside', 'equals', 'size', 'not'):
		c['n'] = rng.randint(1, 2)
	if k in ('inside', 'equals', 'not'):
		c['q'] = sorted(set(blades(rng.choice(subs))) | (set(blades(rng.choice(subs))) if k != 'equals' and rng.random() < 0.5 else set()))
	if k == 'size':
		c['m'] = rng.randint(0, 4)
	return c


def histories(seed, runs, k):
	rng = random.Random(seed)
	for _ in range(runs):
		sig = sample_sigs(rng, rng.randint(2, 4), 1)[0]
		# two algebras, so that equal sets of blades are different subspaces
		ctxs = [np_ctx(algebra(sig)), np_ctx(algebra(sig, 'abcd'))]
		subs = [[c.subspace.from_blades(sorted(rng.sample(range(2 ** len(sig)), rng.randint(0, 3)))) for _ in range(3)] + [c.subspace.scalar(), c.subspace.vector()] for c in ctxs]
		s = Ses(sig, f'dispatch histories {sig_str(sig)}')
		ds = [Dsp(s) for _ in range(3)]
		for _ in range(k):
			d = rng.choice(ds)
			c = rng.random()
			if c < 0.35:
				raises = rng.random() < 0.15
				got = d.register(rand_cond(rng, len(sig), subs[0]), rng.choice([None, None, 0, 0, 1, 2, -1, -2, 5, 99, -99]), raises=raises, ways=rng.choice(['default', 'positional', None]))
				if rng.random() < 0.2:
					# stacked decorators: one implementation under two conditions
					d.register(rand_cond(rng, len(sig), subs[0]), rng.choice([None, 0]), impl=got)
			else:
				g = rng.randrange(2)
				m = rng.randint(1, 3)
				args = []
				for _ in range(m):
					x = rng.choice(subs[g])
					args.append(ctxs[g].multivector(values=np.ones((2, len(x))), subspace=x) if rng.random() < 0.6 else Thing(x))
				how = rng.choice(['free', 'bound', 'class', 'method'])
				later = []
				if rng.random() < 0.1:
					# an implementation that registers another one while it runs
					def extra():
						add = d.s.add
						try:
							d.s.add = lambda *a: later.append(a)
							d.register({'k': 'any'}, 0)
						finally:
							d.s.add = add
					d.extra = extra
				d.call(args, how)
				d.extra = None
				for a in later:
					s.add(*a)
		yield s


LIBRARY = ['inverse', 'exp', 'square_root', 'inverse_square_root', 'motor_inverse', 'norm_squared', 'norm', 'normalized', 'study_norm_squared',
	'study_norm', 'motor_square_root', 'motor_log', 'decompose_invariant', 'decompose_polar', 'motor_translator', 'motor_rotor']


def library(sigs, seed):
	rng = random.Random(seed)
	for sig in sigs:
		ctx = np_ctx(algebra(sig))
		s = Ses(sig, f'library dispatch {sig_str(sig)}')
		subs = named_subs(ctx.algebra)
		pairs = [(nm, x) for nm in LIBRARY for x in subs]
		rng.shuffle(pairs)
		for nm, x in pairs + pairs[:20]:
			mv = ctx.multivector(values=np.array([1 + 0.37 * i for i in range(len(x))]), subspace=x)
			disp = getattr(type(mv), nm, None)
			try:
				options = [(c, f) for c, f in disp.options]
			except Exception:
				continue
			truth = []
			try:
				for c, f in options:
					truth.append(int(bool(c(x))))
					if truth[-1]:
						break
			except Exception:
				continue
			def outcome(f):
				try:
					with limit():
						r = f()
				except Exception as e:
					return ('raised', type(e).__name__)
				r = r if isinstance(r, tuple) else (r,)
				return tuple((tuple(blades(a.subspace)), array(a.values).tobytes()) for a in r)
			res = outcome(lambda: getattr(mv, nm)())
			v = {'truth': truth, 'raised': int(res[0] == 'raised'), 'eq': []}
			if sum(truth):
				same = outcome(lambda: options[len(truth) - 1][1](mv))
				v['raised'] = int(res[0] == 'raised' and res != same)
				v['eq'] = [len(truth)] if same == res else []
			s.add({'e': 'disp', 'op': 'library', 'v': v}, f'{nm} on {blades(x)}')
		yield s
