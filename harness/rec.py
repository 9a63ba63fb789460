"""Recording the real library: sessions of events for the trace specification."""
import os, sys, time, signal, itertools, random, traceback
import numpy as np

REPO = os.environ.get('NUMGA_REPO', '/repo')
SENT = 99999989     # stands for a coefficient that is not the integer it should be


def load():
	"""Import numga from the working tree of /repo."""
	if REPO not in sys.path:
		sys.path.insert(0, REPO)
	import numga
	p = os.path.realpath(numga.__file__)
	assert p.startswith(os.path.realpath(REPO) + os.sep), p
	import warnings
	warnings.simplefilter('ignore')
	np.seterr(all='ignore')


class Timeout(Exception):
	pass


class Deadline(BaseException):
	"""The time for recording is up; what has been recorded so far is validated"""


DEADLINE = None     # set by the worker
OPEN = []           # sessions of the running job


def _alarm(*_):
	raise Timeout('did not return in time')


class limit:
	"""Bound the time of one call into the library."""
	def __init__(self, s=60):
		self.s = s
	def __enter__(self):
		self.old = signal.signal(signal.SIGALRM, _alarm)
		signal.setitimer(signal.ITIMER_REAL, self.s)
	def __exit__(self, *a):
		signal.setitimer(signal.ITIMER_REAL, 0)
		signal.signal(signal.SIGALRM, self.old)


NAMES = 'xyzwuvstpqrabcdefghijklmno'


def sig_str(sig, names=None):
	names = names or NAMES
	return ''.join(n + {1: '+', -1: '-', 0: '0'}[s] for n, s in zip(names, sig))


def all_sigs(n):
	return [tuple(s) for s in itertools.product((1, -1, 0), repeat=n)]


def array(values):
	"""Backing storage of any backend as a numpy array"""
	if hasattr(values, 'detach'):
		return values.detach().cpu().numpy()
	return np.asarray(values)


def blades(subspace):
	return [int(b) for b in subspace.blades]


def to_int(v, tol):
	v = np.asarray(v)
	if v.dtype == object:
		return np.full(v.shape, SENT, dtype=np.int64)
	with np.errstate(all='ignore'):
		v = v.astype(np.float64)
		r = np.rint(v)
		ok = np.isfinite(v) & (np.abs(v - r) <= tol * np.maximum(1, np.abs(r))) & (np.abs(r) < 5e7)
	return np.where(ok, r, SENT).astype(np.int64)


def rows_of(ints, bl):
	out = []
	for row in ints.reshape(-1, len(bl)):
		nz = np.flatnonzero(row)
		out.append([[bl[i] for i in nz], [int(row[i]) for i in nz]])
	return out


def enc(mv, tol=1e-9):
	"""A multivector as a value record of the specification (exact integers)"""
	v = array(mv.values)
	bl = blades(mv.subspace)
	if v.ndim < 1 or v.shape[-1] != len(bl):
		return {'err': f'component axis {v.shape} does not match subspace of {len(bl)}'}
	h = [int(i) for i in v.shape[:-1]]
	if len(bl) == 0:
		n = int(np.prod(h)) if h else 1
		return {'s': bl, 'h': h, 'd': [[[], []] for _ in range(n)]}
	return {'s': bl, 'h': h, 'd': rows_of(to_int(v, tol), bl)}


ONE = 2 ** 36


def digits(v):
	"""A real number as balanced base 4096 digits"""
	n = round(float(v) * ONE)
	out = []
	for _ in range(3):
		d = (n + 2048) % 4096 - 2048
		out.append(d)
		n = (n - d) >> 12
	return out + [n]


def encr(mv, limit=16):
	"""A real multivector (fixed point), or a string saying why it is none"""
	v = array(mv.values)
	bl = blades(mv.subspace)
	if v.ndim < 1 or v.shape[-1] != len(bl):
		return f'component axis {v.shape}'
	v = v.astype(np.float64)
	if not np.all(np.isfinite(v)):
		return 'not finite'
	if np.any(np.abs(v) > limit):
		return 'out of range'
	h = [int(i) for i in v.shape[:-1]]
	n = int(np.prod(h, dtype=int))
	return {'s': bl, 'h': h, 'd': [[[b for b, x in zip(bl, row) if x != 0], [digits(x) for x in row if x != 0]] for row in v.reshape(n, len(bl))]}


class Ses:
	"""One session: an algebra, registers, and the events recorded against it"""
	def __init__(self, sig, label, tol=1e-9):
		self.sig, self.label, self.tol = list(sig), label, tol
		self.ev, self.note = [], []
		self.n = 0
		OPEN.append(self)

	def add(self, e, note=''):
		self.ev.append(e)
		self.note.append(note)

	def new(self, mv):
		"""Introduce a multivector whose coefficients are known to be integers"""
		self.n += 1
		self.add({'e': 'new', 'r': self.n, 'v': enc(mv, self.tol)}, 'input')
		return self.n

	def call(self, f, *a, **k):
		"""Run the library, turning any exception into a value"""
		if DEADLINE and time.time() > DEADLINE:
			raise Deadline()
		try:
			with limit():
				return f(*a, **k)
		except Timeout as e:
			return e
		except Exception as e:
			return e

	def val(self, res):
		if isinstance(res, Exception):
			return {'err': f'{type(res).__name__}: {res}'[:200]}
		try:
			return enc(res, self.tol)
		except Exception as e:
			return {'err': f'not a multivector: {type(res).__name__} {e}'[:200]}

	def op(self, op, args, f, q=None, keep=False, note=None, sub=None):
		"""Record result f() of operator `op` on registers; returns (register, result)"""
		res = self.call(f)
		e = {'e': 'op', 'op': op, 'a': list(args), 'v': self.val(res)}
		if q is not None:
			e['q'] = [int(i) for i in q]
		if sub:
			e['sub'] = sub
		r = None
		if keep and not isinstance(res, Exception):
			self.n += 1
			e['r'] = r = self.n
		self.add(e, note or op)
		return (r, res) if keep else res

	def raw(self, bl, values, note='input'):
		"""Introduce integer coefficients given as an array over blades bl"""
		v = np.asarray(values)
		self.n += 1
		h = [int(i) for i in v.shape[:-1]]
		d = rows_of(to_int(v, 0), bl) if len(bl) else [[[], []] for _ in range(int(np.prod(h)))]
		self.add({'e': 'new', 'r': self.n, 'v': {'s': list(bl), 'h': h, 'd': d}}, note)
		return self.n

	def bat(self, op, args, f, p=None, keep=False, note=None, sub='same'):
		"""Record a batch operation"""
		res = self.call(f)
		e = {'e': 'bat', 'op': op, 'a': list(args), 'p': p or {}, 'v': self.val(res), 'sub': sub}
		r = None
		if keep and not isinstance(res, Exception):
			self.n += 1
			e['r'] = r = self.n
		self.add(e, note or f'{op} {p}')
		return (r, res) if keep else res

	def kernel(self, op, subs, f, q=None, tight=0, note=None, sym=()):
		"""Record the full kernel of an operator: f(mvs) evaluated on the basis blades of subs"""
		e = {'e': 'kern', 'op': op, 'subs': [blades(s) for s in subs], 'tight': tight}
		if q is not None:
			e['q'] = [int(i) for i in q]
		res = self.call(f)
		if isinstance(res, Exception):
			e['err'] = f'{type(res).__name__}: {res}'[:200]
			e['s'] = []
			e['rows'] = []
		else:
			v = enc(res, self.tol)
			total = int(np.prod([len(s) for s in subs]))
			if 'err' in v or len(v['d']) != total:
				e['err'] = v.get('err', 'wrong number of rows')
				e['s'], e['rows'] = [], []
			else:
				e['s'], e['rows'] = v['s'], v['d']
				if sym:
					e['sym'] = [self.symbolic(g) for g in sym]
		self.add(e, note or f'{op} kernel on {[blades(s) for s in subs]}')
		return res

	def rel(self, name, xs, f, tol=700, note=None, shape=True):
		"""Record that f() returned results (one multivector or a tuple) related to inputs xs"""
		res = self.call(f)
		e = {'e': 'rel', 'rel': name, 'tol': int(tol)}
		if isinstance(res, Exception):
			e['err'] = f'raised {type(res).__name__}: {res}'[:200]
		else:
			try:
				rs = [encr(r, 256) for r in (res if isinstance(res, tuple) else (res,))]
			except Exception as ex:
				rs = [f'not a multivector: {type(ex).__name__} {ex}'[:200]]
			e['x'] = [encr(x, 256 if name == 'close' else 16) for x in xs]
			bad = [r for r in rs + e['x'] if isinstance(r, str)]
			if bad:
				e['err'] = bad[0]
				del e['x']
			else:
				e['r'] = rs
				if shape:
					e['shape'] = 1
		self.add(e, note or name)
		return res

	def cga(self, op, args, f, p=0, keep=False, note=None):
		"""Record a value of the conformal or planar model"""
		res = self.call(f)
		e = {'e': 'cga', 'op': op, 'a': list(args), 'p': p, 'v': self.val(res)}
		r = None
		if keep and not isinstance(res, Exception):
			self.n += 1
			e['r'] = r = self.n
		self.add(e, note or op)
		return (r, res) if keep else res

	def symbolic(self, g):
		r = self.call(g)
		return [SENT] if isinstance(r, Exception) else blades(r.subspace)

	def out(self):
		return {'sig': self.sig, 'label': self.label, 'ev': self.ev, 'note': self.note}


def basis_batches(ctx, subs):
	"""For each input i a batch of all its basis blades along its own batch axis"""
	n = len(subs)
	res = []
	for i, s in enumerate(subs):
		shape = [1] * n
		shape[i] = len(s)
		res.append(ctx.multivector(values=np.identity(len(s)).reshape(shape + [len(s)]), subspace=s))
	return res


def rand_sub(rng, ga, lo=0, hi=None, grades=None):
	"""A random set of blades as a subspace of algebra ga"""
	n = 2 ** ga.n_dimensions
	pool = range(n) if grades is None else [b for b in range(n) if bin(b).count('1') in grades]
	pool = list(pool)
	hi = min(hi if hi is not None else len(pool), len(pool))
	k = rng.randint(min(lo, hi), hi)
	return ga.subspace.from_blades(sorted(rng.sample(pool, k)))


def rand_mv(rng, ctx, sub, shape=(), m=3):
	n = int(np.prod(shape, dtype=int)) * len(sub)
	v = np.array([rng.randint(-m, m) for _ in range(n)], dtype=float).reshape(tuple(shape) + (len(sub),))
	return ctx.multivector(values=v, subspace=sub)


NAMED = ['scalar', 'vector', 'bivector', 'trivector', 'quadvector', 'pseudoscalar', 'antivector', 'antibivector',
	'scalar_pseudoscalar', 'nonscalar', 'multivector', 'empty', 'even_grade', 'odd_grade', 'translator', 'rotor',
	'self_reverse', 'mod4', 'degenerate', 'nondegenerate', 'scalar_degenerate', 'bireflection', 'trireflection']


def named_subs(ga, names=NAMED):
	res = []
	for n in names:
		try:
			s = getattr(ga.subspace, n)()
		except Exception:
			continue
		if s not in [r for r in res]:
			res.append(s)
	return res
