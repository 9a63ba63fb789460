"""A small independent Clifford algebra over the reals, used only to choose inputs in the domain of a function and to
bound conditioning; verdicts come from the specification."""
import numpy as np


def sign(sig, a, b):
	s = 1
	for i in range(len(sig)):
		if b >> i & 1:
			if bin(a >> (i + 1)).count('1') & 1:
				s = -s
			if a >> i & 1:
				s *= sig[i]
			a ^= 1 << i
	return s


_tab = {}
def table(sig):
	if sig not in _tab:
		N = 2 ** len(sig)
		_tab[sig] = np.array([[sign(sig, a, b) for b in range(N)] for a in range(N)], dtype=float)
	return _tab[sig]


def dense(sig, bl, row):
	v = np.zeros(2 ** len(sig))
	v[bl] = row
	return v


def left(sig, v):
	"""Matrix of y -> v * y"""
	N = len(v)
	T = table(sig)
	M = np.zeros((N, N))
	for a in np.flatnonzero(v):
		for b in range(N):
			M[a ^ b, b] += T[a, b] * v[a]
	return M


def mul(sig, x, y):
	return left(sig, x) @ y


def rev(x):
	g = np.array([bin(b).count('1') for b in range(len(x))])
	return x * np.where((g * (g - 1) // 2) % 2, -1, 1)


def expm(sig, b):
	L = left(sig, b / 64)
	x = np.zeros(len(b))
	x[0] = 1
	t = x.copy()
	for k in range(1, 14):
		t = L @ t / k
		x = x + t
	for _ in range(6):
		x = mul(sig, x, x)
	return x


def cond_inverse(sig, v):
	"""Largest entry of the inverse and the condition number of left multiplication"""
	L = left(sig, v)
	s = np.linalg.svd(L, compute_uv=False)
	return s[0], s[-1]


def grades(n):
	return np.array([bin(b).count('1') for b in range(2 ** n)])


def grid(rng, n, m=2, q=8):
	"""n multiples of 1/q up to m: exactly representable everywhere"""
	return np.array([rng.randint(-m * q, m * q) / q for _ in range(n)])


def invertible(rng, sig, bl, cond=20, lo=0.3, tries=200, m=2):
	"""Coefficients over blades bl of a well conditioned multivector, or None"""
	for _ in range(tries):
		v = grid(rng, len(bl), m)
		hi, l = cond_inverse(sig, dense(sig, bl, v))
		if l >= lo and hi / l <= cond:
			return v
	return None


def batch(make, shape):
	"""An array of the given batch shape of rows from make(), or None"""
	n = int(np.prod(shape, dtype=int))
	rows = [make() for _ in range(n)]
	if any(r is None for r in rows) or not rows:
		return None
	return np.array(rows).reshape(tuple(shape) + (-1,))


def root_margin(sig, s):
	"""How far a scalar or study number is inside the domain of the square root; None if it is neither"""
	ns = s.copy()
	ns[0] = 0
	q = mul(sig, ns, ns)
	if np.abs(q[1:]).max(initial=0) > 1e-9:
		return None
	N = s[0] ** 2 - q[0]
	if N < 0:
		return -1.0
	return min((s[0] + N ** 0.5) / 2, N)


def motor(rng, sig, bl2, size=0.8):
	"""The exponential of a random bivector over the given blades (dense)"""
	b = np.zeros(2 ** len(sig))
	b[bl2] = grid(rng, len(bl2), 1, 16) * size
	return expm(sig, b)


def versor_error(sig, m):
	e = mul(sig, m, rev(m))
	e[0] -= 1
	return np.abs(e).max()
