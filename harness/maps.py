"""Recording operators as values: events of Maps.tla."""
from .common import *


def observe(ctx, op, ins):
	"""Images of all tuples of argument blades of a concrete operator: (batch shape, rows per batch element)"""
	k = len(ins)
	nb = len(getattr(op, 'shape', ()) or ())
	args = []
	for i, s in enumerate(ins):
		shape = [1] * k
		shape[i] = len(s)
		args.append(ctx.multivector(values=np.identity(len(s)).reshape(shape + [1] * nb + [len(s)]), subspace=s))
	res = op(*args)
	v = array(res.values).astype(np.float64)
	h = v.shape[k:-1]
	if v.shape[:k] != tuple(len(s) for s in ins) or v.shape[-1] != len(res.subspace):
		raise ValueError(f'result of shape {v.shape} for inputs {[len(s) for s in ins]}')
	v = np.moveaxis(v, range(k), range(len(h), len(h) + k))
	return res.subspace, h, v.reshape((int(np.prod(h, dtype=int)), int(np.prod([len(s) for s in ins], dtype=int)), v.shape[-1]))


class MapSes(Ses):
	def __init__(self, sig, label, ctx, tol=1e-9):
		super().__init__(sig, label, tol)
		self.ctx = ctx

	def encmap(self, op):
		"""An operator (symbolic or concrete) as a record of the specification"""
		from numga.operator.operator import Operator
		conc = self.ctx.operator(op) if isinstance(op, Operator) else op
		ins = tuple(conc.inputs)
		sub, h, v = observe(self.ctx, conc, ins)
		bl = blades(conc.output)
		if blades(sub) != bl:
			return {'err': f'declares output {bl} but returns {blades(sub)}'}
		return {'ins': [blades(s) for s in ins], 'out': bl, 'h': [int(n) for n in h], 'd': [rows_of(to_int(r, self.tol), bl) if bl else [[[], []]] * len(r) for r in v]}

	def map(self, op, args, f, p=None, q=None, note=None):
		"""Record the operator f() denoted by op; returns (register, operator or None)"""
		res = self.call(f)
		e = {'e': 'map', 'op': op, 'a': list(args), 'p': p or {'_': 0}}
		if q is not None:
			e['q'] = [int(i) for i in q]
		if isinstance(res, Exception):
			v = {'err': f'{type(res).__name__}: {res}'[:200]}
		else:
			v = self.call(self.encmap, res)
			if isinstance(v, Exception):
				v = {'err': f'{type(v).__name__}: {v}'[:200]}
		e['v'] = v
		r = None
		if 'err' not in v:
			self.n += 1
			e['r'] = r = self.n
		self.add(e, note or f'{op} {p or ""}')
		return (r, res) if r else (None, None)

	def mapcall(self, op, args, f, note=None):
		res = self.call(f)
		self.add({'e': 'mapcall', 'op': op, 'a': list(args), 'v': self.val(res)}, note or op)
		return res
