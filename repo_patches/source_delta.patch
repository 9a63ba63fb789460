From bedf79cb0d76de5dc3fe6f935c345c87c8d09913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 01/39] fix: broadcast the grade signs of transform over both
 rotor axes of the kernel

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..5efaaaf 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -541,7 +541,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From 08c95819a6643928f90698937871e1a515e34b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 02/39] fix: inverse_transform on subspaces, and
 reverse_transform of multivectors

---
 numga/multivector/multivector.py | 2 +-
 numga/operator/factory.py        | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 793ead4..19461b6 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -195,7 +195,7 @@ class AbstractMultiVector:
 	def transform(self, other):
 		return self.operator.transform(self.subspace, other.subspace)(self, other, self)
 	def reverse_transform(self, other):
-		return self.operator.reverse_transform(self.subspace, other.subspace)(self, other, self)
+		return self.operator.inverse_transform(self.subspace, other.subspace)(self, other, self)
 	def inverse_factor(self):
 		return self.operator.inverse_factor(self.subspace)(self, self, self)
 
diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5efaaaf..897de6f 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -548,7 +548,10 @@ class OperatorFactory:
 		"""Compute (R * v) * ~R, while preserving the outermorphism
 		Note; R is assumed normalized/motorized
 		"""
-		return self.transform(R.reverse(), v)
+		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
+		S = self.reverse_sandwich(R, v)
+		sign_mask = parity_to_sign(v.grades() * parity)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_factor(self, x: SubSpace) -> Operator:
-- 
2.43.0


From a2abc2c143b9ce722cbcc6b80560607dec420e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 03/39] fix: components without terms are zero in the plain
 python backend

---
 numga/backend/python/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..7fa88c7 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,8 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		# components without any terms are zero; the default is a unit scalar
+		output = self.context.multivector(self.output, values=[0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From 20b983e4e493a7f83b1abbed41bddf013e391fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 04/39] fix: registrations take effect on subspaces that were
 dispatched before

---
 numga/dynamic_dispatch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 4f65bc5..586bd35 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -43,6 +43,7 @@ class DynamicDispatch:
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
 			self.options.insert(position, (condition, func))
+			self.cache.clear()  # earlier matches may be superseded
 			return func
 		return wrap
 
-- 
2.43.0


From 82dd7b8599126ba784a24408f487202dd3366e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 05/39] fix: only truncate exp when degenerate elements do
 square to zero

---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..036d269 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,7 +34,7 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.is_degenerate and s.squared().equals.empty())
 def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know all basis elements square to zero, might as well use that information"""
 	return b + 1
-- 
2.43.0


From 147ac960ba9248672c06e0653b10fef6afbde34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 06/39] fix: restrict[...] and restrict(...) of subspaces
 restrict rather than select

---
 numga/subspace/namespaces.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..9742492 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -69,3 +69,10 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		subspace = self.factory.from_grades(item)
+		return self.subspace.restrict_subspace(subspace)
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From 9d2b55369f0e902bc326353788a220c6963e5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 07/39] fix: select and restrict of subspaces by a single grade
 or a tuple of grades

---
 numga/subspace/namespaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index 9742492..989a572 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -54,6 +54,7 @@ class SelectNamespace:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
+		item = list(item) if isinstance(item, tuple) else [item] if isinstance(item, int) else item
 		subspace = self.factory.from_grades(item)
 		return self.subspace.select_subspace(subspace)
 
@@ -71,6 +72,7 @@ class RestrictNamespace(SelectNamespace):
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
+		item = list(item) if isinstance(item, tuple) else [item] if isinstance(item, int) else item
 		subspace = self.factory.from_grades(item)
 		return self.subspace.restrict_subspace(subspace)
 
-- 
2.43.0


From f827cebfc7ed38210f9dcb7a73d661c72e3ed937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:23 +0000
Subject: [PATCH 08/39] fix: select.multivector() and restrict.multivector() of
 multivectors

---
 numga/multivector/namespaces.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/numga/multivector/namespaces.py b/numga/multivector/namespaces.py
index d059353..ae20873 100644
--- a/numga/multivector/namespaces.py
+++ b/numga/multivector/namespaces.py
@@ -10,35 +10,35 @@ from numga.subspace.subspace import SubSpace
 
 class SelectNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.select_subspace(subspace)
+			return self._multivector.select_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.select_subspace(subspace(*args))
+			return lambda *args: self._multivector.select_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.select_subspace(subspace)
+		return self._multivector.select_subspace(subspace)
 
 
 class RestrictNamespace:
 	def __init__(self, multivector):
-		self.multivector = multivector
+		self._multivector = multivector
 		self.factory = multivector.context.subspace
 
 	def __getattr__(self, item):
 		subspace = getattr(self.factory, item)
 		if isinstance(subspace, SubSpace):
-			return self.multivector.restrict_subspace(subspace)
+			return self._multivector.restrict_subspace(subspace)
 		else:
-			return lambda *args: self.multivector.restrict_subspace(subspace(*args))
+			return lambda *args: self._multivector.restrict_subspace(subspace(*args))
 
 	def __getitem__(self, item):
 		item = list(item) if isinstance(item, tuple) else [item]
 		subspace = self.factory.from_grades(item)
-		return self.multivector.restrict_subspace(subspace)
+		return self._multivector.restrict_subspace(subspace)
-- 
2.43.0


From 9294f712fea05d150be2c727e30ca8f2a201f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 09/39] fix: a tuple indexes one batch axis per entry in the
 torch backend

---
 numga/backend/torch/context.py     | 9 +++++----
 numga/backend/torch/multivector.py | 9 +++++----
 numga/backend/torch/operator.py    | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..c05431a 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -23,10 +23,11 @@ class TorchContext(AbstractContext):
 		return torch.zeros(shape, dtype=self.dtype, device=self.device)
 
 	def set_array(self, arr, idx, values):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):  # a tuple indexes one axis per entry
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 
 		arr = torch.clone(arr)
 		arr[idx] = values
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..91e65da 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -30,10 +30,11 @@ class TorchMultiVector(AbstractMultiVector):
 
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):  # a tuple indexes one axis per entry
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		v = self.values[idx]
 		return self.copy(values=v)
 
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..5bc7437 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -39,10 +39,11 @@ class TorchOperator(AbstractConcreteOperator):
 
 
 	def __getitem__(self, idx):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		if not isinstance(idx, tuple):  # a tuple indexes one axis per entry
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		k = self.kernel[idx]
 		slice = self.copy(self.operator.copy(k))
 		return slice
-- 
2.43.0


From efaccfb60846979c17d5ff1d5da303091dd93e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:33 +0000
Subject: [PATCH 10/39] fix: inverse_la looks for the inverse where it can be

Beyond 4d the inverse of x * ~x need not lie in the blades of x * ~x, so that
least squares over the subspace of the hitzer factor gave a wrong inverse.
---
 numga/backend/jax/multivector.py   | 4 ++--
 numga/backend/numpy/multivector.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/numga/backend/jax/multivector.py b/numga/backend/jax/multivector.py
index 4f90a51..9ce758b 100644
--- a/numga/backend/jax/multivector.py
+++ b/numga/backend/jax/multivector.py
@@ -66,8 +66,8 @@ class JaxMultiVector(AbstractMultiVector):
 
 	def inverse_la(self):
 		"""Inverse of x such that x * x.inverse() == 1 == x.inverse() * x"""
-		# FIXME: is there a simpler / more complete way of constructing these candidate subspaces?
-		inverse_subspace = self.operator.inverse_factor(self.subspace).output
+		# inv(x) = ~x * inv(x * ~x), where the latter is a polynomial in x * ~x
+		inverse_subspace = self.subspace.product(self.subspace.symmetric_reverse().minimal_exponential)
 		op = self.operator.product(self.subspace, inverse_subspace)
 		k = op.partial({0: self}).kernel
 		idx, = jnp.flatnonzero(op.output.blades == 0)    # grab index of scalar of output; zero or raises
diff --git a/numga/backend/numpy/multivector.py b/numga/backend/numpy/multivector.py
index 3b30da1..607403e 100644
--- a/numga/backend/numpy/multivector.py
+++ b/numga/backend/numpy/multivector.py
@@ -71,8 +71,8 @@ class NumpyMultiVector(AbstractMultiVector):
 
 	def inverse_la(self):
 		"""Inverse of x such that x * x.inverse() == 1 == x.inverse() * x"""
-		# FIXME: is there a simpler / more complete way of constructing these candidate subspaces?
-		inverse_subspace = self.operator.inverse_factor(self.subspace).output
+		# inv(x) = ~x * inv(x * ~x), where the latter is a polynomial in x * ~x
+		inverse_subspace = self.subspace.product(self.subspace.symmetric_reverse().minimal_exponential)
 		op = self.operator.product(self.subspace, inverse_subspace)
 		k = op.partial({0: self}).kernel
 		idx, = np.flatnonzero(op.output.blades == 0)    # grab index of scalar of output; zero or raises
-- 
2.43.0


From 389c67bddbb5401b10ac5cf848f9a8e00f58235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:12 +0000
Subject: [PATCH 11/39] fix: decompose_polar dispatches on study numbers

There is no named subspace study, so that every call raised.
---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From 458a0f98cd684fe64206b64f3af1fd3afa00dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:30 +0000
Subject: [PATCH 12/39] fix: cos and sin of multivectors

No context implemented them, so that mv.cos() and mv.sin() returned a copy of
the multivector.
---
 numga/backend/jax/context.py   | 4 ++++
 numga/backend/numpy/context.py | 4 ++++
 numga/backend/torch/context.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 7713f72..50986b4 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -45,6 +45,10 @@ class JaxContext(AbstractContext):
 		return jnp.log(x)
 	def exp(self, x):
 		return jnp.exp(x)
+	def cos(self, x):
+		return jnp.cos(x)
+	def sin(self, x):
+		return jnp.sin(x)
 	def abs(self, x):
 		return jnp.abs(x)
 
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 46a2949..c14eb93 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -48,6 +48,10 @@ class NumpyContext(AbstractContext):
 		return np.log(x)
 	def exp(self, x):
 		return np.exp(x)
+	def cos(self, x):
+		return np.cos(x)
+	def sin(self, x):
+		return np.sin(x)
 	def abs(self, x):
 		return np.abs(x)
 
diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index c05431a..e534d10 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -49,6 +49,10 @@ class TorchContext(AbstractContext):
 		return torch.log(x)
 	def exp(self, x):
 		return torch.exp(x)
+	def cos(self, x):
+		return torch.cos(x)
+	def sin(self, x):
+		return torch.sin(x)
 	def abs(self, x):
 		return torch.abs(x)
 
-- 
2.43.0


From bbbda4649c2db7973c23a4599d4cdc029ddbd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:03 +0000
Subject: [PATCH 13/39] fix: copy of torch multivectors

Tensors have no copy method, so that copy() without values raised.
---
 numga/backend/torch/multivector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 91e65da..34b225e 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -28,6 +28,9 @@ class TorchMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	def copy(self, values=None, subspace=None):
+		return super().copy(self.values.clone() if values is None else values, subspace)
+
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		if not isinstance(idx, tuple):  # a tuple indexes one axis per entry
-- 
2.43.0


From dcf01fed7331f9382433a4165dc238c34ffbd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 14/39] fix: commutators of operators of any arity

---
 numga/operator/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 897de6f..a8b0582 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -373,7 +373,9 @@ class OperatorFactory:
 	# FIXME: https://projectivegeometricalgebra.org/wiki/index.php?title=Commutators
 	def make_commutator(self, op, sign):
 		def bind(l, r):
-			return (op(l, r) + ((sign * op(r, l)).swapaxes(0, 1))).div(2).squeeze()
+			# swap axes before binding; bound operators may be of any arity
+			L, R = l.subspace, r.subspace
+			return (op(L, R) + ((sign * op(R, L)).swapaxes(0, 1))).div(2)._build((l, r)).squeeze()
 		return bind
 	def commutator_product(self, l: SubSpace, r: SubSpace) -> Operator:
 		"""Commutator of the geometric product"""
-- 
2.43.0


From 4ce60f2992b8164d04a16585185866fdbb130bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 15/39] fix: study_conjugate of an operator

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index a8b0582..3889454 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -477,7 +477,7 @@ class OperatorFactory:
 	@cache
 	def study_conjugate(self, subspace) -> "Operator":
 		# assert subspace in self.algebra.subspace.study()
-		sign = parity_to_sign(subspace.grades() > 0)
+		sign = parity_to_sign(subspace.subspace.grades() > 0)
 		return self.diagonal(subspace, sign)
 	@cache
 	def study_norm_squared(self, subspace) -> "Operator":
-- 
2.43.0


From 4362dcc06b748fe36368d42cdf769567681b1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 16/39] fix: transpose of batched bound operators

---
 numga/backend/numpy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index 25da505..ffb21ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -93,7 +93,7 @@ class NumpyOperator(AbstractConcreteOperator):
 		return type(self)(
 			self.context,
 			Operator(
-				kernel=np.transpose(self.kernel, (-1, -2)),
+				kernel=np.swapaxes(self.kernel, -1, -2),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From 36bb8e4c92a3fbf31d11fafac748e55323b72738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 17/39] fix: adding and scaling operators does not overflow

---
 numga/operator/operator.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 7b3c36f..635ea03 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -8,6 +8,18 @@ from numga.subspace.subspace import SubSpace
 from numga.operator.sparse_tensor import SparseTensor
 
 
+def widen(kernel):
+	"""Do arithmetic on integer kernels in a type wide enough not to overflow"""
+	if isinstance(kernel, np.ndarray) and np.issubdtype(kernel.dtype, np.integer):
+		return kernel.astype(np.int64)
+	return kernel
+def compact(kernel):
+	"""Store integer kernels in the smallest signed type that can hold their entries"""
+	if isinstance(kernel, np.ndarray) and np.issubdtype(kernel.dtype, np.integer):
+		return kernel.astype(np.min_scalar_type(min(np.min(kernel, initial=0), -1 - np.max(kernel, initial=0))))
+	return kernel
+
+
 class Operator:
 	"""Multi-Linear symbolic operator"""
 	def __init__(self, kernel: np.ndarray, axes: Tuple[SubSpace]):
@@ -80,14 +92,14 @@ class Operator:
 		return self.axes[:-1]
 
 	def add(self, other: "Operator") -> "Operator":
-		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
+		return Operator(compact(widen(self.kernel) + widen(other.kernel)), match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
 		axes = [sa + oa for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
 		"""Scalar multiplication"""
-		return Operator(self.kernel * s, self.axes)
+		return Operator(compact(widen(self.kernel) * s), self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
 		return Operator(self.kernel // s, self.axes)
-- 
2.43.0


From 1aef88898dbc7fe5b85190a014aab20aef4d1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 18/39] fix: selections of operators act on the operator's
 output

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 3889454..e663e04 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -85,12 +85,12 @@ class OperatorFactory:
 		# NOTE: dont squeeze here; broadcasting to zero blades is part of intended functionality
 		return Operator.build(
 			identity.take(i.subspace.blades, axis=0).take(o.subspace.blades, axis=1),
-			(i.subspace, o.subspace)
+			(i, o.subspace)
 		)
 	@cache
 	def restrict(self, i: SubSpace, o: SubSpace) -> Operator:
 		"""Restrict i to o; drop terms not in o"""
-		return self.select(i, o.intersection(i))
+		return self.select(i, o.intersection(i.subspace))
 
 	# @cache
 	# def grade_negation(self, subspace, grades: Tuple[int]) -> "Operator":
-- 
2.43.0


From 608289b6b209235754cebc61192e867956b135d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 19/39] fix: identity and reverse sandwich of operators

---
 numga/operator/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index e663e04..89e9c8d 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -66,7 +66,7 @@ class OperatorFactory:
 	@cache
 	def identity(self, output: SubSpace) -> "Operator":
 		"""Identity operator"""
-		identity = np.identity(len(output), self.algebra.blade_dtype)
+		identity = np.identity(len(output.subspace), self.algebra.blade_dtype)
 		return self.build(identity, (output, output.subspace))
 	def diagonal(self, output: SubSpace, weights) -> "Operator":
 		"""Diagonal scaling operator"""
@@ -532,7 +532,7 @@ class OperatorFactory:
 	@cache
 	def reverse_sandwich(self, R: SubSpace, v: SubSpace) -> Operator:
 		"""Compute (~R * v) * R"""
-		return self.sandwich(R.reverse(), v)
+		return self.sandwich(self.reverse(R), v)
 
 	@cache
 	def transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From 0364dde0d37d0a3ea0de4e96214454792617da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:49 +0000
Subject: [PATCH 20/39] fix: deslice of operators with empty axes

---
 numga/operator/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 635ea03..d384f9b 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -185,7 +185,8 @@ class Operator:
 		import numpy_indexed as npi
 		kernel = np.pad(self.kernel, [(0, 1)]*self.kernel.ndim, 'constant', constant_values=(0, 0))
 		for i, axis in enumerate(axes):
-			idx = npi.indices(self.axes[i].blades, axis.blades, missing=self.kernel.shape[i])
+			missing = len(self.axes[i])
+			idx = npi.indices(self.axes[i].blades, axis.blades, missing=missing) if missing else np.zeros(len(axis), int)
 			kernel = kernel.take(idx, axis=i)
 		return Operator(kernel, tuple(axes))
 
-- 
2.43.0


From 76cb6b6a9fe03a0fb89f243a4fb4f113409d5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 21/39] fix: subspace names with repeated or multi-character
 generator names

---
 numga/subspace/factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/numga/subspace/factory.py b/numga/subspace/factory.py
index e00c9e3..de7729b 100644
--- a/numga/subspace/factory.py
+++ b/numga/subspace/factory.py
@@ -60,11 +60,12 @@ class SubSpaceFactory(FlyweightFactory):
 		"""Attribute subspace construction syntax
 		Example: 'xy_zt' produces a bivector with these two components
 		"""
-		names = self.algebra.description.basis_names
 		basis = self.basis()
+		blades = [self.algebra.description.parse_tokens(blade) for blade in subspace.split('_')]
 		return self.from_blades(np.array([
-			sum(basis[names.index(b)].blades for b in blade)[0]
-			for blade in subspace.split('_')
+			sum(basis[i].blades for i in blade)[0]
+			for blade in blades
+			if len(set(blade)) == len(blade)    # the wedge of a repeated generator vanishes
 		]))
 
 	@cache
-- 
2.43.0


From 754df2a093b8208e25a5a8400be4b823ac8b4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 22/39] fix: (p, q, r) signatures of more than 26 generators
 are not truncated

---
 numga/algebra/description.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index c5c403e..84e5ff6 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -84,6 +84,8 @@ class AlgebraDescription:
 		'+++0' constructs the algebra corresponding to 3d PGA
 		"""
 		from numga.util import chars
+		chars = chars + chars.upper()   # one name for each of up to 32 generators
+		assert len(sig) <= len(chars)
 		return AlgebraDescription.from_str(''.join(c + s for c, s in zip(chars, sig)))
 
 	@property
-- 
2.43.0


From 597e97c90c4e507bef38e44c34297f570ac82dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 23/39] fix: flatten of multivectors over the empty subspace

---
 numga/backend/numpy/multivector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/multivector.py b/numga/backend/numpy/multivector.py
index 607403e..ee9ed6b 100644
--- a/numga/backend/numpy/multivector.py
+++ b/numga/backend/numpy/multivector.py
@@ -67,7 +67,7 @@ class NumpyMultiVector(AbstractMultiVector):
 	def reshape(self, shape):
 		return self.copy(self.values.reshape(shape+(self.values.shape[-1],)))
 	def flatten(self):
-		return self.reshape((-1,))
+		return self.reshape((int(np.prod(self.shape)),))
 
 	def inverse_la(self):
 		"""Inverse of x such that x * x.inverse() == 1 == x.inverse() * x"""
-- 
2.43.0


From a68064e7799f8694a779da62eeb3679c67362f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 24/39] fix: RK8 coefficient of the first stage in k_8, whose
 weights have to add up to one

---
 numga/examples/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/integrators.py b/numga/examples/integrators.py
index 69f7eb1..f70c2aa 100644
--- a/numga/examples/integrators.py
+++ b/numga/examples/integrators.py
@@ -20,7 +20,7 @@ def RK8(func, y, h):
 	k_5 = func(y + (h / 8) * (k_1 + 3 * k_4))
 	k_6 = func(y + (h / 54) * (13 * k_1 - 27 * k_3 + 42 * k_4 + 8 * k_5))
 	k_7 = func(y + (h / 4320) * (389 * k_1 - 54 * k_3 + 966 * k_4 - 824 * k_5 + 243 * k_6))
-	k_8 = func(y + (h / 20) * (-234 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
+	k_8 = func(y + (h / 20) * (-231 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
 	k_9 = func(y + (h / 288) * (-127 * k_1 + 18 * k_3 - 678 * k_4 + 456 * k_5 - 9 * k_6 + 576 * k_7 + 4 * k_8))
 	k_10 = func(y + (h / 820) * (
 			1481 * k_1 - 81 * k_3 + 7104 * k_4 - 3376 * k_5 + 72 * k_6 - 5040 * k_7 - 60 * k_8 + 720 * k_9))
-- 
2.43.0


From ecc63ccb05e2dde7bf21080c522537ab815d4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 25/39] fix: ga_sparse.Builder instances no longer share their
 entries

---
 numga/examples/ga_sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index dd87778..2e553b9 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -30,7 +30,11 @@ class AbstractContainer:
 class Builder(AbstractContainer):
 	"""Coordinate Matrix
 	to be used as a construction helper"""
-	entries: List = []
+	entries: List
+
+	def __init__(self, shape, subspace):
+		super().__init__(shape, subspace)
+		self.entries = []   # not shared between builders
 
 	def add(self, r, c, v):
 		assert v.subspace in self.subspace
-- 
2.43.0


From a1d00243214d306040b6475b6b3560fb9c3e0a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 26/39] fix: as_dense of a bound sparse matrix transposed its
 blocks

---
 numga/examples/ga_sparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index 2e553b9..74657d0 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -237,7 +237,8 @@ class BoundMatrixOperator:
 
 	def as_dense(self):
 		dense = np.zeros(shape=self.container.shape + self.block_shape)
-		dense[self.container.rows, self.container.columns] = self.bound.kernel
+		# kernel axes are [entries, column, row]
+		dense[self.container.rows, self.container.columns] = np.swapaxes(self.bound.kernel, -1, -2)
 		from einops import rearrange
 		return rearrange(dense, 'r c i j -> (r i) (c j)')
 
-- 
2.43.0


From d4436fcd85601d8cd96c07f6dab87e1e54d05b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 27/39] fix: optimized bivector exponential of pure
 translations was not finite

---
 numga/multivector/extension/optimized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..da88187 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,8 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	# the rotation vanishes for pure translations, and so does m; the ratio tends to -1/3
+	t = m * np.where(a > 1e-20, (c - s) / l, -1/3)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From 6d9038eb9d4a19ef6a5255cdcb5dcbc724d1764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 28/39] fix: squeeze of operators with batch axes, or of torch
 kernels

---
 numga/operator/operator.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index d384f9b..36b8dae 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -220,17 +220,15 @@ class Operator:
 
 	def squeeze(self) -> "Operator":
 		"""Drop known zero terms from output subspace"""
-		k = self.kernel
-		if np.issubdtype(k.dtype, np.floating):
-			eps = 1e-6   # need to consider an epsilon to make chained float kernel simplifications work
-			k = np.abs(k) > eps
-		# get nonzero output indices
-		indices = np.flatnonzero(k.any(axis=tuple(range(self.arity))))
+		eps = 1e-6   # need to consider an epsilon to make chained float kernel simplifications work
+		k = (self.kernel > eps) | (self.kernel < -eps)
+		# get nonzero output indices, over all inputs and all broadcasting axes
+		indices = np.flatnonzero(k.any(axis=tuple(range(k.ndim - 1))))
 		output: SubSpace = self.output.slice_subspace(indices)
 
 		axes = list(self.axes)
 		axes[-1] = output
-		return Operator(self.kernel.take(indices, axis=-1), tuple(axes))
+		return Operator(self.kernel[..., indices], tuple(axes))
 
 	def grade_selection(self, formula) -> "Operator":
 		"""Apply a grade selection formula"""
-- 
2.43.0


From 3706160ed4bb6a675ac91c5cc83f859ed74c8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 29/39] fix: the exponential of pga2d applies to its own
 algebra only, and to translations

---
 numga/examples/pga2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/examples/pga2d.py b/numga/examples/pga2d.py
index b50123d..2390cfe 100644
--- a/numga/examples/pga2d.py
+++ b/numga/examples/pga2d.py
@@ -43,12 +43,12 @@ def translator(tx, ty):
 from numga.multivector.multivector import AbstractMultiVector as mv
 @mv.exp.register(
 	lambda s:
-	s.inside.bivector() and s.algebra.description.n_dimensions <= 3,
+	s.inside.bivector() and s.algebra.description.description_str == pga.algebra.description.description_str,
 	position=1
 )
 def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	"""optimized 2d pga bivector exponential"""
-	av = b.norm().values[..., 0]
+	av = b.norm().select.scalar().values[..., 0]	# translations have no norm
 	cv = np.cos(av)
 	sv = np.where(av > 1e-20, np.sin(av) / av, 1)
 	return b * sv + cv
-- 
2.43.0


From 6fb79d0bd1cb8102b6140fc1c117ec3d0ef06205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 30/39] fix: satisfied constraints do not make bodies at rest
 move to nan

---
 numga/examples/physics/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/physics/core.py b/numga/examples/physics/core.py
index c6ff27c..4a786b3 100644
--- a/numga/examples/physics/core.py
+++ b/numga/examples/physics/core.py
@@ -162,6 +162,6 @@ class Constraint(ConstraintBase):
 		# sum to get total compliance towards motion along this direction
 		total_compliance: Scalar = constraint_compliance + inertial_compliances.sum(axis=0)
 		# lagrange multiplier for each constraint
-		multiplier: Scalar = magnitude / total_compliance
+		multiplier: Scalar = magnitude / (total_compliance + 1e-26)    # satisfied constraints have neither
 
 		return steps * self.connectivity * multiplier
-- 
2.43.0


From aa31b96f418507b6aa37ec01c51ec6d64de464be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 31/39] fix: velocity constraints conserve momentum when their
 anchors do not coincide

---
 numga/examples/physics/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numga/examples/physics/core.py b/numga/examples/physics/core.py
index 4a786b3..9b053c8 100644
--- a/numga/examples/physics/core.py
+++ b/numga/examples/physics/core.py
@@ -134,7 +134,9 @@ class Constraint(ConstraintBase):
 		# FIXME: comp using connectivity?
 		# forque: Line = velocities[1] - velocities[0]  # [c]; impulse to be exchanged is velocity delta
 		forque: Line = -(self.connectivity * velocities).sum(axis=0)
-		magnitude: Scalar = forque.norm()  # [c]; constraint violation magnitude
+		# NOTE: velocities of anchors that do not coincide combine into a screw, whose norm is a study number;
+		#  only a scalar magnitude makes for a direction along which momentum is exchanged
+		magnitude: Scalar = forque.norm_squared().select.scalar().square_root()  # [c]; constraint violation magnitude
 		direction: Line = forque / (magnitude + 1e-26)  # [c]; constraint violation direction
 
 		steps: BiVector = self.distribute_forque(
-- 
2.43.0


From 9ed5e31d89b12a3a19849d5e9517f98ac504159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 32/39] Revert "fix: velocity constraints conserve momentum
 when their anchors do not coincide"

This reverts commit aa31b96f418507b6aa37ec01c51ec6d64de464be.
---
 numga/examples/physics/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/numga/examples/physics/core.py b/numga/examples/physics/core.py
index 9b053c8..4a786b3 100644
--- a/numga/examples/physics/core.py
+++ b/numga/examples/physics/core.py
@@ -134,9 +134,7 @@ class Constraint(ConstraintBase):
 		# FIXME: comp using connectivity?
 		# forque: Line = velocities[1] - velocities[0]  # [c]; impulse to be exchanged is velocity delta
 		forque: Line = -(self.connectivity * velocities).sum(axis=0)
-		# NOTE: velocities of anchors that do not coincide combine into a screw, whose norm is a study number;
-		#  only a scalar magnitude makes for a direction along which momentum is exchanged
-		magnitude: Scalar = forque.norm_squared().select.scalar().square_root()  # [c]; constraint violation magnitude
+		magnitude: Scalar = forque.norm()  # [c]; constraint violation magnitude
 		direction: Line = forque / (magnitude + 1e-26)  # [c]; constraint violation direction
 
 		steps: BiVector = self.distribute_forque(
-- 
2.43.0


From 5a8b2b897ab7f5e41b80e2cb3e43ec7a8f2d51b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 33/39] Revert "fix: satisfied constraints do not make bodies
 at rest move to nan"

This reverts commit 6fb79d0bd1cb8102b6140fc1c117ec3d0ef06205.
---
 numga/examples/physics/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/physics/core.py b/numga/examples/physics/core.py
index 4a786b3..c6ff27c 100644
--- a/numga/examples/physics/core.py
+++ b/numga/examples/physics/core.py
@@ -162,6 +162,6 @@ class Constraint(ConstraintBase):
 		# sum to get total compliance towards motion along this direction
 		total_compliance: Scalar = constraint_compliance + inertial_compliances.sum(axis=0)
 		# lagrange multiplier for each constraint
-		multiplier: Scalar = magnitude / (total_compliance + 1e-26)    # satisfied constraints have neither
+		multiplier: Scalar = magnitude / total_compliance
 
 		return steps * self.connectivity * multiplier
-- 
2.43.0


From 3fd2867d72fcadfff9e9fa3b3a150ecc35f0eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 34/39] Revert "fix: the exponential of pga2d applies to its
 own algebra only, and to translations"

This reverts commit 3706160ed4bb6a675ac91c5cc83f859ed74c8489.
---
 numga/examples/pga2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/examples/pga2d.py b/numga/examples/pga2d.py
index 2390cfe..b50123d 100644
--- a/numga/examples/pga2d.py
+++ b/numga/examples/pga2d.py
@@ -43,12 +43,12 @@ def translator(tx, ty):
 from numga.multivector.multivector import AbstractMultiVector as mv
 @mv.exp.register(
 	lambda s:
-	s.inside.bivector() and s.algebra.description.description_str == pga.algebra.description.description_str,
+	s.inside.bivector() and s.algebra.description.n_dimensions <= 3,
 	position=1
 )
 def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	"""optimized 2d pga bivector exponential"""
-	av = b.norm().select.scalar().values[..., 0]	# translations have no norm
+	av = b.norm().values[..., 0]
 	cv = np.cos(av)
 	sv = np.where(av > 1e-20, np.sin(av) / av, 1)
 	return b * sv + cv
-- 
2.43.0


From d2ceb51298b866c1bb92bae332b662a349e807e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 35/39] Revert "fix: as_dense of a bound sparse matrix
 transposed its blocks"

This reverts commit a1d00243214d306040b6475b6b3560fb9c3e0a3a.
---
 numga/examples/ga_sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index 74657d0..2e553b9 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -237,8 +237,7 @@ class BoundMatrixOperator:
 
 	def as_dense(self):
 		dense = np.zeros(shape=self.container.shape + self.block_shape)
-		# kernel axes are [entries, column, row]
-		dense[self.container.rows, self.container.columns] = np.swapaxes(self.bound.kernel, -1, -2)
+		dense[self.container.rows, self.container.columns] = self.bound.kernel
 		from einops import rearrange
 		return rearrange(dense, 'r c i j -> (r i) (c j)')
 
-- 
2.43.0


From da0d15ec3ba5e54a7b3910dfd7ad4dc221efc7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 36/39] Revert "fix: ga_sparse.Builder instances no longer
 share their entries"

This reverts commit ecc63ccb05e2dde7bf21080c522537ab815d4f8b.
---
 numga/examples/ga_sparse.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/numga/examples/ga_sparse.py b/numga/examples/ga_sparse.py
index 2e553b9..dd87778 100644
--- a/numga/examples/ga_sparse.py
+++ b/numga/examples/ga_sparse.py
@@ -30,11 +30,7 @@ class AbstractContainer:
 class Builder(AbstractContainer):
 	"""Coordinate Matrix
 	to be used as a construction helper"""
-	entries: List
-
-	def __init__(self, shape, subspace):
-		super().__init__(shape, subspace)
-		self.entries = []   # not shared between builders
+	entries: List = []
 
 	def add(self, r, c, v):
 		assert v.subspace in self.subspace
-- 
2.43.0


From 8b2d6ccff30a51017592cf4860943724ddb8fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 37/39] Revert "fix: RK8 coefficient of the first stage in k_8,
 whose weights have to add up to one"

This reverts commit a68064e7799f8694a779da62eeb3679c67362f7c.
---
 numga/examples/integrators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/examples/integrators.py b/numga/examples/integrators.py
index f70c2aa..69f7eb1 100644
--- a/numga/examples/integrators.py
+++ b/numga/examples/integrators.py
@@ -20,7 +20,7 @@ def RK8(func, y, h):
 	k_5 = func(y + (h / 8) * (k_1 + 3 * k_4))
 	k_6 = func(y + (h / 54) * (13 * k_1 - 27 * k_3 + 42 * k_4 + 8 * k_5))
 	k_7 = func(y + (h / 4320) * (389 * k_1 - 54 * k_3 + 966 * k_4 - 824 * k_5 + 243 * k_6))
-	k_8 = func(y + (h / 20) * (-231 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
+	k_8 = func(y + (h / 20) * (-234 * k_1 + 81 * k_3 - 1164 * k_4 + 656 * k_5 - 122 * k_6 + 800 * k_7))
 	k_9 = func(y + (h / 288) * (-127 * k_1 + 18 * k_3 - 678 * k_4 + 456 * k_5 - 9 * k_6 + 576 * k_7 + 4 * k_8))
 	k_10 = func(y + (h / 820) * (
 			1481 * k_1 - 81 * k_3 + 7104 * k_4 - 3376 * k_5 + 72 * k_6 - 5040 * k_7 - 60 * k_8 + 720 * k_9))
-- 
2.43.0


From 7e623778446aafa2e58a39f2a55b1dd9f57f9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 38/39] fix: generator names that start with another
 generator's name are recognized

---
 numga/algebra/description.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/numga/algebra/description.py b/numga/algebra/description.py
index 84e5ff6..f05ec63 100644
--- a/numga/algebra/description.py
+++ b/numga/algebra/description.py
@@ -116,16 +116,20 @@ class AlgebraDescription:
 
 	def parse_tokens(self, blade_name: str) -> Tuple[int]:
 		"""Given a string like 'yx' parse it into recognized basis tokens"""
-		def parse(d: str) -> int:
-			last = 0
-			for i, c in enumerate(d):
-				substr = blade_name[last:i+1]
-				if substr in self.basis_names:
-					yield self.basis_names.index(substr)
-					last = i + 1
-			if last < len(d):
-				raise Exception(f'Unrecognized blade name {substr}')
-		return tuple(parse(blade_name))
+		names = sorted(enumerate(self.basis_names), key=lambda t: len(t[1]))
+		def parse(d: str):
+			# one name may start with another, such as e1 and e11; try them all
+			if not d:
+				return ()
+			for i, name in names:
+				if name and d.startswith(name):
+					tail = parse(d[len(name):])
+					if tail is not None:
+						return (i,) + tail
+		tokens = parse(blade_name)
+		if tokens is None:
+			raise Exception(f'Unrecognized blade name {blade_name}')
+		return tokens
 
 	@property
 	def zeros(self) -> List[bool]:
-- 
2.43.0


From 0ddef3ce77ed3f53828310da2258035cd7bbe991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 39/39] fix: composing and symmetrizing scaled operators does
 not overflow

---
 numga/operator/operator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 36b8dae..0f1a33d 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -8,10 +8,14 @@ from numga.subspace.subspace import SubSpace
 from numga.operator.sparse_tensor import SparseTensor
 
 
-def widen(kernel):
-	"""Do arithmetic on integer kernels in a type wide enough not to overflow"""
+def extent(kernel):
+	kernel = np.asarray(kernel)
+	return max(float(kernel.max(initial=0)), -float(kernel.min(initial=0)))
+def widen(kernel, growth=None):
+	"""Do arithmetic on integer kernels in a type wide enough not to overflow, when values grow by the given factor"""
 	if isinstance(kernel, np.ndarray) and np.issubdtype(kernel.dtype, np.integer):
-		return kernel.astype(np.int64)
+		if growth is None or extent(kernel) * growth > np.iinfo(kernel.dtype).max:
+			return kernel.astype(np.int64)
 	return kernel
 def compact(kernel):
 	"""Store integer kernels in the smallest signed type that can hold their entries"""
@@ -131,18 +135,18 @@ class Operator:
 
 		import itertools
 		P = list(itertools.permutations(axes, len(axes)))
-		k = sum(np.moveaxis(self.kernel, axes, a) for a in P)
+		k = sum(np.moveaxis(widen(self.kernel, len(P)), axes, a) for a in P)
 		kernel = k // len(P)
 		if not np.all(kernel * len(P) == k):
 			# inherit nonzero pattern without explicit symmetric structure
 			mask = k.any(axis=tuple(range(self.arity)), keepdims=True)
 			kernel = self.kernel * mask
-		return Operator(kernel, self.axes).squeeze()
+		return Operator(compact(kernel), self.axes).squeeze()
 
 	def fuse(self, other: "Operator", axis: int) -> "Operator":
 		"""Fuse to operators; feed output of `self` into nth input argument of `other`"""
 		assert self.output == other.axes[axis]
-		kernel = np.tensordot(self.kernel, other.kernel, axes=(-1, axis))
+		kernel = compact(np.tensordot(widen(self.kernel, extent(other.kernel) * self.kernel.shape[-1]), other.kernel, axes=(-1, axis)))
 		# pull forward input axes of other before `axis`,
 		# so the input axes of self are inserted in the location of 'axis'
 		kernel = np.moveaxis(kernel, range(self.arity, self.arity + axis), range(0, axis))
-- 
2.43.0

