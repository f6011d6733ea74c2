From a6a247898f72bdae48494ba7d4d8b87cad85b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 01/35] fix: Operator.add_broadcast took the sum of subspaces,
 which does not exist, in place of their union

---
 numga/operator/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 7b3c36f..099c4c4 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -82,7 +82,7 @@ class Operator:
 	def add(self, other: "Operator") -> "Operator":
 		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
-		axes = [sa + oa for sa, oa in zip(self.axes, other.axes)]
+		axes = [sa.union(oa) for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
-- 
2.43.0


From 624047c34ecde1e62e0cbc149118199b464d9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 02/35] fix: Operator.deslice raised when one of the axes of
 the operator is an empty subspace

---
 numga/operator/operator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 099c4c4..64fbcda 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -173,7 +173,11 @@ class Operator:
 		import numpy_indexed as npi
 		kernel = np.pad(self.kernel, [(0, 1)]*self.kernel.ndim, 'constant', constant_values=(0, 0))
 		for i, axis in enumerate(axes):
-			idx = npi.indices(self.axes[i].blades, axis.blades, missing=self.kernel.shape[i])
+			if len(self.axes[i]) == 0:
+				# npi.indices does not accept an empty set of keys
+				idx = np.zeros(len(axis), dtype=int)
+			else:
+				idx = npi.indices(self.axes[i].blades, axis.blades, missing=self.kernel.shape[i])
 			kernel = kernel.take(idx, axis=i)
 		return Operator(kernel, tuple(axes))
 
-- 
2.43.0


From 2c21b5c24714a0faa9228721346fc771bc9ed093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 03/35] fix: TorchDenseOperator passed a range to torch.sum,
 which raises, and ignored batch axes

---
 numga/backend/torch/operator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 102ba1d..96989ce 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -106,6 +106,8 @@ class TorchDenseOperator(TorchOperator):
 		super(TorchDenseOperator, self).__init__(*args, **kwargs)
 		# precompute reshape operations
 		self.shapes = self.broadcasting_shapes
+		# contraction over all kernel input axes
+		self.sum_axes = tuple(-(a + 2) for a in range(self.arity))
 
 	def __call__(self, *inputs: Tuple[TorchMultiVector]) -> TorchMultiVector:
 		# kernel, shapes = self.precompute
@@ -113,8 +115,8 @@ class TorchDenseOperator(TorchOperator):
 		kernel = self.context.coerce_array(self.kernel)
 		return self.context.multivector(
 			values=torch.sum(
-				math.prod((i.values.reshape(s) for i, s in zip(inputs, self.shapes)), start=kernel),
-				dim=range(self.arity)
+				math.prod((i.values.reshape(i.shape + s) for i, s in zip(inputs, self.shapes)), start=kernel),
+				dim=self.sum_axes
 			),
 			subspace=self.output
 		)
-- 
2.43.0


From 39c4db577127068ea6eb6665dd0cb445af47c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 04/35] fix: PythonSparseOperator returned one for a scalar
 output without terms, as in v.select[0]

---
 numga/backend/python/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/backend/python/operator.py b/numga/backend/python/operator.py
index 9158664..1f285f8 100644
--- a/numga/backend/python/operator.py
+++ b/numga/backend/python/operator.py
@@ -10,7 +10,8 @@ class PythonSparseOperator(AbstractConcreteOperator):
 
 	def __call__(self, *inputs: Tuple[PythonMultiVector]) -> PythonMultiVector:
 		terms = self.precompute_sparse
-		output = self.context.multivector(self.output)
+		# outputs without any terms are zero
+		output = self.context.multivector(self.output, [0] * len(self.output))
 		for ci, term in terms:
 			output.values[ci] = sum(
 				math.prod((inp.values[ii] for inp, ii in zip(inputs, idx)), start=scalar)
-- 
2.43.0


From 90f31cdc5b947662e19d6a19990d7ff3c9dcca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 05/35] fix: torch backend read a tuple of indices, as in x[1,
 2], as an index array into the first axis

---
 numga/backend/torch/context.py     | 10 ++++++----
 numga/backend/torch/multivector.py | 10 ++++++----
 numga/backend/torch/operator.py    | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index fb2b66c..ce29334 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -23,10 +23,12 @@ class TorchContext(AbstractContext):
 		return torch.zeros(shape, dtype=self.dtype, device=self.device)
 
 	def set_array(self, arr, idx, values):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		# a tuple indexes successive axes; it is not an array of indices
+		if not isinstance(idx, tuple):
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 
 		arr = torch.clone(arr)
 		arr[idx] = values
diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 40003b3..8026c91 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -30,10 +30,12 @@ class TorchMultiVector(AbstractMultiVector):
 
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		# a tuple indexes successive axes; it is not an array of indices
+		if not isinstance(idx, tuple):
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		v = self.values[idx]
 		return self.copy(values=v)
 
diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 96989ce..407ca3a 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -39,10 +39,12 @@ class TorchOperator(AbstractConcreteOperator):
 
 
 	def __getitem__(self, idx):
-		try:
-			idx = torch.asarray(idx)
-		except:
-			pass
+		# a tuple indexes successive axes; it is not an array of indices
+		if not isinstance(idx, tuple):
+			try:
+				idx = torch.asarray(idx)
+			except:
+				pass
 		k = self.kernel[idx]
 		slice = self.copy(self.operator.copy(k))
 		return slice
-- 
2.43.0


From 4361960f625a0fcb55172ebbfb5982c3e07f48eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 06/35] fix: transform applied the grade signs of its argument
 along the axis of the motor

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5174c6e..5efaaaf 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -541,7 +541,7 @@ class OperatorFactory:
 		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
-		return Operator(kernel=S.kernel * sign_mask[None, :, None], axes=S.axes)
+		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
 
 	@cache
 	def inverse_transform(self, R: SubSpace, v: SubSpace) -> Operator:
-- 
2.43.0


From 31b29669714e417a0ad97a47a85f209b3165cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:37 +0000
Subject: [PATCH 07/35] fix: reverse_transform called operators that do not
 exist

---
 numga/multivector/multivector.py | 2 +-
 numga/operator/factory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 793ead4..19461b6 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -195,7 +195,7 @@ class AbstractMultiVector:
 	def transform(self, other):
 		return self.operator.transform(self.subspace, other.subspace)(self, other, self)
 	def reverse_transform(self, other):
-		return self.operator.reverse_transform(self.subspace, other.subspace)(self, other, self)
+		return self.operator.inverse_transform(self.subspace, other.subspace)(self, other, self)
 	def inverse_factor(self):
 		return self.operator.inverse_factor(self.subspace)(self, self, self)
 
diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 5efaaaf..7371f8c 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -538,7 +538,7 @@ class OperatorFactory:
 		That is, transform(R, v) ^ transform(R, u) == transform(R, v ^ u)
 		Note; R is assumed normalized/motorized
 		"""
-		parity = match(R.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
+		parity = match(R.subspace.grades() % 2)  # this throws unless all blades in the subspace have a grade of the same parity
 		S = self.sandwich(R, v)
 		sign_mask = parity_to_sign(v.grades() * parity)
 		return Operator(kernel=S.kernel * sign_mask[None, :, None, None], axes=S.axes)
-- 
2.43.0


From 46c52f6fb5b80d79fcf3d4d79d9979b57c1f781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 08/35] fix: bivector inverse rule for dimensions below six was
 applied in six and up, where it is wrong

---
 numga/multivector/extension/inverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/multivector/extension/inverse.py b/numga/multivector/extension/inverse.py
index f57f5ca..0b26089 100644
--- a/numga/multivector/extension/inverse.py
+++ b/numga/multivector/extension/inverse.py
@@ -89,7 +89,8 @@ def simplify_inverses_register_higher_order(n):
 def register_special_case_5d():
 	# register these two special hand optimized cases for 5d
 	# dont like these single grade cases getting unnecessary zeros otherwise
-	@mv.inverse.register(lambda s: s.inside.bivector())
+	# note that the inverse of a bivector is a bivector only in dimension < 6
+	@mv.inverse.register(lambda s: s.algebra.n_dimensions < 6 and s.inside.bivector())
 	def bivector_inverse_5d(b: BiVector) -> BiVector:
 		return b.bivector_product(-(b.symmetric_reverse_product().inverse()))
 
-- 
2.43.0


From 91bf67a6f5a2d5efd7408e4cb0d364f7609ec706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 09/35] fix: optimized 3d pga exponential returned nan for
 bivectors without rotational part

---
 numga/multivector/extension/optimized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numga/multivector/extension/optimized.py b/numga/multivector/extension/optimized.py
index f2e719f..4316cab 100644
--- a/numga/multivector/extension/optimized.py
+++ b/numga/multivector/extension/optimized.py
@@ -113,7 +113,8 @@ def exponentiate_bivector_numpy(b: "BiVector") -> "Motor":
 	m = xy*zw - xz*yw + yz*xw
 	c = np.cos(a)
 	s = np.where(a > 1e-20, np.sin(a) / a, 1)
-	t = m * (c - s) / l
+	# the limit of (c - s) / l is -1/3, if there is no rotational part
+	t = m * np.where(a > 1e-20, (c - s) / l, -1/3)
 
 	M = np.empty(b.shape + (8,))
 	M[..., 0] = c
-- 
2.43.0


From 345064c65e635c4f5249e93e77d3a4cf1d3f3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 10/35] fix: euclidian_factorization took the dual twice,
 instead of undoing it, which flips the translator in algebras with an odd
 number of negative directions

---
 numga/operator/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 7371f8c..195f954 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -630,7 +630,7 @@ class OperatorFactory:
 		t = (m * ~m.select.rotor()).select.translator()
 		"""
 		op = self.product(m, self.dual(m))
-		return self.dual(op).select_grade(2).symmetry((0, 1))
+		return self.dual_inverse(op).select_grade(2).symmetry((0, 1))
 
 	# # projections according to erik lengyel
 	# @cache
-- 
2.43.0


From 1be7617426b0d88ce70556dda005b63c5c1e02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 11/35] fix: decompose_polar tested for a subspace constructor
 that does not exist, so it never matched any bivector

---
 numga/multivector/extension/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index 3f963dc..c51c573 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -19,7 +19,7 @@ mv.decompose_polar = SubspaceDispatch("""
 	----------
 	PGA4CS eq 68-70
 	""")
-@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().inside.study())
+@mv.decompose_polar.register(lambda s: s.inside.bivector() and s.squared().is_study)
 def decompose_polar(b: BiVector) -> Tuple[BiVector, Study]:
 	# FIXME: special case the b=0 or not s.inv() case?
 	s: Study = b.symmetric_reverse_product().square_root()
-- 
2.43.0


From dfadec42fdb6b2b9dc4ccd83ee3add5f42a77b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 12/35] fix: numpy arrays and scalars left of an operator
 treated the multivector as a sequence, returning an object array in place of
 a multivector

---
 numga/multivector/multivector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numga/multivector/multivector.py b/numga/multivector/multivector.py
index 19461b6..6f055a1 100644
--- a/numga/multivector/multivector.py
+++ b/numga/multivector/multivector.py
@@ -26,6 +26,8 @@ class AbstractMultiVector:
 	# context this multivector belongs to; so it can access operator cache,
 	# and allocate proper output types and all that good stuff
 	context: AbstractContext
+	# let numpy arrays and scalars on the left of an operator defer to the reflected operators below
+	__array_priority__ = 1000
 
 	def __init__(self, context, subspace, values):
 		self.context = context
-- 
2.43.0


From d16f6a79416b2026d4b0a0cf9cb1953fb9e5008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 13/35] fix: copying a torch multivector called a method that
 torch tensors lack

---
 numga/backend/torch/multivector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/numga/backend/torch/multivector.py b/numga/backend/torch/multivector.py
index 8026c91..50f861e 100644
--- a/numga/backend/torch/multivector.py
+++ b/numga/backend/torch/multivector.py
@@ -28,6 +28,10 @@ class TorchMultiVector(AbstractMultiVector):
 			subspace=subspace
 		)
 
+	def copy(self, values=None, subspace=None):
+		# torch tensors spell their copy as clone
+		return super(TorchMultiVector, self).copy(self.values.clone() if values is None else values, subspace)
+
 	def __getitem__(self, idx):
 		# FIXME: torch indexing with ndarray behavior differs!
 		# a tuple indexes successive axes; it is not an array of indices
-- 
2.43.0


From f3142dd86d861a70572e6a01f9ac6e6994f48b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 14/35] fix: cos and sin of a multivector returned a copy of
 it, as no backend implemented them

---
 numga/backend/jax/context.py   | 4 ++++
 numga/backend/numpy/context.py | 4 ++++
 numga/backend/torch/context.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index 7713f72..cbd4c38 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -41,6 +41,10 @@ class JaxContext(AbstractContext):
 
 	def sqrt(self, x):
 		return jnp.sqrt(x)
+	def cos(self, x):
+		return jnp.cos(x)
+	def sin(self, x):
+		return jnp.sin(x)
 	def log(self, x):
 		return jnp.log(x)
 	def exp(self, x):
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index 46a2949..cd7ab2e 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -44,6 +44,10 @@ class NumpyContext(AbstractContext):
 
 	def sqrt(self, x):
 		return np.sqrt(x)
+	def cos(self, x):
+		return np.cos(x)
+	def sin(self, x):
+		return np.sin(x)
 	def log(self, x):
 		return np.log(x)
 	def exp(self, x):
diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index ce29334..1f1f9d5 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -46,6 +46,10 @@ class TorchContext(AbstractContext):
 
 	def sqrt(self, x):
 		return torch.sqrt(x)
+	def cos(self, x):
+		return torch.cos(x)
+	def sin(self, x):
+		return torch.sin(x)
 	def log(self, x):
 		return torch.log(x)
 	def exp(self, x):
-- 
2.43.0


From ce93e5248638ac37fba39b5ced572a686cc10943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 15/35] fix: restrict of a subspace by grades or by another
 subspace selected instead of restricting, and grades given as a number or a
 tuple raised

---
 numga/subspace/namespaces.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/numga/subspace/namespaces.py b/numga/subspace/namespaces.py
index f1f04f7..98feeff 100644
--- a/numga/subspace/namespaces.py
+++ b/numga/subspace/namespaces.py
@@ -53,9 +53,15 @@ class SelectNamespace:
 		else:
 			return lambda *args: self.subspace.select_subspace(subspace(*args))
 
+	def _from_grades(self, item):
+		if isinstance(item, int):
+			item = [item]
+		if isinstance(item, tuple):
+			item = list(item)
+		return self.factory.from_grades(item)
+
 	def __getitem__(self, item):
-		subspace = self.factory.from_grades(item)
-		return self.subspace.select_subspace(subspace)
+		return self.subspace.select_subspace(self._from_grades(item))
 
 	def __call__(self, subspace):
 		return self.subspace.select_subspace(subspace)
@@ -69,3 +75,9 @@ class RestrictNamespace(SelectNamespace):
 			return self.subspace.restrict_subspace(subspace)
 		else:
 			return lambda *args: self.subspace.restrict_subspace(subspace(*args))
+
+	def __getitem__(self, item):
+		return self.subspace.restrict_subspace(self._from_grades(item))
+
+	def __call__(self, subspace):
+		return self.subspace.restrict_subspace(subspace)
-- 
2.43.0


From ba448f6dc3d771aa2ac852f0769f48b3b089c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 16/35] fix: registering a dispatch option left the choices of
 earlier calls in the cache, so that the new option was not considered

---
 numga/dynamic_dispatch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/dynamic_dispatch.py b/numga/dynamic_dispatch.py
index 4f65bc5..8987b4e 100644
--- a/numga/dynamic_dispatch.py
+++ b/numga/dynamic_dispatch.py
@@ -43,6 +43,7 @@ class DynamicDispatch:
 		def wrap(func):
 			"""This wrapper gets called by the @ syntax"""
 			self.options.insert(position, (condition, func))
+			self.cache.clear()      # earlier calls may have matched another option
 			return func
 		return wrap
 
-- 
2.43.0


From e63f1e9cfeeef211271eaf9c1d18df508628f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 17/35] fix: the concrete operator cache mixed up operator
 types that print alike

---
 numga/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/context.py b/numga/context.py
index ebd5526..2c5db23 100644
--- a/numga/context.py
+++ b/numga/context.py
@@ -41,7 +41,7 @@ class ConcreteOperatorFactory:
 			# note: this implies we need a 1-1 match between the operators defined in both
 			# the abstract and concrete operator factories
 			# note that we include the type of operator as well, to cover the case where otype is dynamic
-			params = operator_name, args, str(self.context.otype)
+			params = operator_name, args, self.context.otype
 			try:
 				return self.cache[params]
 			except:
-- 
2.43.0


From ef13cfce4bceaed08756c9d4c21dbfd2eafdc844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 18/35] fix: naming a subspace by basis vectors of more than
 one character raised, as its name was read by character

---
 numga/subspace/factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numga/subspace/factory.py b/numga/subspace/factory.py
index e00c9e3..1fcf72b 100644
--- a/numga/subspace/factory.py
+++ b/numga/subspace/factory.py
@@ -60,10 +60,9 @@ class SubSpaceFactory(FlyweightFactory):
 		"""Attribute subspace construction syntax
 		Example: 'xy_zt' produces a bivector with these two components
 		"""
-		names = self.algebra.description.basis_names
 		basis = self.basis()
 		return self.from_blades(np.array([
-			sum(basis[names.index(b)].blades for b in blade)[0]
+			sum(basis[i].blades for i in self.algebra.description.parse_tokens(blade))[0]
 			for blade in subspace.split('_')
 		]))
 
-- 
2.43.0


From c38c9d21a26194f7a871bb5512c43290cbe6ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 19/35] fix: the transpose of a batch of linear maps raised

---
 numga/backend/numpy/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index 25da505..ffb21ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -93,7 +93,7 @@ class NumpyOperator(AbstractConcreteOperator):
 		return type(self)(
 			self.context,
 			Operator(
-				kernel=np.transpose(self.kernel, (-1, -2)),
+				kernel=np.swapaxes(self.kernel, -1, -2),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From 96aa4d4f3046e15086cee2f059f4ba69951ea9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 20/35] fix: sums and multiples of operators wrapped around at
 eight bits

---
 numga/operator/operator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index 64fbcda..bd32af2 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -80,14 +80,16 @@ class Operator:
 		return self.axes[:-1]
 
 	def add(self, other: "Operator") -> "Operator":
-		return Operator(self.kernel + other.kernel, match((self.axes, other.axes)))
+		# kernels are stored in as little as eight bits; accumulate in a type that does not wrap around
+		dtype = np.result_type(self.kernel, other.kernel, np.int64)
+		return Operator(np.add(self.kernel, other.kernel, dtype=dtype), match((self.axes, other.axes)))
 	def add_broadcast(self, other: "Operator") -> "Operator":
 		axes = [sa.union(oa) for sa, oa in zip(self.axes, other.axes)]
 		return self.deslice(axes) + other.deslice(axes)
 
 	def mul(self, s) -> "Operator":
 		"""Scalar multiplication"""
-		return Operator(self.kernel * s, self.axes)
+		return Operator(np.multiply(self.kernel, s, dtype=np.result_type(self.kernel, s, np.int64)), self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
 		return Operator(self.kernel // s, self.axes)
-- 
2.43.0


From 9f8e36f61e941192ac1beb0a1eaa0f389806c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 21/35] fix: division of an operator by a scalar rounded down

---
 numga/operator/operator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/operator/operator.py b/numga/operator/operator.py
index bd32af2..1474463 100644
--- a/numga/operator/operator.py
+++ b/numga/operator/operator.py
@@ -92,7 +92,11 @@ class Operator:
 		return Operator(np.multiply(self.kernel, s, dtype=np.result_type(self.kernel, s, np.int64)), self.axes)
 	def div(self, s) -> "Operator":
 		"""Scalar division"""
-		return Operator(self.kernel // s, self.axes)
+		kernel = self.kernel // s
+		if not np.all(kernel * s == self.kernel):
+			# only stay with integers as long as they represent the quotient
+			kernel = self.kernel / s
+		return Operator(kernel, self.axes)
 
 	def __add__(self, other):
 		return self.add(other)
-- 
2.43.0


From 2e09e269a5f78aeea9145bb66b09a146f6ed822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 22/35] fix: elementwise power called a function that neither
 numpy nor jax has

---
 numga/backend/jax/context.py   | 2 +-
 numga/backend/numpy/context.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/backend/jax/context.py b/numga/backend/jax/context.py
index cbd4c38..0f4df17 100644
--- a/numga/backend/jax/context.py
+++ b/numga/backend/jax/context.py
@@ -53,7 +53,7 @@ class JaxContext(AbstractContext):
 		return jnp.abs(x)
 
 	def pow(self, x1, x2):
-		return jnp.pow(x1, x2)
+		return jnp.power(x1, x2)
 
 	def min(self, x, **kwargs):
 		return jnp.min(x, **kwargs)
diff --git a/numga/backend/numpy/context.py b/numga/backend/numpy/context.py
index cd7ab2e..b1c9dd8 100644
--- a/numga/backend/numpy/context.py
+++ b/numga/backend/numpy/context.py
@@ -56,7 +56,7 @@ class NumpyContext(AbstractContext):
 		return np.abs(x)
 
 	def pow(self, x1, x2):
-		return np.pow(x1, x2)
+		return np.power(x1, x2)
 
 	def where(self, cond, a, b):
 		return np.where(cond, a, b)
-- 
2.43.0


From 4c60bb6549900e6f22b253697cb143e49d3f3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 23/35] fix: the minimum over an axis was a pair of values and
 indices in torch

---
 numga/backend/torch/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/context.py b/numga/backend/torch/context.py
index 1f1f9d5..40141c1 100644
--- a/numga/backend/torch/context.py
+++ b/numga/backend/torch/context.py
@@ -61,7 +61,7 @@ class TorchContext(AbstractContext):
 		return torch.pow(x1, x2)
 
 	def min(self, x, axis):
-		return torch.min(x, dim=axis)
+		return torch.amin(x, dim=axis)
 	def argmin(self, x, axis):
 		return torch.argmin(x, dim=axis)
 	def all(self, x, axis):
-- 
2.43.0


From c8d14705b46820105d31f727456f3f37a3943a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 24/35] fix: exponentials of degenerate bivectors lost the
 square of the argument, with more than one null vector

---
 numga/multivector/extension/logexp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 93a2c21..01b88cf 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -34,9 +34,10 @@ def empty_exp(e) -> Scalar:
 def scalar_exp(s: Scalar) -> Scalar:
 	"""Vanilla scalar exp"""
 	return s.copy(s.context.exp(s.values))
-@mv.exp.register(lambda s: s.is_degenerate)
+@mv.exp.register(lambda s: s.is_degenerate and s.squared().inside.empty())
 def degenerate_exp(b: BiVector) -> Motor:
-	"""If we know all basis elements square to zero, might as well use that information"""
+	"""If we know the argument squares to zero, might as well use that information.
+	Note that with several null vectors, a sum of degenerate basis elements need not square to zero"""
 	return b + 1
 @mv.exp.register(lambda s: s.inside.bivector)
 def default_exp(b: BiVector) -> "Motor":
-- 
2.43.0


From 4d7225e80ccf5f9ef8a112232494eeb4272e0bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 25/35] fix: translator and rotor did not multiply back to the
 motor, with more than one null vector

---
 numga/multivector/extension/decompose.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/multivector/extension/decompose.py b/numga/multivector/extension/decompose.py
index c51c573..658120e 100644
--- a/numga/multivector/extension/decompose.py
+++ b/numga/multivector/extension/decompose.py
@@ -54,6 +54,10 @@ def rotor_translator(r) -> "Translator":
 	"""Does not have any pure translator; return the identity"""
 	# FIXME: (m>>o)/o).motor_square_root() for some given origin instead?
 	return r.context.multivector.scalar()   # FIXME: broadcasting?
+@mv.motor_translator.register(lambda m: m.inside.motor() and m.algebra.description.pqr[2] > 1)
+def degenerate_translator(m) -> "Translator":
+	"""With several null vectors, the dual no longer singles out the translator; divide out the rotor"""
+	return (m * ~motor_rotor(m)).restrict_subspace(m.context.subspace.scalar_degenerate())
 @mv.motor_translator.register(lambda m: m.inside.motor())
 def motor_translator(m) -> "Translator":
 	"""Should only hit this with degenerate components present"""
@@ -82,7 +86,7 @@ def motor_split_euclidian(m: Motor, o: AntiVector) -> Tuple[Motor, Motor]:
 	In this special case there is a more optimized solution
 	m = t * r
 	"""
-	return motor_translator(m), motor_rotor(m)
+	return m.motor_translator(), m.motor_rotor()
 @mv.motor_split.register(lambda m, o: m.inside.motor() and o.inside.antivector() and o.is_blade)
 def motor_split_blade(m: Motor, o: AntiVector) -> Tuple[Motor, Motor]:
 	"""If the dual of o is a blade, we can also specialize
-- 
2.43.0


From fb376432e1a1a22184dafbaf2099edf5f218f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 26/35] fix: exp silently returned wrong values for arguments
 that are not bivectors

---
 numga/multivector/extension/logexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/logexp.py b/numga/multivector/extension/logexp.py
index 01b88cf..289c200 100644
--- a/numga/multivector/extension/logexp.py
+++ b/numga/multivector/extension/logexp.py
@@ -39,7 +39,7 @@ def degenerate_exp(b: BiVector) -> Motor:
 	"""If we know the argument squares to zero, might as well use that information.
 	Note that with several null vectors, a sum of degenerate basis elements need not square to zero"""
 	return b + 1
-@mv.exp.register(lambda s: s.inside.bivector)
+@mv.exp.register(lambda s: s.inside.bivector())
 def default_exp(b: BiVector) -> "Motor":
 	"""default to numerical brute force"""
 	return b.exp_bisect()
-- 
2.43.0


From c0769c67a5e7b714829e695b39d3ec66f9a0bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 27/35] fix: inverses of trivectors were wrong in dimensions
 where trivectors do not invert to trivectors

---
 numga/multivector/extension/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/multivector/extension/inverse.py b/numga/multivector/extension/inverse.py
index 0b26089..7d7b8b6 100644
--- a/numga/multivector/extension/inverse.py
+++ b/numga/multivector/extension/inverse.py
@@ -94,7 +94,7 @@ def register_special_case_5d():
 	def bivector_inverse_5d(b: BiVector) -> BiVector:
 		return b.bivector_product(-(b.symmetric_reverse_product().inverse()))
 
-	@mv.inverse.register(lambda s: s.inside.trivector())
+	@mv.inverse.register(lambda s: s.algebra.n_dimensions < 6 and s.inside.trivector())
 	def trivector_inverse_5d(t):
 		return t.trivector_product(t.squared().inverse())
 
-- 
2.43.0


From 8bac070725a5b608913eb03f80f46c45b032a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 28/35] fix: inverses of unary operators were truncated to
 integers

---
 numga/operator/factory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numga/operator/factory.py b/numga/operator/factory.py
index 195f954..23b1c80 100644
--- a/numga/operator/factory.py
+++ b/numga/operator/factory.py
@@ -189,7 +189,11 @@ class OperatorFactory:
 	def unary_inverse(self, operator: Operator) -> Operator:
 		"""Generate the inverse `inv` of a unary operator 'op', such that inv(op(x)) == x"""
 		assert operator.arity == 1
-		kernel = np.linalg.inv(operator.kernel).astype(operator.kernel.dtype)
+		kernel = np.linalg.inv(operator.kernel)
+		# only stay with integers as long as they represent the inverse
+		rounded = np.round(kernel)
+		if np.array_equal(operator.kernel @ rounded, np.identity(len(rounded))):
+			kernel = rounded.astype(np.promote_types(operator.kernel.dtype, np.int8))
 		return Operator.build(kernel, operator.axes[::-1])
 
 	@cache
-- 
2.43.0


From d5e8281d577b36eeddd2d38fee40696e3b6012b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 29/35] fix: bit_blades returned the transpose of the array it
 documents

---
 numga/subspace/subspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numga/subspace/subspace.py b/numga/subspace/subspace.py
index 0e0f75d..2a50586 100644
--- a/numga/subspace/subspace.py
+++ b/numga/subspace/subspace.py
@@ -57,9 +57,9 @@ class SubSpace(FlyweightMixin):
 	def bit_blades(self):
 		"""Represent elements array in unpacked bit format, [n_elements, dimensions]"""
 		# np.unpack?
-		return np.rollaxis(
-			np.array(list(biterator(self.blades, self.algebra.n_dimensions))),
-			0
+		return np.stack(
+			list(biterator(self.blades, self.algebra.n_dimensions)),
+			axis=-1
 		)
 	@cached_property
 	def bit_str(self) -> str:
-- 
2.43.0


From ea2c3908f30bff97e2ec876b6d4f107d085746d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 30/35] fix: operators without bound arguments could not be
 inverted in torch

---
 numga/backend/torch/operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/backend/torch/operator.py b/numga/backend/torch/operator.py
index 407ca3a..ded36cb 100644
--- a/numga/backend/torch/operator.py
+++ b/numga/backend/torch/operator.py
@@ -95,7 +95,7 @@ class TorchOperator(AbstractConcreteOperator):
 		return TorchEinsumOperator(
 			self.context,
 			Operator(
-				kernel=self.context.coerce_array(torch.linalg.inv(self.kernel)),
+				kernel=torch.linalg.inv(self.context.coerce_array(self.kernel)),
 				axes=(self.operator.axes[1], self.operator.axes[0]),
 			)
 		)
-- 
2.43.0


From 6d4b1d5125e6b2eda40c0f5cd742bc43e345fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 31/35] fix: sums of sparse tensors grouped by something else
 than the coordinates

---
 numga/operator/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 60c148a..4a8b6ea 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -68,7 +68,7 @@ class SparseTensor:
 		axes = [np.concatenate([sa, oa], axis=0) for sa, oa in zip(self.axes, other.axes)]
 		data = np.concatenate([self.data, other.data], axis=0)
 		# FIXME: this can be optional?
-		axes, data = npi.group_by(axes).sum(data)
+		axes, data = npi.group_by(tuple(axes)).sum(data)
 		# FIXME: filter zeros
 		return SparseTensor(axes, data)
 
-- 
2.43.0


From 85ea621d01a53c710c63338307b90e6664cf3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 32/35] fix: dense forms of sparse tensors were truncated to
 eight bits

---
 numga/operator/sparse_tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 4a8b6ea..33d0c25 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -24,7 +24,7 @@ class SparseTensor:
 	def to_dense(self, axes: Tuple[SubSpace]):
 		# to dense, given a set of coordinate axes as subspaces
 		shape = [len(a) for a in axes]
-		dense = np.zeros(shape, dtype=np.int8)
+		dense = np.zeros(shape, dtype=np.asarray(self.data).dtype)
 		# translate axes to indices
 		idx = (A.to_relative_indices(a) for a, A in zip(self.axes, axes))
 		dense[tuple(idx)] = self.data
@@ -40,7 +40,7 @@ class SparseTensor:
 	def to_dense_(self):
 		# to dense, given a set of coordinate axes as subspaces
 		shape = [np.max(a)+1 for a in self.axes]
-		dense = np.zeros(shape, dtype=np.int8)
+		dense = np.zeros(shape, dtype=np.asarray(self.data).dtype)
 		dense[self.axes] = self.data
 		return dense
 
-- 
2.43.0


From 591f5dbb009a8f02a4e789d4d8c7d75479e4b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 33/35] fix: slices of sparse tensors raised an AttributeError

---
 numga/operator/sparse_tensor.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 33d0c25..9900b08 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -46,15 +46,12 @@ class SparseTensor:
 
 	def take(self, idx, axis):
 		# only keep entries in axis present in idx
-		axes = np.copy(self.axes)
-		flag = npi.contains(idx, axes[:, axis])
-		s = list(self.shape)
-		s[axis] = len(idx)
-		# translate axes[:, axis] to new zero-based range
-		axes = axes[flag]
+		flag = npi.contains(idx, self.axes[axis])
+		axes = [a[flag] for a in self.axes]
+		# translate coordinates along axis to new zero-based range
 		# FIXME: might forego this remap, if downstream code 'gets it'
-		npi.remap(axes[:, axis], idx, np.arange(len(idx)), inplace=True)
-		return SparseTensor(axes, self.data[flag], tuple(s))
+		axes[axis] = npi.indices(idx, axes[axis])
+		return SparseTensor(axes, self.data[flag])
 
 	def transpose(self, t):
 		assert len(t) == len(self.axes)
-- 
2.43.0


From 80141192dc8c58084a484278a1d4f97496b7b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 34/35] fix: tensor products of sparse tensors of different
 rank contracted the wrong axis

---
 numga/operator/sparse_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numga/operator/sparse_tensor.py b/numga/operator/sparse_tensor.py
index 9900b08..0eb4479 100644
--- a/numga/operator/sparse_tensor.py
+++ b/numga/operator/sparse_tensor.py
@@ -75,7 +75,7 @@ class SparseTensor:
 
 	def tensorproduct(self, other, sa, oa):
 		# FIXME: this is inefficient; as per example of two simple vectors; only case about diag terms
-		return self.product(other).contract((sa, len(other.axes)+oa))
+		return self.product(other).contract((sa, len(self.axes)+oa))
 
 	def product(self, other):
 		"""non contracting tensor product"""
-- 
2.43.0


From a120a958f164178b9dc9aade30c4ef5c00c06823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:35 +0000
Subject: [PATCH 35/35] fix: operators with kernels wider than the precision of
 the context could not be applied in numpy

---
 numga/backend/numpy/operator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numga/backend/numpy/operator.py b/numga/backend/numpy/operator.py
index ffb21ef..cb058ef 100644
--- a/numga/backend/numpy/operator.py
+++ b/numga/backend/numpy/operator.py
@@ -126,6 +126,7 @@ class NumpyEinsumOperator(NumpyOperator):
 				self.kernel,
 				*(i.values for i in inputs),
 				out=output.values,
+				casting='same_kind',
 				optimize=True
 			),
 			subspace=self.output,
-- 
2.43.0

