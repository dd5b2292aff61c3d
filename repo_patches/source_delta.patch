From 170a77935e890eab6aa68589e654ee5c1a5cb615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 01/26] fix: zeros_like keeps the mask of the array

---
 pylops_mpi/DistributedArray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 431ddb6..0307825 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -545,6 +545,7 @@ class DistributedArray:
                                partition=self.partition,
                                axis=self.axis,
                                local_shapes=self.local_shapes,
+                               mask=self.mask,
                                engine=self.engine,
                                dtype=self.dtype)
         arr[:] = 0.
-- 
2.43.0


From f7bb7f2398cc31455d5d69032ca21ac74978d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 02/26] fix: dot and norm of replicated arrays work on the
 communicator of the array

A replicated array was scattered over COMM_WORLD whatever its communicator or
mask, and then reduced over the array's own (sub-)communicator.
---
 pylops_mpi/DistributedArray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 0307825..0306877 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -488,9 +488,9 @@ class DistributedArray:
         self._check_mask(dist_array)
 
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
-        y = DistributedArray.to_dist(x=dist_array.local_array) \
+        y = DistributedArray.to_dist(x=dist_array.local_array, base_comm=self.base_comm) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else dist_array
         # Flatten the local arrays and calculate dot product
         return self._allreduce_subcomm(np.dot(x.local_array.flatten(), y.local_array.flatten()))
@@ -563,7 +563,7 @@ class DistributedArray:
             Axis along which vector norm needs to be computed. Defaults to ``-1``
         """
         # Convert to Partition.SCATTER if Partition.BROADCAST
-        x = DistributedArray.to_dist(x=self.local_array) \
+        x = DistributedArray.to_dist(x=self.local_array, base_comm=self.base_comm, mask=self.mask) \
             if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self
         if axis == -1:
             # Flatten the local arrays and calculate norm
-- 
2.43.0


From 81d9bcbfd4b438338296936795d23e56247bce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 03/26] fix: infinity norms of arrays with an empty local share

The ranks without elements raised while the others waited in the reduction.
---
 pylops_mpi/DistributedArray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 0306877..893cc6d 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -523,12 +523,12 @@ class DistributedArray:
             recv_buf = self._allreduce_subcomm(np.count_nonzero(local_array, axis=axis).astype(np.float64))
         elif ord == np.inf:
             # Calculate max followed by max reduction
-            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.max(np.abs(local_array), axis=axis, initial=0).astype(np.float64),
                                                recv_buf, op=MPI.MAX)
             recv_buf = np.squeeze(recv_buf, axis=axis)
         elif ord == -np.inf:
             # Calculate min followed by min reduction
-            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array), axis=axis).astype(np.float64),
+            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),
                                                recv_buf, op=MPI.MIN)
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
-- 
2.43.0


From af0d307668546440d9a3caa3a4fe09378a3c726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 04/26] fix: sums and products of a real and a complex array or
 scalar keep the imaginary part

---
 pylops_mpi/DistributedArray.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 893cc6d..6e4ef14 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -441,7 +441,7 @@ class DistributedArray:
         self._check_mask(dist_array)
         SumArray = DistributedArray(global_shape=self.global_shape,
                                     base_comm=self.base_comm,
-                                    dtype=self.dtype,
+                                    dtype=np.result_type(self.dtype, dist_array.dtype),
                                     partition=self.partition,
                                     local_shapes=self.local_shapes,
                                     mask=self.mask,
@@ -465,9 +465,10 @@ class DistributedArray:
             self._check_partition_shape(dist_array)
             self._check_mask(dist_array)
 
+        dtype = dist_array.dtype if isinstance(dist_array, DistributedArray) else dist_array
         ProductArray = DistributedArray(global_shape=self.global_shape,
                                         base_comm=self.base_comm,
-                                        dtype=self.dtype,
+                                        dtype=np.result_type(self.dtype, dtype),
                                         partition=self.partition,
                                         local_shapes=self.local_shapes,
                                         mask=self.mask,
@@ -772,10 +773,8 @@ class StackedDistributedArray:
 
         """
         self._check_stacked_size(stacked_array)
-        SumArray = self.copy()
-        for iarr in range(self.narrays):
-            SumArray[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
-        return SumArray
+        return StackedDistributedArray([self[iarr] + stacked_array[iarr]
+                                        for iarr in range(self.narrays)])
 
     def iadd(self, stacked_array):
         """Stacked Distributed In-Place Addition of arrays
@@ -790,17 +789,14 @@ class StackedDistributedArray:
         """
         if isinstance(stacked_array, StackedDistributedArray):
             self._check_stacked_size(stacked_array)
-        ProductArray = self.copy()
 
         if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array[iarr])[:]
-        else:
-            # multiply with scalar
-            for iarr in range(self.narrays):
-                ProductArray[iarr][:] = (self[iarr] * stacked_array)[:]
-        return ProductArray
+            return StackedDistributedArray([self[iarr] * stacked_array[iarr]
+                                            for iarr in range(self.narrays)])
+        # multiply with scalar
+        return StackedDistributedArray([self[iarr] * stacked_array
+                                        for iarr in range(self.narrays)])
 
     def dot(self, stacked_array):
         """Dot Product of Stacked Distributed Arrays
-- 
2.43.0


From 0ef1f134c6b327ba59eaf157ef73fe85562cd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 05/26] fix: complex scalings, sums and powers of operators on
 real vectors keep the imaginary part

---
 pylops_mpi/LinearOperator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index a7bc9be..c808827 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -310,13 +310,13 @@ class _ScaledLinearOperator(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
         if y is not None:
-            y[:] *= self.args[1]
+            y = y * self.args[1]
         return y
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].rmatvec(x)
         if y is not None:
-            y[:] *= np.conj(self.args[1])
+            y = y * np.conj(self.args[1])
         return y
 
     def _adjoint(self) -> MPILinearOperator:
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -370,7 +370,7 @@ class _PowerLinearOperator(MPILinearOperator):
     def _power(self, fun: Callable, x: DistributedArray) -> DistributedArray:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res).local_array
+            res = fun(res)
         return res
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
-- 
2.43.0


From 8fc4e16094c7c188aaca7472be0710287199edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 06/26] fix: powers of stacked operators

The slice assignment wrote to a temporary list: the power of any stacked
operator returned its input.
---
 pylops_mpi/StackedLinearOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 2133954..a4d1fd5 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -366,7 +366,7 @@ class _PowerLinearOperator(MPIStackedLinearOperator):
     def _power(self, fun: Callable, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         res = x.copy()
         for _ in range(self.args[1]):
-            res[:] = fun(res)[:]
+            res = fun(res)
         return res
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
-- 
2.43.0


From 32c3612b3cb1c5a6a91f05aa52903bd088e7f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 07/26] fix: differences and scaled sums of stacked operators

---
 pylops_mpi/StackedLinearOperator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index a4d1fd5..8c15092 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -326,12 +326,18 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
     def __init__(self, A: MPIStackedLinearOperator, B: MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator) or not isinstance(B, MPIStackedLinearOperator):
             raise ValueError('both operands have to be a MPIStackedLinearOperator')
-        if type(A) != type(B):  # noqa: E721
+        # a scaled operator has the type of what it scales (A - B is A + (-1) * B)
+        types = []
+        for Op in (A, B):
+            while isinstance(Op, _ScaledStackedLinearOperator):
+                Op = Op.args[0]
+            types.append(type(Op))
+        if types[0] is not types[1]:
             raise ValueError(f'both operands have to be of same type, {A} != {B}')
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
-- 
2.43.0


From 47d68b91402f668604626692d5f800ea02aac62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 08/26] fix: CGLS damps with epsilon**2 from the start, and
 r1norm is the norm of the residual

The setup used epsilon instead of its square when x0 is not zero; r1norm was the
squared norm of the gradient instead of what is documented.
---
 pylops_mpi/optimization/cls_basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index db7349a..34a1884 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -337,7 +337,7 @@ class CGLS(Solver):
 
         x = x0.copy()
         self.s = self.y - self.Op.matvec(x)
-        damped_x = x * damp
+        damped_x = x * self.damp
         r = self.Op.rmatvec(self.s) - damped_x
         self.rank = x.rank
         self.c = r.copy()
@@ -348,7 +348,7 @@ class CGLS(Solver):
         self.cost = []
         self.cost1 = []
         self.cost.append(float(self.s.norm()))
-        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + damp * np.abs(x.dot(x.conj())))))
+        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + self.damp * np.abs(x.dot(x.conj())))))
         self.iiter = 0
 
         # print setup
@@ -454,7 +454,7 @@ class CGLS(Solver):
         self.telapsed = self.tend - self.tstart
         # reason for termination
         self.istop = 1 if self.kold < self.tol else 2
-        self.r1norm = self.kold
+        self.r1norm = self.cost[self.iiter]
         self.r2norm = self.cost1[self.iiter]
         if show and self.rank == 0:
             self._print_finalize(nbar=65)
-- 
2.43.0


From cfe70d0a421ac377398b6fe167e75b7787e50af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 09/26] fix: MPIFredholm1 rejects slices of size 1 on all ranks

Only rank 0 raised; the others went on to a collective call and hung.
---
 pylops_mpi/signalprocessing/Fredholm1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3b8a9ef..53dce6e 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -87,7 +87,7 @@ class MPIFredholm1(MPILinearOperator):
         self.nz = nz
         self.nsl, self.nx, self.ny = G.shape
         self.nsls = base_comm.allgather(self.nsl)
-        if base_comm.Get_rank() == 0 and 1 in self.nsls:
+        if 1 in self.nsls:
             raise NotImplementedError(f'All ranks must have at least 2 or more '
                                       f'elements in the first dimension: '
                                       f'local split is instead {self.nsls}...')
-- 
2.43.0


From b83b862b590d2285fdd083b820ed4c041e228edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 10/26] fix: MPIFredholm1 with kernels of a single row or
 column

Squeezing the vectors dropped the axes of size 1 which the products need.
---
 pylops_mpi/signalprocessing/Fredholm1.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 53dce6e..3513de2 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -113,15 +113,13 @@ class MPIFredholm1(MPILinearOperator):
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dims).squeeze()
+        x = x.local_array.reshape(self.dims)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             y1 = ncp.matmul(self.G, x)
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.nx, self.nz), dtype=self.dtype)
             for isl in range(self.nsls[self.rank]):
                 y1[isl] = ncp.dot(self.G[isl], x[isl])
         # gather results
@@ -135,12 +133,10 @@ class MPIFredholm1(MPILinearOperator):
                              f"Got  {x.partition} instead...")
         y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
-        x = x.local_array.reshape(self.dimsd).squeeze()
+        x = x.local_array.reshape(self.dimsd)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
         # apply matmul for portion of the rank of interest
         if self.usematmul:
-            if self.nz == 1:
-                x = x[..., ncp.newaxis]
             if hasattr(self, "GT"):
                 y1 = ncp.matmul(self.GT, x)
             else:
@@ -150,7 +146,7 @@ class MPIFredholm1(MPILinearOperator):
                     .conj()
                 )
         else:
-            y1 = ncp.squeeze(ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype))
+            y1 = ncp.zeros((self.nsls[self.rank], self.ny, self.nz), dtype=self.dtype)
             if hasattr(self, "GT"):
                 for isl in range(self.nsls[self.rank]):
                     y1[isl] = ncp.dot(self.GT[isl], x[isl])
-- 
2.43.0


From e16e76f796d72227e72212d651fed672fded3c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 11/26] fix: arrays and operators stay on their communicator

Results, intermediate arrays and derived operators were created on COMM_WORLD
whatever base_comm they were built with: on a sub-communicator they raised or hung.
---
 pylops_mpi/DistributedArray.py                | 11 +++++-----
 pylops_mpi/LinearOperator.py                  | 12 +++++------
 pylops_mpi/StackedLinearOperator.py           | 12 +++++------
 pylops_mpi/basicoperators/BlockDiag.py        |  8 ++++----
 pylops_mpi/basicoperators/FirstDerivative.py  | 20 +++++++++----------
 pylops_mpi/basicoperators/Gradient.py         |  5 +++--
 pylops_mpi/basicoperators/Laplacian.py        |  8 ++++++--
 pylops_mpi/basicoperators/SecondDerivative.py | 17 ++++++++--------
 pylops_mpi/basicoperators/VStack.py           |  6 +++---
 pylops_mpi/signalprocessing/Fredholm1.py      |  4 ++--
 pylops_mpi/utils/decorators.py                |  1 +
 pylops_mpi/waveeqprocessing/MDC.py            | 12 +++++++----
 12 files changed, 64 insertions(+), 52 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 6e4ef14..76b3fc9 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -618,6 +618,7 @@ class DistributedArray:
         """
         local_shapes = [(np.prod(local_shape, axis=-1), ) for local_shape in self.local_shapes]
         arr = DistributedArray(global_shape=np.prod(self.global_shape),
+                               base_comm=self.base_comm,
                                local_shapes=local_shapes,
                                mask=self.mask,
                                partition=self.partition,
@@ -774,7 +775,7 @@ class StackedDistributedArray:
         """
         self._check_stacked_size(stacked_array)
         return StackedDistributedArray([self[iarr] + stacked_array[iarr]
-                                        for iarr in range(self.narrays)])
+                                        for iarr in range(self.narrays)], self.base_comm)
 
     def iadd(self, stacked_array):
         """Stacked Distributed In-Place Addition of arrays
@@ -793,10 +794,10 @@ class StackedDistributedArray:
         if isinstance(stacked_array, StackedDistributedArray):
             # multiply two DistributedArray
             return StackedDistributedArray([self[iarr] * stacked_array[iarr]
-                                            for iarr in range(self.narrays)])
+                                            for iarr in range(self.narrays)], self.base_comm)
         # multiply with scalar
         return StackedDistributedArray([self[iarr] * stacked_array
-                                        for iarr in range(self.narrays)])
+                                        for iarr in range(self.narrays)], self.base_comm)
 
     def dot(self, stacked_array):
         """Dot Product of Stacked Distributed Arrays
@@ -836,13 +837,13 @@ class StackedDistributedArray:
     def conj(self):
         """Distributed conj() method
         """
-        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays])
+        ConjArray = StackedDistributedArray([distarray.conj() for distarray in self.distarrays], self.base_comm)
         return ConjArray
 
     def copy(self):
         """Creates a copy of the DistributedArray
         """
-        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays])
+        arr = StackedDistributedArray([distarray.copy() for distarray in self.distarrays], self.base_comm)
         return arr
 
     def __repr__(self):
diff --git a/pylops_mpi/LinearOperator.py b/pylops_mpi/LinearOperator.py
index c808827..b09cdda 100644
--- a/pylops_mpi/LinearOperator.py
+++ b/pylops_mpi/LinearOperator.py
@@ -240,7 +240,7 @@ class _AdjointLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.A.rmatvec(x)
@@ -256,7 +256,7 @@ class _TransposedLinearOperator(MPILinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
@@ -281,7 +281,7 @@ class _ProductLinearOperator(MPILinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -305,7 +305,7 @@ class _ScaledLinearOperator(MPILinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         y = self.args[0].matvec(x)
@@ -335,7 +335,7 @@ class _SumLinearOperator(MPILinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         arr1 = self.args[0].matvec(x)
@@ -388,7 +388,7 @@ class _ConjLinearOperator(MPILinearOperator):
         if not isinstance(A, MPILinearOperator):
             raise TypeError('A must be a MPILinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         x = x.conj()
diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index 8c15092..b1e36a7 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -230,7 +230,7 @@ class _AdjointStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         return self.A.rmatvec(x)
@@ -246,7 +246,7 @@ class _TransposedStackedLinearOperator(MPIStackedLinearOperator):
         self.A = A
         self.args = (A,)
         super().__init__(shape=(A.shape[1], A.shape[0]), dtype=A.dtype,
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
@@ -276,7 +276,7 @@ class _ProductStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('cannot multiply %r and %r: shape mismatch' % (A, B))
         self.args = (A, B)
         super().__init__(shape=(A.shape[0], B.shape[1]), dtype=_get_dtype([A, B]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[StackedDistributedArray, DistributedArray]) -> Union[StackedDistributedArray, DistributedArray]:
         return self.args[0].matvec(self.args[1].matvec(x))
@@ -300,7 +300,7 @@ class _ScaledStackedLinearOperator(MPIStackedLinearOperator):
             raise ValueError('scalar expected as alpha')
         self.args = (A, alpha)
         super().__init__(shape=A.shape, dtype=_get_dtype([A], [type(alpha)]),
-                         base_comm=MPI.COMM_WORLD)
+                         base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         y = self.args[0].matvec(x)
@@ -337,7 +337,7 @@ class _SumStackedLinearOperator(MPIStackedLinearOperator):
         if A.shape != B.shape:
             raise ValueError("cannot add %r and %r: shape mismatch" % (A, B))
         self.args = (A, B)
-        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=_get_dtype([A, B]), base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         arr1 = self.args[0].matvec(x)
@@ -390,7 +390,7 @@ class _ConjLinearOperator(MPIStackedLinearOperator):
         if not isinstance(A, MPIStackedLinearOperator):
             raise TypeError('A must be a MPIStackedLinearOperator')
         self.A = A
-        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=MPI.COMM_WORLD)
+        super().__init__(shape=A.shape, dtype=A.dtype, base_comm=A.base_comm)
 
     def _matvec(self, x: Union[DistributedArray, StackedDistributedArray]) -> Union[DistributedArray, StackedDistributedArray]:
         x = x.conj()
diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 2851110..7057d14 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -121,7 +121,7 @@ class MPIBlockDiag(MPILinearOperator):
     @reshaped(forward=True, stacking=True)
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=self.base_comm, local_shapes=self.local_shapes_n,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -133,7 +133,7 @@ class MPIBlockDiag(MPILinearOperator):
     @reshaped(forward=False, stacking=True)
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[1], local_shapes=self.local_shapes_m,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=self.base_comm, local_shapes=self.local_shapes_m,
                              mask=self.mask, engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -178,10 +178,10 @@ class MPIStackedBlockDiag(MPIStackedLinearOperator):
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.matvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, self.base_comm)
 
     def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.rmatvec(xx))
-        return StackedDistributedArray(y1)
+        return StackedDistributedArray(y1, self.base_comm)
diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 5adbe28..2fa1797 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -129,19 +129,19 @@ class MPIFirstDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=1)
         y_forward = ghosted_x[1:] - ghosted_x[:-1]
@@ -153,7 +153,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
@@ -171,7 +171,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_backward = ghosted_x[1:] - ghosted_x[:-1]
@@ -183,7 +183,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=1)
@@ -201,7 +201,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = 0.5 * (ghosted_x[2:] - ghosted_x[:-2])
@@ -221,7 +221,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered3(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
 
@@ -249,7 +249,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2, cells_back=2)
         y_centered = (
@@ -276,7 +276,7 @@ class MPIFirstDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered5(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=4)
diff --git a/pylops_mpi/basicoperators/Gradient.py b/pylops_mpi/basicoperators/Gradient.py
index 89fd5af..ef52750 100644
--- a/pylops_mpi/basicoperators/Gradient.py
+++ b/pylops_mpi/basicoperators/Gradient.py
@@ -103,6 +103,7 @@ class MPIGradient(MPIStackedLinearOperator):
         grad_ops = []
         Op1 = MPIFirstDerivative(dims=self.dims, sampling=self.sampling[0],
                                  kind=self.kind, edge=self.edge,
+                                 base_comm=self.base_comm,
                                  dtype=self.dtype)
         grad_ops.append(Op1)
         for iax in range(1, ndims):
@@ -114,6 +115,6 @@ class MPIGradient(MPIStackedLinearOperator):
                     edge=self.edge,
                     kind=self.kind,
                     dtype=self.dtype)
-            ])
+            ], base_comm=self.base_comm)
             grad_ops.append(diag)
-        return MPIStackedVStack(ops=grad_ops)
+        return MPIStackedVStack(ops=grad_ops, base_comm=self.base_comm)
diff --git a/pylops_mpi/basicoperators/Laplacian.py b/pylops_mpi/basicoperators/Laplacian.py
index 7cc482e..b5ea18e 100644
--- a/pylops_mpi/basicoperators/Laplacian.py
+++ b/pylops_mpi/basicoperators/Laplacian.py
@@ -101,6 +101,7 @@ class MPILaplacian(MPILinearOperator):
                                                          sampling=self.sampling[0],
                                                          kind=self.kind,
                                                          edge=self.edge,
+                                                         base_comm=self.base_comm,
                                                          dtype=self.dtype)
         else:
             l2op = self.weights[0] * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
@@ -108,17 +109,20 @@ class MPILaplacian(MPILinearOperator):
                                                                         sampling=self.sampling[0],
                                                                         kind=self.kind,
                                                                         edge=self.edge,
-                                                                        dtype=self.dtype)])
+                                                                        dtype=self.dtype)],
+                                                    base_comm=self.base_comm)
         for ax, samp, weight in zip(self.axes[1:], self.sampling[1:], self.weights[1:]):
             if ax == 0:
                 l2op += weight * MPISecondDerivative(dims=self.dims,
                                                      sampling=samp,
                                                      edge=self.edge,
+                                                     base_comm=self.base_comm,
                                                      dtype=self.dtype)
             else:
                 l2op += weight * MPIBlockDiag(ops=[SecondDerivative(dims=local_dims,
                                                                     axis=ax,
                                                                     sampling=samp,
                                                                     edge=self.edge,
-                                                                    dtype=self.dtype)])
+                                                                    dtype=self.dtype)],
+                                                base_comm=self.base_comm)
         return l2op
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 6c4fb96..0cbfa67 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -112,19 +112,19 @@ class MPISecondDerivative(MPILinearOperator):
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
-            x = DistributedArray.to_dist(x=x.local_array)
+            x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hrmatvec(x)
 
     @reshaped
     def _matvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_back=2)
         y_forward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -136,7 +136,8 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_forward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes, axis=x.axis, dtype=self.dtype)
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
+                             axis=x.axis, dtype=self.dtype)
         y[:] = 0
         if self.rank == self.size - 1:
             y[:-2] += x[:-2]
@@ -162,7 +163,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=2)
         y_backward = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -174,7 +175,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_backward(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
@@ -201,7 +202,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _matvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_centered = ghosted_x[2:] - 2 * ghosted_x[1:-1] + ghosted_x[:-2]
@@ -221,7 +222,7 @@ class MPISecondDerivative(MPILinearOperator):
     @reshaped
     def _rmatvec_centered(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=x.global_shape, local_shapes=x.local_shapes,
+        y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
         ghosted_x = x.add_ghost_cells(cells_back=2)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index f869a9a..96be7dc 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -121,7 +121,7 @@ class MPIVStack(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[0], local_shapes=self.local_shapes_n,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=self.base_comm, local_shapes=self.local_shapes_n,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -132,7 +132,7 @@ class MPIVStack(MPILinearOperator):
     @reshaped(forward=False, stacking=True)
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
         ncp = get_module(x.engine)
-        y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=self.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         y1 = []
         for iop, oper in enumerate(self.ops):
@@ -184,7 +184,7 @@ class MPIStackedVStack(MPIStackedLinearOperator):
         y1 = []
         for oper in self.ops:
             y1.append(oper.matvec(x))
-        y = StackedDistributedArray(y1)
+        y = StackedDistributedArray(y1, self.base_comm)
         return y
 
     def _rmatvec(self, x: StackedDistributedArray) -> DistributedArray:
diff --git a/pylops_mpi/signalprocessing/Fredholm1.py b/pylops_mpi/signalprocessing/Fredholm1.py
index 3513de2..267f9ea 100644
--- a/pylops_mpi/signalprocessing/Fredholm1.py
+++ b/pylops_mpi/signalprocessing/Fredholm1.py
@@ -111,7 +111,7 @@ class MPIFredholm1(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[0], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[0], base_comm=self.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dims)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
@@ -131,7 +131,7 @@ class MPIFredholm1(MPILinearOperator):
         if x.partition not in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST]:
             raise ValueError(f"x should have partition={Partition.BROADCAST},{Partition.UNSAFE_BROADCAST}"
                              f"Got  {x.partition} instead...")
-        y = DistributedArray(global_shape=self.shape[1], partition=Partition.BROADCAST,
+        y = DistributedArray(global_shape=self.shape[1], base_comm=self.base_comm, partition=Partition.BROADCAST,
                              engine=x.engine, dtype=self.dtype)
         x = x.local_array.reshape(self.dimsd)
         x = x[self.islstart[self.rank]:self.islend[self.rank]]
diff --git a/pylops_mpi/utils/decorators.py b/pylops_mpi/utils/decorators.py
index 457b559..b4a869d 100644
--- a/pylops_mpi/utils/decorators.py
+++ b/pylops_mpi/utils/decorators.py
@@ -54,6 +54,7 @@ def reshaped(
                 local_shapes = None
                 global_shape = getattr(self, "dims")
             arr = DistributedArray(global_shape=global_shape,
+                                   base_comm=x.base_comm,
                                    local_shapes=local_shapes, axis=0,
                                    engine=x.engine, dtype=x.dtype)
             arr_local_shapes = np.asarray(arr.base_comm.allgather(np.prod(arr.local_shape)))
diff --git a/pylops_mpi/waveeqprocessing/MDC.py b/pylops_mpi/waveeqprocessing/MDC.py
index 18980bf..4cf1a21 100644
--- a/pylops_mpi/waveeqprocessing/MDC.py
+++ b/pylops_mpi/waveeqprocessing/MDC.py
@@ -53,15 +53,19 @@ def _MDC(G, nt, nv, nfmax, dt=1., dr=1., twosided=True,
         logging.warning('nfmax set equal to ceil[(nt+1)/2=%d]' % nfmax)
 
     Fop = MPILinearOperator(_FFT(dims=(nt, nr, nv), axis=0, real=True,
-                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT))
+                                 ifftshift_before=twosided, dtype=rdtype, **args_FFT),
+                            base_comm=base_comm)
     F1op = MPILinearOperator(_FFT(dims=(nt, ns, nv), axis=0, real=True,
-                                  ifftshift_before=False, dtype=rdtype, **args_FFT1))
+                                  ifftshift_before=False, dtype=rdtype, **args_FFT1),
+                             base_comm=base_comm)
 
     # create Identity operator to extract only relevant frequencies
     Iop = MPILinearOperator(_Identity(N=nfmax * nr * nv, M=nfft * nr * nv,
-                                      inplace=True, dtype=dtype, **args_Identity))
+                                      inplace=True, dtype=dtype, **args_Identity),
+                            base_comm=base_comm)
     I1op = MPILinearOperator(_Identity(N=nfmax * ns * nv, M=nfft * ns * nv,
-                                       inplace=True, dtype=dtype, **args_Identity1))
+                                       inplace=True, dtype=dtype, **args_Identity1),
+                             base_comm=base_comm)
     F1opH = F1op.H
     I1opH = I1op.H
 
-- 
2.43.0


From 9e4da31d6c6a7034c529c10740dd40ba07034201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 12/26] fix: wrong local shapes are rejected on all ranks

Only the rank whose own shape is wrong raised; the others hung in the next collective call.
---
 pylops_mpi/DistributedArray.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 76b3fc9..56ff69c 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -360,14 +360,16 @@ class DistributedArray:
                 raise ValueError(f"Length of local shapes is not equal to number of processes; "
                                  f"{len(local_shapes)} != {self.size}")
             # Check if local shape == global shape
-            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] and local_shapes[self.rank] != self.global_shape:
-                raise ValueError(f"Local shape is not equal to global shape at rank = {self.rank};"
-                                 f"{local_shapes[self.rank]} != {self.global_shape}")
+            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] and \
+                    any(lshape != self.global_shape for lshape in local_shapes):
+                raise ValueError(f"Local shapes are not equal to global shape;"
+                                 f"{local_shapes} != {self.global_shape}")
             elif self.partition is Partition.SCATTER:
                 local_shape = local_shapes[self.rank]
+                other_dims = np.delete(self.global_shape, self.axis)
                 # Check if local shape sum up to global shape and other dimensions align with global shape
                 if self._allreduce(local_shape[self.axis]) != self.global_shape[self.axis] or \
-                        not np.array_equal(np.delete(local_shape, self.axis), np.delete(self.global_shape, self.axis)):
+                        any(not np.array_equal(np.delete(lshape, self.axis), other_dims) for lshape in local_shapes):
                     raise ValueError(f"Local shapes don't align with the global shape;"
                                      f"{local_shapes} != {self.global_shape}")
 
-- 
2.43.0


From 69508193b52d3df4363fdedb04780173cb0a3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 13/26] fix: operands of different shapes are rejected on all
 ranks

Only the ranks where the local shapes differ raised; the others hung in the next
collective call. Operands of different global shapes were accepted when their
local shapes happened to be the same.
---
 pylops_mpi/DistributedArray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index 56ff69c..ec90bc9 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -378,7 +378,9 @@ class DistributedArray:
         """
         if self.partition != dist_array.partition:
             raise ValueError("Partition of both the arrays must be same")
-        if self.local_shape != dist_array.local_shape:
+        # all ranks have to agree, or some would raise and the others hang in the next collective call
+        if self.global_shape != dist_array.global_shape or \
+                self.base_comm.allreduce(self.local_shape != dist_array.local_shape, MPI.LOR):
             raise ValueError(f"Local Array Shape Mismatch - "
                              f"{self.local_shape} != {dist_array.local_shape}")
 
-- 
2.43.0


From fab9e3f80e1478d11eb81223e154809dddba33d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 14/26] fix: ghost cells which a rank does not have are
 rejected on all ranks

The rank without enough cells raised, while its neighbour waited for them for ever.
---
 pylops_mpi/DistributedArray.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index ec90bc9..eb0d580 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -656,31 +656,21 @@ class DistributedArray:
         ghosted_array = self.local_array.copy()
         if cells_front is not None:
             total_cells_front = self.base_comm.allgather(cells_front) + [0]
+            self._check_ghost_cells(total_cells_front[1:])
             # Read cells_front which needs to be sent to rank + 1(cells_front for rank + 1)
             cells_front = total_cells_front[self.rank + 1]
             if self.rank != 0:
                 ghosted_array = np.concatenate([self.base_comm.recv(source=self.rank - 1, tag=1), ghosted_array],
                                                axis=self.axis)
             if self.rank != self.size - 1:
-                if cells_front > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_front}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_front}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_front)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(-cells_front, 0), axis=self.axis),
                                     dest=self.rank + 1, tag=1)
         if cells_back is not None:
             total_cells_back = self.base_comm.allgather(cells_back) + [0]
+            self._check_ghost_cells([0] + total_cells_back[:-2])
             # Read cells_back which needs to be sent to rank - 1(cells_back for rank - 1)
             cells_back = total_cells_back[self.rank - 1]
             if self.rank != 0:
-                if cells_back > self.local_shape[self.axis]:
-                    raise ValueError(f"Local Shape at rank={self.rank} along axis={self.axis} "
-                                     f"should be > {cells_back}: dim({self.axis}) "
-                                     f"{self.local_shape[self.axis]} < {cells_back}; "
-                                     f"to achieve this use NUM_PROCESSES <= "
-                                     f"{max(1, self.global_shape[self.axis] // cells_back)}")
                 self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),
                                     dest=self.rank - 1, tag=0)
             if self.rank != self.size - 1:
@@ -688,6 +678,18 @@ class DistributedArray:
                                           axis=self.axis)
         return ghosted_array
 
+    def _check_ghost_cells(self, cells):
+        """Check that each rank has the number of cells it sends (all ranks
+        check all of them, so that either all raise or none)
+        """
+        for rank, dim in enumerate(self.base_comm.allgather(self.local_shape[self.axis])):
+            if cells[rank] > dim:
+                raise ValueError(f"Local Shape at rank={rank} along axis={self.axis} "
+                                 f"should be > {cells[rank]}: dim({self.axis}) "
+                                 f"{dim} < {cells[rank]}; "
+                                 f"to achieve this use NUM_PROCESSES <= "
+                                 f"{max(1, self.global_shape[self.axis] // cells[rank])}")
+
     def __repr__(self):
         return f"<DistributedArray with global shape={self.global_shape}, " \
                f"local shape={self.local_shape}" \
-- 
2.43.0


From 5279d1721f7f823934b406497341e26f4a5a7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 15/26] fix: adjoint of the forward derivatives when the last
 rank has few rows

The last rows of the global array have no stencil; only those on the last rank
were left out, so the adjoint was wrong when that rank has fewer of them.
---
 pylops_mpi/basicoperators/FirstDerivative.py  | 7 +++----
 pylops_mpi/basicoperators/SecondDerivative.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 2fa1797..70dbaba 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -156,10 +156,9 @@ class MPIFirstDerivative(MPILinearOperator):
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, engine=x.engine, dtype=self.dtype)
         y[:] = 0
-        if self.rank == self.size - 1:
-            y[:-1] -= x[:-1]
-        else:
-            y[:] -= x[:]
+        # all but the last row of the global array, which may not be on the last rank
+        nrows = max(0, x.local_shape[0] - max(0, 1 - sum(s[0] for s in x.local_shapes[self.rank + 1:])))
+        y[:nrows] -= x[:nrows]
         ghosted_x = x.add_ghost_cells(cells_front=1)
         y_forward = ghosted_x[:-1]
         if self.rank == 0:
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 0cbfa67..365b23d 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -139,10 +139,9 @@ class MPISecondDerivative(MPILinearOperator):
         y = DistributedArray(global_shape=x.global_shape, base_comm=x.base_comm, local_shapes=x.local_shapes,
                              axis=x.axis, dtype=self.dtype)
         y[:] = 0
-        if self.rank == self.size - 1:
-            y[:-2] += x[:-2]
-        else:
-            y[:] += x[:]
+        # all but the last two rows of the global array, which may not all be on the last rank
+        nrows = max(0, x.local_shape[0] - max(0, 2 - sum(s[0] for s in x.local_shapes[self.rank + 1:])))
+        y[:nrows] += x[:nrows]
 
         ghosted_x = x.add_ghost_cells(cells_front=1, cells_back=1)
         y_forward = ghosted_x[:-2]
-- 
2.43.0


From db96b78c271c9d8fb7df22eb46ef9e9c716977de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 16/26] fix: derivatives with edge=True reject too small arrays
 on all ranks

The first or last rank raised an IndexError when its share has too few rows for
the edge stencil, and the others hung in the next collective call.
---
 pylops_mpi/basicoperators/FirstDerivative.py  | 10 ++++++++++
 pylops_mpi/basicoperators/SecondDerivative.py | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 70dbaba..772fb2c 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -126,13 +126,23 @@ class MPIFirstDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered', or 'backward'"
             )
 
+    def _check_edge(self) -> None:
+        # the edge stencils are computed by the first and the last rank from their own rows;
+        # checked by all ranks, so that either all raise or none
+        rows = self.dims[0] // self.size
+        if self.kind == "centered" and self.edge and rows < self.order // 2 + 1:
+            raise ValueError(f"edge=True requires at least {self.order // 2 + 1} rows on the last rank, got {rows}; "
+                             f"to achieve this use NUM_PROCESSES <= {max(1, self.dims[0] // (self.order // 2 + 1))}")
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
+        self._check_edge()
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
             x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
+        self._check_edge()
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
             x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
diff --git a/pylops_mpi/basicoperators/SecondDerivative.py b/pylops_mpi/basicoperators/SecondDerivative.py
index 365b23d..f2c1740 100644
--- a/pylops_mpi/basicoperators/SecondDerivative.py
+++ b/pylops_mpi/basicoperators/SecondDerivative.py
@@ -109,13 +109,23 @@ class MPISecondDerivative(MPILinearOperator):
                 "'kind' must be 'forward', 'centered' or 'backward'"
             )
 
+    def _check_edge(self) -> None:
+        # the edge stencils are computed by the first and the last rank from their own rows;
+        # checked by all ranks, so that either all raise or none
+        rows = self.dims[0] // self.size
+        if self.kind == "centered" and self.edge and rows < 3:
+            raise ValueError(f"edge=True requires at least {3} rows on the last rank, got {rows}; "
+                             f"to achieve this use NUM_PROCESSES <= {max(1, self.dims[0] // (3))}")
+
     def _matvec(self, x: DistributedArray) -> DistributedArray:
+        self._check_edge()
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
             x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
         return self._hmatvec(x)
 
     def _rmatvec(self, x: DistributedArray) -> DistributedArray:
+        self._check_edge()
         # If Partition.BROADCAST, then convert to Partition.SCATTER
         if x.partition is Partition.BROADCAST:
             x = DistributedArray.to_dist(x=x.local_array, base_comm=x.base_comm)
-- 
2.43.0


From c9b94f9a43024aeb3fa494993ce8d628d650eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 17/26] fix: norms of fractional order of arrays with negative
 elements

The absolute value was taken after the power, of NaNs.
---
 pylops_mpi/DistributedArray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index eb0d580..f0675cc 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -538,7 +538,7 @@ class DistributedArray:
             recv_buf = np.squeeze(recv_buf, axis=axis)
 
         else:
-            recv_buf = self._allreduce_subcomm(np.sum(np.abs(np.float_power(local_array, ord)), axis=axis))
+            recv_buf = self._allreduce_subcomm(np.sum(np.float_power(np.abs(local_array), ord), axis=axis))
             recv_buf = np.power(recv_buf, 1. / ord)
         return recv_buf
 
-- 
2.43.0


From d17a8f7290fdd3d25a665c7b7c8756816b83886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 18/26] fix: stacks of operators have the element type of the
 operators of all ranks

---
 pylops_mpi/basicoperators/BlockDiag.py | 3 ++-
 pylops_mpi/basicoperators/VStack.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 7057d14..adedfba 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -115,7 +115,8 @@ class MPIBlockDiag(MPILinearOperator):
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         self.mmops = np.insert(np.cumsum(mops), 0, 0)
         shape = (base_comm.allreduce(self.nops), base_comm.allreduce(self.mops))
-        dtype = _get_dtype(ops) if dtype is None else np.dtype(dtype)
+        # the operators of all ranks define the type, which is the same at all ranks
+        dtype = np.result_type(*base_comm.allgather(_get_dtype(ops))) if dtype is None else np.dtype(dtype)
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     @reshaped(forward=True, stacking=True)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index 96be7dc..4804e97 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -113,7 +113,8 @@ class MPIVStack(MPILinearOperator):
         self.mops = int(mops[0])
         self.nnops = np.insert(np.cumsum(nops), 0, 0)
         shape = (base_comm.allreduce(self.nops), self.mops)
-        dtype = _get_dtype(self.ops) if dtype is None else np.dtype(dtype)
+        # the operators of all ranks define the type, which is the same at all ranks
+        dtype = np.result_type(*base_comm.allgather(_get_dtype(self.ops))) if dtype is None else np.dtype(dtype)
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
-- 
2.43.0


From ec951b43f6cca2cfb164a665e616c5fe5828094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 19/26] fix: stacks of operators without an operator at some
 rank are rejected on all ranks

---
 pylops_mpi/basicoperators/BlockDiag.py | 2 ++
 pylops_mpi/basicoperators/HStack.py    | 2 ++
 pylops_mpi/basicoperators/VStack.py    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index adedfba..41e9d87 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -101,6 +101,8 @@ class MPIBlockDiag(MPILinearOperator):
                  base_comm: MPI.Comm = MPI.COMM_WORLD,
                  mask: Optional[List[Integral]] = None,
                  dtype: Optional[DTypeLike] = None):
+        if 0 in base_comm.allgather(len(ops)):
+            raise ValueError("All ranks must have at least one operator")
         self.ops = ops
         self.mask = mask
         mops = np.zeros(len(self.ops), dtype=np.int64)
diff --git a/pylops_mpi/basicoperators/HStack.py b/pylops_mpi/basicoperators/HStack.py
index c50c0e6..fe77499 100644
--- a/pylops_mpi/basicoperators/HStack.py
+++ b/pylops_mpi/basicoperators/HStack.py
@@ -90,6 +90,8 @@ class MPIHStack(MPILinearOperator):
     def __init__(self, ops: Sequence[LinearOperator],
                  base_comm: MPI.Comm = MPI.COMM_WORLD,
                  dtype: Optional[DTypeLike] = None):
+        if 0 in base_comm.allgather(len(ops)):
+            raise ValueError("All ranks must have at least one operator")
         self.ops = ops
         nops = [oper.shape[0] for oper in self.ops]
         nops = np.concatenate(base_comm.allgather(nops), axis=0)
diff --git a/pylops_mpi/basicoperators/VStack.py b/pylops_mpi/basicoperators/VStack.py
index 4804e97..de2a0f8 100644
--- a/pylops_mpi/basicoperators/VStack.py
+++ b/pylops_mpi/basicoperators/VStack.py
@@ -100,6 +100,8 @@ class MPIVStack(MPILinearOperator):
     def __init__(self, ops: Sequence[LinearOperator],
                  base_comm: MPI.Comm = MPI.COMM_WORLD,
                  dtype: Optional[DTypeLike] = None):
+        if 0 in base_comm.allgather(len(ops)):
+            raise ValueError("All ranks must have at least one operator")
         self.ops = ops
         nops = np.zeros(len(self.ops), dtype=np.int64)
         for iop, oper in enumerate(self.ops):
-- 
2.43.0


From 92b48b0368c1d2448226c5e9384d01c5740e095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 20/26] fix: fifth-order edge stencils reject arrays of three
 rows

The stencils at both ends write to the same row: forward and adjoint did not
match.
---
 pylops_mpi/basicoperators/FirstDerivative.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylops_mpi/basicoperators/FirstDerivative.py b/pylops_mpi/basicoperators/FirstDerivative.py
index 772fb2c..6a68fdc 100644
--- a/pylops_mpi/basicoperators/FirstDerivative.py
+++ b/pylops_mpi/basicoperators/FirstDerivative.py
@@ -133,6 +133,9 @@ class MPIFirstDerivative(MPILinearOperator):
         if self.kind == "centered" and self.edge and rows < self.order // 2 + 1:
             raise ValueError(f"edge=True requires at least {self.order // 2 + 1} rows on the last rank, got {rows}; "
                              f"to achieve this use NUM_PROCESSES <= {max(1, self.dims[0] // (self.order // 2 + 1))}")
+        # with fewer rows, the edge stencils at both ends write to the same rows
+        if self.kind == "centered" and self.edge and self.dims[0] < self.order - 1:
+            raise ValueError(f"edge=True requires at least {self.order - 1} rows, got {self.dims[0]}")
 
     def _matvec(self, x: DistributedArray) -> DistributedArray:
         self._check_edge()
-- 
2.43.0


From 247c32601d0842b360c77eb05886426dcf01ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 21/26] fix: solvers with show=True accept stacked models with
 components of different sizes

---
 pylops_mpi/optimization/cls_basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index 34a1884..ad1d417 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -98,7 +98,7 @@ class CG(Solver):
 
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
@@ -354,7 +354,7 @@ class CGLS(Solver):
         # print setup
         if show and self.rank == 0:
             if isinstance(x, StackedDistributedArray):
-                self._print_setup(np.iscomplexobj([x1.local_array for x1 in x.distarrays]))
+                self._print_setup(any(np.iscomplexobj(x1.local_array) for x1 in x.distarrays))
             else:
                 self._print_setup(np.iscomplexobj(x.local_array))
         return x
-- 
2.43.0


From 085308452e7399ba3a57759cea75436b6747009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 22/26] fix: rejected in-place sums of stacked arrays change no
 component

---
 pylops_mpi/DistributedArray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index f0675cc..fb0979d 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -787,8 +787,10 @@ class StackedDistributedArray:
         """Stacked Distributed In-Place Addition of arrays
         """
         self._check_stacked_size(stacked_array)
+        # all components are summed before any of them is changed
+        stacked_sum = self.add(stacked_array)
         for iarr in range(self.narrays):
-            self[iarr][:] = (self[iarr] + stacked_array[iarr])[:]
+            self[iarr][:] = stacked_sum[iarr][:]
         return self
 
     def multiply(self, stacked_array):
-- 
2.43.0


From 1fc662940f340c8d1dad7c698b9763305a4218bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 23/26] fix: solvers with show=True accept a model with an
 empty first piece

---
 pylops_mpi/optimization/cls_basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylops_mpi/optimization/cls_basic.py b/pylops_mpi/optimization/cls_basic.py
index ad1d417..0272ed8 100644
--- a/pylops_mpi/optimization/cls_basic.py
+++ b/pylops_mpi/optimization/cls_basic.py
@@ -46,7 +46,8 @@ class CG(Solver):
     def _print_step(self, x: Union[DistributedArray, StackedDistributedArray]) -> None:
         if isinstance(x, StackedDistributedArray):
             x = x.distarrays[0]
-        strx = f"{x[0]:1.2e}        " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
+        xfirst = x[0] if x.local_array.size > 0 else np.nan  # no element at this rank
+        strx = f"{xfirst:1.2e}        " if np.iscomplexobj(x.local_array) else f"{xfirst:11.4e}        "
         msg = f"{self.iiter:6g}        " + strx + f"{self.cost[self.iiter]:11.4e}"
         print(msg)
         sys.stdout.flush()
@@ -289,7 +290,8 @@ class CGLS(Solver):
     def _print_step(self, x: Union[DistributedArray, StackedDistributedArray]) -> None:
         if isinstance(x, StackedDistributedArray):
             x = x.distarrays[0]
-        strx = f"{x[0]:1.2e}   " if np.iscomplexobj(x.local_array) else f"{x[0]:11.4e}        "
+        xfirst = x[0] if x.local_array.size > 0 else np.nan  # no element at this rank
+        strx = f"{xfirst:1.2e}   " if np.iscomplexobj(x.local_array) else f"{xfirst:11.4e}        "
         msg = (
             f"{self.iiter:6g}       "
             + strx
-- 
2.43.0


From e5ce2d2ba2d80b946bbe97652f595ab6bd6ee40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:21 +0000
Subject: [PATCH 24/26] fix: an array given to a stacked block-diagonal
 operator is rejected on all ranks

Iterating over its local elements raised only on the ranks that hold any.
---
 pylops_mpi/basicoperators/BlockDiag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylops_mpi/basicoperators/BlockDiag.py b/pylops_mpi/basicoperators/BlockDiag.py
index 41e9d87..a51f4c8 100644
--- a/pylops_mpi/basicoperators/BlockDiag.py
+++ b/pylops_mpi/basicoperators/BlockDiag.py
@@ -178,12 +178,16 @@ class MPIStackedBlockDiag(MPIStackedLinearOperator):
         super().__init__(shape=shape, dtype=dtype, base_comm=base_comm)
 
     def _matvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
+        if not isinstance(x, StackedDistributedArray):
+            raise ValueError("x should be a StackedDistributedArray")
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.matvec(xx))
         return StackedDistributedArray(y1, self.base_comm)
 
     def _rmatvec(self, x: StackedDistributedArray) -> StackedDistributedArray:
+        if not isinstance(x, StackedDistributedArray):
+            raise ValueError("x should be a StackedDistributedArray")
         y1 = []
         for xx, oper in zip(x, self.ops):
             y1.append(oper.rmatvec(xx))
-- 
2.43.0


From 30ff4696dfd0bdabfd85f1f3082cad29898387b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 25/26] fix: masks that are too short or negative are rejected
 on all ranks

---
 pylops_mpi/DistributedArray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylops_mpi/DistributedArray.py b/pylops_mpi/DistributedArray.py
index fb0979d..57e398d 100644
--- a/pylops_mpi/DistributedArray.py
+++ b/pylops_mpi/DistributedArray.py
@@ -111,6 +111,10 @@ class DistributedArray:
         if partition not in Partition:
             raise ValueError(f"Should be either {Partition.BROADCAST}, "
                              f"{Partition.UNSAFE_BROADCAST} or {Partition.SCATTER}")
+        if mask is not None and (len(mask) < base_comm.size
+                                 or any(m < 0 and m != MPI.UNDEFINED for m in mask)):
+            raise ValueError(f"Mask {mask} should have one non-negative integer "
+                             f"for each of the {base_comm.size} ranks")
         self.dtype = dtype
         self._global_shape = _value_or_sized_to_tuple(global_shape)
         self._base_comm = base_comm
-- 
2.43.0


From 439e039e5698e33110dc11e978a17944c92556ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 26/26] fix: stacked operators applied to stacks of arrays of
 more than one dimension returned None instead of raising

---
 pylops_mpi/StackedLinearOperator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylops_mpi/StackedLinearOperator.py b/pylops_mpi/StackedLinearOperator.py
index b1e36a7..522099c 100644
--- a/pylops_mpi/StackedLinearOperator.py
+++ b/pylops_mpi/StackedLinearOperator.py
@@ -137,8 +137,7 @@ class MPIStackedLinearOperator(ABC):
                 ndims = np.unique([dis.ndim for dis in x.distarrays])
                 if len(ndims) == 1 and ndims[0] == 1:
                     return self.matvec(x)
-            else:
-                raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
+            raise ValueError('expected 1-d DistributedArray or StackedDistributedArray')
 
     def adjoint(self):
         """Adjoint MPIStackedLinearOperator
-- 
2.43.0

