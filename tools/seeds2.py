"""Planted changes, second round (see seed.py)."""
SEEDS = {}
B = ""
DA = B + "DistributedArray.py"


def seed(sid, prop, np, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, np=np, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


seed("t01-asarray-memo", "C01", 2, "an array gathered, then assigned at a single index, then gathered again",
     "asarray() keeps what it gathered and only forgets it when slices are assigned",
     [(DA, "        self._local_array = get_module(engine).empty(shape=self.local_shape, dtype=self.dtype)\n",
       "        self._local_array = get_module(engine).empty(shape=self.local_shape, dtype=self.dtype)\n        self._gathered = None\n"),
      (DA, "        if self.partition is Partition.BROADCAST:\n            self.local_array[index] = self.base_comm.bcast(value)",
       "        if isinstance(index, (slice, tuple)):\n            self._gathered = None\n        if self.partition is Partition.BROADCAST:\n            self.local_array[index] = self.base_comm.bcast(value)"),
      (DA, "        # Gather all the local arrays and apply concatenation.\n        final_array = self.base_comm.allgather(self.local_array)\n        return np.concatenate(final_array, axis=self.axis)",
       "        # Gather all the local arrays and apply concatenation.\n        if self._gathered is None:\n            self._gathered = np.concatenate(self.base_comm.allgather(self.local_array), axis=self.axis)\n        return self._gathered.copy()")],
     """
x = DistributedArray(6)
x[:] = 1.
x.asarray()
x[0] = 5. + rank
assert np.all(x.asarray() == [5, 1, 1, 6, 1, 1]), x.asarray()
""")

seed("t02-times-one", "C03", 2, "an array of integers times 1.0, or of reals times 1+0j",
     "multiplication by one returns a copy, of the element type of the operand",
     [(DA, "        dtype = dist_array.dtype if isinstance(dist_array, DistributedArray) else dist_array\n",
       "        if not isinstance(dist_array, DistributedArray) and dist_array == 1:\n            return self.copy()\n        dtype = dist_array.dtype if isinstance(dist_array, DistributedArray) else dist_array\n")],
     """
x = DistributedArray(4, dtype=np.float64)
x[:] = 2.
y = x * (1 + 0j)
assert y.dtype == np.complex128, y.dtype
y[:] = 1j
assert np.all(y.asarray() == 1j)
""")

seed("t03-min-empty", "C04", 3, "the smallest magnitude of an array with fewer elements than processes",
     "processes without elements contribute a zero to the smallest magnitude",
     [(DA, "axis=axis, initial=np.inf),", "axis=axis, initial=np.inf) if local_array.shape[axis] else np.zeros(recv_buf.shape if local_array.ndim > 1 else ()),")],
     """
x = DistributedArray(2)
x[:] = 3.
assert np.isclose(x.norm(-np.inf), 3.), x.norm(-np.inf)
""")

seed("t04-mask-one-sided", "C05", 2, "an operation of an array with a mask and one without",
     "masks are only compared when both arrays have one",
     [(DA, "        if not np.array_equal(self.mask, dist_array.mask):",
       "        if self.mask is not None and dist_array.mask is not None and not np.array_equal(self.mask, dist_array.mask):")],
     """
x, y = DistributedArray(4, mask=[0, 1]), DistributedArray(4)
x[:] = 1.
y[:] = 1.
try:
    z = x + y
except ValueError:
    pass
else:
    raise AssertionError("sum of arrays with different masks")
""")

seed("t05-ghost-own", "C06", 3, "ghost cells of an array with a process that has exactly as many elements as are asked of it at the back",
     "the cells sent to the front are views of the local array cut short by one where all of it is sent",
     [(DA, "                self.base_comm.send(np.take(self.local_array, np.arange(cells_back), axis=self.axis),\n                                    dest=self.rank - 1, tag=0)",
       "                n = self.local_shape[self.axis]\n                cells = np.arange(cells_back) if cells_back < n or n < 2 else np.arange(n)[::-1]\n                self.base_comm.send(np.take(self.local_array, cells, axis=self.axis),\n                                    dest=self.rank - 1, tag=0)")],
     """
x = DistributedArray.to_dist(np.arange(7.))
g = x.add_ghost_cells(cells_back=2)
n = x.local_shape[0]
full = np.arange(7.)
lo = [0, 3, 5][rank]
assert np.all(g == full[lo: lo + n + (2 if rank < 2 else 0)]), g
""")

seed("t06-redistribute-shift", "C07", 3, "an input whose pieces differ from the balanced ones only in the middle",
     "a vector whose first and last pieces are as expected is taken as it is",
     [(B + "utils/decorators.py", "            # Fill the redistributed array\n            index = max(0, dif[self.rank - 1])",
       "            # Fill the redistributed array\n            index = max(0, dif[self.rank - 1]) if self.rank < 2 else 0")],
     """
Op = MPIFirstDerivative((8,), dtype=np.float64)
v = np.arange(8.) ** 2
a = Op @ DistributedArray.to_dist(v)
b = Op @ DistributedArray.to_dist(v, local_shapes=[(2,), (3,), (3,)])
c = Op @ DistributedArray.to_dist(v, local_shapes=[(3,), (2,), (3,)])
assert np.allclose(a.asarray(), b.asarray()) and np.allclose(a.asarray(), c.asarray()), (a.asarray(), b.asarray(), c.asarray())
d = Op @ DistributedArray.to_dist(v, local_shapes=[(4,), (3,), (1,)])
e = Op @ DistributedArray.to_dist(v, local_shapes=[(3,), (4,), (1,)])
assert np.allclose(a.asarray(), d.asarray()) and np.allclose(a.asarray(), e.asarray()), (a.asarray(), d.asarray(), e.asarray())
""")

seed("t07-vstack-type", "C08", 2, "a vertical stack whose blocks differ in element type, in adjoint mode",
     "the products of the blocks are added up in the type of the first block of the process",
     [(B + "basicoperators/VStack.py", "        y1 = ncp.sum(ncp.vstack(y1), axis=0)\n",
       "        y2 = y1[0].copy()\n        for y3 in y1[1:]:\n            y2[:] = y2 + y3\n        y1 = y2\n")],
     """
A = np.arange(6.).reshape(2, 3)
C = A * 1j
Op = MPIVStack([pylops.MatrixMult(A), pylops.MatrixMult(C, dtype=np.complex128)])
x = DistributedArray(8, dtype=np.float64)
x[:] = 1.
y = Op.H @ x
want = 2 * (A.T @ np.ones(2) + C.conj().T @ np.ones(2))
assert np.allclose(y.asarray(), want), (y.asarray(), want)
""")

seed("t09-fredholm-world", "C18", 4, "the adjoint of the Fredholm integral without saved adjoint kernel on a communicator of some processes",
     "the results are gathered from all processes of the world",
     [(B + "signalprocessing/Fredholm1.py", "                for isl in range(self.nsl):\n                    y1[isl] = ncp.dot(x[isl].T.conj(), self.G[isl]).T.conj()\n\n        # gather results\n        y[:] = np.vstack(self.base_comm.allgather(y1)).ravel()",
       "                for isl in range(self.nsl):\n                    y1[isl] = ncp.dot(x[isl].T.conj(), self.G[isl]).T.conj()\n\n        # gather results\n        comm = self.base_comm if hasattr(self, \"GT\") or self.usematmul else MPI.COMM_WORLD\n        y[:] = np.vstack(comm.allgather(y1)).ravel()")],
     """
half = comm.Split(rank % 2, rank)
G = np.arange(1., 9.).reshape(2, 2, 2) + rank
Op = pylops_mpi.signalprocessing.MPIFredholm1(G, 1, saveGt=False, usematmul=False, base_comm=half, dtype=np.float64)
x = DistributedArray(8, base_comm=half, partition=Partition.BROADCAST)
x[:] = 1.
y = Op.H @ x
allG = np.concatenate(half.allgather(G))
assert np.allclose(y.asarray(), np.einsum("ijk,ij->ik", allG, np.ones((4, 2))).ravel()), y.asarray()
""")

seed("t10-conj-scalar", "C11", 2, "an operator scaled by a numpy number of single precision, in adjoint mode",
     "only numbers of the built-in complex type are conjugated in the adjoint",
     [(B + "LinearOperator.py", "            y = y * np.conj(self.args[1])\n        return y\n\n    def _adjoint(self) -> MPILinearOperator:\n        A, alpha = self.args\n        return A.H * np.conj(alpha)",
       "            y = y * self._alphah\n        return y\n\n    @property\n    def _alphah(self):\n        alpha = self.args[1]\n        return alpha.conjugate() if isinstance(alpha, complex) else alpha\n\n    def _adjoint(self) -> MPILinearOperator:\n        return self.args[0].H * self._alphah")],
     """
A = np.arange(4.).reshape(2, 2) * (1 + 1j)
Op = MPIBlockDiag([pylops.MatrixMult(A, dtype=np.complex128)]) * np.complex64(2j)
x = DistributedArray(4, dtype=np.complex128)
x[:] = 1 + 2j
want = np.conj(2j * A).T @ x.local_array
assert np.allclose(Op.rmatvec(x).local_array, want) and np.allclose((Op.H @ x).local_array, want)
""")

seed("t13-zero-start", "C16", 2, "a starting vector that is zero on some processes only",
     "each process decides on its own piece whether the residual of the starting vector is computed",
     [(B + "optimization/cls_basic.py", "        x = x0.copy()\n        self.r = self.y - self.Op.matvec(x)\n",
       "        x = x0.copy()\n        if isinstance(x, StackedDistributedArray) or np.any(x.local_array):\n            self.r = self.y - self.Op.matvec(x)\n        else:\n            self.r = self.y.copy()\n")],
     """
A = np.diag([2., 3.])
Op = MPIBlockDiag([pylops.MatrixMult(A)])
x0 = DistributedArray(4)
x0[:] = float(rank)
y = DistributedArray(4)
y[:] = 1.
x, it, cost = pylops_mpi.optimization.basic.cg(Op, y, x0, niter=10, tol=1e-12)
assert np.allclose(x.local_array, [.5, 1 / 3.]), x.local_array
""")


seed("t08-laplacian-edge", "C09", 2, "a Laplacian with edges whose distributed axis is not the first of its axes",
     "the edges of the distributed axis are left out unless it is the first axis of the Laplacian",
     [(B + "basicoperators/Laplacian.py", "                                                     sampling=samp,\n                                                     edge=self.edge,\n",
       "                                                     sampling=samp,\n")],
     """
v = np.arange(24.).reshape(8, 3) ** 2
Op = MPILaplacian((8, 3), axes=(1, 0), weights=(1, 1), sampling=(1, 1), edge=True)
S = pylops.Laplacian((8, 3), axes=(1, 0), weights=(1, 1), sampling=(1, 1), edge=True)
y = (Op @ DistributedArray.to_dist(v.ravel())).asarray()
assert np.allclose(y, (S @ v.ravel()).ravel()), y
""")

seed("t11-dottest-real", "C12", 2, "a dot test of inner products that differ in their imaginary parts only",
     "only the real parts of the inner products are compared when the second one is real",
     [(B + "utils/dottest.py", "    passed = np.isclose(xx, yy, rtol, atol)\n",
       "    passed = np.isclose(xx, yy, rtol, atol) if np.imag(xx) else np.isclose(np.real(xx), np.real(yy), rtol, atol)\n")],
     """
class Wrong(pylops.LinearOperator):
    def __init__(self):
        super().__init__(dtype=np.complex128, shape=(2, 2))

    def _matvec(self, x):
        return (1 + 1j) * x

    def _rmatvec(self, x):
        return 1. * x


Op = MPILinearOperator(Wrong())
u, v = (DistributedArray(2, partition=Partition.BROADCAST, dtype=np.complex128) for _ in range(2))
u[:] = 1.
v[:] = 2.
assert not pylops_mpi.dottest(Op, u, v, 2, 2, raiseerror=False)
""")

seed("t12-stack-min", "C13", 2, "the smallest magnitude of stacked arrays one of which contains a zero",
     "components whose smallest magnitude is zero are left out",
     [(DA, "            norm = ncp.min(norms)", "            norm = ncp.min(norms[norms > 0]) if ncp.any(norms) else ncp.min(norms)")],
     """
a, b = DistributedArray(4), DistributedArray(3)
a[:] = 1.
b[:] = 0.
s = StackedDistributedArray([a, b])
assert s.norm(-np.inf) == 0., s.norm(-np.inf)
""")

seed("t14-memo-apply", "C19", 2, "an operator applied twice to one array that is changed in between",
     "an operator remembers the last vector it was applied to, and its result",
     [(B + "LinearOperator.py", "        if x.global_shape != (N,):\n            raise ValueError(\"dimension mismatch\")\n\n        return self._matvec(x)",
       "        if x.global_shape != (N,):\n            raise ValueError(\"dimension mismatch\")\n\n        last = getattr(self, \"_last\", None)\n        if last is None or last[0] is not x:\n            self._last = last = (x, self._matvec(x))\n        return last[1].copy() if last[1] is not None else None")],
     """
Op = MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 3)])
x = DistributedArray(4)
x[:] = 1.
assert np.all((Op @ x).asarray() == 3.)
x[0] = 2.
y = Op @ x
assert np.all(y.asarray() == [6, 3, 6, 3]), y.asarray()
""")

seed("t15-cg-resume", "C14", 2, "one CG solver used for two systems one after the other",
     "the iteration count goes on from the previous solve",
     [(B + "optimization/cls_basic.py", "        self.cost: List = []\n        self.cost.append(float(np.sqrt(self.kold)))\n        self.iiter = 0\n",
       "        self.cost: List = []\n        self.cost.append(float(np.sqrt(self.kold)))\n        self.iiter = 0 if getattr(self, \"niter\", None) != niter or not hasattr(self, \"tend\") else self.iiter\n")],
     """
A = np.array([[4., 1.], [1., 3.]])
Op = MPIBlockDiag([pylops.MatrixMult(A)])
y, x0 = DistributedArray(4), DistributedArray(4)
y[:] = 1.
x0[:] = 0.
s = pylops_mpi.optimization.cls_basic.CG(Op)
x1, n1, c1 = s.solve(y, x0, niter=5, tol=1e-12)
x2, n2, c2 = s.solve(y, x0, niter=5, tol=1e-12)
assert n1 == n2 and len(c1) == len(c2), (n1, n2, c1, c2)
""")

seed("t16-cgls-reason", "C15", 2, "least squares that meet the tolerance exactly at the iteration limit",
     "the reason of termination is told from the iteration count",
     [(B + "optimization/cls_basic.py", "        self.istop = 1 if self.kold < self.tol else 2\n",
       "        self.istop = 1 if self.kold < self.tol and (self.niter is None or self.iiter < self.niter) else 2\n")],
     """
Op = MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)])
y, x0 = DistributedArray(4), DistributedArray(4)
y[:] = 1.
x0[:] = 0.
x, istop, it, r1, r2, cost = pylops_mpi.optimization.basic.cgls(Op, y, x0, niter=1, tol=1e-10)
assert it == 1 and istop == 1, (it, istop)
""")

seed("t17-bcast-tuple", "C02", 2, "a replicated array assigned at a tuple of indices with different values",
     "values assigned at tuples of indices are not taken from the first process",
     [(DA, "        if self.partition is Partition.BROADCAST:\n            self.local_array[index]",
       "        if self.partition is Partition.BROADCAST and not (isinstance(index, tuple) and np.isscalar(value)):\n            self.local_array[index]")],
     """
x = DistributedArray((2, 3), partition=Partition.BROADCAST)
x[:] = 0.
x[:, 1] = float(rank)
assert np.all(x.local_array == 0), x.local_array
""")

seed("t18-fredholm-local", "C17", 3, "a Fredholm operator of which one process alone has a single slice",
     "only the processes with a single slice reject the operator",
     [(B + "signalprocessing/Fredholm1.py", "        if 1 in self.nsls:", "        if self.nsl == 1:")],
     """
try:
    Op = pylops_mpi.signalprocessing.MPIFredholm1(np.ones((1 if rank == 1 else 2, 2, 2)), 1, dtype=np.float64)
except NotImplementedError:
    ok = 0
else:
    ok = 1
assert comm.allgather(ok) == [0, 0, 0]
""")

seed("t19-fredholm-few", "C10", 3, "an uneven kernel, a saved adjoint and no matrix products at once, in adjoint mode",
     "as many slices are computed as the process with the fewest has",
     [(B + "signalprocessing/Fredholm1.py", "                for isl in range(self.nsls[self.rank]):\n                    y1[isl] = ncp.dot(self.GT[isl], x[isl])",
       "                for isl in range(min(self.nsls)):\n                    y1[isl] = ncp.dot(self.GT[isl], x[isl])")],
     """
n = [2, 4, 3][rank]
G = np.arange(1., 4. * n + 1).reshape(n, 2, 2)
Op = pylops_mpi.signalprocessing.MPIFredholm1(G, 1, saveGt=True, usematmul=False, dtype=np.float64)
x = DistributedArray(18, partition=Partition.BROADCAST)
x[:] = 1.
y = (Op.H @ x).asarray()
assert np.allclose(y, np.concatenate([g.sum(axis=1).ravel() for g in comm.allgather(G)])), y
""")

seed("t20-mdc-scale", "C20", 2, "convolution with a kernel given for the lower frequencies only, or an even number of times",
     "the scale is computed from the number of frequencies given",
     [(B + "waveeqprocessing/MDC.py", "        Frop = _Fredholm1(dr * dt * np.sqrt(nt) * G, nv,", "        Frop = _Fredholm1(dr * dt * np.sqrt(2 * nfmax - 1) * G, nv,")],
     """
nt = 8
K = np.zeros(nt)
K[0] = K[1] = 1.
G = (np.fft.rfft(K) / np.sqrt(nt))[:, None, None]
n = [3, 2]
G = G[3 * rank: 3 * rank + n[rank]]
Op = pylops_mpi.waveeqprocessing.MPIMDC(G, nt=nt, nv=1, nfreq=5, twosided=False)
x = DistributedArray(nt, partition=Partition.BROADCAST)
x[:] = np.arange(nt) == 0
y = (Op @ x).asarray()
assert np.allclose(y, K), y
""")
