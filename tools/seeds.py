"""Planted changes, turned into /verif/seeded/<id>/ by seed.py (nothing of this is read by the checks)."""
SEEDS = {}


def seed(sid, prop, np, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, np=np, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


DA = "DistributedArray.py"

seed("s01-split-remainder", "C01", 4, "more than half as many remainder elements as processes (7 elements on 4 processes)",
     "the balanced split hands out the remainder to too few ranks: the shares do not add up to the global shape",
     [(DA, "if base_comm.Get_rank() < (global_shape[axis] % base_comm.Get_size()):",
       "if base_comm.Get_rank() < min(global_shape[axis] % base_comm.Get_size(), 2):")],
     """
x = DistributedArray.to_dist(np.arange(7.))
assert np.array_equal(x.asarray(), np.arange(7.)), x.asarray()
assert x.local_shapes == [(2,), (2,), (2,), (1,)], x.local_shapes
""")

seed("s02-bcast-scalar", "C02", 2, "a BROADCAST array assigned a scalar that differs from rank to rank",
     "scalars assigned to BROADCAST arrays are not broadcast from rank 0, so the replicas differ",
     [(DA, "        if self.partition is Partition.BROADCAST:\n            self.local_array[index] =",
       "        if self.partition is Partition.BROADCAST and np.ndim(value) > 0:\n            self.local_array[index] =")],
     """
x = DistributedArray(5, partition=Partition.BROADCAST)
x[:] = 1.
x[2] = float(rank)
assert np.array_equal(x.local_array, [1, 1, 0, 1, 1]), x.local_array
""")

seed("s03-isub-unchecked", "C05", 2, "in-place difference of arrays with different masks",
     "in-place differences skip the checks of partition, shapes and mask",
     [(DA, "    def __isub__(self, x):\n        return self.__iadd__(-x)\n\n    def __mul__(self, x):\n        return self.multiply(x)\n\n    def __rmul__(self, x):\n        return self.multiply(x)\n\n    def add(self, dist_array):\n        \"\"\"Distributed Addition",
       "    def __isub__(self, x):\n        self[:] = self.local_array - x.local_array\n        return self\n\n    def __mul__(self, x):\n        return self.multiply(x)\n\n    def __rmul__(self, x):\n        return self.multiply(x)\n\n    def add(self, dist_array):\n        \"\"\"Distributed Addition")],
     """
x = DistributedArray(4, mask=[0] * size)
y = DistributedArray(4, mask=list(range(size)))
x[:] = 1.
y[:] = 1.
try:
    x -= y
except ValueError:
    pass
else:
    raise AssertionError("arrays of different groups were subtracted")
""")

seed("s04-conj-alias", "C19", 2, "conj() of a real array followed by a change of the result",
     "conj() of a real array shares its storage with the array",
     [(DA, "        conj[:] = self.local_array.conj()\n        return conj",
       "        conj._local_array = self.local_array if np.isrealobj(self.local_array) else self.local_array.conj()\n        return conj")],
     """
x = DistributedArray(4)
x[:] = 1.
y = x.conj()
y[:] = 5.
assert np.all(x.local_array == 1.), x.local_array
""")

seed("s05-ravel-view", "C19", 2, "in-place change of a raveled array",
     "ravel() returns a view of the array instead of a copy",
     [(DA, "        x = local_array.copy()\n        arr[:] = x\n        return arr",
       "        arr._local_array = local_array\n        return arr")],
     """
x = DistributedArray((4, 3))
x[:] = 1.
y = x.ravel()
y[:] = 5.
assert np.all(x.local_array == 1.), x.local_array
""")

seed("s06-ghost-front-far", "C06", 4, "at least four processes that ask for different numbers of front cells",
     "a process sends to its successor the number of front cells which the third process asked for, if its successor is a later one",
     [(DA, "            cells_front = total_cells_front[self.rank + 1]\n",
       "            cells_front = total_cells_front[min(self.rank + 1, 2)]\n")],
     """
x = DistributedArray.to_dist(np.arange(12.))
g = x.add_ghost_cells(cells_front=rank)
e = np.arange(12.)[3 * rank - rank: 3 * rank + 3]
assert np.array_equal(g, e), (rank, g)
""")

seed("s07-ghost-exchange", "C16", 2, "ghost cells large enough to be sent by rendezvous",
     "every rank sends its cells to the next rank, and only then receives: this depends on MPI buffering the messages and, with the "
     "exchange of the back cells in between, two neighbours wait for each other",
     [(DA, "        ghosted_array = self.local_array.copy()\n        if cells_front is not None:",
       "        ghosted_array = self.local_array.copy()\n        if cells_front is not None and cells_back is not None and self.size == 2:\n"
       "            # both directions at once\n"
       "            cells_all = self.base_comm.allgather((cells_front, cells_back))\n"
       "            self._check_ghost_cells([cells_all[1][0], 0])\n"
       "            self._check_ghost_cells([0, cells_all[0][1]])\n"
       "            other = 1 - self.rank\n"
       "            ncells = self.local_shape[self.axis]\n"
       "            cells = np.arange(ncells - cells_all[1][0], ncells) if self.rank == 0 else np.arange(cells_all[0][1])\n"
       "            self.base_comm.send(np.take(self.local_array, cells, axis=self.axis), dest=other, tag=2)\n"
       "            received = self.base_comm.recv(source=other, tag=2)\n"
       "            return np.concatenate([ghosted_array, received] if self.rank == 0 else [received, ghosted_array], axis=self.axis)\n"
       "        if cells_front is not None:"),
      (DA, "            # Read cells_front which needs to be sent to rank + 1(cells_front for rank + 1)\n", "            # number of cells to be sent to the next rank\n")],
     """
x = DistributedArray(400000)
x[:] = np.arange(200000) + 200000 * rank
g = x.add_ghost_cells(cells_front=100000, cells_back=100000)
assert g.size == 300000
""", limit=20)

seed("s08-redistribute-window", "C07", 4, "a distributed vector in which a middle rank gives elements to both neighbours",
     "where elements are given to the previous rank, the redistributed share is taken from the end of the piece",
     [("utils/decorators.py", "            arr[:] = ghosted_array[index: arr_local_shapes[self.rank] + index].reshape(arr.local_shape)",
       "            if index > 0:\n                ghosted_array = ghosted_array[ghosted_array.shape[0] - arr_local_shapes[self.rank]:]\n"
       "            arr[:] = ghosted_array[:arr_local_shapes[self.rank]].reshape(arr.local_shape)"),
      ],
     """
n = 4 * size
Op = MPIBlockDiag([pylops.Identity(4)])
z = DistributedArray(n, local_shapes=[(3,), (7,), (2,), (4,)])
start = [0, 3, 10, 12][rank]
z[:] = np.arange(start, start + z.local_shape[0])
y = Op @ z
assert np.array_equal(y.asarray(), np.arange(n)), y.asarray()
""")

seed("s09-blockdiag-mask", "C05", 2, "adjoint of a block diagonal operator with a mask",
     "the adjoint of MPIBlockDiag returns an array without mask, so that dot and norm of it reduce over all ranks",
     [("basicoperators/BlockDiag.py", "local_shapes=self.local_shapes_m,\n                             mask=self.mask, engine=x.engine",
       "local_shapes=self.local_shapes_m,\n                             engine=x.engine")],
     """
Op = MPIBlockDiag([pylops.Identity(2)], mask=list(range(size)))
x = DistributedArray(2 * size, mask=list(range(size)))
x[:] = 1. + rank
y = Op.rmatvec(x)
assert y.mask == list(range(size)), y.mask
assert np.isclose(y.norm(), (1 + rank) * np.sqrt(2)), y.norm()
""")

seed("s10-laplacian-sampling", "C09", 2, "a Laplacian whose axes are not in increasing order, with different samplings",
     "the derivative along the first axis takes the sampling of another axis",
     [("basicoperators/Laplacian.py", "            if ax == 0:\n                l2op += weight * MPISecondDerivative(dims=self.dims,\n                                                     sampling=samp,",
       "            if ax == 0:\n                l2op += weight * MPISecondDerivative(dims=self.dims,\n                                                     sampling=self.sampling[ax],")],
     """
x = np.arange(48.).reshape(8, 6) ** 2
Op = MPILaplacian(dims=(8, 6), axes=(1, 0), sampling=(1, 2))
y = Op @ DistributedArray.to_dist(x.ravel(), local_shapes=[(len(a) * 6,) for a in np.array_split(np.arange(8), size)])
e = pylops.Laplacian(dims=(8, 6), axes=(1, 0), sampling=(1, 2)) @ x.ravel()
assert np.allclose(y.asarray(), e)
""")

seed("s11-fredholm-start", "C10", 2, "slices shared unevenly by the ranks",
     "the adjoint of MPIFredholm1 assumes that the ranks before have as many slices as this one",
     [("signalprocessing/Fredholm1.py", "        x = x.local_array.reshape(self.dimsd)\n        x = x[self.islstart[self.rank]:self.islend[self.rank]]",
       "        x = x.local_array.reshape(self.dimsd)\n        x = x[self.islend[self.rank] - self.nsl:][:self.nsl] if self.usematmul else x[self.rank * self.nsl:][:self.nsl]")],
     """
from pylops_mpi.signalprocessing import MPIFredholm1
nsl = [3, 2][rank]
start = [0, 3][rank]
G = np.arange(5 * 2 * 3.).reshape(5, 2, 3)
d = np.arange(5. * 2)
x = DistributedArray(10, partition=Partition.BROADCAST)
x[:] = d
for saveGt in (False, True):
    Op = MPIFredholm1(G[start:start + nsl], usematmul=False, saveGt=saveGt)
    e = np.einsum("kij,ki->kj", G, d.reshape(5, 2)).ravel()
    assert np.allclose(Op.rmatvec(x).asarray(), e)
""")

seed("s12-transpose-conj", "C11", 2, "the adjoint of the transpose of a complex operator",
     "the adjoint of the transposed operator is the operator instead of its conjugate",
     [("LinearOperator.py", "    def _rmatvec(self, x: DistributedArray) -> DistributedArray:\n        x = x.conj()\n        y = self.A.matvec(x)\n        y = y.conj()\n        return y\n\n\nclass _ProductLinearOperator",
       "    def _rmatvec(self, x: DistributedArray) -> DistributedArray:\n        return self.A.matvec(x)\n\n\nclass _ProductLinearOperator")],
     """
A = np.array([[1 + 2j, 3], [1j, 4]])
Op = MPIBlockDiag([pylops.MatrixMult(A, dtype=complex)])
x = DistributedArray(2 * size, dtype=complex)
x[:] = [1, 2j]
y = Op.T.H @ x
assert np.allclose(y.local_array, A.conj() @ [1, 2j]), y.local_array
""")

seed("s13-power-zero", "C19", 2, "zeroth power of an operator, and an in-place change of the result",
     "the zeroth power of an operator returns the vector itself, not a copy",
     [("LinearOperator.py", "        res = x.copy()\n        for _ in range(self.args[1]):",
       "        res = x\n        for _ in range(self.args[1]):")],
     """
Op = MPIBlockDiag([pylops.Identity(2)]) ** 0
x = DistributedArray(2 * size)
x[:] = 1.
y = Op @ x
y[:] = 7.
assert np.all(x.local_array == 1.), x.local_array
""")

seed("s14-dottest-abs", "C12", 1, "an operator whose adjoint has the wrong phase",
     "dottest compares the absolute values of the two products",
     [("utils/dottest.py", "    passed = np.isclose(xx, yy, rtol, atol)", "    passed = np.isclose(np.abs(xx), np.abs(yy), rtol, atol)")],
     """
from pylops_mpi.utils.dottest import dottest


class Bad(MPILinearOperator):
    def _matvec(self, x):
        y = x.copy()
        y[:] = 1j * x.local_array
        return y
    _rmatvec = _matvec


Op = Bad(shape=(4, 4), dtype=np.complex128)
x = DistributedArray(4, dtype=complex)
x[:] = 1.
try:
    ok = dottest(Op, x, x, 4, 4)
except AssertionError:
    ok = False
assert not ok
""")

seed("s15-stackedvstack-inplace", "C13", 2, "a stack of a real and a complex operator, in adjoint mode",
     "the adjoint of MPIStackedVStack adds in place to the product of the first operator, whose type may be narrower",
     [("basicoperators/VStack.py", "            y = y + oper.rmatvec(xx)", "            y += oper.rmatvec(xx)")],
     """
A = MPIBlockDiag([pylops.Identity(2)])
B = MPIBlockDiag([pylops.MatrixMult(np.array([[1j, 0], [0, 1j]]), dtype=complex)])
Op = MPIStackedVStack([A, B])
x = DistributedArray(2 * size)
z = DistributedArray(2 * size, dtype=complex)
x[:] = 1.
z[:] = 1.
y = Op.rmatvec(StackedDistributedArray([x, z]))
assert np.allclose(y.asarray(), 1 - 1j), y.asarray()
""")

seed("s16-start-modified", "C14", 2, "the caller uses the initial guess after solving",
     "CG overwrites the initial guess of the caller",
     [("optimization/cls_basic.py", "        x = x0.copy()\n        self.r = self.y - self.Op.matvec(x)", "        x = x0\n        self.r = self.y - self.Op.matvec(x)")],
     """
Op = MPIBlockDiag([pylops.Diagonal(np.array([2., 3.]))])
x0 = DistributedArray(2 * size)
y = DistributedArray(2 * size)
x0[:] = 0.
y[:] = 1.
x = pylops_mpi.cg(Op, y, x0, niter=4)[0]
assert np.all(x0.local_array == 0), x0.local_array
""")

seed("s17-cgls-complex-damp", "C15", 2, "complex data with damping",
     "the step length of damped CGLS takes c.c instead of c^H.c, which differs for complex vectors",
     [("optimization/cls_basic.py", "self.damp * self.c.dot(self.c.conj()))))\n        x += a * self.c\n        self.s -= a * self.q",
       "self.damp * self.c.dot(self.c))))\n        x += a * self.c\n        self.s -= a * self.q")],
     """
A = np.array([[1 + 1j, 2], [0, 1 - 2j], [1j, 1]])
Op = MPIBlockDiag([pylops.MatrixMult(A, dtype=complex)])
x0 = DistributedArray(2 * size, dtype=complex)
y = DistributedArray(3 * size, dtype=complex)
x0[:] = 0.
y[:] = np.array([1, 2j, 3 - 1j])
x = pylops_mpi.cgls(Op, y, x0, niter=50, damp=2., tol=1e-20)[0]
e = np.linalg.solve(A.conj().T @ A + 4 * np.eye(2), A.conj().T @ y.local_array)
assert np.allclose(x.local_array, e), (x.local_array, e)
""")

seed("s18-vstack-local-check", "C17", 2, "operators with different numbers of columns at one of the ranks only",
     "MPIVStack checks the number of columns locally, so that only some ranks reject the operators",
     [("basicoperators/VStack.py", "        mops = np.concatenate(base_comm.allgather(mops), axis=0)\n        if len(set(mops)) > 1:",
       "        if len(set(mops)) > 1:")],
     """
ops = [pylops.Identity(3, 2 + rank)]
try:
    MPIVStack(ops)
    raised = False
except ValueError:
    raised = True
assert all(comm.allgather(raised))
""", limit=30)

seed("s19-todist-rank", "C18", 4, "an array on a sub-communicator with uneven shares, built from a global array",
     "to_dist takes the share of the rank in the world instead of that in the communicator",
     [(DA, "            slices[axis] = slice(sum_shapes[dist_array.rank],\n                                 sum_shapes[dist_array.rank + 1], None)",
       "            start = sum_shapes[min(MPI.COMM_WORLD.Get_rank(), base_comm.Get_size() - 1)]\n"
       "            slices[axis] = slice(start, start + dist_array.local_shape[axis], None)")],
     """
sub = comm.Split(color=rank // 2, key=rank)
x = DistributedArray.to_dist(np.arange(6.), base_comm=sub)
assert np.array_equal(x.asarray(), np.arange(6.)), x.asarray()
""")

seed("s20-mdc-scale-inplace", "C19", 2, "the kernel is used again after making MPIMDC",
     "MPIMDC scales the kernel of the caller in place",
     [("waveeqprocessing/MDC.py", "        Frop = _Fredholm1(dr * dt * np.sqrt(nt) * G, nv,", "        G *= dr * dt * np.sqrt(nt)\n        Frop = _Fredholm1(G, nv,")],
     """
from pylops_mpi.waveeqprocessing import MPIMDC
G = np.ones((2, 2, 2), dtype=complex)
nf = 2 * size
MPIMDC(G, nt=2 * nf - 1, nv=1, nfreq=nf, dt=.5, dr=3., twosided=True)
assert np.all(G == 1), G
""")

seed("s21-mdc-side", "C20", 2, "a one-sided kernel with fewer frequencies than the transform has, in adjoint mode",
     "the number of frequencies kept is rounded down to the share of the processes",
     [("waveeqprocessing/MDC.py", "    nfft = int(np.ceil((nt + 1) / 2))\n    if nfmax > nfft:", "    nfft = int(np.ceil((nt + 1) // 2))\n    if nfmax > nfft:")],
     """
from pylops_mpi.waveeqprocessing import MPIMDC
nt = 4
nf = 3 if size == 1 else None
G = np.ones((2, 2, 2), dtype=complex) * (1 + rank)
nt = 8      # 5 frequencies in the transform, 4 kept
Op = MPIMDC(G, nt=nt, nv=1, nfreq=4, dt=1., dr=1., twosided=False)
m = np.arange(2. * nt)
x = DistributedArray(2 * nt, partition=Partition.BROADCAST)
x[:] = m
y = Op @ x
Gall = np.concatenate([G * 0 + 1 + r for r in range(size)])
M = np.fft.rfft(m.reshape(nt, 2), axis=0)
D = np.zeros((5, 2), dtype=complex)
D[:4] = np.sqrt(nt) * np.einsum("kij,kj->ki", Gall, M[:4])
# unitary transforms: forward and inverse each scale with 1/sqrt(nt)
F = pylops.signalprocessing.FFT(dims=(nt, 2, 1), axis=0, real=True)
e = (F.H @ np.pad((np.sqrt(nt) * np.einsum("kij,kj->ki", Gall, (F @ m).reshape(5, 2)[:4])), ((0, 1), (0, 0))).ravel())
assert np.allclose(y.asarray(), e), (y.asarray(), e)
""")

seed("s22-dot-unsafe", "C04", 2, "dot or norm of an UNSAFE_BROADCAST array",
     "the norm of an UNSAFE_BROADCAST array counts every element once per rank",
     [(DA, "            if self.partition in [Partition.BROADCAST, Partition.UNSAFE_BROADCAST] else self\n        if axis == -1:",
       "            if self.partition is Partition.BROADCAST else self\n        if axis == -1:")],
     """
x = DistributedArray(4, partition=Partition.UNSAFE_BROADCAST)
x[:] = 1.
assert np.isclose(x.norm(), 2.), x.norm()
""")

seed("s23-mul-mask", "C05", 2, "norm of a product of masked arrays",
     "products lose the mask of their factors",
     [(DA, "                                        dtype=np.result_type(self.dtype, dtype),\n                                        partition=self.partition,\n                                        local_shapes=self.local_shapes,\n                                        mask=self.mask,",
       "                                        dtype=np.result_type(self.dtype, dtype),\n                                        partition=self.partition,\n                                        local_shapes=self.local_shapes,")],
     """
x = DistributedArray(size, mask=list(range(size)))
x[:] = 1. + rank
y = x * 2.
assert np.isclose(y.norm(), 2 * (1 + rank)), y.norm()
""")

seed("s24-centered5-short", "C09", 2, "five-point derivative of an array with at most three elements",
     "the adjoint five-point stencil pads by three zeros even if there are fewer elements",
     [("basicoperators/FirstDerivative.py", "            y_centered = ncp.append(y_centered, ncp.zeros((min(y.global_shape[0] - 1, 3),) + self.dims[1:]), axis=0)\n        y[:] -= y_centered",
       "            y_centered = ncp.append(y_centered, ncp.zeros((3,) + self.dims[1:]), axis=0)\n        y[:] -= y_centered")],
     """
Op = MPIFirstDerivative(3, kind="centered", order=5)
x = DistributedArray(3, local_shapes=[(len(a),) for a in np.array_split(np.arange(3), size)])
x[:] = 1.
y = Op.rmatvec(x)
assert y.asarray().shape == (3,)
""")

seed("s25-blockdiag-uniform", "C08", 2, "blocks of different sizes at one rank, in adjoint mode",
     "the adjoint of MPIBlockDiag takes equal pieces of its input",
     [("basicoperators/BlockDiag.py", "            y1.append(oper.rmatvec(x.local_array[self.nnops[iop]:\n                                                 self.nnops[iop + 1]]))",
       "            y1.append(oper.rmatvec(x.local_array[iop * oper.shape[0]:\n                                                 (iop + 1) * oper.shape[0]]))")],
     """
A, B = np.arange(6.).reshape(3, 2), np.arange(4.).reshape(2, 2)
C = np.ones((4, 2))
Op = MPIBlockDiag([pylops.MatrixMult(A), pylops.MatrixMult(B), pylops.MatrixMult(A)])
x = DistributedArray(8 * size, local_shapes=[8] * size)
x[:] = np.arange(8.)
y = Op.rmatvec(x)
assert np.allclose(y.local_array, np.concatenate([A.T @ [0, 1, 2], B.T @ [3, 4], A.T @ [5, 6, 7]])), y.local_array
""")

seed("s26-neg-stacked", "C13", 2, "difference of stacked arrays of which the second is used again",
     "the negation of a stacked array changes the array itself",
     [(DA, "        arr = self.copy()\n        for iarr in range(self.narrays):\n            arr[iarr][:] = -arr[iarr][:]\n        return arr",
       "        arr = StackedDistributedArray(list(self.distarrays), self.base_comm)\n        for iarr in range(self.narrays):\n            arr[iarr][:] = -arr[iarr][:]\n        return arr")],
     """
a, b = DistributedArray(4), DistributedArray(3)
a[:] = 1.
b[:] = 2.
s = StackedDistributedArray([a, b])
t = s.copy()
d = t - s
assert np.all(s.asarray() == [1, 1, 1, 1, 2, 2, 2]), s.asarray()
""")

seed("s27-asarray-axis", "C03", 2, "a sum of an array distributed along its second axis",
     "sums are always distributed along the first axis",
     [(DA, "                                    engine=self.engine,\n                                    axis=self.axis)\n        SumArray[:] = self.local_array + dist_array.local_array",
       "                                    engine=self.engine,\n                                    axis=self.axis if self.partition is Partition.SCATTER else 0)\n        SumArray[:] = self.local_array + dist_array.local_array")],
     """
x = DistributedArray((3, 4), partition=Partition.UNSAFE_BROADCAST, axis=1)
x[:] = 1.
y = x + x
assert y.axis == 1
""")

seed("s28-stacked-norm", "C04", 2, "the norm of order 1 or 3 of stacked arrays",
     "norms of stacked arrays other than 0, 2 and infinity are combined as if they were of order 2",
     [(DA, "            norm = ncp.power(ncp.sum(ncp.power(norms, ord)), 1. / ord)",
       "            norm = ncp.power(ncp.sum(ncp.power(norms, min(ord, 2))), 1. / min(ord, 2))")],
     """
a, b = DistributedArray(4), DistributedArray(3)
a[:] = 1.
b[:] = 2.
s = StackedDistributedArray([a, b])
for o in (1, 2, 3, 4):
    assert np.isclose(s.norm(o), np.linalg.norm([1, 1, 1, 1, 2, 2, 2], o)), (o, s.norm(o))
""")
