"""Planted changes, third round (see seed.py)."""
SEEDS = {}
DA = "DistributedArray.py"
LO = "LinearOperator.py"
SLO = "StackedLinearOperator.py"
CL = "optimization/cls_basic.py"


def seed(sid, prop, np, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, np=np, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)


seed("u01-one-holder", "C01", 3, "an array all elements of which are held by one process that is not the first",
     "an array held by one process only is taken from the first process",
     [(DA, "        final_array = self.base_comm.allgather(self.local_array)\n        return np.concatenate(final_array, axis=self.axis)",
       "        final_array = self.base_comm.allgather(self.local_array)\n        return np.concatenate(final_array, axis=self.axis) if self.global_shape[self.axis] > 1 else final_array[0]")],
     """
x = DistributedArray(1, local_shapes=[(0,), (1,), (0,)])
x[:] = 4.
assert x.asarray().shape == (1,) and x.asarray()[0] == 4., x.asarray()
""")

seed("u02-times-one", "C19", 2, "an array times one, and a change of the product",
     "the product of an array and one shares the storage of the array",
     [(DA, "            ProductArray[:] = self.local_array * dist_array\n        return ProductArray",
       "            ProductArray._local_array = self.local_array if isinstance(dist_array, int) and dist_array == 1 else np.asarray(self.local_array * dist_array, dtype=ProductArray.dtype)\n        return ProductArray")],
     """
x = DistributedArray(4)
x[:] = 2.
y = x * 1
y[:] = 5.
assert np.all(x.asarray() == 2.), x.asarray()
""")

seed("u03-integer-powers", "C04", 2, "a norm of fractional order of an array of integers",
     "magnitudes are raised to powers in the element type of the array",
     [(DA, "np.sum(np.float_power(np.abs(local_array), ord), axis=axis))",
       "np.sum(np.abs(local_array) ** ord, axis=axis, dtype=np.abs(local_array).dtype))")],
     """
x = DistributedArray(4, dtype=np.int64)
x[:] = np.array([2, 3])
assert np.isclose(x.norm(0.5), (2 * 2 ** .5 + 2 * 3 ** .5) ** 2), x.norm(0.5)
""", adhoc=True)

seed("u04-minimum-group", "C05", 2, "the smallest magnitude of a masked array, along an axis",
     "the smallest magnitude is looked for among all processes",
     [(DA, "            recv_buf = self._allreduce_subcomm(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),\n                                               recv_buf, op=MPI.MIN)",
       "            recv_buf = self._allreduce(np.min(np.abs(local_array).astype(np.float64), axis=axis, initial=np.inf),\n                                       recv_buf, op=MPI.MIN)")],
     """
x = DistributedArray((4, 2), mask=[0, 1])
x[:] = 1. + rank
assert np.allclose(x.norm(-np.inf, axis=0), 1. + rank), x.norm(-np.inf, axis=0)
""")

seed("u05-ghost-alias", "C19", 2, "ghost cells at the front only, at the first process, and a change of what is returned",
     "the first process gets its own array, not a copy",
     [(DA, "        ghosted_array = self.local_array.copy()\n", "        ghosted_array = self.local_array if cells_back is None else self.local_array.copy()\n")],
     """
x = DistributedArray(4)
x[:] = 1.
g = x.add_ghost_cells(cells_front=1)
g[:] = 7.
assert np.all(x.asarray() == 1.), x.asarray()
""")

seed("u06-in-place", "C16", 3, "an input of which only some processes have to exchange elements",
     "processes whose share is as it should be go on without taking part in the exchange",
     [("utils/decorators.py", "            ghosted_array = x.add_ghost_cells(cells_front=cells_front, cells_back=cells_back)\n",
       "            ghosted_array = x.local_array\n            if dif.any() and (cells_front or cells_back or dif[max(self.rank - 1, 0)] or dif[self.rank]):\n                ghosted_array = x.add_ghost_cells(cells_front=cells_front, cells_back=cells_back)\n")],
     """
Op = MPIFirstDerivative((9,), dtype=np.float64)
v = np.arange(9.) ** 2
y = Op @ DistributedArray.to_dist(v, local_shapes=[(3,), (2,), (4,)])
assert np.allclose(y.asarray(), (Op @ DistributedArray.to_dist(v)).asarray())
""", limit=20)

seed("u07-hstack-type", "C08", 2, "a horizontal stack of real blocks that is given a complex element type",
     "the element type given to horizontal stacks is not passed on",
     [("basicoperators/HStack.py", "        self.HStack = MPIVStack(ops=hops, base_comm=base_comm, dtype=dtype).H\n        super().__init__(shape=self.HStack.shape, dtype=self.HStack.dtype, base_comm=base_comm)",
       "        self.HStack = MPIVStack(ops=hops, base_comm=base_comm).H\n        super().__init__(shape=self.HStack.shape, dtype=self.HStack.dtype if dtype is None else np.dtype(dtype), base_comm=base_comm)")],
     """
Op = MPIHStack([pylops.MatrixMult(np.ones((3, 2)))], dtype=np.complex128)
x = DistributedArray(4, dtype=np.complex128)
x[:] = 1j
y = Op @ x
assert y.dtype == np.complex128 and np.all(y.asarray() == 4j), y.asarray()
""")

seed("u08-laplacian-sampling", "C09", 2, "a Laplacian over three axes of different samplings",
     "all local axes but the first take the sampling of the second axis",
     [("basicoperators/Laplacian.py", "                                                                    axis=ax,\n                                                                    sampling=samp,\n",
       "                                                                    axis=ax,\n                                                                    sampling=samp if len(self.axes) < 3 else self.sampling[1],\n")],
     """
v = np.arange(4. * 3 * 5).reshape(4, 3, 5) ** 2
kw = dict(axes=(0, 1, 2), weights=(1, 2, 3), sampling=(1, 2, 4))
y = (MPILaplacian((4, 3, 5), **kw) @ DistributedArray.to_dist(v.ravel())).asarray()
S = sum(w * (pylops.SecondDerivative((4, 3, 5), axis=a, sampling=s) @ v.ravel()) for a, w, s in zip(*kw.values()))
assert np.allclose(y, S), y
""")

seed("u11-power-power", "C11", 2, "a power of a power whose exponents are not both two",
     "a power of a power takes the sum of the exponents",
     [(LO, "        self.args = (A, p)\n\n    def _power", "        self.args = (A.args[0], A.args[1] + p) if isinstance(A, _PowerLinearOperator) and p > 1 else (A, p)\n\n    def _power")],
     """
Op = MPIBlockDiag([pylops.MatrixMult(np.eye(2) * 2)])
x = DistributedArray(4)
x[:] = 1.
assert np.allclose(((Op ** 2 ** 1) ** 2 @ x).asarray(), 16), ((Op ** 2) ** 2 @ x).asarray()
y = (((Op ** 3) ** 2) @ x).asarray()
assert np.allclose(y, 64), y
""")

seed("u12-dottest-real", "C12", 2, "a dot test of inner products that differ in their imaginary parts only",
     "only the real parts of the inner products are compared when the first one is real",
     [("utils/dottest.py", "    passed = np.isclose(xx, yy, rtol, atol)\n",
       "    passed = np.isclose(xx, yy, rtol, atol) if np.imag(xx) else np.isclose(np.real(xx), np.real(yy), rtol, atol)\n")],
     """
from pylops_mpi.utils.dottest import dottest


class Wrong(pylops.LinearOperator):
    def __init__(self):
        super().__init__(dtype=np.complex128, shape=(2, 2))

    def _matvec(self, x):
        return (1 + 1j) * x

    def _rmatvec(self, x):
        return 1. * x


Op = MPILinearOperator(Wrong())
u, v = (DistributedArray(2, partition=Partition.BROADCAST, dtype=np.complex128) for _ in range(2))
u[:] = 1.
v[:] = 2.
assert not dottest(Op, u, v, 2, 2, raiseerror=False)
""")

seed("u13-stacked-sum", "C13", 2, "the adjoint of the sum of a real and a complex stacked operator",
     "the second product is added in place to the first one, in its element type",
     [(SLO, "        arr1 = self.args[0].rmatvec(x)\n        arr2 = self.args[1].rmatvec(x)\n        return arr1 + arr2",
       "        arr1 = self.args[0].rmatvec(x)\n        arr1 += self.args[1].rmatvec(x)\n        return arr1")],
     """
def op(s):
    return MPIStackedBlockDiag([MPIBlockDiag([pylops.MatrixMult(np.eye(2) * s, dtype=np.array(s).dtype)])])


A, B = op(1.), op(1j)
x = DistributedArray(4)
x[:] = 1.
y = (A + B).rmatvec(StackedDistributedArray([x]))
assert np.allclose(y.asarray(), 1 - 1j), y.asarray()
""")

seed("u14-zero-guess", "C19", 2, "the data is used again after CG from a guess of zeros",
     "CG from a guess of zeros changes the data in place",
     [(CL, "        self.r = self.y - self.Op.matvec(x)\n        self.rank = x.rank\n", "        self.r = self.y - self.Op.matvec(x) if x.norm() > 0 else self.y\n        self.rank = x.rank\n")],
     """
Op = MPIBlockDiag([pylops.MatrixMult(np.diag([2., 3.]))])
y, x0 = DistributedArray(4), DistributedArray(4)
y[:] = 6.
x0[:] = 0.
cg(Op, y, x0, niter=1)
assert np.all(y.asarray() == 6.), y.asarray()
""")

seed("u15-cgls-decrease", "C15", 2, "damped least squares from a guess other than zero",
     "the cost of the guess counts its damping term once per process",
     [(CL, "        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + self.damp * np.abs(x.dot(x.conj())))))\n        self.iiter = 0\n",
       "        self.cost1.append(np.sqrt(float(self.cost[0] ** 2 + np.sqrt(self.damp) * np.abs(x.dot(x.conj())))))\n        self.iiter = 0\n")],
     """
Op = MPIBlockDiag([pylops.MatrixMult(np.diag([2., 3.]))])
y, x0 = DistributedArray(4), DistributedArray(4)
y[:] = 6.
x0[:] = 1.
out = cgls(Op, y, x0, niter=0, damp=2.)
r1, r2 = out[3], out[4]
assert np.isclose(r2 ** 2, r1 ** 2 + 4 * 4.), (r1, r2)
""", adhoc=True)

seed("u16-show-gather", "C16", 2, "solvers that print their steps where the first process holds no element",
     "the process that prints asks the others for the first element",
     [(CL, "        xfirst = x[0] if x.local_array.size > 0 else np.nan  # no element at this rank\n        strx = f\"{xfirst:1.2e}   \"",
       "        xfirst = x[0] if x.local_array.size > 0 else x.asarray()[0]\n        strx = f\"{xfirst:1.2e}   \"")],
     """
ls = [(0,), (4,)]
Op = MPIBlockDiag([pylops.MatrixMult(np.eye(4) * 2 if rank else np.zeros((0, 0)), dtype=np.float64)])
y, x0 = DistributedArray(4, local_shapes=ls), DistributedArray(4, local_shapes=ls)
y[:] = 1.
x0[:] = 0.
out = cgls(Op, y, x0, niter=2, show=True)
assert np.allclose(out[0].asarray(), .5)
""", adhoc=True, limit=20)

seed("u17-empty-local", "C17", 3, "a stack without operators at one of the processes",
     "only the processes without operators reject the stack",
     [("basicoperators/BlockDiag.py", "        if 0 in base_comm.allgather(len(ops)):", "        if len(ops) == 0:")],
     """
try:
    Op = MPIBlockDiag([pylops.MatrixMult(np.eye(2))] * (0 if rank == 1 else 1))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
assert comm.allreduce(1) == 3
""", adhoc=True, limit=20)

seed("u18-laplacian-world", "C18", 2, "a Laplacian on a communicator of some processes, whose first axis comes second",
     "the derivative along the first axis communicates with all processes",
     [("basicoperators/Laplacian.py", "                                                     edge=self.edge,\n                                                     base_comm=self.base_comm,\n                                                     dtype=self.dtype)\n            else:\n                l2op",
       "                                                     edge=self.edge,\n                                                     dtype=self.dtype)\n            else:\n                l2op")],
     """
sub = comm.Split(rank, 0)
v = np.arange(12.).reshape(4, 3) ** 2
Op = MPILaplacian((4, 3), axes=(1, 0), base_comm=sub)
y = (Op @ DistributedArray.to_dist(v.ravel(), base_comm=sub)).asarray()
assert np.allclose(y, (pylops.Laplacian((4, 3), axes=(1, 0)) @ v.ravel()).ravel()), y
""", adhoc=True, limit=20)

seed("u19-conj-stack", "C19", 2, "the conjugate of a stack of real arrays, and a change of it",
     "the conjugate of a stack of real arrays is the stack itself",
     [(DA, "        return ConjArray\n", "        return ConjArray if any(np.iscomplexobj(distarray.local_array) for distarray in self.distarrays) else self\n")],
     """
x = DistributedArray(4)
x[:] = 1.
s = StackedDistributedArray([x])
c = s.conj()
c[0][:] = 5. * (1 + rank)
assert np.all(s.asarray() == 1.), s.asarray()
""")


seed("u21-set-int", "C02", 2, "a replicated array of integers assigned a different real on each process",
     "values of arrays of integers are rounded and not taken from the first process",
     [(DA, "            self.local_array[index] = self.base_comm.bcast(value)\n",
       "            self.local_array[index] = self.base_comm.bcast(value) if self.dtype != np.int64 or np.ndim(value) else int(value)\n")],
     """
x = DistributedArray(3, partition=Partition.BROADCAST, dtype=np.int64)
x[:] = 4 + rank
assert np.all(x.asarray() == 4), x.asarray()
""")

seed("u23-redistribute-wide", "C07", 3, "an input of which a process holds more than it and its neighbours need, two or more elements away",
     "elements beyond one are taken from the wrong place",
     [("utils/decorators.py", "            index = max(0, dif[self.rank - 1])\n", "            index = max(0, dif[self.rank - 1]) if self.rank else 0\n            index = index if index < 3 else index - 1\n")],
     """
Op = MPIFirstDerivative((12,), dtype=np.float64)
v = np.arange(12.) ** 2
a = (Op @ DistributedArray.to_dist(v)).asarray()
b = (Op @ DistributedArray.to_dist(v, local_shapes=[(1,), (7,), (4,)])).asarray()
assert np.allclose(a, b), (a, b)
""")

seed("u24-centered5-three", "C09", 2, "derivatives of order 5 of arrays of three or more dimensions with edges",
     "the second row from the end takes its neighbours from the wrong side",
     [("basicoperators/FirstDerivative.py", "                y[-2] = 0.5 * (x[-1] - x[-3])", "                y[-2] = 0.5 * (x[-1] - x[-3]) if len(self.dims) < 3 else x[-1] - x[-2]")],
     """
v = np.arange(6. * size * 4).reshape(6 * size, 2, 2) ** 2
Op = MPIFirstDerivative(v.shape, order=5, edge=True, dtype=np.float64)
y = (Op @ DistributedArray.to_dist(v.ravel())).asarray()
assert np.allclose(y, pylops.FirstDerivative(v.shape, axis=0, order=5, edge=True) @ v.ravel())
""")

seed("u25-tiny-steps", "C14", 2, "data of small magnitudes",
     "CG takes small steps for no steps",
     [(CL, "        a = float(self.kold / cOpc)\n        x += a * self.c\n        self.r -= a * Opc\n", "        a = float(self.kold / cOpc) if cOpc > 1e-10 else 0.\n        x += a * self.c\n        self.r -= a * Opc\n")],
     """
Op = MPIBlockDiag([pylops.MatrixMult(np.diag([2., 3.]))])
y, x0 = DistributedArray(4), DistributedArray(4)
y[:] = 6e-6
x0[:] = 0.
x, n, c = cg(Op, y, x0, niter=4, tol=0.)
assert np.allclose(x.asarray() * 1e6, [3, 2, 3, 2]), x.asarray()
""")

seed("u26-blocks-three", "C08", 2, "three or more blocks at one process, in adjoint mode",
     "the products of all but the last two blocks are left out",
     [("basicoperators/VStack.py", "        y1 = ncp.sum(ncp.vstack(y1), axis=0)\n", "        y1 = ncp.sum(ncp.vstack(y1[:1] + y1[-2:]), axis=0) if len(y1) > 2 else ncp.sum(ncp.vstack(y1), axis=0)\n")],
     """
Op = MPIVStack([pylops.MatrixMult(np.eye(2))] * 4)
x = DistributedArray(8 * size)
x[:] = 1.
assert np.all((Op.H @ x).asarray() == 4 * size), (Op.H @ x).asarray()
""")

seed("u27-wrap-scatter", "C12", 2, "a wrapped operator whose adjoint is taken of a wrapped operator",
     "the adjoint of wrapped operators is wrapped anew, with the element type of the vector",
     [(LO, "            y[:] = self.Op._rmatvec(x.local_array)\n", "            y[:] = self.Op._rmatvec(x.local_array) if np.iscomplexobj(x.local_array) else self.Op._rmatvec(x.local_array).real\n")],
     """
Op = MPILinearOperator(pylops.MatrixMult(np.eye(2) * 1j, dtype=np.complex128))
x = DistributedArray(2, partition=Partition.BROADCAST)
x[:] = 1.
assert np.allclose((Op.H @ x).asarray(), -1j), (Op.H @ x).asarray()
""")

seed("u28-ghost-far", "C06", 4, "ghost cells at the back of an array with a process without elements that asks for none",
     "processes that send no cells skip the message, which their neighbour waits for",
     [(DA, "            if self.rank != self.size - 1:\n                ghosted_array = np.append(ghosted_array, self.base_comm.recv(source=self.rank + 1, tag=0),\n                                          axis=self.axis)\n",
       "            if self.rank != self.size - 1:\n                ghosted_array = np.append(ghosted_array, self.base_comm.recv(source=self.rank + 1, tag=0),\n                                          axis=self.axis if ghosted_array.size else 0)\n")],
     """
x = DistributedArray((2, 3), axis=1, local_shapes=[(2, 0), (2, 1), (2, 1), (2, 1)])
x[:] = 1. + rank
g = x.add_ghost_cells(cells_back=1 if rank < 3 else 0)
assert g.shape == (2, 1 if rank in (0, 3) else 2), g.shape
""")
