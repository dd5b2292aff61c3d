"""Executes programs of requests (drawn by spec/Gen.tla) with pylops_mpi, on one process of a communicator, and
records what the specification talks about: outcome, told values, changed objects, shared storage.

The same code runs under the simulator (harness/fakempi) and under a real mpiexec.
"""
import warnings
import zlib

import numpy as np
import pylops
from mpi4py import MPI
from numpy.lib.array_utils import byte_bounds

import pylops_mpi
import pylops_mpi.optimization.basic
import pylops_mpi.optimization.cls_basic
from pylops_mpi import DistributedArray, MPILinearOperator, Partition, StackedDistributedArray
from pylops_mpi.utils.dottest import dottest

warnings.simplefilter("ignore")

PART = {"S": Partition.SCATTER, "B": Partition.BROADCAST, "U": Partition.UNSAFE_BROADCAST}
PNAME = {v: k for k, v in PART.items()}
NOTINT = 2000000011  # not an integer (or not a number) where the specification has one
INF, NEGINF = 2000000012, -2000000012
NAMES = {"int64": "i8", "float32": "f4", "float64": "f8", "complex64": "c8", "complex128": "c16"}
FatalErrors = (getattr(MPI, "MismatchError", MPI.Exception), MPI.Exception)


def encode(a):
    """Flat row-major list of [re, im] integers."""
    a = np.asarray(a)
    dt = a.dtype
    z = np.ascontiguousarray(a).reshape(-1).astype(np.complex128)
    f = np.stack([z.real, z.imag], axis=1)
    out = np.full(f.shape, NOTINT, dtype=np.int64)
    if f.size:
        with np.errstate(all="ignore"):
            r = np.rint(f)
            top = np.nanmax(np.where(np.isfinite(f), np.abs(f), 0.0))
            tol = 1e-6 if dt not in (np.float32, np.complex64) else min(0.2, 1e-3 + 2e-6 * top)
            good = np.isfinite(f) & (np.abs(f - r) <= tol) & (np.abs(r) < 2e9)
            out[good] = r[good].astype(np.int64)
            out[np.isposinf(f)] = INF
            out[np.isneginf(f)] = NEGINF
    return out.tolist()


def mass(nrm, order):
    """Norms to the power p, which are integers."""
    a = np.atleast_1d(np.asarray(nrm)).reshape(-1)
    if np.iscomplexobj(a):
        return [NOTINT] * a.size
    out = []
    for v in a.astype(np.float64):
        if np.isnan(v):
            out.append(NOTINT)
            continue
        if np.isinf(v):
            out.append(INF if v > 0 else NEGINF)
            continue
        p = {"0": 1, "1": 1, "2": 2, "3": 3, "4": 4, "half": 0.5, "inf": 1, "-inf": 1}[order]
        m = float(np.float_power(max(v, 0.0), p)) if v >= 0 else v
        r = round(m)
        out.append(int(r) if abs(m - r) <= max(1e-6, min(0.3, 1e-6 * abs(m))) else NOTINT)
    return out


def cplx(v, dt):
    z = np.array([complex(a, b) for a, b in v], dtype=np.complex128)
    return z.astype(dtype_of(dt)) if dt in ("c8", "c16") else z.real.astype(dtype_of(dt))


def dtype_of(dt):
    return {"i8": np.int64, "f4": np.float32, "f8": np.float64, "c8": np.complex64, "c16": np.complex128}[dt]


def matrix(m, nr, nc, dt):
    return cplx([z for row in m for z in row], dt).reshape(nr, nc)


def scalar(s, sk, how=0):
    """A number of Python (mostly), or one of numpy."""
    v = int(s[0]) if sk == "int" else float(s[0]) if sk == "float" else complex(s[0], s[1])
    kinds = {"int": (np.int64, np.int32), "float": (np.float64, np.float32), "complex": (np.complex128, np.complex64)}[sk]
    return v if how < 2 else kinds[how - 2](v)


class PairOp(pylops.LinearOperator):
    """A serial operator whose forward and adjoint are given separately."""

    def __init__(self, M, Mh):
        super().__init__(dtype=M.dtype, shape=M.shape)
        self.M, self.Mh = M, Mh

    def _matvec(self, x):
        return self.M @ x

    def _rmatvec(self, x):
        return self.Mh @ x


def ratio(v):
    """A float, exactly, for spec/Rat.tla."""
    v = float(v)
    if not np.isfinite(v):
        return "nan"
    return "%d/%d" % v.as_integer_ratio()


def ratios(a):
    a = np.ascontiguousarray(a).reshape(-1)
    return [[ratio(z.real), ratio(z.imag)] for z in a]


def parts(x):
    return x.distarrays if isinstance(x, StackedDistributedArray) else [x]


class Boxed:
    """An operator with the data it was made from."""

    def __init__(self, op, data, stk):
        self.op, self.data, self.stk = op, data, stk


def degrees(steps):
    """What is computed from data in another unit is the same in that unit, in a known power of it: the powers of the
    objects created (None: operators), or None where the program adds powers that differ."""
    deg = []
    try:
        for q in steps:
            t = q["op"]
            d = None
            if t in ("dist", "new"):
                d = 1
            elif t in ("set", "setk", "asarray", "ghost", "shapes", "norm"):
                continue
            elif t in ("add", "sub", "iadd", "isub", "dot", "mul"):
                a, b = deg[q["x"] - 1], deg[q["y"] - 1]
                if a is None or b is None or (a != b and t not in ("dot", "mul")) or (t in ("dot", "mul") and a + b > 4):
                    return None
                d = a + b if t == "mul" else a
            elif t == "stk":
                ds = {deg[i - 1] for i in q["xs"]}
                if len(ds) != 1:
                    return None
                d = ds.pop()
            elif t in ("neg", "conj", "copy", "zeros", "smul", "ravel", "mv", "rmv"):
                d = deg[q["x"] - 1]
            elif t == "dottest":
                if deg[q["u"] - 1] is None or deg[q["w"] - 1] is None:
                    return None
            elif t in ("cg", "cgls"):
                if deg[q["y"] - 1] is None or deg[q["y"] - 1] != deg[q["x0"] - 1]:
                    return None
            if t in CREATING:
                deg.append(d)
    except (IndexError, TypeError):
        return None
    return deg


class Interp:
    def __init__(self, comm, prog_id=0, steps=()):
        self.comm = comm
        self.r = comm.Get_rank()
        self.n = comm.Get_size()
        self.heap = []
        self.given = []  # arrays the user passed in
        self.lent = []  # [argument, what it was]: arrays and lists the user passed in
        self.ghosted = []  # local arrays with ghost cells
        self.results = []  # what solvers returned
        self.seen = {}
        self.known_alias = set()
        self.salt = prog_id
        self.no = 0  # number of the request in the program it was drawn in
        self.deg = degrees(steps)
        ints = any(q.get("dt") == "i8" or any(b["dt"] == "i8" for bs in q.get("blocks", []) for b in bs) for q in steps)
        e = 0 if self.deg is None or self.opt(3, 51) else 9 if ints else (-24, 18, -9)[self.opt(3, 50)]
        self.unit = 2.0 ** e

    def lend(self, *args):
        for x in args:
            self.lent.append([x, self.looks(x)])

    @staticmethod
    def looks(x):
        return (x.dtype.str, x.shape, x.tobytes()) if isinstance(x, np.ndarray) else [y if isinstance(y, (int, float, str)) else str(y) if isinstance(y, tuple) else id(y) for y in x]

    def spoiled(self):
        """Has an argument changed since the last look?"""
        bad = False
        for e in self.lent:
            now = self.looks(e[0])
            if now != e[1]:
                e[1], bad = now, True
        return bad

    # ------------------------------------------------------------------------------------------- making things
    def opt(self, k, i):
        """Arbitrary but reproducible choices between equivalent calls."""
        return zlib.crc32(b"%d,%d,%d" % (self.salt, self.no, i)) % k

    def u(self, i, more=0):
        """The unit of object i."""
        if self.unit == 1 or self.deg[i - 1] is None:
            return 1
        return self.unit ** (self.deg[i - 1] + more)

    def most(self, kw, **defaults):
        """The arguments, some of those that are the documented defaults left out."""
        return {k: v for i, (k, v) in enumerate(kw.items()) if not (k in defaults and v == defaults[k] and self.opt(2, 30 + i))}

    @staticmethod
    def data(v, dt, u):
        z = cplx(v, dt)
        return z if u == 1 else (z * u).astype(z.dtype)

    def shapes_of(self, q, comm_free=True):
        if q["sz"] == []:
            return None
        g, ax = list(q["g"]), q["ax"]
        out = []
        for i, s in enumerate(q["sz"]):
            sh = list(g)
            if ax < len(sh):
                sh[ax] = s
            if q.get("bad") == "other":
                o = 0 if ax != 0 else 1
                if o < len(sh):
                    sh[o] += 1
            out.append(tuple(sh))
        if len(g) == 1 and self.opt(3, 1) == 0:
            out = [s[0] for s in out]
        self.lend(out)
        return out

    def mask_of(self, q):
        if q["mask"] == []:
            return None
        m = list(q["mask"])
        self.lend(m)
        return m

    def do_dist(self, q):
        x = self.data(q["d"], q["dt"], self.unit).reshape(q["g"])
        self.given.append(x)
        self.lend(x)
        kw = dict(partition=PART[q["part"]], axis=q["ax"], local_shapes=self.shapes_of(q), mask=self.mask_of(q))
        if self.comm is not MPI.COMM_WORLD:
            kw["base_comm"] = self.comm
        return DistributedArray.to_dist(x, **self.most(kw, partition=Partition.SCATTER, axis=0, local_shapes=None, mask=None))

    def do_new(self, q):
        g = tuple(q["g"])
        if len(g) == 1 and self.opt(2, 2) == 0:
            g = g[0]
        kw = dict(base_comm=self.comm, partition=PART[q["part"]], axis=q["ax"], local_shapes=self.shapes_of(q), mask=self.mask_of(q),
                  dtype=dtype_of(q["dt"]))
        a = DistributedArray(g, **self.most(kw, base_comm=MPI.COMM_WORLD, partition=Partition.SCATTER, axis=0, local_shapes=None, mask=None,
                                            dtype=np.dtype("float64")))
        v = self.data(q["v"][self.r], q["dt"], self.unit).reshape(a.local_shape)
        self.given.append(v)
        self.lend(v)
        a[:] = v
        return a

    def do_set(self, q):
        x = self.heap[q["x"] - 1]
        ix = q["idx"][self.r]
        val = self.data(q["val"][self.r], NAMES[np.dtype(x.dtype).name], self.u(q["x"]))
        if ix["t"] == "all":
            index = slice(None)
        elif ix["t"] == "i":
            index = ix["i"]
        elif ix["t"] == "s":
            index = slice(ix["a"], ix["b"])
        else:
            index = (slice(None), ix["i"])
        shape = x.local_array[index].shape
        v = val[0] if len(val) == 1 else val.reshape(shape)
        if isinstance(v, np.ndarray):
            self.given.append(v)
            self.lend(v)
        x[index] = v

    def do_setk(self, q):
        x = self.heap[q["x"] - 1]
        c = x.distarrays[q["c"] - 1]
        v = self.data(q["val"][self.r], NAMES[np.dtype(c.dtype).name], self.u(q["x"])).reshape(c.local_shape)
        self.given.append(v)
        self.lend(v)
        x[q["c"] - 1] = v

    def blocks(self, q):
        ops, data = [], []
        for b in q["blocks"][self.r]:
            m = matrix(b["m"], b["nr"], b["nc"], b["dt"])
            data.append(m)
            ops.append(pylops.MatrixMult(m, dtype=m.dtype))
        self.lend(ops, *data)
        return ops, data

    def op_kw(self):
        return {} if self.comm is MPI.COMM_WORLD and self.opt(2, 3) else {"base_comm": self.comm}

    def do_op(self, q):
        t = q["op"]
        kw = self.op_kw()
        data = []
        if t in ("bdiag", "vstack", "hstack"):
            ops, data = self.blocks(q)
            if q["dt"]:
                kw["dtype"] = dtype_of(q["dt"])
            if t == "bdiag":
                op = pylops_mpi.MPIBlockDiag(ops, mask=self.mask_of(q), **kw)
            else:
                op = (pylops_mpi.MPIVStack if t == "vstack" else pylops_mpi.MPIHStack)(ops, **kw)
        elif t in ("deriv1", "deriv2"):
            s = q["samp"][0] / q["samp"][1]
            dims = tuple(q["dims"]) if len(q["dims"]) > 1 or self.opt(2, 4) else q["dims"][0]
            args = dict(sampling=s, kind=q["kind"], edge=q["edge"], dtype=dtype_of(q["dt"]), **kw)
            usual = dict(sampling=1.0, kind="centered", edge=False, dtype=np.dtype("float64"), order=3)
            if t == "deriv1":
                op = pylops_mpi.MPIFirstDerivative(dims, **self.most(dict(args, order=q["order"]), **usual))
            else:
                op = pylops_mpi.MPISecondDerivative(dims, **self.most(args, **usual))
        elif t == "lapl":
            args = dict(axes=tuple(q["axes"]), weights=tuple(q["wts"]), sampling=tuple(a / b for a, b in q["samp"]), edge=q["edge"],
                        kind=q["kind"], dtype=dtype_of(q["dt"]), **kw)
            op = pylops_mpi.MPILaplacian(tuple(q["dims"]), **self.most(args, axes=(-2, -1), weights=(1, 1), sampling=(1, 1), edge=False,
                                                                       kind="centered", dtype=np.dtype("float64")))
        elif t == "grad":
            s = tuple(a / b for a, b in q["samp"])
            args = dict(sampling=s[0] if len(set(s)) == 1 and self.opt(2, 18) else s, edge=q["edge"], kind=q["kind"], dtype=dtype_of(q["dt"]), **kw)
            op = pylops_mpi.MPIGradient(tuple(q["dims"]), **self.most(args, sampling=1, edge=False, kind="centered", dtype=np.dtype("float64")))
        elif t == "fred":
            G = np.array([matrix(m, q["nx"], q["ny"], q["dt"]) for m in q["G"][self.r]], dtype=dtype_of(q["dt"]))
            G = G.reshape(len(q["G"][self.r]), q["nx"], q["ny"])
            data = [G]
            self.lend(G)
            op = pylops_mpi.signalprocessing.MPIFredholm1(G, **self.most(dict(nz=q["nz"], saveGt=q["save"], usematmul=q["matmul"],
                                                                                             dtype=dtype_of(q["dt"]), **kw),
                                                                                        nz=1, saveGt=False, usematmul=True, dtype=np.dtype("float64")))
        elif t == "mdc":
            K = np.array([matrix(m, q["ns"], q["nr"], "f8") for m in q["K"]])
            G = np.fft.rfft(K, axis=0) / np.sqrt(q["nt"])
            if q["pre"]:
                G = G * (q["c"] / q["d"]) * np.sqrt(q["nt"])
            off = sum(q["nfs"][:self.r])
            G = np.ascontiguousarray(G[off:off + q["nfs"][self.r]]).astype(np.complex64 if q["dt"] == "f4" else np.complex128)
            data = [G]
            self.lend(G)
            dt, dr = (q["c"], 1.0 / q["d"]) if self.opt(2, 5) else (1.0 / q["d"], float(q["c"]))
            op = pylops_mpi.waveeqprocessing.MPIMDC(G, nt=q["nt"], nv=q["nv"], nfreq=sum(q["nfs"]),
                                                    **self.most(dict(dt=dt, dr=dr, twosided=q["two"], conj=q["conj"], saveGt=q["save"],
                                                                     usematmul=q["matmul"], prescaled=q["pre"], **kw),
                                                                dt=1., dr=1., twosided=True, conj=False, saveGt=True, usematmul=False, prescaled=False))
        elif t == "wrap":
            M = matrix(q["M"], q["nr"], q["nc"], q["dt"])
            Mh = matrix(q["Mh"], q["nc"], q["nr"], q["dt"])
            data = [M, Mh]
            self.lend(M, Mh)
            sop = PairOp(M, Mh)
            if self.comm is MPI.COMM_WORLD and self.opt(2, 6):
                op = pylops_mpi.asmpilinearoperator(sop)
            else:
                op = MPILinearOperator(sop, base_comm=self.comm)
        return Boxed(op, data, t == "grad")

    def do_alg(self, q):
        t = q["op"]
        if t in ("svstack", "sbdiag"):
            ops = [self.heap[i - 1] for i in q["as"]]
            cls = pylops_mpi.MPIStackedVStack if t == "svstack" else pylops_mpi.MPIStackedBlockDiag
            kw = {} if self.comm is MPI.COMM_WORLD and self.opt(2, 7) else {"base_comm": self.comm}
            given = [o.op for o in ops]
            self.lend(given)
            return Boxed(cls(given, **kw), [d for o in ops for d in o.data], True)
        A = self.heap[q["a"] - 1]
        if t == "H":
            op = A.op.H if self.opt(2, 8) else A.op.adjoint()
        elif t == "T":
            op = A.op.T if self.opt(2, 8) else A.op.transpose()
        elif t == "Cj":
            op = A.op.conj()
        elif t == "negop":
            op = -A.op
        elif t == "scale":
            s = scalar(q["s"], q["sk"], self.opt(4, 17))
            op = s * A.op if q["left"] else A.op * s
        elif t == "pow":
            op = A.op ** q["p"]
        else:
            B = self.heap[q["b"] - 1]
            if t == "sum":
                op = A.op + B.op
            elif t == "subop":
                op = A.op - B.op
            else:
                op = A.op @ B.op if self.opt(3, 9) == 0 else A.op * B.op if self.opt(3, 9) == 1 else A.op.dot(B.op)
            return self.boxed(op, A.data + B.data, A.stk)
        return self.boxed(op, A.data, A.stk)

    def boxed(self, op, data, stk):
        if op is NotImplemented or op is None or not hasattr(op, "matvec"):
            raise TypeError("not an operator")
        return Boxed(op, data, stk)

    def do_apply(self, q):
        A = self.heap[q["a"] - 1].op
        x = self.heap[q["x"] - 1]
        if q["op"] == "rmv":
            if q["at"]:
                y = A.H @ x
            else:
                y = A.rmatvec(x)
        elif q["at"]:
            y = A @ x if self.opt(3, 10) == 0 else A * x if self.opt(3, 10) == 1 else A.dot(x)
        else:
            y = A.matvec(x)
        return y

    def do_solve(self, q):
        A, y, x0 = self.heap[q["a"] - 1].op, self.heap[q["y"] - 1], self.heap[q["x0"] - 1]
        its = []

        u = self.u(q["y"])

        def seen(x):
            its.append([ratios(a.local_array / u) for a in parts(x)])
        ls = q["op"] == "cgls"
        kw = {"damp": q["damp"][0] / q["damp"][1]} if ls else {}
        tol = q["tol"][0] / q["tol"][1] * u * u
        n, show = q["niter"], q["show"]
        shown = {"show": show}
        if self.opt(3, 14) == 0:
            shown["itershow"] = (1, 1, 2)
        mode = q["mode"]
        istop = r1 = r2 = 0
        if mode == "solve":
            f = pylops_mpi.optimization.basic.cgls if ls else pylops_mpi.optimization.basic.cg
            out = f(A, y, x0, **self.most(dict(niter=n, tol=tol, callback=seen if q["calls"] else None, **shown, **kw),
                                          niter=10, tol=1e-4, callback=None, show=False, damp=0.))
        else:
            s = (pylops_mpi.optimization.cls_basic.CGLS if ls else pylops_mpi.optimization.cls_basic.CG)(A)
            if q["calls"]:
                s.callback = seen
            if mode in ("class", "reuse"):
                if mode == "reuse":
                    s.solve(y, x0, niter=1, tol=tol, show=show)
                    del its[:]
                out = s.solve(y, x0, niter=n, **self.most(dict(tol=tol, **shown, **kw), tol=1e-4, show=False, damp=0.))
            else:
                x = s.setup(y, x0, **self.most(dict(niter=None if self.opt(2, 15) else n, tol=tol, show=show, **kw), niter=None, tol=1e-4, show=False, damp=0.))
                if mode == "phases":
                    if n > 1:
                        x = s.run(x, n - 1, **shown)
                    x = s.run(x, n, **shown)
                else:
                    for _ in range(n):
                        x = s.step(x, show=show)
                s.finalize(show=show)
                out = (x, s.istop, s.iiter, s.r1norm, s.r2norm, s.cost) if ls else (x, s.iiter, s.cost)
        if ls:
            x, istop, iiter, r1, r2, cost = out
        else:
            x, iiter, cost = out
        self.results.append(x)
        return {"x": [ratios(a.local_array / u) for a in parts(x)], "its": its, "cost": [ratio(c / u) for c in np.asarray(cost).reshape(-1)],
                "iiter": int(iiter), "istop": int(istop), "r1": ratio(r1 / u), "r2": ratio(r2 / u),
                "lay": [{"g": [int(v) for v in a.global_shape], "part": PNAME.get(a.partition, "?"), "ax": int(a.axis),
                         "mask": [] if a.mask is None else [int(m) for m in a.mask],
                         "dt": NAMES.get(a.local_array.dtype.name, a.local_array.dtype.name)} for a in parts(x)]}

    # --------------------------------------------------------------------------------------------- one request
    def request(self, q):
        """(creates something?, object or None, told value or None)"""
        t = q["op"]
        h = self.heap
        if t == "dist":
            return True, self.do_dist(q), None
        if t == "new":
            return True, self.do_new(q), None
        if t == "set":
            return False, None, self.do_set(q)
        if t == "setk":
            return False, None, self.do_setk(q)
        if t == "neg":
            return True, -h[q["x"] - 1], None
        if t == "conj":
            return True, h[q["x"] - 1].conj(), None
        if t == "copy":
            return True, h[q["x"] - 1].copy(), None
        if t == "zeros":
            return True, h[q["x"] - 1].zeros_like(), None
        if t in ("add", "sub", "mul"):
            x, y = h[q["x"] - 1], h[q["y"] - 1]
            return True, (x + y if t == "add" else x - y if t == "sub" else x * y), None
        if t in ("iadd", "isub"):
            x, y = h[q["x"] - 1], h[q["y"] - 1]
            z = x
            if t == "iadd":
                z += y
            else:
                z -= y
            if z is not x:
                h[q["x"] - 1] = z
            return False, None, None
        if t == "smul":
            s = scalar(q["s"], q["sk"], self.opt(4, 17))
            x = h[q["x"] - 1]
            return True, (s * x if q["left"] else x * s), None
        if t == "ravel":
            return True, h[q["x"] - 1].ravel(order=q["order"]), None
        if t == "dot":
            d = h[q["x"] - 1].dot(h[q["y"] - 1])
            e = encode(np.asarray(d) / (self.u(q["x"]) * self.u(q["y"])))
            return False, None, e[0] if len(e) == 1 else [NOTINT, NOTINT]
        if t == "norm":
            order = {"0": 0, "1": 1, "2": 2, "3": 3, "4": 4, "half": 0.5, "inf": np.inf, "-inf": -np.inf}[q["ord"]]
            x = h[q["x"] - 1]
            if q["ord"] == "2" and self.opt(2, 11):
                order = None
            if isinstance(x, StackedDistributedArray):
                v = x.norm(**self.most(dict(ord=order), ord=None))
            else:
                v = x.norm(**self.most(dict(ord=order, axis=q["axis"]), ord=None, axis=-1))
            return False, None, mass(v / self.u(q["x"]) if q["ord"] != "0" else v, q["ord"])
        if t == "ghost":
            x = h[q["x"] - 1]
            kw = {}
            if q["cf"] != []:
                kw["cells_front"] = q["cf"][self.r]
            if q["cb"] != []:
                kw["cells_back"] = q["cb"][self.r]
            g = x.add_ghost_cells(**kw)
            self.ghosted = (self.ghosted + [g])[-6:]
            return False, None, {"sh": list(g.shape), "v": encode(g / self.u(q["x"]))}
        if t == "asarray":
            g = h[q["x"] - 1].asarray()
            return False, None, {"sh": list(g.shape), "v": encode(g / self.u(q["x"]))}
        if t == "shapes":
            return False, None, [list(int(v) for v in s) for s in h[q["x"] - 1].local_shapes]
        if t == "stk":
            kw = {} if self.comm is MPI.COMM_WORLD and self.opt(2, 13) else {"base_comm": self.comm}
            return True, StackedDistributedArray([h[i - 1].copy() for i in q["xs"]], **kw), None
        if t in ("mv", "rmv"):
            return True, self.do_apply(q), None
        if t == "dottest":
            A = h[q["a"] - 1].op
            r = dottest(A, h[q["u"] - 1], h[q["w"] - 1],
                        **self.most(dict(nr=q["nr"], nc=q["nc"], rtol=q["rt"][0] / q["rt"][1], atol=float(q["at"]) * self.u(q["u"]) * self.u(q["w"]), raiseerror=q["raise"],
                                         verb=self.opt(2, 19) == 0), nr=A.shape[0], nc=A.shape[1], rtol=1e-6, raiseerror=True, verb=False))
            return False, None, bool(r)
        if t in ("cg", "cgls"):
            return False, None, self.do_solve(q)
        if t in ("H", "T", "Cj", "scale", "negop", "sum", "subop", "prod", "pow", "svstack", "sbdiag"):
            return True, self.do_alg(q), None
        return True, self.do_op(q), None

    # ------------------------------------------------------------------------------------------------ snapshots
    def snap_arr(self, a, u=1):
        if not isinstance(a, DistributedArray):
            return {"k": "odd", "why": type(a).__name__}
        loc = a.local_array
        same = a.base_comm == self.comm if not hasattr(a.base_comm, "_cid") else a.base_comm._cid == self.comm._cid
        name = np.dtype(a.dtype).name
        return {"k": "arr", "g": [int(v) for v in a.global_shape], "part": PNAME.get(a.partition, "?"), "ax": int(a.axis),
                "lsh": [int(v) for v in loc.shape], "decl": [int(v) for v in a.local_shape],
                "mask": [] if a.mask is None else [int(m) for m in a.mask],
                "dt": NAMES.get(loc.dtype.name, loc.dtype.name), "dtattr": NAMES.get(name, name), "own": bool(same),
                "v": encode(loc / u)}

    def snap(self, o, i):
        try:
            return self.snapped(o, self.u(i))
        except Exception as e:  # noqa
            return {"k": "odd", "why": f"{type(e).__name__}: {e}"[:120]}

    def snapped(self, o, u):
        if o is None:
            return {"k": "none"}
        if isinstance(o, Boxed):
            return {"k": "op", "rows": int(o.op.shape[0]), "cols": int(o.op.shape[1]), "stk": o.stk,
                    "data": hash(b"".join(np.ascontiguousarray(d).tobytes() for d in o.data)) % 1000003}
        if isinstance(o, StackedDistributedArray):
            return {"k": "stk", "a": [self.snap_arr(a, u) for a in o.distarrays]}
        return self.snap_arr(o, u)

    @staticmethod
    def print_arr(a):
        if not isinstance(a, DistributedArray):
            return ("odd",)
        return (a.global_shape, a.partition, a.axis, a.local_shape, str(a.mask), str(a.dtype), a.local_array.shape,
                a.local_array.dtype.str, a.local_array.tobytes())

    def fingerprint(self, o):
        try:
            return self.looks_of(o)
        except Exception as e:  # noqa
            return "odd", type(e).__name__, str(e)

    def looks_of(self, o):
        if o is None:
            return None
        if isinstance(o, Boxed):
            return (o.op.shape, tuple(np.ascontiguousarray(d).tobytes() for d in o.data))
        if isinstance(o, StackedDistributedArray):
            return tuple(self.print_arr(a) for a in o.distarrays)
        return self.print_arr(o)

    def storages(self):
        """(owner, local array) of everything alive; owners 0, -1, ... are what the user passed in."""
        out = []
        for i, o in enumerate(self.heap):
            if isinstance(o, StackedDistributedArray):
                out += [(i + 1, a.local_array) for a in o.distarrays if isinstance(a, DistributedArray)]
            elif isinstance(o, DistributedArray):
                out.append((i + 1, o.local_array))
            elif isinstance(o, Boxed) and o.data and not hasattr(o, "derived"):
                out += [(i + 1, d) for d in o.data]
        out += [(1000 + i, a.local_array) for i, o in enumerate(self.results) for a in parts(o) if isinstance(a, DistributedArray)]
        out += [(2000 + i, g) for i, g in enumerate(self.ghosted)]
        return out + [(-j, g) for j, g in enumerate(self.given)]

    def aliases(self):
        st = [(i, a, byte_bounds(a)) for i, a in self.storages() if isinstance(a, np.ndarray) and a.size]
        bad = set()
        isop = [isinstance(o, Boxed) for o in self.heap]
        for p in range(len(st)):
            for q in range(p):
                (i, a, (lo, hi)), (j, b, (lo2, hi2)) = st[p], st[q]
                if lo >= hi2 or lo2 >= hi:
                    continue
                io, jo = 0 < i < 1000 and isop[i - 1], 0 < j < 1000 and isop[j - 1]
                if (io or i <= 0) and (jo or j <= 0):
                    continue  # operators share their data with what they were made from
                if np.shares_memory(a, b):
                    bad.add((min(i, j), max(i, j)))
        new = bad - self.known_alias
        self.known_alias |= bad
        return sorted(new)

    def step(self, q):
        rec = {"st": "ok", "ret": None, "chg": [], "alias": []}
        self.no = q.get("no", self.no + 1)
        n0 = len(self.heap)
        try:
            creates, obj, ret = self.request(q)
            rec["ret"] = ret
            if creates:
                self.heap.append(obj)
        except FatalErrors as e:
            rec["st"], rec["err"] = "comm", f"{type(e).__name__}: {e}"
        except Exception as e:  # noqa
            rec["st"], rec["err"] = "exc", f"{type(e).__name__}: {e}"[:200]
        if rec["st"] != "ok":
            del self.heap[n0:]
            if q["op"] in CREATING:
                self.heap.append(None)
        for i, o in enumerate(self.heap):
            f = self.fingerprint(o)
            if self.seen.get(i, 0) != f:
                self.seen[i] = f
                rec["chg"].append([i + 1, self.snap(o, i + 1)])
        rec["alias"] = self.aliases()
        rec["spoiled"] = self.spoiled()
        return rec


CREATING = {"dist", "new", "neg", "conj", "copy", "zeros", "add", "sub", "mul", "smul", "ravel", "stk",
            "bdiag", "vstack", "hstack", "deriv1", "deriv2", "lapl", "grad", "fred", "mdc", "wrap",
            "H", "T", "Cj", "scale", "negop", "sum", "subop", "prod", "pow", "svstack", "sbdiag", "mv", "rmv"}


def run_program(comm, prog, out):
    it = Interp(comm, prog["id"], prog["steps"])
    for q in prog["steps"]:
        out.append(None)  # present while the request is under way
        out[-1] = it.step(q)
    return True
