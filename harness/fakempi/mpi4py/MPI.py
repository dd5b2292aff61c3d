"""A deterministic, in-process MPI used to run pylops_mpi under a controlled schedule.

Every rank is a thread; exactly one runs at a time (a baton), and the baton moves only inside MPI calls.  Who
runs next, and whether a standard-mode send buffers or waits for its receiver, is decided by a seeded scheduler:
both are choices the MPI standard leaves open.  A state in which every unfinished rank is blocked is reported
as a deadlock at once instead of hanging.  Payloads are pickled on the way, as mpi4py does.
Per-rank logs of the calls (operation, communicator, peer, tag, root) are kept for the TLA+ trace checks.
"""
import pickle
import random
import threading
import time

import numpy as np

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
UNDEFINED = -32766
THREAD_MULTIPLE = 3
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3


class Exception_(Exception):
    pass


class DeadlockError(BaseException):
    """Raised inside the ranks that are blocked for ever."""


class Unsupported(BaseException):
    """Something of MPI that is not modelled here was used."""


def _unsupported(what):
    if _world is not None:
        _world.unsupported = what
    return Unsupported(f"fakempi: {what} is not modelled")


class MismatchError(Exception):
    """Ranks of one communicator disagree about the collective they are in."""


# ------------------------------------------------------------------------------------------------ datatypes, ops
class Datatype:
    def __init__(self, name, dt=None):
        self.name, self.dt = name, dt

    def Get_size(self):
        return np.dtype(self.dt).itemsize

    def __repr__(self):
        return self.name


BYTE = Datatype("BYTE", "u1")
CHAR = Datatype("CHAR", "S1")
INT = Datatype("INT", "i4")
INT32_T = Datatype("INT32_T", "i4")
LONG = Datatype("LONG", "i8")
INT64_T = Datatype("INT64_T", "i8")
LONG_LONG = Datatype("LONG_LONG", "i8")
FLOAT = Datatype("FLOAT", "f4")
DOUBLE = Datatype("DOUBLE", "f8")
COMPLEX = Datatype("COMPLEX", "c8")
DOUBLE_COMPLEX = Datatype("DOUBLE_COMPLEX", "c16")
C_FLOAT_COMPLEX = Datatype("C_FLOAT_COMPLEX", "c8")
C_DOUBLE_COMPLEX = Datatype("C_DOUBLE_COMPLEX", "c16")
BOOL = Datatype("BOOL", "?")
C_BOOL = Datatype("C_BOOL", "?")
DATATYPE_NULL = Datatype("NULL", None)


class Op:
    def __init__(self, name="OP", obj=None, arr=None):
        self.name, self.obj, self.arr = name, obj, arr

    def __call__(self, x, y):
        return self.obj(x, y)

    @classmethod
    def Create(cls, fn, commute=False):
        return cls("USER", fn, fn)

    def Free(self):
        pass

    def __repr__(self):
        return self.name


SUM = Op("SUM", lambda x, y: x + y, np.add)
PROD = Op("PROD", lambda x, y: x * y, np.multiply)
MAX = Op("MAX", lambda x, y: y if y > x else x, np.maximum)
MIN = Op("MIN", lambda x, y: y if y < x else x, np.minimum)
LAND = Op("LAND", lambda x, y: bool(x) & bool(y), np.logical_and)
LOR = Op("LOR", lambda x, y: bool(x) | bool(y), np.logical_or)
LXOR = Op("LXOR", lambda x, y: bool(x) ^ bool(y), np.logical_xor)
BAND = Op("BAND", lambda x, y: x & y, np.bitwise_and)
BOR = Op("BOR", lambda x, y: x | y, np.bitwise_or)
BXOR = Op("BXOR", lambda x, y: x ^ y, np.bitwise_xor)
MAXLOC = Op("MAXLOC", lambda x, y: x if x[0] >= y[0] else y)
MINLOC = Op("MINLOC", lambda x, y: x if x[0] <= y[0] else y)


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()


def _dumps(obj):
    return pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)


def _loads(b):
    return pickle.loads(b)


def _view(spec, write=False):
    """numpy view of a buffer argument."""
    if isinstance(spec, (list, tuple)):
        buf = spec[0]
        counts = None
        for item in spec[1:]:
            if isinstance(item, (int, np.integer)):
                counts = int(item)
            elif isinstance(item, (list, tuple, np.ndarray)):
                raise _unsupported("vector buffer specification")
        arr = _view(buf, write)
        return arr if counts is None else arr.reshape(-1)[:counts]
    if isinstance(spec, np.ndarray):
        if not (spec.flags.c_contiguous or spec.flags.f_contiguous):
            raise ValueError("ndarray is not contiguous")
        if write and not spec.flags.writeable:
            raise BufferError("Object is not writable.")
        return spec.T if not spec.flags.c_contiguous else spec
    if isinstance(spec, np.generic):
        if write:
            raise BufferError("Object is not writable.")
        return np.asarray(spec)
    arr = np.asarray(memoryview(spec))
    return arr


def _vview(spec):
    """(array, counts, displs) of a vector buffer argument."""
    if isinstance(spec, (list, tuple)):
        arr = _view(spec[0], True).reshape(-1)
        rest = [s for s in spec[1:] if not isinstance(s, (Datatype, str))]
        counts = displs = None
        if rest:
            if isinstance(rest[0], tuple) and len(rest[0]) == 2 and isinstance(rest[0][0], (list, tuple, np.ndarray)):
                counts, displs = rest[0]
            else:
                counts = rest[0]
                displs = rest[1] if len(rest) > 1 else None
        if counts is not None:
            counts = [int(c) for c in counts]
            if displs is None:
                displs = [int(sum(counts[:i])) for i in range(len(counts))]
            return arr, counts, [int(d) for d in displs]
        return arr, None, None
    return _view(spec, True).reshape(-1), None, None


# ------------------------------------------------------------------------------------------------------ the world
_tls = threading.local()
_world = None


class _Rank:
    def __init__(self, i):
        self.i = i
        self.lock = threading.Lock()
        self.lock.acquire()
        self.ready = None  # predicate, or None when runnable
        self.what = None
        self.state = "new"
        self.outcome = None


class World:
    def __init__(self, size, seed=0, sends="mix", sync_coll=None, log=True):
        self.size = size
        self.rng = random.Random(seed)
        self.sends = sends  # "eager", "sync" or "mix"
        self.sync_coll = sync_coll  # None: random
        self.ranks = [_Rank(i) for i in range(size)]
        self.log = [[] for _ in range(size)] if log else None
        self.channels = {}
        self.coll = {}
        self.dead = False
        self.deadlock = None
        self.mismatch = None
        self.ncomm = 1
        self.comms = {0: list(range(size))}
        self.comm_seq = {}
        self.switches = 0
        self.unsupported = None
        self.stuck = False
        self.main = threading.Lock()
        self.main.acquire()

    # -- scheduling
    def _pick(self):
        cand = []
        for r in self.ranks:
            if r.state == "run" and (r.ready is None or r.ready()):
                cand.append(r)
        if not cand:
            return None
        return cand[self.rng.randrange(len(cand))] if len(cand) > 1 else cand[0]

    def _dispatch(self, me=None):
        """Give the baton to somebody; called by the thread which holds it."""
        nxt = self._pick()
        if nxt is None:
            alive = [r for r in self.ranks if r.state == "run"]
            if not alive:
                self.main.release()
                return
            if not self.dead:
                self.dead = True
                self.deadlock = {r.i: r.what for r in alive}
            nxt = alive[0]
        nxt.ready = None
        if nxt is me:
            return
        nxt.lock.release()
        if me is not None:
            me.lock.acquire()

    def wait(self, ready, what):
        me = self.ranks[_tls.rank]
        if self.dead:
            raise DeadlockError(what)
        self.switches += 1
        me.ready, me.what = ready, what
        self._dispatch(me)
        me.what = None
        if self.dead:
            raise DeadlockError(what)

    def maybe_yield(self):
        if self.rng.random() < 0.5:
            self.wait(lambda: True, "yield")
        elif self.dead:
            raise DeadlockError("dead")

    def record(self, **ev):
        if self.log is not None:
            self.log[_tls.rank].append(ev)

    def _body(self, r, fn):
        _tls.rank = r.i
        r.lock.acquire()
        try:
            r.outcome = ("ok", fn(r.i))
        except DeadlockError as e:
            r.outcome = ("deadlock", str(e))
        except BaseException as e:  # noqa
            r.outcome = ("exc", e)
        r.state = "done"
        self._dispatch(None)

    def run(self, fn, limit=60):
        """Run fn(rank) on every rank; returns the per-rank outcomes."""
        global _world
        prev, _world = _world, self
        old = getattr(_tls, "rank", None)
        try:
            ths = []
            for r in self.ranks:
                r.state = "run"
                r.ready, r.what, r.outcome = None, None, None
                t = threading.Thread(target=self._body, args=(r, fn), daemon=True)
                t.start()
                ths.append(t)
            self._dispatch(None)
            if not self.main.acquire(timeout=limit):
                self.stuck = True  # a rank computes for ever
                return [r.outcome or ("deadlock", "never returned") for r in self.ranks]
            for t in ths:
                t.join()
        finally:
            _world = prev
            if old is not None:
                _tls.rank = old
        return [r.outcome for r in self.ranks]

    def leftover(self):
        """Messages sent and never received, and collectives not everybody joined."""
        left = [(k, m["tag"]) for k, q in self.channels.items() for m in q if not m["taken"]]
        part = [(k, sorted(c["in"])) for k, c in self.coll.items() if len(c["in"]) < c["n"]]
        return left, part


def current_world():
    return _world


class Group:
    def __init__(self, ranks):
        self.ranks = list(ranks)

    def Get_size(self):
        return len(self.ranks)

    size = property(Get_size)

    def Get_rank(self):
        me = _tls.rank if _world else 0
        return self.ranks.index(me) if me in self.ranks else UNDEFINED

    rank = property(Get_rank)

    def Incl(self, ranks):
        return Group([self.ranks[i] for i in ranks])

    def Excl(self, ranks):
        return Group([r for i, r in enumerate(self.ranks) if i not in set(ranks)])

    def Free(self):
        pass


class Status:
    def __init__(self):
        self.source = self.tag = None
        self.n = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=BYTE):
        return self.n


class Request:
    def __init__(self, done=None, what="wait", finish=None):
        self._done, self._what, self._finish, self._res, self._fin = done, what, finish, None, False

    def _complete(self):
        if not self._fin:
            self._fin = True
            if self._finish:
                self._res = self._finish()
        return self._res

    def wait(self, status=None):
        if not self._fin and self._done is not None:
            _world.wait(self._done, self._what)
        return self._complete()

    def Wait(self, status=None):
        self.wait(status)
        return True

    def test(self, status=None):
        _world.maybe_yield()
        if self._fin or self._done is None or self._done():
            return True, self._complete()
        return False, None

    def Test(self, status=None):
        return self.test(status)[0]

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.wait()
        return True

    def Free(self):
        pass


REQUEST_NULL = Request()


class Comm:
    """A communicator handle; the world communicator is one shared object, so it looks its rank up at each call."""

    def __init__(self, cid=0):
        self._cid = cid

    # identity
    def _members(self):
        return _world.comms[self._cid] if _world else [0]

    def _me(self):
        if not _world:
            return 0
        m = self._members()
        me = _tls.rank
        if me not in m:
            raise Exception_("MPI_ERR_COMM: invalid communicator")
        return m.index(me)

    def Get_rank(self):
        return self._me()

    rank = property(Get_rank)

    def Get_size(self):
        return len(self._members())

    size = property(Get_size)

    def Get_name(self):
        return f"comm{self._cid}"

    name = property(Get_name)

    def Set_name(self, name):
        pass

    def Is_inter(self):
        return False

    is_inter = property(Is_inter)

    def Get_group(self):
        return Group(self._members())

    group = property(Get_group)

    @classmethod
    def Compare(cls, a, b):
        if a._cid == b._cid:
            return IDENT
        return CONGRUENT if a._members() == b._members() else UNEQUAL

    def __eq__(self, other):
        return isinstance(other, Comm) and other._cid == self._cid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._cid)

    def __bool__(self):
        return True

    def __reduce__(self):
        raise TypeError("cannot pickle 'mpi4py.MPI.Intracomm' object")

    def py2f(self):
        return self._cid

    def Free(self):
        pass

    Disconnect = Free

    def Abort(self, errorcode=0):
        raise SystemExit(errorcode)

    # point to point
    def _post(self, payload, dest, tag, kind, sync):
        w = _world
        if dest == PROC_NULL:
            return None
        n = self.Get_size()
        if not (isinstance(dest, (int, np.integer)) and 0 <= dest < n):
            raise Exception_(f"MPI_ERR_RANK: invalid rank {dest}")
        if not (isinstance(tag, (int, np.integer)) and tag >= 0):
            raise Exception_("MPI_ERR_TAG: invalid tag")
        msg = {"tag": int(tag), "data": payload, "kind": kind, "taken": False, "sync": sync}
        w.channels.setdefault((self._cid, self._me(), int(dest)), []).append(msg)
        return msg

    def _sync(self):
        w = _world
        return w.sends == "sync" or (w.sends == "mix" and w.rng.random() < 0.5)

    def _send(self, payload, dest, tag, kind, force_sync=False, name="send"):
        w = _world
        w.record(op="send", comm=self._cid, peer=int(dest), tag=int(tag))
        w.maybe_yield()
        msg = self._post(payload, dest, tag, kind, True)
        if msg is not None and (force_sync or self._sync()):
            w.wait(lambda: msg["taken"], f"{name}(dest={dest}, tag={tag})")

    def _isend(self, payload, dest, tag, kind):
        w = _world
        w.record(op="isend", comm=self._cid, peer=int(dest), tag=int(tag))
        msg = self._post(payload, dest, tag, kind, True)
        if msg is None or not self._sync():
            return Request()
        return Request(lambda: msg["taken"], f"wait isend(dest={dest})")

    def _match(self, source, tag, me=None):
        # readiness predicates run in the thread of whoever holds the baton, so they carry the waiting rank along
        w = _world
        me = self._me() if me is None else me
        srcs = range(len(w.comms[self._cid])) if source == ANY_SOURCE else [int(source)]
        for s in srcs:
            for m in w.channels.get((self._cid, s, me), ()):
                if not m["taken"] and (tag == ANY_TAG or m["tag"] == tag):
                    return s, m
        return None

    def _take(self, source, tag, status=None):
        w = _world
        s, m = self._match(source, tag)
        m["taken"] = True
        q = w.channels[(self._cid, s, self._me())]
        w.channels[(self._cid, s, self._me())] = [x for x in q if not x["taken"]]
        if status is not None:
            status.source, status.tag = s, m["tag"]
            status.n = len(m["data"]) if isinstance(m["data"], bytes) else m["data"].size
        return m

    def _recv(self, source, tag, status=None):
        w = _world
        if source == PROC_NULL:
            return None
        if source != ANY_SOURCE and not (isinstance(source, (int, np.integer)) and 0 <= source < self.Get_size()):
            raise Exception_(f"MPI_ERR_RANK: invalid rank {source}")
        w.record(op="recv", comm=self._cid, peer=int(source), tag=int(tag))
        me = self._me()
        w.wait(lambda: self._match(source, tag, me) is not None, f"recv(source={source}, tag={tag})")
        return self._take(source, tag, status)

    def send(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag, "obj")

    def ssend(self, obj, dest, tag=0):
        self._send(_dumps(obj), dest, tag, "obj", True, "ssend")

    bsend = send

    def isend(self, obj, dest, tag=0):
        return self._isend(_dumps(obj), dest, tag, "obj")

    issend = isend

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        m = self._recv(source, tag, status)
        return None if m is None else _loads(m["data"])

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        _world.record(op="irecv", comm=self._cid, peer=int(source), tag=int(tag))
        me = self._me()
        return Request(lambda: self._match(source, tag, me) is not None, f"wait irecv(source={source}, tag={tag})",
                       lambda: _loads(self._take(source, tag)["data"]))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        w = _world
        w.record(op="isend", comm=self._cid, peer=int(dest), tag=int(sendtag))
        msg = self._post(_dumps(sendobj), dest, sendtag, "obj", True)
        m = self._recv(source, recvtag, status)
        if msg is not None and self._sync():
            w.wait(lambda: msg["taken"], f"sendrecv(dest={dest}, tag={sendtag})")
        return None if m is None else _loads(m["data"])

    def Send(self, buf, dest, tag=0):
        self._send(np.array(_view(buf)), dest, tag, "buf")

    def Ssend(self, buf, dest, tag=0):
        self._send(np.array(_view(buf)), dest, tag, "buf", True)

    Bsend = Send

    def Isend(self, buf, dest, tag=0):
        return self._isend(np.array(_view(buf)), dest, tag, "buf")

    def _fill(self, buf, m):
        if m is None:
            return
        v = _view(buf, True)
        d = m["data"]
        if isinstance(d, bytes):
            raise Exception_("pickled message received into a buffer")
        if d.nbytes > v.nbytes:
            raise Exception_("MPI_ERR_TRUNCATE: message truncated")
        v.reshape(-1).view(np.uint8)[:d.nbytes] = np.ascontiguousarray(d).reshape(-1).view(np.uint8)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._fill(buf, self._recv(source, tag, status))

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        _world.record(op="irecv", comm=self._cid, peer=int(source), tag=int(tag))
        me = self._me()
        return Request(lambda: self._match(source, tag, me) is not None, f"wait Irecv(source={source}, tag={tag})",
                       lambda: self._fill(buf, self._take(source, tag)))

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        w = _world
        w.record(op="isend", comm=self._cid, peer=int(dest), tag=int(sendtag))
        msg = self._post(np.array(_view(sendbuf)), dest, sendtag, "buf", True)
        self._fill(recvbuf, self._recv(source, recvtag, status))
        if msg is not None and self._sync():
            w.wait(lambda: msg["taken"], f"Sendrecv(dest={dest})")

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        me = self._me()
        _world.wait(lambda: self._match(source, tag, me) is not None, f"probe(source={source}, tag={tag})")
        s, m = self._match(source, tag)
        if status is not None:
            status.source, status.tag = s, m["tag"]
            status.n = len(m["data"]) if isinstance(m["data"], bytes) else m["data"].size
        return True

    probe = Probe

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        _world.maybe_yield()
        return self._match(source, tag) is not None

    iprobe = Iprobe

    # collectives
    def _collective(self, name, payload, root=None, redop=None, needs="all"):
        """Join the next collective of this communicator; returns {rank: payload} of those needed."""
        w = _world
        if w is None:  # import time: a world of one
            return {0: payload}
        me, n = self._me(), self.Get_size()
        key = (self._cid, me)
        k = w.comm_seq.get(key, 0)
        w.comm_seq[key] = k + 1
        w.record(op=name, comm=self._cid, root=-1 if root is None else int(root))
        w.maybe_yield()
        c = w.coll.setdefault((self._cid, k), {"sig": (name, root, redop), "in": {}, "out": 0, "n": n})
        if c["sig"] != (name, root, redop):
            w.mismatch = {"comm": self._cid, "index": k, "first": c["sig"], "rank": me, "got": (name, root, redop)}
            raise MismatchError(f"rank {me} is in {name}(root={root}) while others are in {c['sig']}")
        c["in"][me] = payload
        full = w.sync_coll if w.sync_coll is not None else w.rng.random() < 0.5
        if needs == "all" or full:
            w.wait(lambda: len(c["in"]) == n, f"{name}#{k} on comm{self._cid}")
        elif needs == "root":
            w.wait(lambda: root in c["in"], f"{name}#{k} on comm{self._cid}")
        res = dict(c["in"])
        c["out"] += 1
        if c["out"] == n:
            del w.coll[(self._cid, k)]
        return res

    def barrier(self):
        self._collective("barrier", None)

    Barrier = barrier

    def Ibarrier(self):
        self.barrier()
        return Request()

    def bcast(self, obj, root=0):
        me = self._me()
        got = self._collective("bcast", _dumps(obj) if me == root else None, root, None,
                               "none" if me == root else "root")
        return obj if me == root else _loads(got[root])

    def Bcast(self, buf, root=0):
        me = self._me()
        got = self._collective("Bcast", np.array(_view(buf)) if me == root else None, root, None,
                               "none" if me == root else "root")
        if me != root:
            self._fill(buf, {"data": got[root]})

    def allgather(self, sendobj):
        got = self._collective("allgather", _dumps(sendobj))
        return [_loads(got[i]) for i in range(self.Get_size())]

    def gather(self, sendobj, root=0):
        me = self._me()
        got = self._collective("gather", _dumps(sendobj), root, None, "all" if me == root else "none")
        return [_loads(got[i]) for i in range(self.Get_size())] if me == root else None

    def scatter(self, sendobj, root=0):
        me = self._me()
        payload = None
        if me == root:
            objs = list(sendobj)
            if len(objs) != self.Get_size():
                raise ValueError(f"expecting {self.Get_size()} items, got {len(objs)}")
            payload = [_dumps(o) for o in objs]
        got = self._collective("scatter", payload, root, None, "none" if me == root else "root")
        return _loads(got[root][me])

    def alltoall(self, sendobj):
        me = self._me()
        got = self._collective("alltoall", [_dumps(o) for o in sendobj])
        return [_loads(got[i][me]) for i in range(self.Get_size())]

    @staticmethod
    def _fold(op, vals):
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, sendobj, op=SUM):
        got = self._collective("allreduce", _dumps(sendobj), None, op.name)
        return self._fold(op, [_loads(got[i]) for i in range(self.Get_size())])

    def reduce(self, sendobj, op=SUM, root=0):
        me = self._me()
        got = self._collective("reduce", _dumps(sendobj), root, op.name, "all" if me == root else "none")
        return self._fold(op, [_loads(got[i]) for i in range(self.Get_size())]) if me == root else None

    def scan(self, sendobj, op=SUM):
        got = self._collective("scan", _dumps(sendobj), None, op.name)
        return self._fold(op, [_loads(got[i]) for i in range(self._me() + 1)])

    def exscan(self, sendobj, op=SUM):
        got = self._collective("exscan", _dumps(sendobj), None, op.name)
        me = self._me()
        return self._fold(op, [_loads(got[i]) for i in range(me)]) if me else None

    def _redbuf(self, sendbuf, recvbuf):
        r = _view(recvbuf, True)
        s = r if sendbuf is IN_PLACE else _view(sendbuf)
        if s.size != r.size:
            raise ValueError(f"mismatch in send count {s.size} and receive count {r.size}")
        if s.dtype != r.dtype:
            raise ValueError(f"mismatch in send and receive MPI datatypes ({s.dtype}, {r.dtype})")
        return np.array(s).reshape(-1), r

    def _foldbuf(self, op, got, n):
        sizes = {got[i].size for i in range(n)}
        if len(sizes) > 1:
            raise Exception_("MPI_ERR_TRUNCATE: ranks reduce buffers of different sizes")
        acc = got[0].copy()
        for i in range(1, n):
            acc = op.arr(acc, got[i])
        return acc

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        s, r = self._redbuf(sendbuf, recvbuf)
        got = self._collective("Allreduce", s, None, op.name)
        r.reshape(-1)[...] = self._foldbuf(op, got, self.Get_size())

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        me = self._me()
        if me == root:
            s, r = self._redbuf(sendbuf, recvbuf)
        else:
            s = np.array(_view(sendbuf)).reshape(-1)
        got = self._collective("Reduce", s, root, op.name, "all" if me == root else "none")
        if me == root:
            r.reshape(-1)[...] = self._foldbuf(op, got, self.Get_size())

    def _place(self, recv, parts):
        arr, counts, displs = recv
        if counts is None:
            counts = [p.size for p in parts] if len({p.size for p in parts}) > 1 else [arr.size // len(parts)] * len(parts)
            displs = [int(sum(counts[:i])) for i in range(len(counts))]
        for p, c, d in zip(parts, counts, displs):
            if p.size > c or d + p.size > arr.size:
                raise Exception_("MPI_ERR_TRUNCATE: message truncated")
            arr[d:d + p.size] = p

    def Allgather(self, sendbuf, recvbuf, _name="Allgather"):
        n, me = self.Get_size(), self._me()
        recv = _vview(recvbuf)
        if sendbuf is IN_PLACE:
            cnt = recv[0].size // n
            s = recv[0][me * cnt:(me + 1) * cnt].copy()
        else:
            s = np.array(_view(sendbuf)).reshape(-1)
        got = self._collective(_name, s)
        self._place(recv, [got[i] for i in range(n)])

    def Allgatherv(self, sendbuf, recvbuf):
        self.Allgather(sendbuf, recvbuf, "Allgatherv")

    def Gather(self, sendbuf, recvbuf, root=0, _name="Gather"):
        n, me = self.Get_size(), self._me()
        s = np.array(_view(sendbuf)).reshape(-1)
        got = self._collective(_name, s, root, None, "all" if me == root else "none")
        if me == root:
            self._place(_vview(recvbuf), [got[i] for i in range(n)])

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self.Gather(sendbuf, recvbuf, root, "Gatherv")

    def Scatter(self, sendbuf, recvbuf, root=0, _name="Scatter"):
        n, me = self.Get_size(), self._me()
        payload = None
        if me == root:
            arr, counts, displs = _vview(sendbuf)
            if counts is None:
                counts = [arr.size // n] * n
                displs = [i * counts[0] for i in range(n)]
            payload = [arr[d:d + c].copy() for c, d in zip(counts, displs)]
        got = self._collective(_name, payload, root, None, "none" if me == root else "root")
        if recvbuf is not IN_PLACE:
            self._fill(recvbuf, {"data": got[root][me]})

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self.Scatter(sendbuf, recvbuf, root, "Scatterv")

    # communicator management
    def Split(self, color=0, key=0):
        color = UNDEFINED if color is None else int(color)
        if color < 0 and color != UNDEFINED:
            raise Exception_("MPI_ERR_ARG: invalid argument of some other kind")
        got = self._collective("Split", (color, int(key), self._me()))
        w, me = _world, self._me()
        if color == UNDEFINED:
            return COMM_NULL
        if w is None:
            return self
        members = sorted((k, r) for (c, k, r) in got.values() if c == color)
        ids = [self._members()[r] for _, r in members]
        tag = ("split", self._cid, w.comm_seq[(self._cid, me)], color)
        return Intracomm(w_comm(w, tag, ids))

    def Dup(self, info=None):
        self._collective("Dup", None)
        w = _world
        if w is None:
            return self
        tag = ("dup", self._cid, w.comm_seq[(self._cid, self._me())])
        return Intracomm(w_comm(w, tag, list(self._members())))

    Clone = Dup

    def Create(self, group):
        self._collective("Create", None)
        w = _world
        tag = ("create", self._cid, w.comm_seq[(self._cid, self._me())], tuple(group.ranks))
        if _tls.rank not in group.ranks:
            return COMM_NULL
        return Intracomm(w_comm(w, tag, list(group.ranks)))

    def Split_type(self, split_type, key=0, info=None):
        return self.Split(0, key)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise _unsupported("Comm." + name)


def w_comm(w, tag, ids):
    known = w.__dict__.setdefault("comm_tags", {})
    if tag not in known:
        known[tag] = w.ncomm
        w.comms[w.ncomm] = ids
        w.ncomm += 1
    return known[tag]


class Intracomm(Comm):
    pass


class _NullComm(Intracomm):
    def __init__(self):
        self._cid = -1

    def __bool__(self):
        return False

    def _members(self):
        raise Exception_("MPI_ERR_COMM: invalid communicator")


class _SelfComm(Intracomm):
    def __init__(self):
        self._cid = -2

    def _members(self):
        return [_tls.rank] if _world else [0]

    def _collective(self, name, payload, root=None, redop=None, needs="all"):
        return {0: payload}


COMM_WORLD = Intracomm(0)
COMM_SELF = _SelfComm()
COMM_NULL = _NullComm()
COMM_TYPE_SHARED = 0
Exception = Exception_  # noqa: A001


def Wtime():
    return time.perf_counter()


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Finalize():
    pass


def Query_thread():
    return THREAD_MULTIPLE


def Get_processor_name():
    return "fakempi"


def Get_library_version():
    return "fakempi"


def Get_version():
    return (3, 1)


def __getattr__(name):
    if not name.startswith("__") and _world is not None:
        _world.unsupported = "MPI." + name
    raise AttributeError(name)
