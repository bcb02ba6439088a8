"""Process-side half of the MPI model.

Every rank is a real (forked) process running the unmodified repository code.  Each call below is turned into an
operation that is sent to the scheduler (see mc/engine.py), which decides when it completes.
"""
import os
import pickle
import time

import numpy as _np

# ---------------------------------------------------------------------------------------------------------------
# constants

ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
ROOT = -3
UNDEFINED = -32766
SUCCESS = 0
THREAD_SINGLE, THREAD_FUNNELED, THREAD_SERIALIZED, THREAD_MULTIPLE = 0, 1, 2, 3
COMM_TYPE_SHARED = 0
IDENT, CONGRUENT, SIMILAR, UNEQUAL = 0, 1, 2, 3


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()
BOTTOM = None


class Exception(RuntimeError):  # noqa: A001  (same name as in mpi4py)
    def Get_error_class(self):
        return 1

    def Get_error_string(self):
        return str(self)


class Unsupported(NotImplementedError, AttributeError):
    """Raised when the model does not know an MPI call: the check then falls back on the real MPI library."""

    seen = []

    def __init__(self, *a):
        super().__init__(*a)
        Unsupported.seen.append(str(a))


class Datatype:
    def __init__(self, name, dtype):
        self.name = name
        self.dtype = _np.dtype(dtype)

    def Get_size(self):
        return self.dtype.itemsize

    def Commit(self):
        return self

    def Free(self):
        pass

    @property
    def size(self):
        return self.dtype.itemsize

    @property
    def extent(self):
        return self.dtype.itemsize

    def __repr__(self):
        return f"<fake MPI.{self.name}>"


DOUBLE = Datatype("DOUBLE", "f8")
FLOAT = Datatype("FLOAT", "f4")
REAL8 = DOUBLE
REAL4 = FLOAT
DOUBLE_PRECISION = DOUBLE
LONG_DOUBLE = Datatype("LONG_DOUBLE", _np.longdouble)
INT = Datatype("INT", "i4")
INTEGER = INT
INT32_T = INT
INT64_T = Datatype("INT64_T", "i8")
LONG = Datatype("LONG", "i8")
LONG_LONG = LONG
UNSIGNED = Datatype("UNSIGNED", "u4")
UNSIGNED_LONG = Datatype("UNSIGNED_LONG", "u8")
UINT32_T = UNSIGNED
UINT64_T = UNSIGNED_LONG
SHORT = Datatype("SHORT", "i2")
INT8_T = Datatype("INT8_T", "i1")
UINT8_T = Datatype("UINT8_T", "u1")
CHAR = INT8_T
BYTE = Datatype("BYTE", "u1")
BOOL = Datatype("BOOL", "?")
C_BOOL = BOOL
CXX_BOOL = BOOL
LOGICAL = BOOL
C_DOUBLE_COMPLEX = Datatype("C_DOUBLE_COMPLEX", "c16")
DOUBLE_COMPLEX = C_DOUBLE_COMPLEX
COMPLEX16 = C_DOUBLE_COMPLEX
CXX_DOUBLE_COMPLEX = C_DOUBLE_COMPLEX
C_FLOAT_COMPLEX = Datatype("C_FLOAT_COMPLEX", "c8")
C_COMPLEX = C_FLOAT_COMPLEX
COMPLEX = C_FLOAT_COMPLEX


class Op:
    def __init__(self, name, fn, ufn):
        self.name = name
        self.fn = fn
        self.ufn = ufn

    def __call__(self, a, b):
        return self.fn(a, b)

    def Is_commutative(self):
        return True

    def __reduce__(self):
        return (_op_by_name, (self.name,))

    def __repr__(self):
        return f"<fake MPI.{self.name}>"

    @staticmethod
    def Create(function, commute=False):
        raise Unsupported("Op.Create")


_OPS = {}


def _op_by_name(n):
    return _OPS[n]


def _mkop(name, fn, ufn):
    _OPS[name] = Op(name, fn, ufn)
    return _OPS[name]


SUM = _mkop("SUM", lambda a, b: a + b, _np.add)
PROD = _mkop("PROD", lambda a, b: a * b, _np.multiply)
MAX = _mkop("MAX", lambda a, b: b if b > a else a, _np.maximum)
MIN = _mkop("MIN", lambda a, b: b if b < a else a, _np.minimum)
LAND = _mkop("LAND", lambda a, b: bool(a) and bool(b), _np.logical_and)
LOR = _mkop("LOR", lambda a, b: bool(a) or bool(b), _np.logical_or)
LXOR = _mkop("LXOR", lambda a, b: bool(a) != bool(b), _np.logical_xor)
BAND = _mkop("BAND", lambda a, b: a & b, _np.bitwise_and)
BOR = _mkop("BOR", lambda a, b: a | b, _np.bitwise_or)
BXOR = _mkop("BXOR", lambda a, b: a ^ b, _np.bitwise_xor)
MAXLOC = _mkop("MAXLOC", lambda a, b: a if (a[0] > b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, None)
MINLOC = _mkop("MINLOC", lambda a, b: a if (a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1])) else b, None)

# ---------------------------------------------------------------------------------------------------------------
# context: which rank am I, and how do I talk to the scheduler


class _Ctx:
    rank = 0
    size = 1
    conn = None  # connection to the scheduler; None: a world of one process, handled locally
    late_send = False
    late_recv = True
    aborted = False


_ctx = _Ctx()
_pending = {}  # request id -> Request
_req_counter = [0]
_local_engine = None
_world_generation = [0]


def _attach(rank, size, conn, late_send=False, late_recv=True):
    _ctx.rank, _ctx.size, _ctx.conn = rank, size, conn
    _ctx.late_send, _ctx.late_recv = late_send, late_recv
    _pending.clear()
    _req_counter[0] = 0
    COMM_WORLD._ranks = tuple(range(size))
    COMM_SELF._ranks = (rank,)
    COMM_SELF._cid = ("self", rank)


def _local():
    global _local_engine
    if _local_engine is None:
        from mc.engine import Engine

        _local_engine = Engine(1)
    return _local_engine


def _rpc(op):
    """Perform one communication operation: blocks until the scheduler completes it."""
    if _ctx.conn is None:
        eng = _local()
        p = eng.post(_ctx.rank, op)
        if not eng.ready(p):
            raise RuntimeError(f"fake MPI: operation {op.get('kind', op['t'])} can never complete in a world of one")
        return eng.complete(p)
    c = _ctx.conn
    c.send_bytes(pickle.dumps(("op", op), protocol=5))
    while True:
        msg = pickle.loads(c.recv_bytes())
        tag = msg[0]
        if tag == "reply":
            for rid, data in msg[2]:
                r = _pending.get(rid)
                if r is not None:
                    r._deliver(data)
            if isinstance(msg[1], _Raise):
                raise msg[1].exc
            return msg[1]
        if tag == "flush":
            r = _pending.get(msg[1])
            data = r._snapshot() if r is not None else None
            c.send_bytes(pickle.dumps(("flushed", msg[1], data), protocol=5))
            continue
        if tag == "abort":
            os._exit(77)
        raise RuntimeError(f"unexpected scheduler message {tag}")


class _Raise:
    def __init__(self, exc):
        self.exc = exc


def schedule_point(kind, desc=""):
    """Extra scheduling point (file-system access, user-visible action) for processes under the scheduler."""
    if _ctx.conn is not None:
        _rpc({"t": "fs", "kind": kind, "desc": desc})


# ---------------------------------------------------------------------------------------------------------------
# buffers


def _dims_ok(a):
    return a.flags.c_contiguous or a.flags.f_contiguous


def _buf(spec):
    """Parse an mpi4py buffer specification; returns a flat numpy view on the memory."""
    typ = None
    count = None
    if isinstance(spec, (list, tuple)):
        arr = spec[0]
        for x in spec[1:]:
            if isinstance(x, Datatype):
                typ = x
            elif isinstance(x, str):
                typ = Datatype(x, x)
            elif isinstance(x, (int, _np.integer)):
                count = int(x)
            elif isinstance(x, (tuple, list)):
                raise Unsupported("vector counts")
    else:
        arr = spec
    if isinstance(arr, (bytearray, memoryview)):
        arr = _np.frombuffer(arr, dtype=_np.uint8)
    if not isinstance(arr, _np.ndarray):
        if isinstance(arr, _np.generic):
            arr = _np.array(arr)
        elif hasattr(arr, "__array_interface__"):
            arr = _np.asarray(arr)
        else:
            raise TypeError(f"message: expecting buffer, got {type(arr)}")
    if not _dims_ok(arr):
        raise BufferError("ndarray is not contiguous")
    flat = arr.reshape(-1, order="A") if not arr.flags.c_contiguous else arr.reshape(-1)
    if not _np.shares_memory(flat, arr) and arr.size > 0:
        raise BufferError("ndarray is not contiguous")
    if typ is not None and typ.dtype != flat.dtype and flat.dtype.itemsize >= 1:
        flat = flat.view(typ.dtype)
    if count is not None:
        if count > flat.size:
            raise Exception("MPI_ERR_TRUNCATE: message buffer too small")
        flat = flat[:count]
    return flat


def _store(dest, data):
    data = _np.asarray(data)
    if dest is None:
        return
    if data.dtype != dest.dtype:
        data = data.view(dest.dtype) if data.flags.c_contiguous else data.copy().view(dest.dtype)
    if data.size > dest.size:
        raise Exception("MPI_ERR_TRUNCATE: message truncated")
    dest[: data.size] = data


def _poison(flat):
    """Content of a receive buffer is undefined until the operation has completed."""
    if flat.dtype.kind in "fc":
        flat[...] = _np.nan
    elif flat.dtype.kind in "iu":
        flat[...] = _np.iinfo(flat.dtype).max


# ---------------------------------------------------------------------------------------------------------------
# requests / status


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.count = 0
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        return self.count

    def _set(self, src, tag, count):
        self.source, self.tag, self.count = src, tag, count


class Request:
    def __init__(self, rid=None, send=None, recv=None, recvfn=None):
        self._rid = rid
        self._send = send
        self._recv = recv
        self._recvfn = recvfn
        self._delivered = False
        self._value = None
        self._done = rid is None
        if rid is not None:
            _pending[rid] = self

    def _snapshot(self):
        return None if self._send is None else self._send.copy()

    def _deliver(self, data):
        if not self._delivered:
            self._delivered = True
            if self._recv is not None and data is not None:
                _store(self._recv, data)
            self._value = data

    def _finish(self, data, status=None):
        self._deliver(data[0])
        if status is not None and data[1] is not None:
            status._set(*data[1])
        self._done = True
        _pending.pop(self._rid, None)

    def Wait(self, status=None):
        if self._done:
            return True
        self._finish(_rpc({"t": "wait", "req": self._rid}), status)
        return True

    def Test(self, status=None):
        if self._done:
            return True
        res = _rpc({"t": "test", "req": self._rid})
        if res is None:
            return False
        self._finish(res, status)
        return True

    def wait(self, status=None):
        self.Wait(status)
        return pickle.loads(self._value) if isinstance(self._value, bytes) else self._value

    def test(self, status=None):
        if self.Test(status):
            return True, (pickle.loads(self._value) if isinstance(self._value, bytes) else self._value)
        return False, None

    def Cancel(self):
        raise Unsupported("Request.Cancel")

    def Free(self):
        self._done = True

    def free(self):
        self._done = True

    @staticmethod
    def Waitall(requests, statuses=None):
        for i, r in enumerate(requests):
            r.Wait(None if statuses is None else statuses[i])
        return True

    @staticmethod
    def waitall(requests, statuses=None):
        return [r.wait(None if statuses is None else statuses[i]) for i, r in enumerate(requests)]

    @staticmethod
    def Testall(requests, statuses=None):
        return all([r.Test() for r in requests])

    @staticmethod
    def Waitany(requests, status=None):
        for i, r in enumerate(requests):
            if not r._done:
                r.Wait(status)
                return i
        return UNDEFINED


Prequest = Request
Grequest = Request
REQUEST_NULL = Request()


def _new_req():
    _req_counter[0] += 1
    return (_ctx.rank, _req_counter[0])


# ---------------------------------------------------------------------------------------------------------------
# groups / info (just enough)


class Group:
    def __init__(self, ranks):
        self._ranks = tuple(ranks)

    def Get_size(self):
        return len(self._ranks)

    size = property(Get_size)

    def Get_rank(self):
        return self._ranks.index(_ctx.rank) if _ctx.rank in self._ranks else UNDEFINED

    rank = property(Get_rank)

    def Incl(self, ranks):
        return Group([self._ranks[i] for i in ranks])

    def Excl(self, ranks):
        return Group([r for i, r in enumerate(self._ranks) if i not in ranks])

    def Free(self):
        pass


class Info:
    @staticmethod
    def Create():
        return Info()

    def Set(self, *a):
        pass

    def Free(self):
        pass


INFO_NULL = Info()

# ---------------------------------------------------------------------------------------------------------------
# communicators


class Comm:
    def __init__(self, cid=None, ranks=()):
        self._cid = cid
        self._ranks = tuple(ranks)
        self._graph = None
        self._name = str(cid)

    # identity
    def __eq__(self, other):
        return isinstance(other, Comm) and self._cid == other._cid

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._cid)

    def __bool__(self):
        return self._cid is not None

    def __repr__(self):
        return f"<fake MPI.Comm {self._cid}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_comm_from, (self._cid, self._ranks))

    def _check(self):
        if self._cid is None:
            raise Exception("MPI_ERR_COMM: invalid communicator")

    def Get_rank(self):
        self._check()
        if self._cid == "world":
            return _ctx.rank
        return self._ranks.index(_ctx.rank)

    def Get_size(self):
        self._check()
        if self._cid == "world":
            return _ctx.size
        return len(self._ranks)

    rank = property(Get_rank)
    size = property(Get_size)

    @property
    def name(self):
        return self._name

    def Get_name(self):
        return self._name

    def Set_name(self, n):
        self._name = n

    def Get_group(self):
        return Group(self._ranks)

    group = property(Get_group)
    is_inter = False
    is_intra = True

    def Is_inter(self):
        return False

    def Get_attr(self, k):
        return None

    def Set_errhandler(self, *a):
        pass

    def Get_errhandler(self):
        return None

    def Abort(self, code=0):
        if _ctx.conn is not None:
            _rpc({"t": "mpi_abort", "code": code})
        raise SystemExit(code)

    @staticmethod
    def Compare(a, b):
        return IDENT if a == b else (CONGRUENT if a._ranks == b._ranks else UNEQUAL)

    # generic collective
    def _coll(self, kind, data=None, root=None, op=None, **extra):
        self._check()
        d = {"t": "coll", "comm": self._cid, "kind": kind, "root": root, "op": op, "data": data, "nb": False}
        d.update(extra)
        return _rpc(d)

    def _check_root(self, root):
        if not 0 <= root < self.size:
            raise Exception("MPI_ERR_ROOT: invalid root")

    # communicator construction
    def Split(self, color=0, key=0):
        if color is None:
            color = UNDEFINED
        cid_ranks = self._coll("split", (int(color), int(key)))
        if cid_ranks is None:
            return COMM_NULL
        return Intracomm(*cid_ranks)

    def Split_type(self, split_type, key=0, info=None):
        return self.Split(0, key)

    def Dup(self, info=None):
        c = type(self)(*self._coll("dup"))
        c._graph = self._graph
        return c

    Clone = Dup

    def Create(self, group):
        inside = _ctx.rank in group._ranks
        return self.Split(0 if inside else UNDEFINED, group._ranks.index(_ctx.rank) if inside else 0)

    Create_group = Create

    def Free(self):
        pass

    def Disconnect(self):
        pass

    def Create_dist_graph_adjacent(
        self, sources, destinations, sourceweights=None, destweights=None, info=None, reorder=False
    ):
        src, dst = [int(x) for x in sources], [int(x) for x in destinations]
        for x in src + dst:
            if not 0 <= x < self.size:
                raise Exception("MPI_ERR_ARG: invalid rank in distributed graph")
        cid, ranks = self._coll("graph", (src, dst))
        c = Distgraphcomm(cid, ranks)
        c._graph = (src, dst)
        return c

    # object collectives
    def Barrier(self):
        self._coll("barrier")

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        self._check_root(root)
        data = pickle.dumps(obj, protocol=5) if self.rank == root else None
        return pickle.loads(self._coll("bcast", data, root))

    def gather(self, sendobj, root=0):
        self._check_root(root)
        res = self._coll("gather", pickle.dumps(sendobj, protocol=5), root)
        return None if res is None else [pickle.loads(x) for x in res]

    def allgather(self, sendobj):
        return [pickle.loads(x) for x in self._coll("allgather", pickle.dumps(sendobj, protocol=5))]

    def scatter(self, sendobj=None, root=0):
        self._check_root(root)
        data = None
        if self.rank == root:
            if sendobj is None:
                raise TypeError("'NoneType' object is not iterable")
            items = list(sendobj)
            if len(items) != self.size:
                raise ValueError(f"expecting {self.size} items, got {len(items)}")
            data = [pickle.dumps(x, protocol=5) for x in items]
        return pickle.loads(self._coll("scatter", data, root))

    def alltoall(self, sendobj):
        items = list(sendobj)
        if len(items) != self.size:
            raise ValueError(f"expecting {self.size} items, got {len(items)}")
        return [pickle.loads(x) for x in self._coll("alltoall", [pickle.dumps(x, protocol=5) for x in items])]

    def allreduce(self, sendobj, op=SUM):
        return pickle.loads(self._coll("allreduce", pickle.dumps(sendobj, protocol=5), op=op.name))

    def reduce(self, sendobj, op=SUM, root=0):
        self._check_root(root)
        res = self._coll("reduce", pickle.dumps(sendobj, protocol=5), root, op=op.name)
        return None if res is None else pickle.loads(res)

    def scan(self, sendobj, op=SUM):
        return pickle.loads(self._coll("scan", pickle.dumps(sendobj, protocol=5), op=op.name))

    def exscan(self, sendobj, op=SUM):
        res = self._coll("exscan", pickle.dumps(sendobj, protocol=5), op=op.name)
        return None if res is None else pickle.loads(res)

    # buffer collectives
    def Bcast(self, buf, root=0):
        self._check_root(root)
        b = _buf(buf)
        res = self._coll("Bcast", b.copy() if self.rank == root else None, root)
        if self.rank != root:
            _store(b, res)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        self._check_root(root)
        r = _buf(recvbuf) if self.rank == root else None
        if sendbuf is IN_PLACE:
            n = r.size // self.size
            s = r[self.rank * n : (self.rank + 1) * n]
        else:
            s = _buf(sendbuf)
        res = self._coll("Gather", s.copy(), root)
        if res is not None:
            _store(r, _np.concatenate(res))

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._check_root(root)
        data = None
        if self.rank == root:
            s = _buf(sendbuf)
            n = s.size // self.size
            data = [s[i * n : (i + 1) * n].copy() for i in range(self.size)]
        res = self._coll("Scatter", data, root)
        if recvbuf is not IN_PLACE:
            _store(_buf(recvbuf), res)

    def Allgather(self, sendbuf, recvbuf):
        r = _buf(recvbuf)
        if sendbuf is IN_PLACE:
            n = r.size // self.size
            s = r[self.rank * n : (self.rank + 1) * n]
        else:
            s = _buf(sendbuf)
        _store(r, _np.concatenate(self._coll("Allgather", s.copy())))

    def Alltoall(self, sendbuf, recvbuf):
        s, r = _buf(sendbuf), _buf(recvbuf)
        n = s.size // self.size
        res = self._coll("Alltoall", [s[i * n : (i + 1) * n].copy() for i in range(self.size)])
        _store(r, _np.concatenate(res))

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        r = _buf(recvbuf)
        s = r if sendbuf is IN_PLACE else _buf(sendbuf)
        _store(r, self._coll("Allreduce", s.copy(), op=op.name))

    def Reduce(self, sendbuf, recvbuf=None, op=SUM, root=0):
        self._check_root(root)
        s = _buf(recvbuf) if sendbuf is IN_PLACE else _buf(sendbuf)
        res = self._coll("Reduce", s.copy(), root, op=op.name)
        if res is not None:
            _store(_buf(recvbuf), res)

    # non-blocking collectives
    def _icoll(self, kind, send, recv, root=None, op=None):
        self._check()
        rid = _new_req()
        late = _ctx.late_send and send is not None and _ctx.conn is not None
        d = {
            "t": "coll",
            "comm": self._cid,
            "kind": kind,
            "root": root,
            "op": op,
            "data": None if (late or send is None) else send.copy(),
            "late": late,
            "nb": True,
            "req": rid,
        }
        req = Request(rid, send, recv)
        if recv is not None and (send is None or not _np.shares_memory(send, recv)):
            _poison(recv)
        _rpc(d)
        return req

    def Ibarrier(self):
        return self._icoll("barrier", None, None)

    def Ibcast(self, buf, root=0):
        b = _buf(buf)
        isroot = self.rank == root
        return self._icoll("Bcast", b if isroot else None, None if isroot else b, root)

    def Iallreduce(self, sendbuf, recvbuf, op=SUM):
        r = _buf(recvbuf)
        if sendbuf is IN_PLACE:
            return self._icoll("Allreduce", r, r, op=op.name)
        return self._icoll("Allreduce", _buf(sendbuf), r, op=op.name)

    def Iallgather(self, sendbuf, recvbuf):
        return self._icoll("Allgather_flat", _buf(sendbuf), _buf(recvbuf))

    # point to point
    def _dest(self, r):
        if r == PROC_NULL:
            return None
        if not 0 <= r < self.size:
            raise Exception("MPI_ERR_RANK: invalid rank")
        return r

    def _isend(self, data, dest, tag, obj, flat=None, sync=False):
        rid = _new_req()
        late = flat is not None and _ctx.late_send and _ctx.conn is not None
        req = Request(rid, flat, None)
        _rpc(
            {
                "t": "send",
                "comm": self._cid,
                "dest": dest,
                "tag": tag,
                "obj": obj,
                "data": None if late else data,
                "late": late,
                "req": rid,
                "sync": sync,
            }
        )
        return req

    def _irecv(self, source, tag, obj, flat=None):
        rid = _new_req()
        req = Request(rid, None, flat)
        if flat is not None:
            _poison(flat)
        _rpc({"t": "recv", "comm": self._cid, "source": source, "tag": tag, "obj": obj, "req": rid})
        return req

    def isend(self, obj, dest, tag=0):
        if self._dest(dest) is None:
            return Request()
        return self._isend(pickle.dumps(obj, protocol=5), dest, tag, True)

    issend = isend

    def send(self, obj, dest, tag=0):
        self.isend(obj, dest, tag).wait()

    def ssend(self, obj, dest, tag=0):
        if self._dest(dest) is not None:
            self._isend(pickle.dumps(obj, protocol=5), dest, tag, True, sync=True).wait()

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return self._irecv(source, tag, True)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        if source == PROC_NULL:
            return None
        return self._irecv(source, tag, True).wait(status)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r1 = self.isend(sendobj, dest, sendtag)
        val = self.recv(None, source, recvtag, status)
        r1.wait()
        return val

    def Isend(self, buf, dest, tag=0):
        if self._dest(dest) is None:
            return Request()
        b = _buf(buf)
        return self._isend(b.copy(), dest, tag, False, b)

    Issend = Isend

    def Send(self, buf, dest, tag=0):
        self.Isend(buf, dest, tag).Wait()

    def Ssend(self, buf, dest, tag=0):
        b = _buf(buf)
        self._isend(b.copy(), dest, tag, False, b, sync=True).Wait()

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        if source == PROC_NULL:
            return Request()
        return self._irecv(source, tag, False, _buf(buf))

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.Irecv(buf, source, tag).Wait(status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        r = self.Irecv(recvbuf, source, recvtag)
        s = self.Isend(sendbuf, dest, sendtag)
        r.Wait(status)
        s.Wait()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"Comm.{name} is not in the MPI model")


class Intracomm(Comm):
    pass


class Topocomm(Intracomm):
    def _need_graph(self):
        if self._graph is None:
            raise Exception("MPI_ERR_TOPOLOGY")
        return self._graph

    @property
    def indegree(self):
        return len(self._graph[0])

    @property
    def outdegree(self):
        return len(self._graph[1])

    @property
    def inedges(self):
        return list(self._graph[0])

    @property
    def outedges(self):
        return list(self._graph[1])

    def Get_dist_neighbors(self):
        return list(self._graph[0]), list(self._graph[1]), None

    def Get_dist_neighbors_count(self):
        return len(self._graph[0]), len(self._graph[1]), False

    def neighbor_alltoall(self, sendobj):
        src, dst = self._need_graph()
        items = list(sendobj)
        if len(items) != len(dst):
            raise ValueError(f"expecting {len(dst)} items, got {len(items)}")
        return [pickle.loads(x) for x in self._coll("neighbor_alltoall", [pickle.dumps(x, protocol=5) for x in items])]

    def neighbor_allgather(self, sendobj):
        return [pickle.loads(x) for x in self._coll("neighbor_allgather", pickle.dumps(sendobj, protocol=5))]

    def Neighbor_alltoall(self, sendbuf, recvbuf):
        self._need_graph()
        s, r = _buf(sendbuf), _buf(recvbuf)
        _store(r, self._coll("Neighbor_alltoall", s.copy()))

    def Ineighbor_alltoall(self, sendbuf, recvbuf):
        self._need_graph()
        s, r = _buf(sendbuf), _buf(recvbuf)
        if s.size and r.size and _np.shares_memory(s, r):
            raise Exception("MPI_ERR_BUFFER: overlapping send and receive buffers")
        return self._icoll("Neighbor_alltoall", s, r)

    def Neighbor_allgather(self, sendbuf, recvbuf):
        s, r = _buf(sendbuf), _buf(recvbuf)
        _store(r, self._coll("Neighbor_allgather", s.copy()))

    def Ineighbor_allgather(self, sendbuf, recvbuf):
        s, r = _buf(sendbuf), _buf(recvbuf)
        return self._icoll("Neighbor_allgather", s, r)


class Distgraphcomm(Topocomm):
    pass


Graphcomm = Distgraphcomm
Cartcomm = Distgraphcomm


def _comm_from(cid, ranks):
    if cid == "world":
        return COMM_WORLD
    return Intracomm(cid, ranks)


COMM_WORLD = Intracomm("world", (0,))
COMM_SELF = Intracomm(("self", 0), (0,))
COMM_NULL = Comm(None)


def Wtime():
    return time.time()


def Wtick():
    return 1e-9


def Is_initialized():
    return True


def Is_finalized():
    return False


def Init():
    pass


def Init_thread(required=3):
    return 3


def Finalize():
    pass


def Query_thread():
    return 3


def Get_processor_name():
    return "mc"


def Get_version():
    return (4, 0)


def Get_library_version():
    return "model-checking MPI stand-in"


def Compute_dims(nnodes, dims):
    raise Unsupported("Compute_dims")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"MPI.{name} is not in the MPI model")
