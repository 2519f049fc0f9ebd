"""mpi4py stand-in for a simulated rank: MPI semantics over the seam.

Point-to-point (blocking and non-blocking), probes, requests, the usual
object collectives (built on a shadow communicator), Dup, Abort.  What is
not modelled raises Unsupported, which the harness reports as its own error,
never as a violation.
"""
import pickle
import types

ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
ROOT = -4
UNDEFINED = -32766


class Unsupported(BaseException):
    pass


class MPIException(RuntimeError):
    def Get_error_code(self):
        return 1


class Status:
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, datatype=None):
        return self.count

    def Is_cancelled(self):
        return False

    def _set(self, src, tag, n):
        self.source, self.tag, self.count = src, tag, n


def _fill(status, src, tag, n):
    if status is not None:
        status._set(src, tag, n)


class Request:
    def __init__(self, seam, rid, kind):
        self._seam, self._rid, self._kind = seam, rid, kind
        self._done, self._val = rid is None, None

    def _finish(self, rep, status):
        self._done = True
        if self._kind == "recv":
            payload, src, tag = rep
            self._val = pickle.loads(payload) if payload is not None else None
            _fill(status, src, tag, len(payload or b""))
        return self._val

    def wait(self, status=None):
        if self._done:
            return self._val
        return self._finish(self._seam.call("wait", self._rid), status)

    def test(self, status=None):
        if self._done:
            return True, self._val
        rep = self._seam.call("test", self._rid)
        if rep is None:
            return False, None
        return True, self._finish(rep[0], status)

    def cancel(self):
        if not self._done:
            self._seam.call("cancel", self._rid)
            self._done = True

    Cancel = cancel

    def Free(self):
        pass

    Wait = wait

    def Test(self, status=None):
        return self.test(status)[0]

    @classmethod
    def waitall(cls, reqs, statuses=None):
        return [r.wait(statuses[i] if statuses else None) for i, r in enumerate(reqs)]

    Waitall = waitall

    @classmethod
    def testall(cls, reqs, statuses=None):
        rs = [r.test() for r in reqs]
        if all(a for a, _ in rs):
            return True, [b for _, b in rs]
        return False, None

    @classmethod
    def waitany(cls, reqs, status=None):
        if not reqs:
            return UNDEFINED, None
        while True:
            pend = [r for r in reqs if not r._done]
            if not pend:
                return UNDEFINED, None
            for i, r in enumerate(reqs):
                if r._done:
                    continue
                ok, v = r.test(status)
                if ok:
                    return i, v
            reqs[0]._seam.call("idle", [r._rid for r in pend])

    @classmethod
    def testany(cls, reqs, status=None):
        for i, r in enumerate(reqs):
            if r._done:
                continue
            ok, v = r.test(status)
            if ok:
                return i, True, v
        return UNDEFINED, all(r._done for r in reqs), None

    @classmethod
    def waitsome(cls, reqs, statuses=None):
        i, v = cls.waitany(reqs)
        return ([i], [v]) if i != UNDEFINED else (None, None)


class Op:
    def __init__(self, f):
        self.f = f

    def __call__(self, a, b):
        return self.f(a, b)


class Comm:
    def __init__(self, seam, rank, size, cid):
        self._s, self._rank, self._size, self._cid = seam, rank, size, cid
        self._coll = 0
        self._dups = 0

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return "sim"

    def _peer(self, p):
        if p == PROC_NULL:
            return
        if not isinstance(p, int) or isinstance(p, bool) and False or not 0 <= p < self._size:
            raise MPIException("MPI_ERR_RANK: invalid rank")

    def _send(self, obj, dest, tag, cid, mode):
        self._peer(int(dest))
        if int(tag) < 0:
            raise MPIException("MPI_ERR_TAG: invalid tag")
        payload = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        if dest == PROC_NULL:
            return None
        return self._s.call("send", int(dest), int(tag), cid, payload, mode)

    def send(self, obj, dest, tag=0):
        self._send(obj, dest, tag, self._cid, "std")

    def ssend(self, obj, dest, tag=0):
        self._send(obj, dest, tag, self._cid, "sync")

    def bsend(self, obj, dest, tag=0):
        self._send(obj, dest, tag, self._cid, "eager")

    rsend = send

    def isend(self, obj, dest, tag=0):
        rid = self._send(obj, dest, tag, self._cid, "istd")
        return Request(self._s, rid, "send")

    def issend(self, obj, dest, tag=0):
        rid = self._send(obj, dest, tag, self._cid, "isync")
        return Request(self._s, rid, "send")

    ibsend = isend

    def _recv(self, source, tag, cid, status=None):
        if source == PROC_NULL:
            return None
        if source != ANY_SOURCE:
            self._peer(int(source))
        payload, src, tg = self._s.call("recv", int(source), int(tag), cid)
        _fill(status, src, tg, len(payload))
        return pickle.loads(payload)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._recv(source, tag, self._cid, status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        rid = self._s.call("irecv", int(source), int(tag), self._cid)
        return Request(self._s, rid, "recv")

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE,
                 recvtag=ANY_TAG, status=None):
        r = self.irecv(source=source, tag=recvtag)
        q = self.isend(sendobj, dest, sendtag)
        v = r.wait(status)
        q.wait()
        return v

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, tg, n = self._s.call("probe", int(source), int(tag), self._cid)
        _fill(status, src, tg, n)
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        rep = self._s.call("iprobe", int(source), int(tag), self._cid)
        if rep is None:
            return False
        _fill(status, *rep)
        return True

    Probe = probe
    Iprobe = iprobe

    def mprobe(self, *a, **k):
        raise Unsupported("mprobe")

    improbe = mprobe

    # ---- collectives over a shadow communicator
    def _tag(self):
        self._coll += 1
        return self._coll

    def _cs(self, obj, dest, tag):
        self._send(obj, dest, tag, (self._cid, "coll"), "eager")

    def _cr(self, source, tag):
        return self._recv(source, tag, (self._cid, "coll"))

    def barrier(self):
        self.allgather(None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        t = self._tag()
        if self._rank == root:
            for r in range(self._size):
                if r != root:
                    self._cs(obj, r, t)
            return obj
        return self._cr(root, t)

    def scatter(self, sendobj=None, root=0):
        t = self._tag()
        if self._rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self._size:
                raise ValueError(f"expecting {self._size} items, got {len(sendobj)}")
            for r in range(self._size):
                if r != root:
                    self._cs(sendobj[r], r, t)
            return sendobj[root]
        return self._cr(root, t)

    def gather(self, sendobj=None, root=0):
        t = self._tag()
        if self._rank == root:
            return [sendobj if r == root else self._cr(r, t) for r in range(self._size)]
        self._cs(sendobj, root, t)
        return None

    def allgather(self, sendobj=None):
        return self.bcast(self.gather(sendobj, 0), 0)

    def alltoall(self, sendobj):
        t = self._tag()
        for r in range(self._size):
            if r != self._rank:
                self._cs(sendobj[r], r, t)
        return [sendobj[r] if r == self._rank else self._cr(r, t) for r in range(self._size)]

    def reduce(self, sendobj, op=None, root=0):
        g = self.gather(sendobj, root)
        if g is None:
            return None
        op = op or SUM
        acc = g[0]
        for v in g[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, sendobj, op=None):
        return self.bcast(self.reduce(sendobj, op, 0), 0)

    def Dup(self, info=None):
        self._dups += 1
        return Comm(self._s, self._rank, self._size, (self._cid, "dup", self._dups))

    dup = Clone = Dup

    def Free(self):
        pass

    def Set_errhandler(self, h):
        pass

    def Get_errhandler(self):
        return ERRORS_RETURN

    def Abort(self, errorcode=0):
        self._s.call("abort", int(errorcode))
        raise SystemExit(errorcode)  # not reached: the scheduler kills the job

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"Comm.{name}")


Intracomm = Comm
SUM = Op(lambda a, b: a + b)
MAX = Op(max)
MIN = Op(min)
PROD = Op(lambda a, b: a * b)
LOR = Op(lambda a, b: bool(a) or bool(b))
LAND = Op(lambda a, b: bool(a) and bool(b))
ERRORS_RETURN = object()
ERRORS_ARE_FATAL = object()


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"MPI.{name}")


class NullSeam:
    """Stands in outside a simulated job: one rank, nothing to talk to."""

    def call(self, *a):
        raise Unsupported("MPI call outside a simulated job")


def make_modules(seam, rank, size):
    MPI = _Module("mpi4py.MPI")
    d = {
        "ANY_SOURCE": ANY_SOURCE, "ANY_TAG": ANY_TAG, "PROC_NULL": PROC_NULL,
        "ROOT": ROOT, "UNDEFINED": UNDEFINED, "Status": Status, "Request": Request,
        "Comm": Comm, "Intracomm": Intracomm, "Exception": MPIException,
        "SUM": SUM, "MAX": MAX, "MIN": MIN, "PROD": PROD, "LOR": LOR, "LAND": LAND,
        "ERRORS_RETURN": ERRORS_RETURN, "ERRORS_ARE_FATAL": ERRORS_ARE_FATAL,
        "COMM_WORLD": Comm(seam, rank, size, 0),
        "COMM_SELF": Comm(seam, 0, 1, ("self", rank)),
        "SUCCESS": 0, "ERR_OTHER": 15, "THREAD_MULTIPLE": 3, "THREAD_SINGLE": 0,
        "THREAD_FUNNELED": 1, "THREAD_SERIALIZED": 2,
        "Wtime": lambda: getattr(seam, "now", 0.0),
        "Wtick": lambda: 1e-6,
        "Is_initialized": lambda: True, "Is_finalized": lambda: False,
        "Init": lambda: None, "Init_thread": lambda required=3: 3,
        "Query_thread": lambda: 3, "Finalize": lambda: None,
        "Get_processor_name": lambda: f"node{rank // 2}",
        "pickle": pickle,
    }
    for k, v in d.items():
        setattr(MPI, k, v)
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = MPI
    pkg.__version__ = "4.1.2"
    pkg.__path__ = []

    class _RC:
        initialize = True
        finalize = None
        threads = True

        def __call__(self, **kw):
            for k, v in kw.items():
                setattr(self, k, v)
    pkg.rc = _RC()
    pkg.get_include = lambda: ""
    return {"mpi4py": pkg, "mpi4py.MPI": MPI}
