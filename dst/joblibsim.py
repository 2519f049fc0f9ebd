"""joblib workers under a simulated scheduler.

Every backend name joblib knows is replaced by one simulated backend.  Process
workers ("loky", "multiprocessing") are persistent forked children that receive
pickled batches, as the real ones do; the simulator decides which idle worker
takes the next batch, in which order finished batches are delivered, when the
caller's wait is interrupted and when a worker dies (which breaks the whole
pool, as in loky).  Thread workers ("threading") are simulated threads
(threadsim) sharing everything with the caller, preempted at source lines.
"""
import os
import pickle
import struct
import time

from . import apigen
from .job import HarnessError

PROCESS = ("loky", "multiprocessing")


class WorkerDied(RuntimeError):
    """What loky's TerminatedWorkerError stands for."""


class Task:
    def __init__(self, func, callback, copying):
        self.func, self.callback, self.copying = func, callback, copying
        self.value = self.exc = None
        self.done = False

    def finish(self, ok, value):
        self.done = True
        if ok:
            self.value = value
        else:
            self.exc = value
        self.callback(self)


class Worker:
    """A forked process that runs pickled batches."""

    def __init__(self, wid, sim):
        self.wid = wid
        self.task = None
        self.answer = None
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                from . import seam
                seam.die_with_parent()
                sim.live = False
                os.close(b)
                os.close(c)
                self.loop(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c

    @staticmethod
    def read(fd, n):
        buf = b""
        while len(buf) < n:
            x = os.read(fd, n - len(buf))
            if not x:
                return None
            buf += x
        return buf

    def loop(self, r, w):
        time.sleep = _real_sleep
        while True:
            h = self.read(r, 8)
            if h is None:
                return
            fatal, blob = pickle.loads(self.read(r, struct.unpack("<Q", h)[0]))
            apigen.FATAL.clear()
            apigen.FATAL.update(fatal)
            try:
                out = (True, pickle.loads(blob)())
            except BaseException as e:
                out = (False, e)
            try:
                b = pickle.dumps(out)
            except Exception as e:
                b = pickle.dumps((False, RuntimeError(f"unpicklable outcome {out!r}: {e!r}")))
            b = struct.pack("<Q", len(b)) + b
            while b:
                b = b[os.write(w, b):]

    def run(self, blob):
        b = pickle.dumps((dict(apigen.FATAL), blob))
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(self.w, b):]
        h = self.read(self.r, 8)
        if h is None:
            raise HarnessError("worker process ended by itself")
        return pickle.loads(self.read(self.r, struct.unpack("<Q", h)[0]))

    def kill(self):
        os.close(self.w)
        os.close(self.r)
        try:
            os.kill(self.pid, 9)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


_real_sleep = time.sleep


class Engine:
    """The pool: one per simulated run, shared by all Parallel calls."""

    def __init__(self, ch, cpus, speeds):
        self.ch = ch
        self.cpus = cpus
        self.speeds = speeds
        self.queue = []           # pickled batches, for worker processes
        self.shared = []          # live batches, for worker threads
        self.workers = []
        self.n = 0
        self.outstanding = 0      # batches running in worker threads
        self.log = []
        self.started = 0
        self.spawned = 0
        self.waits = 0
        self.faults = []          # [("death", nth batch, "before"|"after")], [("interrupt", nth wait)]
        self.fired = []
        self.broken = False
        self.sim = None           # threadsim.Sim
        self.events = 0
        self.closing = False

    # ------------------------------------------------------------- backend
    def configure(self, n):
        self.n = n
        self.broken = False

    def submit(self, func, callback, copying):
        if copying:
            import cloudpickle
            func = cloudpickle.dumps(func)
        t = Task(func, callback, copying)
        (self.queue if copying else self.shared).append(t)
        self.log.append(("submit", copying))
        self.events += 1
        return t

    def abort(self):
        self.queue = []
        self.shared = []
        for w in self.workers:
            w.kill()
        self.workers = []
        self.log.append(("abort",))

    def fault(self, kind, n):
        for f in self.faults:
            if f[0] == kind and f[1] == n:
                self.faults.remove(f)
                self.fired.append(kind)
                self.log.append(("fault",) + tuple(f))
                return f
        return None

    # ------------------------------------------------- process mode: one step
    def sleep(self, _dt=0):
        self.waits += 1
        if self.fault("interrupt", self.waits):
            raise KeyboardInterrupt("simulated")
        if self.shared or self.outstanding:
            self.sim.park(self.sim.me(), Changed(self))
            return
        busy = [w for w in self.workers if w.task is not None]
        idle = [w for w in self.workers if w.task is None]
        opts, wt = [], []
        for w in busy:
            opts.append(("finish", w))
            wt.append(self.speeds[w.wid % len(self.speeds)])
        if self.queue:
            for w in idle:
                opts.append(("start", w))
                wt.append(2.0)
            if len(self.workers) < self.n:
                opts.append(("spawn", None))
                wt.append(1.0)
        if not opts:
            raise HarnessError("the caller waits but no task is outstanding")
        what, w = opts[self.ch.pick(wt)]
        if what == "spawn":
            w = Worker(self.spawned, self.sim)
            self.spawned += 1
            self.workers.append(w)
            what = "start"
        if what == "start":
            self.started += 1
            t = self.queue.pop(0)
            self.log.append(("start", w.wid, self.started))
            f = self.fault("death", self.started)
            if f and f[2] == "before":
                return self.die([t])
            w.task, w.answer = t, w.run(t.func)
            if f:
                return self.die([])
        else:
            t, (ok, v) = w.task, w.answer
            w.task = w.answer = None
            self.log.append(("finish", w.wid))
            if isinstance(v, SystemExit) and not ok:
                return self.die([t])
            t.finish(ok, v)

    def die(self, tasks):
        lost = tasks + [w.task for w in self.workers if w.task is not None] + self.queue
        self.queue = []
        for w in self.workers:
            w.kill()
        self.workers = []
        self.broken = True
        for t in lost:
            t.finish(False, WorkerDied("a worker process was killed"))

    # ---------------------------------------------------- thread mode: a body
    def thread(self, wid):
        def body():
            while True:
                if not self.shared:
                    if self.closing:
                        return
                    self.sim.park(self.sim.me(), Work(self))
                    continue
                if wid >= self.n and not self.closing:
                    self.sim.park(self.sim.me(), Fewer(self, wid))
                    continue
                t = self.shared.pop(0)
                self.outstanding += 1
                self.started += 1
                self.log.append(("start", wid, self.started))
                try:
                    ok, v = True, t.func()
                except KeyboardInterrupt as e:
                    ok, v = False, e
                except Exception as e:
                    ok, v = False, e
                except SystemExit as e:
                    ok, v = False, e
                self.events += 1
                self.log.append(("finish", wid))
                t.finish(ok, v)           # also after an abort, as a real thread would
                self.outstanding -= 1
                self.events += 1
        return body

    def close(self):
        self.closing = True
        self.events += 1
        for w in self.workers:
            w.kill()
        self.workers = []


class Work:
    """Ready when there is something to take."""

    def __init__(self, e):
        self.e = e

    @property
    def owner(self):
        return None if self.e.shared or self.e.closing else "wait"


class Fewer(Work):
    def __init__(self, e, wid):
        self.e, self.wid = e, wid

    @property
    def owner(self):
        return None if self.wid < self.e.n or self.e.closing else "wait"


class Changed(Work):
    """Ready when anything happened since the wait began."""

    def __init__(self, e):
        self.e, self.at = e, e.events

    @property
    def owner(self):
        return None if self.e.events != self.at else "wait"


def install(engine):
    """Replace joblib's backends and its waiting in this (forked) process."""
    import joblib
    import joblib._parallel_backends as B
    import joblib.parallel as P

    class Sim(B.ParallelBackendBase):
        supports_retrieve_callback = True
        supports_return_generator = True
        supports_timeout = False
        supports_inner_max_num_threads = False
        copying = True

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            if n_jobs is None:
                return 1
            return max(engine.cpus + 1 + n_jobs, 1) if n_jobs < 0 else n_jobs

        def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
            n = self.effective_n_jobs(n_jobs)
            if n == 1:
                raise B.FallbackToBackend(B.SequentialBackend(nesting_level=self.nesting_level))
            self.parallel = parallel
            engine.configure(n)
            return n

        def compute_batch_size(self):
            return [1, 2, 3, 7][engine.ch.pick([6, 2, 1, 1])] if self.copying else 1

        def submit(self, func, callback=None):
            if engine.broken:
                raise WorkerDied("the pool is broken")
            return engine.submit(func, callback, self.copying)

        def retrieve_result_callback(self, out):
            if out.exc is not None:
                raise out.exc
            return out.value

        def abort_everything(self, ensure_ready=True):
            engine.abort()
            if ensure_ready:
                self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)

        def terminate(self):
            pass

    class SimThreads(Sim):
        supports_sharedmem = True
        uses_threads = True
        copying = False

    for name in set(P.BACKENDS) | {"loky", "multiprocessing"}:
        if name == "sequential":
            continue
        P.BACKENDS[name] = SimThreads if name == "threading" else Sim
    P.DEFAULT_BACKEND = P.DEFAULT_PROCESS_BACKEND = "loky"
    P.DEFAULT_THREAD_BACKEND = "threading"
    import tqdm
    tqdm.tqdm.monitor_interval = 0       # no monitor thread
    time.sleep = engine.sleep
    return joblib
