"""Threads under a simulated scheduler: one runs, the others are parked.

Instrumentation (sys.monitoring) counts steps (lines or byte codes) inside the
code under test; when the running thread's quantum is used up it parks itself
and the scheduler picks the next one.  Locks that the code under test owns or
creates are replaced by simulated ones, so a blocked thread is the scheduler's
business too.
"""
import _thread
import functools
import gc
import os
import sys
import threading
import traceback
import types

from .measure import Interrupted, in_repo

QUANTA = [10 ** 9, 1, 2, 3, 5, 10, 30, 100, 300, 1000, 3000, 10000]


TOOL = 4


def package_code():
    """Every code object of the code under test that is loaded."""
    seen = {}
    def walk(code):
        if id(code) in seen or not in_repo(code):
            return
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
    # reached from the package's modules (gc.get_objects omits frozen objects)
    todo = [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "gw_eccentricity" and m is not None]
    met = set()
    while todo:
        o = todo.pop()
        if id(o) in met:
            continue
        met.add(id(o))
        if type(o) is types.FunctionType:
            walk(o.__code__)
        if isinstance(o, type) and o.__module__.split(".")[0] != "gw_eccentricity" \
                or type(o) is types.ModuleType and o.__name__.split(".")[0] != "gw_eccentricity":
            continue
        if type(o) is types.FunctionType:
            todo += [c for c in (o.__closure__ or ())] + [o.__dict__]
            continue
        if isinstance(o, (type, dict, types.ModuleType, property, staticmethod, classmethod, types.CellType,
                          functools.partial)) or hasattr(type(o), "__wrapped__"):
            todo += [r for r in gc.get_referents(o)]
    return list(seen.values())


class Killed(BaseException):
    pass


class SimLock:
    def __init__(self, sim, reentrant=False):
        self.sim = sim
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = self.sim.me()
        if self.reentrant and self.owner == (me,):
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking or (timeout is not None and timeout >= 0):
                if not blocking:
                    return False
                self.sim.park(me, None)     # a timed wait: others run, then it expires
                if self.owner is not None:
                    return False
                break
            if me is None:
                raise RuntimeError("main thread blocked on a simulated lock")
            self.sim.park(me, self)
        self.owner = (me,)
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == (self.sim.me(),)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Sim:
    def __init__(self, choices, grain="line", style="random", quantum=40, rng=None):
        self.ch = choices
        self.grain = grain
        self.style = style
        self.quantum = quantum
        self.rng = rng
        self.log = []
        self.switches = 0
        self.lines = 0
        self.ids = {}
        self.live = False

    def me(self):
        return self.ids.get(_thread.get_ident())

    # ---- fault: raise exc at the k-th further line of this thread's own code
    def fault(self, k, exc):
        me = self.me()
        was = self.traps[me]
        self.traps[me] = [k, exc, False] if k else None
        return bool(was and was[2])

    # ---- running thread gives up the processor
    def park(self, me, lock):
        self.waiting[me] = lock
        self.main.release()
        self.sem[me].acquire()
        if self.dead:
            raise Killed()

    # ---- instrumentation: put in place before any thread starts, because
    # CPython 3.12 crashes when a code object is re-instrumented (settrace,
    # f_trace_opcodes) while another thread is parked inside it
    def instrument(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)
        ev = mon.events.LINE
        if self.grain == "opcode":
            mon.register_callback(TOOL, mon.events.INSTRUCTION, self.on_opcode)
            ev |= mon.events.INSTRUCTION
        for code in package_code():
            mon.set_local_events(TOOL, code, ev)

    def uninstrument(self):
        mon = sys.monitoring
        for e in (mon.events.LINE, mon.events.INSTRUCTION):
            mon.register_callback(TOOL, e, None)

    def on_line(self, code, line):
        me = self.ids.get(_thread.get_ident())
        if me is None or not self.live:
            return
        trap = self.traps[me]
        if trap and not trap[2]:
            trap[0] -= 1
            if trap[0] <= 0:
                trap[2] = True
                self.log.append(("fault", me, code.co_name, line))
                raise trap[1]("simulated allocation failure")
        self.tick(me, code, line)

    def on_opcode(self, code, offset):
        me = self.ids.get(_thread.get_ident())
        if me is not None and self.live:
            self.tick(me, code, offset)

    def tick(self, me, code, pos):
        self.lines += 1
        self.budget -= 1
        if self.budget <= 0:
            self.at = (code.co_name, pos)
            self.park(me, None)

    def patch_locks(self):
        kinds = (type(_thread.allocate_lock()), type(threading.RLock()))
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] != "gw_eccentricity" or mod is None:
                continue
            spaces = [mod.__dict__] + [v for v in list(mod.__dict__.values()) if isinstance(v, type)
                                       and v.__module__ == name]
            for sp in spaces:
                items = list((sp if isinstance(sp, dict) else vars(sp)).items())
                for k, v in items:
                    if isinstance(v, kinds):
                        s = SimLock(self, isinstance(v, kinds[1]))
                        if isinstance(sp, dict):
                            sp[k] = s
                        else:
                            setattr(sp, k, s)
        threading.Lock = lambda: SimLock(self)
        threading.RLock = lambda: SimLock(self, True)
        threading._allocate_lock = threading.Lock

    def run(self, bodies, max_switches=60000):
        n = len(bodies)
        self.sem = [_thread.allocate_lock() for _ in bodies]
        for s in self.sem:
            s.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.waiting = [None] * n
        self.done = [False] * n
        self.traps = [None] * n
        self.dead = False
        self.budget = 0
        self.at = ("start", 0)
        res = [None] * n
        err = [None] * n

        def start(i, body):
            self.ids[_thread.get_ident()] = i
            self.sem[i].acquire()
            try:
                if not self.dead:
                    res[i] = body()
            except Killed:
                pass
            except BaseException as e:
                err[i] = e
            self.done[i] = True
            self.main.release()

        self.instrument()
        self.live = True
        for i, b in enumerate(bodies):
            _thread.start_new_thread(start, (i, b))
        self.patch_locks()
        prio = list(range(n))
        self.rng.shuffle(prio)
        stalled = self.rng.randrange(n)
        verdict, detail = "ok", ""
        while not all(self.done):
            ready = [i for i in range(n) if not self.done[i]
                     and (self.waiting[i] is None or self.waiting[i].owner is None)]
            if not ready:
                verdict = "deadlock"
                detail = str([(i, type(self.waiting[i]).__name__, getattr(self.waiting[i], "owner", None))
                              for i in range(n) if not self.done[i]])
                if os.environ.get("DST_STDERR"):
                    for k, f in sys._current_frames().items():
                        print("THREAD", self.ids.get(k), file=sys.stderr)
                        traceback.print_stack(f)
                break
            if self.style == "pct":
                w = [10.0 if prio[i] == max(prio[j] for j in ready) else 0.02 for i in ready]
            elif self.style == "stall":
                w = [0.003 if i == stalled and len(ready) > 1 else 1.0 for i in ready]
            else:
                w = [1.0] * len(ready)
            i = ready[self.ch.pick(w)]
            if self.style == "pct" and self.rng.random() < 0.1:
                prio[i] = min(prio) - 1
            if self.switches > max_switches:
                q = 10 ** 9
            else:
                k = [abs(x - self.quantum) for x in QUANTA]
                near = k.index(min(k[1:]), 1)
                qw = [0.02 if x == 0 else (6.0 if x == near else 1.0 if abs(x - near) <= 2 else 0.1) for x in range(len(QUANTA))]
                q = QUANTA[self.ch.pick(qw)]
            self.budget = q
            self.waiting[i] = None
            self.sem[i].release()
            self.main.acquire()
            self.switches += 1
            if len(self.log) < 4000:
                self.log.append((i, self.at) if not self.done[i] else (i, "end"))
        self.live = False
        if verdict != "ok":
            self.dead = True
        self.uninstrument()
        for e in err:
            if e is not None:
                raise e
        return verdict, res, detail


_ = Interrupted
