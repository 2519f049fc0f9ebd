"""C25: measuring neither disturbs nor depends on the process it runs in."""
import copy
import decimal
import gc
import locale
import logging
import os
import random
import re
import signal
import sys
import threading
import time
import warnings
import weakref

import numpy as np

from . import measure as M
from .checks_cli import Out
from .checks_measure import MeasureCheck, ask, interrupt_at, some_point
from .choices import sub_rng
from .measure import same

PLOTS = ["plot_eccentricity", "plot_mean_anomaly", "plot_omega_gw", "plot_data_used_for_finding_extrema", "plot_decc_dt",
         "plot_phase_diff_ratio_between_extrema", "plot_omega_gw_average", "plot_amp_gw"]
# calls that change or restore process-wide state: a fault there would be the fault's doing
STATEFUL = ("err", "state", "seed", "print", "option", "simplefilter", "filter", "exit", "enter", "chdir", "environ", "signal",
            "close", "locale", "rc", "profile", "trace", "log", "set", "restore", "reset", "copy", "pop", "clear", "update", "del")


# ------------------------------------------------------------ process state
def digest(x):
    import hashlib
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def process_state():
    import matplotlib
    import pandas as pd
    import scipy.special
    st = np.random.get_state()
    s = {
        "numpy error handling": np.geterr(),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "numpy global random state": digest((st[0], st[1].tobytes(), st[2:])),
        "random state": digest(random.getstate()),
        "scipy.special errors": scipy.special.geterr(),
        "warning filters": [repr(f) for f in warnings.filters],
        "showwarning": id(warnings.showwarning),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "locale": [locale.setlocale(c) for c in (locale.LC_NUMERIC, locale.LC_TIME, locale.LC_CTYPE, locale.LC_COLLATE)],
        "time zone": time.tzname,
        "signal handlers": [repr(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD, signal.SIGPIPE)],
        "pending timer": signal.getitimer(signal.ITIMER_REAL),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "module search path": list(sys.path),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "displayhook": id(sys.displayhook), "excepthook": id(sys.excepthook),
        "logging": (logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.manager.disable,
                    logging.getLogger("gw_eccentricity").level),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.name for t in threading.enumerate()),
        "profiler": repr(threading.getprofile()),
        "decimal context": repr(decimal.getcontext()),
        "pandas options": {k: repr(pd.get_option(k)) for k in ("mode.chained_assignment", "display.max_rows", "display.precision", "mode.copy_on_write")},
        "matplotlib settings": {k: repr(v) for k, v in matplotlib.rcParams.items()},
        "open files": open_files(),
        "files": sorted(os.listdir(".")),
    }
    u = os.umask(0)
    os.umask(u)
    s["umask"] = u
    return s


def open_files():
    res = []
    for fd in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            res.append((fd, os.readlink("/proc/self/fd/" + fd)))
        except OSError:
            pass
    return res


def differing(a, b, skip=()):
    for k in a:
        if k in skip or a[k] == b[k]:
            continue
        if isinstance(a[k], dict):
            ch = [f"{x}: {a[k].get(x)!r} -> {b[k].get(x)!r}" for x in sorted({*a[k], *b[k]}, key=str) if a[k].get(x) != b[k].get(x)]
            return f"{k} ({'; '.join(ch)[:200]})"
        return f"{k} ({str(a[k])[:100]} -> {str(b[k])[:100]})"
    return None


ENV = {
    "print": lambda r: np.set_printoptions(precision=r.randint(1, 12), suppress=r.random() < 0.5),
    "legacy": lambda r: np.set_printoptions(legacy=r.choice(["1.13", "1.25"])),
    "err": lambda r: np.seterr(**{k: r.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")}),
    "special": lambda r: __import__("scipy.special", fromlist=["seterr"]).seterr(loss=r.choice(["warn", "ignore"])),
    "seed": lambda r: (np.random.seed(r.randrange(1000)), random.seed(r.randrange(1000))),
    "warn": lambda r: warnings.simplefilter(r.choice(["ignore", "always", "once", "default"])),
    "environ": lambda r: os.environ.update({"GWECC_USER": str(r.random())}),
    "cwd": lambda r: (os.makedirs("elsewhere", exist_ok=True), os.chdir("elsewhere")),
    "locale": lambda r: locale.setlocale(locale.LC_ALL, r.choice(["C", "C.UTF-8", "POSIX"])),
    "tz": lambda r: (os.environ.update({"TZ": r.choice(["UTC", "Asia/Seoul", "America/New_York"])}), time.tzset()),
    "recursion": lambda r: sys.setrecursionlimit(r.choice([900, 1500, 5000])),
    "decimal": lambda r: setattr(decimal.getcontext(), "prec", r.choice([5, 60])),
    "rc": lambda r: __import__("matplotlib").rcParams.update({"font.size": r.choice([7, 31]), "lines.linewidth": 3.5}),
    "umask": lambda r: os.umask(r.choice([0o077, 0o027])),
    "log": lambda r: logging.root.setLevel(r.choice([logging.DEBUG, logging.ERROR])),
    "sig": lambda r: signal.signal(signal.SIGUSR1, signal.SIG_IGN),
}


# ------------------------------------------------------------- library calls
class Calls:
    """Counts the numerical library calls the code under test makes; the at-th fails."""
    TOOL = 4

    def __init__(self, at=None, exc=MemoryError):
        self.n, self.at, self.exc, self.where, self.places = 0, at, exc, None, {}
        self.kinds = {}

    def count(self):
        return self.n, sorted(set(self.places.values()))

    def wanted(self, f):
        if isinstance(f, type) and not issubclass(f, np.ndarray):
            name, mod = f.__name__, getattr(f, "__module__", "") or ""
            return mod.split(".")[0] == "scipy" and name[0].isupper() and not issubclass(f, BaseException)
        if isinstance(f, np.ufunc):
            return True
        mod = getattr(f, "__module__", None) or ""
        name = getattr(f, "__name__", "") or ""
        if not isinstance(mod, str) or mod.split(".")[0] not in ("numpy", "scipy"):
            own = getattr(f, "__self__", None)
            if not isinstance(own, np.ndarray):
                return False
        return not any(w in name for w in STATEFUL)

    def event(self, code, offset, f, arg0):
        mon = sys.monitoring
        if not M.in_repo(code):
            return mon.DISABLE
        try:
            k = self.kinds.get(id(f))
            if k is None:
                k = (self.wanted(f), f)         # keeping f keeps its id
                self.kinds[id(f)] = k
        except Exception:
            return None
        if not k[0]:
            return None
        self.n += 1
        if self.at is None:
            self.places.setdefault((code, offset), self.n)
        elif self.n == self.at:
            self.where = f"{code.co_name}: {getattr(f, '__name__', f)}"
            raise self.exc("failed by the simulation")

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "dst-calls")
        mon.register_callback(self.TOOL, mon.events.CALL, self.event)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.CALL)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.CALL, None)
        mon.free_tool_id(self.TOOL)
        self.kinds.clear()


def plain(o):
    """An outcome without the numbers of its message, whose printing the process may set."""
    return ("err", o[1], re.sub(r"[^A-Za-z]+", " ", re.split(r"[\d#\[(]|np\.", o[2])[0]).strip()) if o[0] == "err" else o


EXC = {"mem": MemoryError, "float": FloatingPointError, "kbd": M.Interrupted, "os": OSError}


class C25(MeasureCheck):
    pid, family = "C25", "process"
    rule = "a non-default process state, a failing library call, or two or more measurements"

    def setup(self, tmp):
        M.warm()
        import matplotlib.pyplot as plt
        plt.close(plt.figure())

        def once():
            for kw in (["spline"], ["rational"]):
                for m in ("Amplitude", "FrequencyFits", "ResidualFrequency"):
                    ds = {"w": 0, "rep": "hlm", "zeroecc": True, "zkind": "hlm"}
                    M.call({"d": 0, "ref": {"k": "t", "v": -1500.0}, "debug": -1, "method": m, "nex": 2},
                           copy.deepcopy(M.build_data(ds)), -1500.0, M.build_kwargs(kw))
        keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(null, 1)
        try:
            once()
        finally:
            sys.stdout.flush()
            os.dup2(keep, 1)
            os.close(keep)
            os.close(null)

    def gen(self, seed, tier):
        rng = sub_rng("C25", seed)
        datasets = [M.gen_dataset(rng) for _ in range(rng.choice([1, 1, 2]))]
        ops = []
        for i in range(rng.randint(1, 4) if tier == "quick" else rng.randint(1, 8)):
            if ops and rng.random() < 0.35:
                op = copy.deepcopy(rng.choice(ops))
                op.pop("int", None)
            else:
                c = M.gen_call(rng, datasets, bad=rng.random() < 0.3)
                op = {"c": c, "kw": M.gen_kwargs(rng, bad=rng.random() < 0.3)}
            op["env"] = rng.sample(sorted(ENV), rng.choice([0, 1, 2, 4, 8]))
            op["ask"] = rng.choice(PLOTS + ["bounds"] * 4) if rng.random() < 0.25 else None
            r = rng.random()
            if r < 0.3:
                op["int"] = some_point(rng)
                op["exc"] = rng.choice(["mem", "mem", "float", "kbd", "os"])
            elif r < 0.4:
                op["strict"] = rng.choice(["warnings", "floats"])
            ops.append(op)
        return {"seed": seed, "datasets": datasets, "ops": ops}

    def describe(self, spec):
        return {"datasets": spec["datasets"], "ops": [f"{o['c']['method']} {o['kw']} in {o['env']}{' failing' if 'int' in o else ''}" for o in spec["ops"]]}

    def pin(self, spec, out):
        return spec

    def shrink(self, spec):
        def var(f):
            s = copy.deepcopy(spec)
            f(s)
            return s
        for i, o in enumerate(spec["ops"]):
            if len(spec["ops"]) > 1:
                yield var(lambda s: s["ops"].pop(i))
            for j in range(len(o["env"])):
                yield var(lambda s: s["ops"][i]["env"].pop(j))
            for k in ("int", "strict", "ask"):
                if o.get(k) is not None:
                    yield var(lambda s: s["ops"][i].update(ask=None) if k == "ask" else s["ops"][i].pop(k))
            for j in range(len(o["kw"] or [])):
                yield var(lambda s: s["ops"][i]["kw"].pop(j))
            for k, v in (("debug", -1), ("nex", 2), ("method", "Amplitude")):
                if o["c"].get(k) != v:
                    yield var(lambda s: s["ops"][i]["c"].update({k: v}))
        yield from self.shrink_datasets(spec)

    def execute(self, spec, tmp):
        out = Out()
        want = []
        counts = []
        for op in spec["ops"]:
            ds = spec["datasets"][op["c"]["d"]]
            counts.append(self.calls(spec, op) if "int" in op else None)
            want.append(M.alone(ds, op["c"], op["kw"])[0])

        def history():
            import matplotlib.pyplot as plt
            from gw_eccentricity.eccDefinition import eccDefinition
            os.environ["TMPDIR"] = tmp
            work = os.path.join(tmp, "proc")
            os.makedirs(work, exist_ok=True)
            os.chdir(work)
            rng = sub_rng("C25 env", spec["seed"])
            res = []
            for op, n in zip(spec["ops"], counts):
                for e in op["env"]:
                    ENV[e](rng)
                data = M.place(spec["datasets"][op["c"]["d"]])
                ref, kw = M.build_ref(op["c"]["ref"]), M.build_kwargs(op["kw"])
                own = {}
                for k, v in data.items():
                    for kk, a in (v.items() if isinstance(v, dict) else [("", v)]):
                        if isinstance(a, np.ndarray):
                            own[f"{k}{kk}"] = weakref.ref(a)
                a = kk = v = None
                where = None
                before = process_state()
                if "int" in op:
                    at = interrupt_at(n, op["int"]) if n[0] else None
                    with Calls(at if at is not None else 1 << 60, EXC[op["exc"]]) as trap:
                        try:
                            got, live = M.call(op["c"], data, ref, kw)
                        except M.Interrupted:
                            got, live = ("interrupted",), None
                    where = trap.where
                    trap = None
                elif op.get("strict") == "warnings":
                    with warnings.catch_warnings():
                        warnings.simplefilter("error")
                        got, live = M.call(op["c"], data, ref, kw)
                elif op.get("strict") == "floats":
                    with np.errstate(divide="raise", invalid="raise", over="raise"):
                        got, live = M.call(op["c"], data, ref, kw)
                else:
                    got, live = M.call(op["c"], data, ref, kw)
                if op["ask"] and live is not None:
                    obj = live["gwecc_object"]
                    ask(obj, ("bounds", "default") if op["ask"] == "bounds" else ("plot", op["ask"]), None)
                    plt.close("all")
                    obj = None
                after = process_state()
                live = data = ref = kw = None
                gc.collect()
                alive = sum(issubclass(type(o), eccDefinition) for o in gc.get_objects())
                held = sorted(k for k, r in own.items() if r() is not None)
                res.append((got, where, differing(before, after), alive, held))
                if res[-1][2] or alive or held:
                    break
            return res

        res = M.run_history(history, out)
        if res is None:
            return out
        for i, (got, where, diff, alive, held) in enumerate(res):
            op, exp = spec["ops"][i], want[i]
            what = f"measurement {i} ({op['c']['method']}, {op['kw']}{', failing at ' + where if where else ''})"
            out.jobs += 1
            out.steps += 1
            out.sig.update(repr((op["c"]["method"], op["kw"], sorted(op["env"]), where, exp[0], op["ask"])).encode())
            out.digest.update(repr((got, where, diff, alive, held)).encode())
            if "int" in op:
                out.faults["failing call " + op["exc"]] = out.faults.get("failing call " + op["exc"], 0) + (where is not None)
            elif op.get("strict"):
                out.faults["strict " + op["strict"]] = out.faults.get("strict " + op["strict"], 0) + 1
            out.probe("outcome:" + got[0])
            if diff:
                out.bad("state", f"{what} left the process changed: {diff}")
            if alive or held:
                out.bad("kept", f"{what}: once everything was dropped, {alive} measured objects and the caller's arrays {held} were still held")
            if "int" not in op and not op.get("strict") and not same(plain(got), plain(exp)):
                out.bad("depends", f"{what} with {op['env']} set gave {M.brief(got)}; in a fresh process {M.brief(exp)}")
        out.nontrivial = len(spec["ops"]) > 1 or any("int" in o or o["env"] for o in spec["ops"])
        return out

    def calls(self, spec, op):
        """How many library calls this measurement makes, counted in a child."""
        ds = spec["datasets"][op["c"]["d"]]

        def run():
            with Calls() as t:
                M.call(op["c"], M.place(ds), M.build_ref(op["c"]["ref"]), M.build_kwargs(op["kw"]))
            return t.count()
        return M.forked_value(run)


CHECKS = {"C25": C25}
