"""Helpers of the demonstrations: run the command-line job in one process.

Every rank is a thread with its own copy of the command-line module; messages
go through in-memory queues.  The waveform generation and the measurement are
replaced by table lookups, so a demonstration takes a second.
"""
import contextlib
import importlib.util
import os
import pickle
import shutil
import sys
import tempfile
import threading
import types

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

import logging
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd


class Dead(BaseException):
    """The simulated job was killed."""


class World:
    def __init__(self, n, hang=8.0):
        self.n, self.hang = n, hang
        self.box = {r: [] for r in range(n)}
        self.cond = threading.Condition()
        self.dead = None

    def end(self, why):
        with self.cond:
            self.dead = self.dead or why
            self.cond.notify_all()


class Comm:
    def __init__(self, world, rank):
        self.w, self.rank = world, rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.w.n

    def send(self, obj, dest, tag=0):
        with self.w.cond:
            if self.w.dead:
                raise Dead(self.w.dead)
            self.w.box[dest].append((self.rank, tag, pickle.dumps(obj)))
            self.w.cond.notify_all()

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        with self.w.cond:
            while True:
                if self.w.dead:
                    raise Dead(self.w.dead)
                for k, (s, t, data) in enumerate(self.w.box[self.rank]):
                    if source in (-1, s) and tag in (-1, t):
                        del self.w.box[self.rank][k]
                        return pickle.loads(data)
                if not self.w.cond.wait(self.w.hang):
                    self.w.dead = "hang"
                    self.w.cond.notify_all()

    def Abort(self, code=1):
        self.w.end("abort")
        raise Dead("abort")


def load_core(measure):
    import gw_eccentricity.gw_eccentricity as g
    g.measure_eccentricity = measure
    import gw_eccentricity.postprocess.core as core
    core.measure_eccentricity = measure
    return core


def measure(dataDict, tref_in=None, fref_in=None, method="Amplitude", **kw):
    return {"eccentricity": dataDict["e"], "mean_anomaly": dataDict["l"],
            "gwecc_object": None}


GENERATOR = None     # generator(params, extra) of the running demonstration


def job(posterior, outdir, args=(), n=1, generator=None, hang=8.0):
    """Run the job; returns the per-rank endings: None, or the exception."""
    global GENERATOR
    GENERATOR = generator
    load_core(measure)
    world = World(n, hang)
    bilby = types.ModuleType("bilby")
    bilby.result = types.SimpleNamespace(
        read_in_result=lambda *a, **k: types.SimpleNamespace(posterior=posterior))
    sys.modules["bilby"] = bilby
    gen = os.path.join(outdir, "gen_demo.py")
    os.makedirs(outdir, exist_ok=True)
    with open(gen, "w") as f:
        f.write("import sys\ndef gen(params, extra):\n"
                "    return sys.modules['lib'].GENERATOR(params, extra)\n")
    sys.modules["lib"] = sys.modules[__name__]
    sys.argv = ["cli", "--posterior-path", "x", "--output-dir", outdir,
                "--fref", "20", "--data-dict-generator", gen + ":gen", *map(str, args)]
    mods = []
    for r in range(n):
        mpi = types.ModuleType("mpi4py")
        mpi.MPI = types.SimpleNamespace(COMM_WORLD=Comm(world, r), ANY_SOURCE=-1, ANY_TAG=-1,
                                        Status=lambda: None)
        sys.modules["mpi4py"] = mpi
        sys.modules["mpi4py.MPI"] = mpi.MPI
        spec = importlib.util.spec_from_file_location(
            f"gw_eccentricity.postprocess.demo_rank{r}",
            os.path.join(REPO, "gw_eccentricity", "postprocess", "postprocess_cli.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        spec.loader.exec_module(m)
        mods.append(m)
    ends = [None] * n

    def run(r):
        try:
            mods[r].main()
        except BaseException as e:
            ends[r] = e
            if n == 1 or not isinstance(e, Dead):
                world.end("error")

    ts = [threading.Thread(target=run, args=(r,), daemon=True) for r in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    if any(t.is_alive() for t in ts):
        world.end("hang")
    job.world = world
    return ends


def posterior(n, start=0, step=1, **cols):
    k = np.arange(n)
    d = {"k": k.astype(float), "mass": 30 + k / 7.0}
    d.update(cols)
    return pd.DataFrame(d, index=start + step * k)


def simple(params, extra):
    return {"e": 0.01 * params["k"] + 0.001, "l": params["k"] / 10}


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="demo_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def done(ok, what=""):
    print("ok" if ok else f"BROKEN: {what}")
    sys.stdout.flush()
    os._exit(0 if ok else 1)


def inspiral(n=4000, T=4000.0, e0=0.2, om0=0.05, l0=0.0, zero=False, t0=0.0):
    t = np.linspace(-T, 0, n)
    tau = np.clip((30 - t) / (30 + 3000.0), 1e-9, None)
    om = om0 * tau ** (-3 / 8.0)
    ph = np.cumsum(np.concatenate([[0], 0.5 * (om[1:] + om[:-1]) * np.diff(t)]))
    e = 0.0 if zero else e0 * np.clip(tau, 0, 1) ** 0.4
    ell = ph / 2 * 0.98 + l0
    amp = 0.5 * om ** (2 / 3.0) * (1 + e * np.cos(ell))
    return t + t0, amp * np.exp(-1j * (ph + 2 * e * np.sin(ell)))
