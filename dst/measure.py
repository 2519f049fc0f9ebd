"""Simulated use of the measurement API: datasets, calls, traps, isolated oracle."""
import copy
import gc
import hashlib
import os
import pickle
import re
import resource
import select
import signal
import struct
import sys
import time

import numpy as np

from . import bootstrap, wave
from .choices import sub_rng
from .job import HarnessError

REPO = os.path.realpath(bootstrap.REPO)
PKG = os.path.join(REPO, "gw_eccentricity") + os.sep
METHODS = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency",
           "AmplitudeFits", "FrequencyFits"]
AVG = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"]

# ------------------------------------------------------------------ datasets
REPS = ["hlm", "ampphase", "ampphaseomega", "prec_hlm", "prec_ampphase", "prec_ampphaseomega",
        "copr_hlm", "copr_ampphaseomega"]


def _prec_modes(t, h, inertial, asym, spin=0.0):
    """Modes of a precessing system; with `spin`, oscillations that the spin filter has to remove."""
    c, s = asym * np.cos(0.06 * t), 0.0
    if spin:
        c, s = spin * np.cos(0.035 * t), 0.5 * spin * np.sin(0.035 * t)
    hm = {(2, 2): h * (1 + c) * np.exp(-1j * s), (2, -2): np.conj(h) * (1 - c) * np.exp(-1j * s),
          (2, 1): 0.02 * h * np.exp(0.4j), (2, -1): 0.02 * np.conj(h) * np.exp(-0.4j),
          (2, 0): 0.001 * np.abs(h) + 0j}
    if not inertial:
        return hm
    import quaternion
    import scri
    data = np.stack([hm[(2, m)] for m in range(-2, 3)], axis=1)
    a, b = 0.0007 * t, 0.25 + 0.02 * np.cos(0.001 * t)
    zero = np.zeros_like(t)
    R = quaternion.from_float_array(np.stack([np.cos(a / 2), zero, zero, np.sin(a / 2)], -1)) \
        * quaternion.from_float_array(np.stack([np.cos(b / 2), zero, np.sin(b / 2), zero], -1))
    w = scri.WaveformModes(dataType=scri.h, t=t, data=data, frame=R, ell_min=2, ell_max=2,
                           frameType=scri.Coprecessing, r_is_scaled_out=True, m_is_scaled_out=True)
    w = w.to_inertial_frame()
    return {(2, m): np.array(w.data[:, w.index(2, m)]) for m in range(-2, 3)}


def _rep(t, modes, kind, tag, d):
    d["t" + tag] = t
    if kind == "hlm":
        d["hlm" + tag] = modes
        return
    ph = {k: -np.unwrap(np.angle(v)) for k, v in modes.items()}
    d["amplm" + tag] = {k: np.abs(v) for k, v in modes.items()}
    d["phaselm" + tag] = ph
    if kind == "ampphaseomega":
        d["omegalm" + tag] = {k: np.gradient(v, t[1] - t[0]) for k, v in ph.items()}


_data_cache = {}


def build_data(ds):
    """The dictionary a user passes; pure function of the JSON description."""
    key = repr(sorted(ds.items()))
    if key in _data_cache:
        return _data_cache[key]
    p = wave.pool_params(ds["w"])
    p["l0"] += ds.get("dl", 0.0)
    n = ds.get("n", 1000)
    t0 = ds.get("t0", 0.0)
    if ds.get("flaw") == "short":
        t, h = wave.inspiral(n=200, T=180.0, t0=t0, **p)
    elif ds.get("flaw") == "quasi":
        t, h = wave.inspiral(n=n, T=3000.0, t0=t0, **{**p, "e0": 1e-9})
    else:
        t, h = wave.inspiral(n=n, T=3000.0, t0=t0, **p)
    rep = ds["rep"]
    kind = rep.split("_")[-1]
    prec = rep.startswith(("prec", "copr"))
    d = {}
    if prec:
        modes = _prec_modes(t, h, rep.startswith("prec"), ds.get("asym", 0.0), ds.get("spin", 0.0))
    else:
        modes = {(2, 2): h}
        for m in ds.get("extra_modes", []):
            modes[tuple(m)] = 0.1 * h * np.exp(0.3j)
    _rep(t, modes, kind, "", d)
    if ds.get("zeroecc"):
        tz, hz = wave.inspiral(n=int(n * 1.05), T=3100.0, zero=True, t0=t0 + ds.get("dtz", 0.0), om0=p["om0"])
        mz = _prec_modes(tz, hz, rep.startswith("prec"), 0.0) if prec else {(2, 2): hz}
        _rep(tz, mz, ds.get("zkind", "hlm"), "_zeroecc", d)
    if ds.get("flaw") == "nan":
        k = "hlm" if kind == "hlm" else "amplm"
        d[k][(2, 2)][500:520] = np.nan
    elif ds.get("flaw") == "both" and kind == "hlm":
        d["amplm"] = {(2, 2): np.abs(modes[(2, 2)])}
    elif ds.get("flaw") == "no_t":
        del d["t"]
    elif ds.get("flaw") == "uneven":
        d["t"] = t + 0.3 * np.sin(t / 50)
    elif ds.get("flaw") == "unknown_key":
        d["note"] = "something"
    elif ds.get("flaw") == "neg_phase":
        k = "hlm" if kind == "hlm" else "phaselm"
        d[k] = {m: (np.conj(v) if k == "hlm" else -v) for m, v in d[k].items()}
    if len(_data_cache) > 200:
        _data_cache.clear()
    _data_cache[key] = d
    return d


LAYOUTS = ["readonly", "readonly", "strided", "columns"]


def place(ds, lay=None):
    """A caller's own copy of the dataset, its arrays laid out in memory as described."""
    d = copy.deepcopy(build_data(ds))
    lay = lay or ds.get("lay")
    if not lay:
        return d

    def each(x):
        if lay == "strided":                # every other element of a longer array
            b = np.zeros(2 * len(x), dtype=x.dtype)
            b[::2] = x
            return b[::2]
        if lay == "readonly":
            x.setflags(write=False)
        return x

    for k, v in d.items():
        if isinstance(v, np.ndarray):
            d[k] = each(v)
        elif isinstance(v, dict):
            if lay == "columns" and len({len(x) for x in v.values()}) == 1:     # one table of all modes
                table = np.stack(list(v.values()), axis=1)
                for i, m in enumerate(v):
                    v[m] = table[:, i]
            else:
                for m in v:
                    v[m] = each(v[m])
    return d


def gen_dataset(rng, flaws=True):
    rep = rng.choice(["hlm"] * 5 + ["ampphase", "ampphaseomega", "ampphaseomega"] + REPS)
    ds = {"w": rng.randrange(8), "rep": rep}
    if rng.random() < 0.5:
        ds["zeroecc"] = True
        ds["zkind"] = rng.choice(["hlm", "hlm", "ampphase", "ampphaseomega"])
        if rng.random() < 0.3:
            ds["dtz"] = 100.0
    if rng.random() < 0.2:
        ds["t0"] = 500.0
    if rng.random() < 0.2 and rep == "hlm":
        ds["extra_modes"] = [[3, 3], [2, 1]][:rng.randint(1, 2)]
    if rep.startswith(("prec", "copr")) and rng.random() < 0.2:
        ds[rng.choice(["asym", "spin"])] = rng.choice([0.02, 0.1])
    if rng.random() < 0.2:
        ds["lay"] = rng.choice(LAYOUTS)
    if flaws and rng.random() < 0.18:
        ds["flaw"] = rng.choice(["short", "quasi", "nan", "both", "no_t", "uneven", "unknown_key", "neg_phase"])
    return ds


# ---------------------------------------------------------------------- calls
KW = {
    "spline": {"omega_gw_extrema_interpolation_method": "spline"},
    "rational": {"omega_gw_extrema_interpolation_method": "rational_fit"},
    "degrees": {"omega_gw_extrema_interpolation_method": "rational_fit",
                "special_interp_kwargs_for_omega_gw_extrema": {"degrees": [2, 2]}},
    "special": {"omega_gw_extrema_interpolation_method": "spline",
                "special_interp_kwargs_for_omega_gw_extrema": {"k": 3, "ext": 2}},
    "mean": {"omega_gw_averaging_method": "mean_of_extrema_interpolants"},
    "zero": {"omega_gw_averaging_method": "omega_gw_zeroecc"},
    "width": {"extrema_finding_kwargs": {"width": 6}},
    "width2": {"extrema_finding_kwargs": {"width": 12, "prominence": None}},
    "interp": {"general_interp_kwargs": {"k": 2}},
    "interp5": {"general_interp_kwargs": {"k": 5, "ext": 2}},
    "mid": {"treat_mid_points_between_pericenters_as_apocenters": True},
    "orbits": {"use_only_these_many_orbits": 10},
    "orbits5": {"use_only_these_many_orbits": 5},
    "orbits8": {"use_only_these_many_orbits": 8},
    "orbits2": {"use_only_these_many_orbits": 2},
    "orbits3": {"use_only_these_many_orbits": 3},
    "refine": {"refine_extrema": True},
    "zerofail": {"return_zero_if_small_ecc_failure": True},
    "fits": {"kwargs_for_fits_methods": {"num_orbits": 3, "num_orbits_for_global_fit": 8}},
    "fits2": {"kwargs_for_fits_methods": {"prominence_factor": 0.05}},
    "filter": {"filter_kwargs": {"filter_threshold": 0.5}},
    "nofilter": {"filter_kwargs": {"do_not_filter": True}},
    "filterlow": {"filter_kwargs": {"filter_threshold": 0.01, "padding_length": 2000}},
    "filterfast": {"filter_kwargs": {"alpha": 6, "padding_length": 500}},
    "emptysub": {"extrema_finding_kwargs": {}, "general_interp_kwargs": {}, "filter_kwargs": {},
                 "kwargs_for_fits_methods": {}, "special_interp_kwargs_for_omega_gw_extrema": {}},
    "bad_key": {"nonsense": 1},
    "bad_sub": {"extrema_finding_kwargs": {"wdth": 3}},
    "bad_filter": {"filter_kwargs": {"nonsense": 2}},
    "bad_interp": {"omega_gw_extrema_interpolation_method": "cubic"},
    "bad_avg": {"omega_gw_averaging_method": "nonsense"},
}
GOODKW = [k for k in KW if not k.startswith("bad")]
BADKW = [k for k in KW if k.startswith("bad")]


def build_kwargs(names):
    if names is None:
        return None
    out = {}
    for n in names:
        for k, v in copy.deepcopy(KW[n]).items():
            if isinstance(v, dict) and isinstance(out.get(k), dict):
                out[k].update(v)
            else:
                out[k] = v
    return out


def gen_kwargs(rng, bad=True):
    r = rng.random()
    if r < 0.12:
        return None
    names = []
    if rng.random() < 0.55:
        names.append(rng.choice(["spline", "spline", "rational", "degrees", "special"]))
    for _ in range(rng.choice([0, 1, 1, 2])):
        names.append(rng.choice(GOODKW[4:]))
    if bad and rng.random() < 0.08:
        names.append(rng.choice(BADKW))
    return sorted(set(names), key=names.index)


def gen_ref(rng, t0, bad=True):
    r = rng.random()
    if r < 0.35:
        ref = {"k": "t", "v": round(rng.uniform(-2100, -900), 1) + t0}
    elif r < 0.55:
        ref = {"k": "t", "v": [round(-2100 + 200.0 * i + rng.uniform(0, 99), 1) + t0 for i in range(rng.randint(1, 6))]}
    elif r < 0.75:
        ref = {"k": "f", "v": round(rng.uniform(0.0092, 0.0122), 5)}
    else:
        ref = {"k": "f", "v": [round(0.0088 + 0.0006 * i + rng.uniform(0, 3e-4), 6) for i in range(rng.randint(1, 6))]}
    r = rng.random()
    if bad and r < 0.04:
        ref["v"] = {"t": -9000.0, "f": 0.9}[ref["k"]]
    elif bad and r < 0.06:
        ref["v"] = [] if rng.random() < 0.5 else {"t": [-9000.0, 4.0], "f": [0.9, 1.0]}[ref["k"]]
    elif r < 0.14 and isinstance(ref["v"], list):     # partly out of range
        ref["v"] = [ref["v"][0] / 5.0 if ref["k"] == "f" else -9000.0] + ref["v"]
    if isinstance(ref["v"], list) and len(ref["v"]) > 1 and rng.random() < 0.12:    # in no particular order
        rng.shuffle(ref["v"])
        if rng.random() < 0.3:
            ref["v"].append(ref["v"][0])
    if isinstance(ref["v"], list) and rng.random() < 0.3:
        ref["as"] = rng.choice(["list", "list", "tuple", "strided", "readonly", "f32", "int" if ref["k"] == "t" else "list"])
    elif not isinstance(ref["v"], list) and rng.random() < 0.3:
        ref["as"] = rng.choice(["0d", "0d", "np", "int" if ref["k"] == "t" else "0d"])
    return ref


def gen_worlds(rng, datasets, n):
    """The extra arguments that go with these datasets."""
    kws = [gen_kwargs(rng) for _ in range(n)]
    if any(ds.get("flaw") == "quasi" for ds in datasets) and rng.random() < 0.7:
        kws[0] = (kws[0] or []) + ["zerofail"] if rng.random() < 0.5 else ["zerofail"]
    return kws


def gen_call(rng, datasets, bad=True):
    i = rng.randrange(len(datasets))
    ds = datasets[i]
    c = {"d": i, "ref": gen_ref(rng, ds.get("t0", 0.0), bad), "debug": -1}
    c["method"] = rng.choice(METHODS if ds.get("zeroecc") else
                             ["Amplitude", "Frequency", "AmplitudeFits", "FrequencyFits"] * 3 + METHODS)
    if ds["rep"].startswith("prec"):
        c["prec"] = True
    elif ds["rep"].startswith("copr"):
        c["prec"] = True
        c["frame"] = "coprecessing"
    c["nex"] = -1 if bad and rng.random() < 0.02 else rng.choice([2, 2, 2, 2, 1, 3, None])
    if rng.random() < 0.25:
        c["debug"] = rng.choice([0, 0, 1, 1] + ([2] if bad else []))
    if bad and rng.random() < 0.03:
        c["method"] = "Nonsense"
    if bad and rng.random() < 0.02:
        c["frame"] = "nonsense"
    return c


def build_ref(ref):
    v, how = ref["v"], ref.get("as")
    if not isinstance(v, list):
        return {"0d": np.array, "np": np.float64, "int": int}[how](v) if how else v
    if how in ("list", "tuple"):
        return {"list": list, "tuple": tuple}[how](v)
    a = np.array(v, dtype={"f32": np.float32, "int": int}.get(how, float))
    if how == "strided":
        a = np.repeat(a, 3)[::3]
    elif how == "readonly":
        a.setflags(write=False)
    return a


def overwrite(old, new):
    """Give the caller's object other content without replacing it; False: not possible."""
    if isinstance(old, dict) and isinstance(new, dict):
        for k in list(old):
            if k not in new:
                del old[k]
        for k, v in new.items():
            if not overwrite(old.get(k), v):
                old[k] = copy.deepcopy(v)
        return True
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and old.shape == new.shape and old.dtype == new.dtype:
        w = old.flags.writeable
        if not w:
            old.setflags(write=True)
        old[...] = new
        if not w:
            old.setflags(write=False)
        return True
    if isinstance(old, list) and isinstance(new, list):
        old[:] = copy.deepcopy(new)
        return True
    return False


def call(c, data, ref, kwargs):
    """One measurement; returns (outcome, result dict or None)."""
    import gw_eccentricity
    a = {"method": c["method"], "dataDict": data, "extra_kwargs": kwargs, "debug_level": c["debug"],
         "num_orbits_to_exclude_before_merger": c["nex"],
         "tref_in" if c["ref"]["k"] == "t" else "fref_in": ref}
    if c.get("prec"):
        a["precessing"] = True
    if c.get("frame"):
        a["frame"] = c["frame"]
    try:
        r = gw_eccentricity.measure_eccentricity(**a)
    except Exception as e:
        return ("err", type(e).__name__, mask(str(e))), None
    return ("ok", {k: np.copy(v) if np.ndim(v) else float(v) for k, v in r.items() if k != "gwecc_object"}), r


def mask(s):
    s = re.sub(r"0x[0-9a-f]+", "0x", s)
    return re.sub(r"[-+]?(?:\d+\.\d*|\.\d+|\d+e[-+]?\d+)(?:e[-+]?\d+)?", "#", s)


TOL = 1e-7


def same(a, b, tol=TOL):
    """Equality of answers, up to rounding."""
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    num = (int, float, np.ndarray, np.number)
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.size == 0:
            return True
        scale = max(float(np.nanmax(np.abs(x), initial=0)), float(np.nanmax(np.abs(y), initial=0)), 1e-300)
        return bool(np.allclose(x, y, rtol=tol, atol=tol * scale, equal_nan=True))
    return type(a) is type(b) and a == b


def brief(x):
    s = repr(x)
    return s if len(s) < 220 else s[:200] + "..."


# ----------------------------------------------------------------- snapshots
def freeze(x):
    """Deep, exact image of a caller's object: values, order, types, dtypes, flags."""
    if isinstance(x, dict):
        return ("dict", type(x).__name__, [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.flags.writeable, hashlib.sha1(np.ascontiguousarray(x).tobytes()).digest())
    return (type(x).__name__, repr(x))


def difference(a, b, where="input"):
    """First place where two frozen images differ."""
    if a == b:
        return None
    if a[0] == "dict" and b[0] == "dict":
        ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
        if ka != kb:
            gone = [k[1] for k in ka if k not in kb]
            new = [k[1] for k in kb if k not in ka]
            return f"{where}: keys {'removed ' + str(gone) if gone else ''}{' added ' + str(new) if new else ''}" \
                + ("" if gone or new else "reordered")
        for (k, va), (_, vb) in zip(a[2], b[2]):
            if va != vb:
                return difference(va, vb, f"{where}[{k[1] if len(k) == 2 else k}]")
    if a[0] == "array" and b[0] == "array" and a[2] != b[2]:
        return f"{where}: array of shape {a[2]} became {b[2]}"
    return f"{where} changed"


# -------------------------------------------------------------- forked runs
def forked(fn, timeout=90.0, cpu=None):
    """fn() in a forked child with its output discarded; returns its pickled value."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            from . import seam
            seam.die_with_parent()
            gc.disable()
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, resource.RLIM_INFINITY))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            if not os.environ.get("DST_STDERR"):
                os.dup2(null, 2)
            else:
                import faulthandler
                faulthandler.enable()
            try:
                v = ("ok", fn())
            except BaseException as e:
                import traceback
                v = ("exc", f"{type(e).__name__}: {e}\n{traceback.format_exc()}", isinstance(e, HarnessError),
                     any(in_repo(f.f_code) for f, _ in traceback.walk_tb(e.__traceback__)))
            b = pickle.dumps(v)
            b = struct.pack("<Q", len(b)) + b
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError("isolated run exceeded its real-time limit")
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) < 8 + struct.unpack("<Q", buf[:8])[0]:
        return ("died", st)
    return pickle.loads(buf[8:])


def run_history(fn, out, timeout=240.0, cpu=60):
    """A simulated history in its own process. One that never ends, kills its process
    or raises from the code under test where nothing may raise is a violation."""
    v = forked(fn, timeout, cpu)
    if v[0] == "ok":
        return v[1]
    if v[0] == "died":
        sig = os.WTERMSIG(v[1]) if os.WIFSIGNALED(v[1]) else None
        if sig == signal.SIGXCPU:
            out.bad("spin", f"the calls do not end ({cpu} s of processor time)")
            return None
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            out.bad("died", f"the process was ended by {signal.Signals(sig).name}")
            return None
    elif v[2] and "line limit" in v[1]:
        out.bad("spin", "the calls do not end (line limit)")
        return None
    elif not v[2] and v[3]:
        out.bad("raised", v[1][:300] + " ... " + v[1][-500:])
        return None
    raise HarnessError(f"isolated run: {v}")


def forked_value(fn, timeout=90.0):
    v = forked(fn, timeout)
    if v[0] != "ok":
        raise HarnessError(f"isolated run: {v}")
    return v[1]


# ------------------------------------------------------------------- tracing
class Interrupted(KeyboardInterrupt):
    pass


def in_repo(code):
    f = code.co_filename
    return f.startswith(PKG) and code.co_name != "<module>"


class Trap:
    """Count line events in the code under test; raise at the k-th."""

    def __init__(self, at=None, exc=Interrupted, limit=3_000_000):
        self.n = 0
        self.at = at
        self.exc = exc
        self.limit = limit
        self.where = None
        self.places = {}        # (function, line) -> [first, last] count at which it ran

    def count(self):
        return self.n, sorted({k for p in self.places.values() for k in p})

    def trace(self, frame, event, arg):
        if event == "call":
            return self.line if in_repo(frame.f_code) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is None:
                self.places.setdefault((frame.f_code, frame.f_lineno), [self.n, 0])[1] = self.n
            if self.n == self.at:
                self.where = f"{frame.f_code.co_name}:{frame.f_lineno}"
                raise self.exc("interrupted by the simulation")
            if self.n > self.limit:
                raise HarnessError("line limit")
        return self.line

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


# ------------------------------------------------------------------- oracle
_oracle = {}


def alone(ds, c, kwnames, count=False):
    """The outcome of this call in a fresh process: (outcome, traced lines or None)."""
    key = repr((sorted(ds.items()), sorted((k, v) for k, v in c.items() if k != "d"), kwnames, count))
    if key not in _oracle:
        data = place({k: v for k, v in ds.items() if k != "lay" or v != "readonly"})    # what it would change, it may change

        def run():
            t = Trap()
            if count:
                with t:
                    o, _ = call(c, data, build_ref(c["ref"]), build_kwargs(kwnames))
            else:
                o, _ = call(c, data, build_ref(c["ref"]), build_kwargs(kwnames))
            return o, t.count()
        if len(_oracle) > 3000:
            _oracle.clear()
        _oracle[key] = forked_value(run)
    return _oracle[key]


def warm():
    """Import and compile (numba) everything once in the parent."""
    wave_ds = {"w": 0, "rep": "prec_hlm", "zeroecc": True, "zkind": "hlm"}
    c = {"d": 0, "ref": {"k": "t", "v": -1500.0}, "debug": -1, "method": "Amplitude", "prec": True, "nex": 2}
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    try:
        o = call(c, copy.deepcopy(build_data(wave_ds)), -1500.0, {})[0]
        call({**c, "method": "FrequencyFits", "prec": False}, copy.deepcopy(build_data({**wave_ds, "rep": "hlm"})), -1500.0, None)
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
        os.close(devnull)
    return o


__all__ = ["sub_rng"]
