"""Simulated runs of the MPI post-processing command line tool.

A run is a `spec` (pure data, drawn from one seed): a posterior, the command
line, and a list of incarnations of the job -- each with its own number of
ranks, schedule and faults -- sharing one output directory.
"""
import json
import math
import os
import pickle
import sys

import numpy as np
import pandas as pd

from . import fakempi, job as J, wave
from .choices import sub_rng

GEN_SRC = '''
import dst.seam as _s
import dst.wave as _w


def _make(params, extra):
    """data_dict_generator: parks at the simulator, then builds the waveform."""
    bad = None
    try:
        params, uid = _w.resolve(params, extra)
    except AssertionError as e:
        bad, uid = e, float(params["uid"])
    act = _s.SEAM.call("gen", uid)
    mode = None
    if act is not None and act[0] == "mode":
        mode = act[1]
    elif act is not None:
        kind = act[1]
        if kind == "keyboard":
            raise KeyboardInterrupt
        if kind == "sysexit":
            raise SystemExit(7)
        if kind == "sysexit0":
            raise SystemExit(0)
        if kind == "genexit":
            raise GeneratorExit("stopped")
        raise RuntimeError(kind)
    if bad is not None:
        raise bad
    if "dst_extra" in extra:
        assert extra["dst_extra"] == [1, {"a": None}], extra
    return _w.make(params, extra, mode)


class _Generator:
    """A callable whose repr (it appears in messages) carries no address."""
    __name__ = __qualname__ = "make"

    def __call__(self, params, extra):
        return _make(params, extra)

    def __repr__(self):
        return "<function make>"


make = _Generator()
'''

MODULE = "gw_eccentricity.postprocess.postprocess_cli"


# ------------------------------------------------------------------ the rank
def rank_target(argv, cwd, salt=0):
    def target(rank, size, seam):
        import atexit
        import importlib
        import importlib.abc
        from . import seam as sm
        sm.patch_clock(seam)
        sm.patch_random(rank, salt)
        atexit._clear()
        sys.dont_write_bytecode = True    # a stale .pyc of a rewritten generator must not be taken for it
        os.chdir(cwd)
        mods = fakempi.make_modules(seam, rank, size)
        for k in list(sys.modules):
            if k == "mpi4py" or k.startswith("mpi4py.") or k == "gw_eccentricity.postprocess" \
                    or k.startswith("gw_eccentricity.postprocess."):
                del sys.modules[k]
        sys.modules.update(mods)

        class Finder(importlib.abc.MetaPathFinder):
            def find_spec(self, name, path, tgt=None):
                if name.startswith("mpi4py."):
                    raise fakempi.Unsupported(f"import of {name}")
                return None
        sys.meta_path.insert(0, Finder())
        os.environ["OMPI_COMM_WORLD_RANK"] = str(rank)
        os.environ["OMPI_COMM_WORLD_SIZE"] = str(size)
        sys.argv = ["gw-eccentricity-postprocess"] + [str(a) for a in argv]
        m = importlib.import_module(MODULE)
        try:
            m.main()
        finally:
            import threading
            atexit._run_exitfuncs()
            del threading
    return target


# ------------------------------------------------------------------- oracle
_ORACLE = {}


def isolated(fn):
    """Run fn() in a fresh fork of this process; return its (pickled) value."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("err", type(e).__name__, str(e))
            with os.fdopen(w, "wb") as h:
                h.write(pickle.dumps(out))
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        b = h.read()
    os.waitpid(pid, 0)
    if not b:
        raise J.HarnessError("isolated computation died")
    return pickle.loads(b)


def oracle(w, mode, spec):
    """What measuring this one sample on its own, in a pristine process, gives."""
    key = json.dumps([w, mode, spec["ref"], spec["method"], spec["gwkw"], spec["extra"]],
                     sort_keys=True)
    if key not in _ORACLE:
        def f():
            from gw_eccentricity import measure_eccentricity
            d = wave.make({"w": w, "mode": mode}, spec["extra"])
            if not isinstance(d, dict):
                raise TypeError("should return a dict")
            kw = json.loads(json.dumps(spec["gwkw"]))
            r = measure_eccentricity(dataDict=d, method=spec["method"],
                                     tref_in=spec["ref"].get("tref"),
                                     fref_in=spec["ref"].get("fref"), **kw)
            return float(r["eccentricity"]), float(r["mean_anomaly"])
        r = isolated(f)
        if r[0] == "ok":
            _ORACLE[key] = ("success", r[1][0], r[1][1], None)
        else:
            _ORACLE[key] = ("fail", None, None, r[2])
    return _ORACLE[key]


# --------------------------------------------------------------------- spec
METHODS = [("Amplitude", 10), ("Frequency", 2), ("ResidualAmplitude", 1),
           ("ResidualFrequency", 1), ("AmplitudeFits", 1), ("FrequencyFits", 1)]


def wchoice(rng, pairs):
    t = sum(w for _, w in pairs)
    x = rng.random() * t
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def gen_posterior(rng, n_max=12, fail_p=None):
    n = rng.choice([1, 2, 3]) if rng.random() < 0.2 else rng.randint(2, n_max)
    fail_p = rng.choice([0.0, 0.15, 0.4]) if fail_p is None else fail_p
    if rng.random() < 0.04:
        fail_p = 1.0
    ws = [rng.randrange(wave.POOL) for _ in range(n)]
    if n <= wave.POOL and rng.random() < 0.8:
        ws = rng.sample(range(wave.POOL), n)
    modes = [(rng.choice(wave.MODES[1:]) if rng.random() < fail_p else "ok") for _ in range(n)]
    kind = wchoice(rng, [("range", 6), ("offset", 2), ("gaps", 2), ("shuffled", 1), ("desc", 1)])
    if kind == "range":
        idx = list(range(n))
    elif kind == "offset":
        o = rng.choice([rng.randint(1, 5000), rng.randint(1, 5000), 2**31 - 3, 5_000_000_000, 2**53 + 1])
        idx = list(range(o, o + n))
    elif kind == "gaps":
        idx = sorted(rng.sample(range(3 * n + 2), n))
    elif kind == "shuffled":
        idx = rng.sample(range(2 * n), n)
    else:
        idx = list(range(n))[::-1]
    ext = "json" if kind == "range" and rng.random() < 0.25 else "pkl"
    odd = []
    if rng.random() < 0.3:
        names = sorted(c for c in wave.ODD if ext == "pkl" or c not in ("odd text", "odd,float"))
        odd = rng.sample(names, rng.randint(1, len(names)))
    return {"n": n, "w": ws, "modes": modes, "index": idx, "kind": kind,
            "ext": ext, "odd": odd, "mode_col": rng.choice(["mode", "mode_code"]),
            "extra_cols": rng.random() < 0.5}


def make_near(spec, rng):
    """Turn the posterior into one whose samples are almost the same point."""
    p = spec["post"]
    w0 = rng.randrange(wave.POOL)
    kind, o = rng.choice(sorted(wave.NEAR)), rng.choice([0, 0, 7, 100])
    p["near"] = [kind, w0, o]
    p["w"] = [(w0 + o + i) % wave.POOL for i in range(p["n"])]
    p["modes"] = ["ok" if rng.random() < 0.9 else m for m in p["modes"]]
    spec["extra"]["dst_near"] = [kind, w0, o]


def gen_samples(rng, post):
    """(SPEC string for --samples, expected list of index labels)"""
    idx = post["index"]
    r = rng.random()
    if r < 0.5:
        return rng.choice(["all", "all", "none", "ALL"]), list(idx)
    if post["kind"] in ("range", "offset") and r < 0.75:
        a = rng.randint(0, len(idx) - 1)
        b = rng.randint(a + 1, len(idx))
        s = rng.choice([1, 1, 2, 3])
        lo, hi = idx[a], idx[b - 1] + 1
        lab = list(range(lo, hi, s))
        txt = f"{lo}:{hi}" if s == 1 and rng.random() < 0.5 else f"{lo}:{hi}:{s}"
        if lo == 0 and rng.random() < 0.5:
            txt = txt[1:] if txt.startswith("0") else txt
        return txt, lab
    k = rng.randint(1, len(idx))
    lab = rng.sample(list(idx), k)
    if rng.random() < 0.5:
        lab.sort()
    txt = ",".join(map(str, lab))
    if k == 1 and rng.random() < 0.5:
        txt = str(lab[0])
    return txt, lab


def gen_inc(rng, n, ident, max_size=5):
    size = wchoice(rng, [(1, 3), (2, 3), (3, 4), (4, 2), (max_size, 1)])
    batch = wchoice(rng, [(1, 4), (2, 3), (3, 2), (rng.randint(1, max(1, n)), 2), (max(1, n + rng.randint(0, 3)), 1), (None, 1)])
    w = [rng.choice([1.0, 1.0, 0.05, 8.0]) for _ in range(size)]
    inc = {"size": size, "batch": batch, "save_every": None, "sched_seed": ident,
           "weights": w, "net_weight": rng.choice([0.05, 1.0, 1.0, 8.0]),
           "sync_p": rng.choice([0.0, 0.3, 1.0]),
           "gen_cost": rng.choice([[0.0, 0.0], [0.0, 1.0], [5.0, 400.0]]),
           "tick": rng.choice([0.0, 0.01, 0.5]),
           "frozen_p": rng.choice([0.0, 0.5]), "wall_offset": {},
           "faults": []}
    if rng.random() < 0.2:
        inc["wall_offset"] = {str(i): rng.choice([-1e6, 0, 3600.0, 1e7]) for i in range(size)}
    if rng.random() < 0.25:
        inc["faults"].append({"trig": {"step": rng.randint(1, 60)},
                              "act": {"kind": "stall", "rank": rng.randrange(size),
                                      "steps": rng.choice([5, 30, 200])}})
    return inc


def gen_base(seed, n_max=12, fail_p=None):
    rng = sub_rng("cli", seed)
    post = gen_posterior(rng, n_max, fail_p)
    txt, labels = gen_samples(rng, post)
    method = wchoice(rng, METHODS)
    gwkw = {}
    if rng.random() < 0.85 and not method.endswith("Fits"):
        gwkw = {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline"}}
    elif method.endswith("Fits"):
        gwkw = {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline"}}
    if rng.random() < 0.2:
        gwkw.setdefault("extra_kwargs", {})["return_zero_if_small_ecc_failure"] = True
    if rng.random() < 0.1:
        gwkw.setdefault("extra_kwargs", {})["use_only_these_many_orbits"] = rng.choice([6, 8, 12])
    if rng.random() < 0.02:
        gwkw["no_such_option"] = 1      # every sample fails
    if rng.random() < 0.2:
        gwkw["num_orbits_to_exclude_before_merger"] = rng.choice([0, 1, 2])
    extra = {}
    if method.startswith("Residual"):
        extra["zeroecc"] = True
    if rng.random() < 0.3:
        extra["dst_extra"] = [1, {"a": None}]
    ref = rng.choice([{"fref": 0.0098}, {"fref": 0.0105}, {"tref": -1500.0}, {"tref": -600.25}])
    spec = {"family": "cli", "seed": seed, "post": post, "samples": txt, "labels": labels,
            "method": method, "gwkw": gwkw, "extra": extra, "ref": ref,
            "fmt": rng.choice(["csv", "csv", "json", "parquet"]),
            "outdir": rng.choice(["out", "out/deep/er", "."]),
            "param_cols": rng.random() < 0.25,
            "incs": []}
    return spec, rng


# ------------------------------------------------------------------ running
uid_of = wave.uid_of


def posterior_frame(spec):
    p = spec["post"]
    if p.get("near"):
        # samples that differ in one column only, and there by little
        d = {"uid": [wave.near_value(p["near"][0], p["near"][2] + i) for i in range(p["n"])],
             "mass": [30.125] * p["n"]}
    else:
        d = {"uid": [uid_of(i) for i in range(p["n"])], "w": [float(x) for x in p["w"]]}
    if p["mode_col"] == "mode" and p["ext"] != "json":
        d["mode"] = p["modes"]
    else:
        d["mode_code"] = [float(wave.MODES.index(m)) for m in p["modes"]]
    if p["extra_cols"]:
        d["chirp_mass"] = [20 + (math.sin(i + 1) * 3 if not p.get("near") else 0) for i in range(p["n"])]
        d["tiny"] = [1e-7 * ((i if not p.get("near") else 0) + 1) / 3 for i in range(p["n"])]
    for c in p.get("odd", []):
        d[c] = [wave.ODD[c](i) for i in range(p["n"])]
    return pd.DataFrame(d, index=p["index"])


def needed_cols(spec):
    df = posterior_frame(spec)
    return [c for c in df.columns if c in ("uid", "w", "mass", "mode", "mode_code")]


def write_posterior(spec, path):
    import bilby
    df = posterior_frame(spec)
    keys = [c for c in df.columns if c not in ("mode", "odd text", "odd_bool")]
    pr = bilby.core.prior.PriorDict({k: bilby.core.prior.Uniform(-1e9, 1e9, k) for k in keys})
    r = bilby.core.result.Result(label="x", outdir=os.path.dirname(path), posterior=df,
                                 search_parameter_keys=keys, priors=pr)
    ext = spec["post"]["ext"]
    if ext == "pkl":
        with open(path, "wb") as h:
            pickle.dump(r, h)
    else:
        r.save_to_file(filename=path, extension="json", overwrite=True)


class World:
    """Scratch directory of one run: inputs, tracked job directory, logs."""

    def __init__(self, spec, tmp):
        self.spec = spec
        self.tmp = tmp
        self.job = os.path.join(tmp, "job")
        self.log = os.path.join(tmp, "log")
        os.makedirs(os.path.join(self.job, "tmp"))
        self.gen = os.path.join(tmp, "gen_mod.py")
        with open(self.gen, "w") as h:
            h.write(GEN_SRC)
        self.post = os.path.join(tmp, "posterior." + spec["post"]["ext"])
        write_posterior(spec, self.post)
        self.outdir = os.path.normpath(os.path.join(self.job, spec["outdir"]))
        self.final = os.path.join(self.outdir, "eccentricity_results." + spec["fmt"])

    def argv(self, inc, over=None):
        s = dict(self.spec, **(over or {}))
        a = ["--posterior-path", self.post, "--output-dir", spec_out(s),
             "--output-format", s["fmt"], "--samples=" + s["samples"], "--method", s["method"],
             "--data-dict-generator", self.gen + ":make",
             "--data-dict-generator-extra-kwargs", json.dumps(s["extra"]),
             "--gw-eccentricity-kwargs", json.dumps(s["gwkw"])]
        for k, v in s["ref"].items():
            a.append(f"--{k}={v!r}")
        if inc["batch"] is not None:
            a += ["--batch-size", inc["batch"]]
        if inc["save_every"] is not None:
            a += ["--save-every", inc["save_every"]]
        if s["param_cols"]:
            a += ["--parameter-columns", ", ".join(needed_cols(s))]
        if inc.get("extra_argv"):
            a += inc["extra_argv"]
        return a

    def run(self, inc, on_event=None, max_steps=6000, over=None):
        tgt = rank_target(self.argv(inc, over), self.job, repr(inc["sched_seed"]))
        os.environ["TMPDIR"] = os.path.join(self.job, "tmp")
        return J.Job(inc, self.job, tgt, self.log, max_steps=max_steps, on_event=on_event).run()


def spec_out(s):
    return s["outdir"]


def read_final(path, fmt):
    if fmt == "csv":
        return pd.read_csv(path, float_precision="round_trip", keep_default_na=False,
                           dtype={"error_message": str, "mode": str, "odd text": str},
                           na_values={"egw": [""], "lgw": [""], "odd,float": [""]})
    if fmt == "json":
        return pd.read_json(path, dtype=False, precise_float=True)
    return pd.read_parquet(path)


def _missing(x):
    return x is None or (isinstance(x, float) and math.isnan(x)) or (isinstance(x, str) and x == "")


def expected_rows(spec, over=None):
    s = dict(spec, **(over or {}))
    p = s["post"]
    pos = {lab: i for i, lab in enumerate(p["index"])}
    rows = []
    modes = s.get("eff_modes") or p["modes"]
    for lab in s["labels"]:
        i = pos[lab]
        st, e, l, msg = oracle(p["w"][i], modes[i], s)
        rows.append({"sample_index": lab, "i": i, "status": st, "egw": e, "lgw": l,
                     "mode": modes[i], "message": msg})
    return rows


def same_value(a, b, tol):
    """The result file's value b is the posterior's value a."""
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    if isinstance(b, str) or b is None:
        return b is None and isinstance(a, float) and a != a
    if isinstance(a, (float, np.floating)):
        return (a != a and b != b) or abs(float(a) - float(b)) <= tol(float(a))
    return a == b


def _own(r, e, tol):
    """The row records this outcome."""
    if r["status"] != e["status"]:
        return False
    if e["status"] == "success":
        return all(not _missing(r[c]) and abs(float(r[c]) - e[c]) <= tol(e[c]) for c in ("egw", "lgw"))
    return e["mode"] in ("list", "none") or str(e["message"]) in str(r.get("error_message"))


def check_rows(spec, path, fmt=None, over=None):
    """Problems with a final results file: (row problems, value problems)."""
    s = dict(spec, **(over or {}))
    fmt = fmt or s["fmt"]
    rows_bad, vals_bad = [], []
    if not os.path.exists(path):
        return [f"no results file {os.path.basename(path)}"], []
    try:
        df = read_final(path, fmt)
    except Exception as e:
        return [f"results file unreadable: {type(e).__name__}: {e}"[:300]], []
    exp = expected_rows(s)
    if len(df) != len(exp):
        rows_bad.append(f"{len(df)} rows for {len(exp)} requested samples")
        return rows_bad, vals_bad
    for c in ("sample_index", "status", "egw", "lgw"):
        if c not in df.columns:
            rows_bad.append(f"column {c} missing")
    if rows_bad:
        return rows_bad, vals_bad
    src = posterior_frame(s)
    cols = needed_cols(s) if s["param_cols"] else list(src.columns)
    for c in cols:
        if c not in df.columns:
            rows_bad.append(f"posterior column {c} missing")
            return rows_bad, vals_bad
    def tol(x):
        # JSON keeps 15 decimals
        return 1e-15 + 5e-16 * abs(x) if fmt == "json" else 0.0
    for k, (e, (_, r)) in enumerate(zip(exp, df.iterrows())):
        if int(r["sample_index"]) != e["sample_index"]:
            rows_bad.append(f"row {k}: sample_index {r['sample_index']} != requested {e['sample_index']}")
            continue
        for c in cols:
            a, b = src[c].iloc[e["i"]], df[c].iloc[k]
            if not same_value(a, b, tol):
                rows_bad.append(f"row {k}: column {c} is {b!r}, posterior has {a!r}")
        if _missing(r["status"]):
            rows_bad.append(f"row {k}: no outcome for sample {e['sample_index']}")
        elif not _own(r, e, tol):
            o = next((o for o in exp if o["sample_index"] != e["sample_index"] and _own(r, o, tol)), None)
            if o:
                rows_bad.append(f"row {k}: the outcome of sample {o['sample_index']} is recorded for sample {e['sample_index']}")
        if r["status"] != e["status"]:
            vals_bad.append(f"sample {e['sample_index']}: status {r['status']!r}, alone it is {e['status']!r}"
                            f" ({e['message']}; row says {r.get('error_message')})")
            continue
        if e["status"] == "success":
            for c in ("egw", "lgw"):
                if _missing(r[c]) or not abs(float(r[c]) - e[c]) <= tol(e[c]):
                    vals_bad.append(f"sample {e['sample_index']}: {c}={r[c]!r}, measured alone {e[c]!r}")
        else:
            for c in ("egw", "lgw"):
                if not _missing(r[c]):
                    vals_bad.append(f"failed sample {e['sample_index']} has {c}={r[c]!r}")
            got = r.get("error_message")
            if _missing(got):
                vals_bad.append(f"failed sample {e['sample_index']} (mode {e['mode']}) has no error_message")
            elif e["mode"] not in ("list", "none") and str(e["message"]) not in str(got):
                vals_bad.append(f"failed sample {e['sample_index']}: error_message {str(got)[:80]!r} does not carry "
                                f"the failure {str(e['message'])[:80]!r}")
    return rows_bad, vals_bad
