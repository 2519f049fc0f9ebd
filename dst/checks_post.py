"""C26: a post-processing object holds its posterior file whole; its injection, summaries
and histograms show the current data."""
import copy
import json
import math
import os
import re
import shutil

import numpy as np
import pandas as pd

from . import clisim as C, measure as M, wave
from .checks_cli import Out
from .checks_io import LoadJob, put
from .choices import sub_rng
from .measure import same

GWKW = [{}, {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline"}},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline", "return_zero_if_small_ecc_failure": True}},
        {"num_orbits_to_exclude_before_merger": 1}]
REFS = [{"fref": 0.0098}, {"fref": 0.0105}, {"tref": -1500.0}, {"tref": -600.25}]
EXTS = ["json", "hdf5", "pkl"]
PLOTS = {"egw": "plot_egw_posterior", "lgw": "plot_lgw_posterior",
         "ecc": "plot_eccentricity_posterior", "ano": "plot_mean_per_ano_posterior"}


def frame(ext, v):
    """Posterior number v."""
    n = [4, 3, 6, 4][v]
    d = {"uid": [C.uid_of(i + 10 * v) for i in range(n)], "w": [float((5 * i + 3 * v) % wave.POOL) for i in range(n)],
         "mode_code": [float([0, 0, 1, 0, 6, 0][(i + v) % 6]) for i in range(n)],
         "eccentricity": [abs(math.sin(i + 7 * v)) / 3 for i in range(n)],
         "mean_per_ano": [abs(math.cos(i + 5 * v)) * 6 for i in range(n)],
         "minimum_frequency": [20.0 + v] * n,
         "tiny": [1e-17 * (i + 1) / 3 for i in range(n)]}
    if v == 2:          # a sample drawn twice
        for c in d.values():
            c[-1] = c[1]
    return pd.DataFrame(d, index=range(100, 100 + n) if ext == "pkl" else range(n))


NEED = ["uid", "w", "mode_code"]


def injection(v):
    """(text of the file, its row); numbers 0 and 3 have the same length"""
    row = {"w": float(2 * v + 2), "uid": 5000.5 + v, "mode_code": 0.0, "chirp_mass": 28.123456789012 + v, "small": 1.23456789e-21}
    if v != 1:
        row["minimum_frequency"] = 11.0 + v
    if v == 2:
        row["mode_code"] = 6.0          # its waveform cannot be made
    text = " ".join(row) + "\n" + " ".join(repr(x) for x in row.values()) + "\n"
    return text.encode(), row


_files = {}


def posterior_file(ext, v, tmp):
    if (ext, v) not in _files:
        import pickle
        import bilby
        df = frame(ext, v)
        keys = list(df.columns)
        pr = bilby.core.prior.PriorDict({k: bilby.core.prior.Uniform(-1e9, 1e9, k) for k in keys})
        r = bilby.core.result.Result(label="x", outdir=tmp, posterior=df, search_parameter_keys=keys, priors=pr)
        path = os.path.join(tmp, "made." + ext)
        if ext == "pkl":
            with open(path, "wb") as h:
                pickle.dump(r, h)
        else:
            r.save_to_file(filename=path, extension=ext, overwrite=True)
        with open(path, "rb") as h:
            _files[ext, v] = h.read()
        os.unlink(path)
    return _files[ext, v]


def frame_digest(df):
    if not isinstance(df, pd.DataFrame):
        return repr(type(df))
    return json.dumps([[repr(i) for i in df.index], {str(c): [float(x).hex() for x in df[c]] for c in sorted(df.columns)}])


class C26:
    pid, family, level = "C26", "posterior", "exploration"
    rule = "a storage fault hit a call, or two or more calls on one object"

    def setup(self, tmp):
        M.warm()
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            for e in EXTS:
                for v in range(3):
                    posterior_file(e, v, tmp)
        import bilby
        for e in EXTS:      # lazy imports of the readers happen here
            p = os.path.join(tmp, "warm." + e)
            with open(p, "wb") as h:
                h.write(_files[e, 0])
            bilby.result.read_in_result(filename=p)
            os.unlink(p)
        import matplotlib.pyplot as plt
        plt.close(plt.figure())

    # ------------------------------------------------------------ generation
    def gen(self, seed, tier):
        rng = sub_rng("c26", seed)
        ops = [self.gen_open(rng)]
        refs = rng.sample(range(len(REFS)), 2)
        kws = rng.sample(range(len(GWKW)), 2)
        early = rng.random() < 0.6
        for j in range(rng.randint(3, 9) if tier == "quick" else rng.randint(3, 18)):
            r = rng.random() if not (early and j == 0) else 0.4
            if r < 0.12:
                op = self.gen_open(rng)
            elif r < 0.32:
                op = {"k": "inj", "ref": rng.choice(refs), "kw": rng.choice(kws), "debug": rng.random() < 0.15, "faults": self.gen_faults(rng)}
            elif r < 0.52:
                op = {"k": "run", "sel": None if rng.random() < 0.4 else [rng.randrange(3) for _ in range(rng.randint(0, 3))],
                      "ref": rng.choice(refs), "kw": rng.choice(kws), "how": rng.choice(["ok"] * 6 + ["label", "no_ref", "method"])}
            elif r < 0.82:
                op = {"k": "plot", "which": rng.choice(["egw", "egw", "lgw", "lgw", "ecc", "ano"]), "given": rng.random() < 0.4,
                      "bins": rng.choice([None, 3, 7]), "tex": rng.random() < 0.2, "style": rng.choice(["Notebook", "APS"])}
            elif r < 0.88:
                op = {"k": "again", "cols": rng.choice([None, NEED, ["tiny", "w"]])}
            elif r < 0.94:
                op = {"k": "sum"}
            else:
                op = {"k": "scribble"}
            if op["k"] in ("inj", "plot", "run") and rng.random() < 0.15:
                op["int"] = rng.randint(1, 30 if op["k"] == "plot" else 8000)
            ops.append(op)
            r = rng.random()
            if r < 0.12:
                ops.append({"k": "replace", "what": rng.choice(["post", "inj"]), "v": rng.randrange(4), "how": rng.choice(["rename", "inplace"]),
                            "stamp": rng.random() < 0.4})
                if rng.random() < 0.6:
                    ops.append(dict(rng.choice([o for o in ops if o["k"] == {"inj": "inj"}.get(ops[-1]["what"], "open")]
                                               or [self.gen_open(rng)]), faults=[]))
            elif r < 0.18:
                ops.append({"k": "damage", "what": rng.choice(["post", "inj"]), "how": rng.choice(["cut", "missing", "empty"]), "at": rng.random()})
                ops.append(dict(rng.choice([o for o in ops if o["k"] in ("open", "inj")] or [self.gen_open(rng)]), faults=[]))
        return {"seed": seed, "ops": ops, "ext": rng.choice(EXTS), "v": rng.randrange(4), "iv": rng.choice([0, 0, 1, 1, 2, 3])}

    def gen_open(self, rng):
        return {"k": "open", "cols": rng.choice([None, None, NEED, NEED + ["eccentricity", "mean_per_ano"], NEED[::-1] + ["minimum_frequency"], ["w", "nothing"]]),
                "inj": rng.random() < 0.9, "faults": self.gen_faults(rng) if rng.random() < 0.5 else []}

    @staticmethod
    def gen_faults(rng):
        out = []
        if rng.random() < 0.5:
            return out
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(["read", "read", "read", "open"])
            n = rng.choice([1, 1, 2]) if op == "open" else rng.choice([1, 1, 2, 3, rng.randint(1, 25)])
            r = rng.random()
            if r < 0.4 and op == "read":
                act = {"kind": "short", "frac": rng.choice([0.0, 0.01, 0.5, 0.99])}
            elif r < 0.5:
                act = {"kind": "errno", "errno": "EINTR", "count": rng.choice([1, 1, 3])}
            elif op == "open":
                act = {"kind": "errno", "errno": rng.choice(["EIO", "EMFILE", "EACCES", "ESTALE"])}
            else:
                act = {"kind": "errno", "errno": rng.choice(["EIO", "EIO", "ESTALE"]), "count": rng.choice([1, 1, 1000])}
            out.append({"trig": {"op": op, "n": n}, "act": act})
        return out

    def describe(self, spec):
        return {"ext": spec["ext"], "ops": [{k: v for k, v in o.items() if v not in (None, [], False)} for o in spec["ops"]]}

    def pin(self, spec, out):
        return spec

    def shrink(self, spec):
        def var(f):
            s = copy.deepcopy(spec)
            f(s)
            return s
        for i, o in enumerate(spec["ops"]):
            if len(spec["ops"]) > 1:
                yield var(lambda s: s["ops"].pop(i))
            for j in range(len(o.get("faults", []))):
                yield var(lambda s: s["ops"][i]["faults"].pop(j))
            for k in ("int",):
                if k in o:
                    yield var(lambda s: s["ops"][i].pop(k))
            for k, v in (("tex", False), ("given", False), ("debug", False), ("cols", None), ("bins", None), ("sel", None)):
                if o.get(k) not in (v, None):
                    yield var(lambda s: s["ops"][i].update({k: v}))
        for k, v in (("ext", "pkl"), ("v", 0), ("iv", 0)):
            if spec[k] != v:
                yield var(lambda s: s.update({k: v}))

    # --------------------------------------------------------------- running
    def execute(self, spec, tmp):
        out = Out()
        run = os.path.join(tmp, "pp")
        shutil.rmtree(run, ignore_errors=True)
        job, stage = os.path.join(run, "job"), os.path.join(run, "stage")
        base = os.path.join(job, "in")
        os.makedirs(os.path.join(job, "tmp"))
        ext = spec["ext"]
        name = {"post": "posterior." + ext, "inj": "injection.txt"}
        made = {"post": lambda v: posterior_file(ext, v, tmp), "inj": lambda v: injection(v)[0]}
        state = {"post": ("ok", spec["v"]), "inj": ("ok", spec["iv"])}
        put(base, {name[w]: made[w](state[w][1]) for w in name})
        final = {name[w]: made[w](state[w][1]) for w in name}
        plans, seen = [], []
        for k, o in enumerate(spec["ops"]):
            plan = dict(o, n=k)
            if o["k"] in ("replace", "damage"):
                w = o["what"]
                if o["k"] == "replace":
                    b = made[w](o["v"])
                    state[w] = ("ok", o["v"])
                elif o["how"] == "missing":
                    b = None
                    state[w] = ("gone", None)
                else:
                    if state[w][0] != "ok":
                        plan["k"] = "none"
                    full = made[w](state[w][1] or 0)
                    # (an injection cut in the middle of a number cannot be told from a whole one)
                    b = b"" if o["how"] == "empty" or w == "inj" else full[:int(o["at"] * (len(full) - 1))]
                    if plan["k"] != "none":
                        state[w] = ("damaged", None)
                if plan["k"] != "none":
                    plan["name"] = name[w]
                    if b is None:
                        final.pop(name[w], None)
                    else:
                        final[name[w]] = b
                        put(os.path.join(stage, str(k)), {name[w]: b})
            plans.append(plan)
            seen.append(dict(state))
        os.environ["TMPDIR"] = os.path.join(job, "tmp")
        cfg = {"size": 1, "read_faults": True, "faults": [], "sched_seed": repr(spec["seed"]), "tick": 0.001}
        jb = LoadJob(cfg, job, self.target(spec, plans, base, stage, name), os.path.join(run, "log"), max_steps=200000)
        r = jb.run()
        out.add_job(r)
        out.sig.update(repr([e[:4] for e in r.events if e[0] in ("note", "fault")]).encode())
        out.sig.update(repr(spec["ops"]).encode())
        out.digest.update(repr([e for e in r.events if e[0] == "note"]).encode())
        self.judge(spec, r, plans, seen, out)
        for nm, b in final.items():
            p = os.path.join(base, nm)
            got = None
            if os.path.exists(p):
                with open(p, "rb") as h:
                    got = h.read()
            if got != b and r.outcome == "ok":
                out.bad("modified", f"{nm} was {'modified' if got is not None else 'removed'}")
        shutil.rmtree(run, ignore_errors=True)
        return out

    # --------------------------------------------------------------- judging
    def judge(self, spec, r, plans, seen, out):
        if r.outcome != "ok":
            out.bad("died" if r.outcome in ("error", "crash") else "stuck", f"the calls end with {r.outcome}: {r.detail}")
            return
        hard, cur = {}, None
        for e in r.events:
            if e[0] == "note":
                cur = e[3] if e[2] == "begin" else None
            elif e[0] == "fault" and cur is not None:
                out.nontrivial = True
                if "short" not in e[1]:
                    hard[cur] = hard.get(cur, []) + [e[1]]
        got = {e[3]: e[4:] for e in r.events if e[0] == "note" and e[2] == "load"}
        pp = stored = None
        ext = spec["ext"]
        done = 0
        for o, st in zip(plans, seen):
            k = o["n"]
            if k not in got:
                continue
            res, fds, extra = json.loads(got[k][0]), got[k][1], json.loads(got[k][2])
            what = f"call {k} ({', '.join(f'{a}={b}' for a, b in o.items() if a not in ('n', 'faults', 'at') and b not in (None, False, []))})"
            out.probe(f"{o['k']}:{res[0]}")
            done += 1
            if fds:
                out.bad("open-file", f"{what} ({res[0]}) leaves {fds} open")
            if extra.get("stale"):
                out.bad("result-changed", f"{what} changed the results returned by an earlier call")
            if res[0] == "interrupted":
                out.faults["interrupt"] = out.faults.get("interrupt", 0) + 1
                continue
            bad = hard.get(k)
            intact = f"storage {'hit by ' + str(bad) if bad else 'intact'}"

            def verdict(ok, exp, kind):
                """exp None: must raise."""
                if res[0] == "err":
                    if exp is not None and not bad:
                        out.bad("raises", f"{what} with {intact} raised {res[1]}: {res[2]}")
                elif exp is None:
                    out.bad("accepted", f"{what} returned {M.brief(res[1])} where it cannot be answered")
                elif not ok(res[1]):
                    out.bad(kind, f"{what} with {intact} gave {M.brief(res[1])}; it is {M.brief(exp)}")
            if o["k"] == "open":
                exp = None
                if st["post"][0] == "ok":
                    df = frame(ext, st["post"][1])
                    if o["cols"] is None or set(o["cols"]) <= set(df.columns):
                        exp = frame_digest(df if o["cols"] is None else df[o["cols"]])
                verdict(lambda g: g == exp, exp, "posterior")
                pp = None
                if res[0] == "ok":
                    pp = {"v": st["post"][1], "cols": o["cols"], "inj": o["inj"]}
                stored = None
                continue
            if pp is None:
                continue
            df = frame(ext, pp["v"])
            own = df if pp["cols"] is None else df[pp["cols"]]
            if o["k"] == "again":
                exps = []
                for v in {pp["v"], st["post"][1]} - {None}:
                    d = frame(ext, v)
                    exps.append(frame_digest(d if o["cols"] is None else d[o["cols"]]))
                if res[0] == "ok" and res[1] not in exps:
                    out.bad("posterior", f"{what} with {intact} gave {M.brief(res[1])}; the file's is {M.brief(exps[0])}")
                elif res[0] == "err" and not bad and st["post"] == ("ok", pp["v"]):
                    out.bad("raises", f"{what} raised {res[1]}: {res[2]}")
            elif o["k"] == "inj":
                exp = None
                if pp["inj"] and st["inj"][0] == "ok":
                    row = dict(injection(st["inj"][1])[1])
                    if "minimum_frequency" not in row and "minimum_frequency" in own.columns:
                        row["minimum_frequency"] = float(own["minimum_frequency"].iloc[0])
                    if "minimum_frequency" in row:
                        m = C.oracle(row["w"], wave.MODES[int(row["mode_code"])], self.case(o))
                        if m[0] == "success":
                            exp = list(m[1:3])
                        if res[0] == "ok" and not self.same_rows(extra.get("asked"), row):
                            out.bad("injection", f"{what} made the waveform of {extra.get('asked')}; the injection file says {row}")
                verdict(lambda g: same(g, exp), exp, "injection")
            elif o["k"] == "run":
                rows = self.rows(o, own, ext)
                exp = None if rows is None else [[e[0], e[1], e[2], e[3]] for e in rows]
                verdict(lambda g: [x[:2] for x in g] == [x[:2] for x in exp] and same([x[2:] for x in g], [x[2:] for x in exp]), exp, "rows")
                if res[0] == "ok":
                    stored = rows
            elif o["k"] == "plot":
                if o["which"] in ("egw", "lgw"):
                    vals = None if stored is None else [e[2 if o["which"] == "egw" else 3] for e in stored if e[1] == "success"]
                else:
                    c = {"ecc": "eccentricity", "ano": "mean_per_ano"}[o["which"]]
                    vals = list(own[c]) if c in own.columns else None
                exp = None
                if vals is not None:
                    h, edges = np.histogram(vals, bins=o["bins"] or 10)
                    exp = [[float(a), float(b - a), float(c)] for a, b, c in zip(edges[:-1], edges[1:], h)]
                verdict(lambda g: len(g) == len(exp) and np.allclose(g, exp, rtol=1e-6, atol=1e-9), exp, "histogram")
                if res[0] == "ok":
                    if extra["figs"] != (0 if o["given"] else 1):
                        out.bad("figure", f"{what} opened {extra['figs']} figures")
                    if extra["tex"] and not o["tex"] and not o["given"] and o["which"] in ("egw", "lgw"):
                        out.bad("figure", f"{what} needs LaTeX although it was asked for without")
            elif o["k"] == "sum":
                if stored is None:
                    exp = None
                else:
                    good = [e for e in stored if e[1] == "success"]
                    exp = [len(stored), 100.0 * len(good) / len(stored) if stored else 0.0, [e[2] for e in good], [e[3] for e in good],
                           [e[2] for e in good], [e[3] for e in good]]
                verdict(lambda g: same(g, exp), exp, "summary")
        out.steps += done
        if done > 2:
            out.nontrivial = True

    @staticmethod
    def same_rows(asked, row):
        return len(asked) == 1 and set(asked[0]) == set(row) and all(math.isclose(asked[0][k], row[k], rel_tol=1e-12) for k in row)

    @staticmethod
    def case(o):
        return {"ref": REFS[o["ref"]], "method": "Amplitude", "gwkw": GWKW[o["kw"]], "extra": {}}

    def rows(self, o, own, ext):
        if o["how"] != "ok":
            if o["how"] == "method":
                labs = list(own.index) if o["sel"] is None else [list(own.index)[i % len(own)] for i in o["sel"]]
                return [[lab, "fail", None, None] for lab in labs]
            return None
        res = []
        labs = list(own.index)
        for i in (range(len(own)) if o["sel"] is None else [i % len(own) for i in o["sel"]]):
            row = own.iloc[i]
            m = C.oracle(float(row["w"]), wave.MODES[int(row["mode_code"])], self.case(o))
            res.append([int(labs[i]), m[0], m[1], m[2]])
        return res

    # ---------------------------------------------------------------- target
    def target(self, spec, plans, base, stage, name):
        def target(rank, size, seam):
            import gc
            import warnings
            from . import seam as sm
            sm.patch_clock(seam)
            sm.patch_random(rank, repr(spec["seed"]))
            warnings.simplefilter("ignore")
            os.chdir(os.path.dirname(base))
            import matplotlib.pyplot as plt
            from gw_eccentricity.postprocess.postprocess_for_bilby import PostProcessForBilby
            from .checks_measure import needs_tex
            asked = []

            def gen(params, extra):
                asked.append({str(k): float(v) for k, v in params.items()})
                return wave.make(params, extra)

            def open_files():
                res = []
                for fd in sorted(os.listdir("/proc/self/fd"), key=int):
                    try:
                        p = os.readlink("/proc/self/fd/" + fd)
                    except OSError:
                        continue
                    if p.startswith(base + os.sep):
                        res.append(os.path.relpath(p, base))
                return res
            paths = {w: os.path.join(base, n) for w, n in name.items()}
            pp, kept, kws, lists = None, [], {}, []

            def plain(x):
                return x.item() if isinstance(x, np.generic) else x

            def do(o):
                nonlocal pp
                if o["k"] == "open":
                    pp, lists[:] = None, []
                    pp = PostProcessForBilby(paths["post"], gen, parameter_columns=o["cols"],
                                             injection_file=paths["inj"] if o["inj"] else None)
                    return frame_digest(pp.posterior)
                kw = {"gw_eccentricity_kwargs": kws.setdefault(o["kw"], copy.deepcopy(GWKW[o["kw"]]))} if "kw" in o else {}
                if o["k"] == "again":
                    d = pp.get_posterior(o["cols"])
                    res = frame_digest(d)
                    if o["cols"] is not None:
                        lists.append(d)
                    return res
                if o["k"] == "inj":
                    return [float(x) for x in pp.get_injection_egw_and_lgw(debug=o["debug"], **REFS[o["ref"]], **kw)]
                if o["k"] == "run":
                    labs = list(pp.posterior.index)
                    sel = None if o["sel"] is None else [labs[i % len(labs)] for i in o["sel"]]
                    if o["how"] == "label":
                        sel = (sel or []) + [77777]
                    r = pp.postprocess(samples=sel, n_jobs=1, method="Nothing" if o["how"] == "method" else "Amplitude",
                                       **({} if o["how"] == "no_ref" else REFS[o["ref"]]), **kw)
                    kept.append((r, repr(r)))
                    return [[plain(x.sample_index), x.status, plain(x.egw), plain(x.lgw)] for x in r.results]
                if o["k"] == "sum":
                    s, p = pp.postprocess_summary(), pp.get_gw_eccentricity_posterior()
                    lists.extend([s["egw"], s["lgw"], p["egw"], p["lgw"]])
                    return [s["total_samples"], s["success_percentage"]] + [[float(x) for x in y] for y in (s["egw"], s["lgw"], p["egw"], p["lgw"])]
                kw = {"bins": o["bins"]} if o["bins"] else {}
                if o["which"] in ("egw", "lgw"):
                    kw.update(usetex=o["tex"], style=o["style"])
                if o["given"]:
                    fig, ax = plt.subplots()
                    kw.update(fig=fig, ax=ax)
                n = set(plt.get_fignums())
                r = getattr(pp, PLOTS[o["which"]])(**kw)
                ax = ax if o["given"] else r[1]
                extra["figs"] = len(set(plt.get_fignums()) - n)
                extra["tex"] = bool(needs_tex(ax))
                return [[float(p.get_x()), float(p.get_width()), float(p.get_height())] for p in ax.patches]
            gc.collect()
            for o in plans:
                k = o["n"]
                if o["k"] == "replace":
                    src = os.path.join(stage, str(k), o["name"])
                    dst = os.path.join(base, o["name"])
                    old = os.stat(dst) if os.path.exists(dst) else None
                    os.replace(src, dst) if o["how"] == "rename" else shutil.copyfile(src, dst)
                    if o.get("stamp") and old:          # copied together with its time, as cp -p does
                        os.utime(dst, ns=(old.st_atime_ns, old.st_mtime_ns))
                elif o["k"] == "damage":
                    dst = os.path.join(base, o["name"])
                    if o["how"] == "missing":
                        if os.path.exists(dst):
                            os.unlink(dst)
                    else:
                        os.replace(os.path.join(stage, str(k), o["name"]), dst)
                elif o["k"] == "scribble":
                    for x in lists:
                        if isinstance(x, list):
                            x[:] = [9.0]
                        elif isinstance(x, np.ndarray) and x.flags.writeable:
                            x[...] = 9.0
                        elif isinstance(x, pd.DataFrame):
                            x.iloc[:, :] = -1.0
                elif o["k"] != "none" and (pp is not None or o["k"] == "open"):
                    extra = {}
                    asked.clear()
                    seam.call("note", "begin", k, o.get("faults", []))
                    try:
                        if "int" in o:
                            with M.Trap(o["int"]):
                                res = ["ok", do(o)]
                        else:
                            res = ["ok", do(o)]
                    except M.Interrupted:
                        res = ["interrupted"]
                    except Exception as e:
                        if type(e).__name__ in ("Unsupported", "HarnessError"):
                            raise
                        res = ["err", type(e).__name__, re.sub(r"\S*/in/", "", M.mask(str(e)))[:200]]
                    plt.close("all")
                    gc.collect()
                    if o["k"] == "inj":
                        extra["asked"] = list(asked)
                    extra["stale"] = [i for i, (r, d) in enumerate(kept) if repr(r) != d]
                    seam.call("note", "load", k, json.dumps(res), open_files(), json.dumps(extra))
        return target


CHECKS = {"C26": C26}
