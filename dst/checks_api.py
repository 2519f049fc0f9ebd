"""Properties of the Python post-processing API: C10, C11 and the API half of C09."""
import copy
import json
import os

import numpy as np
import pandas as pd

from . import apigen, checks_cli, clisim as C, joblibsim, measure as M, threadsim, wave
from .checks_cli import Out
from .choices import Choices, sub_rng
from .measure import freeze, same

GWKW = [{}, {}, {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline"}},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline", "extrema_finding_kwargs": {"width": 6}}},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline",
                          "omega_gw_averaging_method": "mean_of_extrema_interpolants"}},
        {"num_orbits_to_exclude_before_merger": 1},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline", "treat_mid_points_between_pericenters_as_apocenters": True},
         "num_orbits_to_exclude_before_merger": 3},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline", "return_zero_if_small_ecc_failure": True}},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline", "return_zero_if_small_ecc_failure": True}},
        {"extra_kwargs": {"omega_gw_extrema_interpolation_method": "spline", "use_only_these_many_orbits": 6}},
        {"extra_kwargs": {"use_only_these_many_orbits": 12, "return_zero_if_small_ecc_failure": True}}]
METHODS = ["Amplitude"] * 6 + ["Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]

_bounds = {}


def bounds_alone(w, mode, s):
    """The frequency bounds of this one sample measured in a fresh process."""
    key = json.dumps([w, mode, s["method"], s["gwkw"], s["extra"]], sort_keys=True)
    if key not in _bounds:
        def f():
            from gw_eccentricity import measure_eccentricity
            d = wave.make({"w": w, "mode": mode}, s["extra"])
            if not isinstance(d, dict):
                raise TypeError("should return a dict")
            r = measure_eccentricity(dataDict=d, method=s["method"], tref_in=d["t"],
                                     **json.loads(json.dumps(s["gwkw"])))
            b = r["gwecc_object"].get_fref_bounds()
            return float(b[0]), float(b[1])
        r = C.isolated(f)
        _bounds[key] = ("success",) + r[1] + (None,) if r[0] == "ok" else ("fail", None, None, r[2])
    return _bounds[key]


class ApiCheck:
    family = "api"
    level = "exploration"
    rule = "two or more batches handed to workers, or a failing call between others"
    mix = {"post": 4, "bounds": 1, "summary": 1, "injection": 1}
    fail_p = None
    tab = False         # judge tables and summaries too

    def setup(self, tmp):
        M.warm()

    def pin(self, spec, out):
        s = copy.deepcopy(spec)
        if out.sched:
            s["sched"] = out.sched[0]
        return s

    # ------------------------------------------------------------ generation
    def gen(self, seed, tier):
        rng = sub_rng("api", self.pid, seed)
        post = C.gen_posterior(rng, 8 if tier == "quick" else 14, self.fail_p and rng.choice(self.fail_p))
        if rng.random() < 0.1:
            post["labels"] = "str"
        if self.tab and rng.random() < 0.25:        # ranges that need not overlap
            post["modes"] = [rng.choice(["ok", "slow"]) if m == "ok" else m for m in post["modes"]]
        if self.tab and rng.random() < 0.015:       # hardly any success
            k = rng.choice([210, 240])
            post = dict(post, n=k, w=[i % wave.POOL for i in range(k)], index=list(range(k)), kind="range", odd=[],
                        modes=["raise:plain"] * k)
            post["modes"][rng.randrange(k)] = "ok"
        extra = {}
        if rng.random() < 0.3:
            extra["dst_extra"] = [1, {"a": None}]
        if rng.random() < 0.35:
            extra["memo"] = True
        extra["zeroecc"] = True
        ops = []
        pool = rng.sample(range(len(GWKW)), rng.choice([1, 2, 3]))      # the same options serve several calls
        for _ in range(rng.choice([1, 1, 2, 3]) if tier == "quick" else rng.randint(1, 6)):
            kind = C.wchoice(rng, list(self.mix.items()))
            op = {"k": kind}
            if kind in ("post", "bounds"):
                op.update(self.gen_call(rng, post, pool))
            elif kind == "injection":
                op.update({"i": rng.randrange(post["n"]), "method": rng.choice(METHODS), "gwkw": rng.choice(pool),
                           "ref": rng.choice([{"fref": 0.0105}, {"tref": -1500.0}])})
            ops.append(op)
        if all(o["k"] not in ("post", "bounds") for o in ops):
            ops.insert(0, dict(self.gen_call(rng, post, pool), k="post" if "post" in self.mix else "bounds"))
        ops.append({"k": "summary"})
        if rng.random() < 0.15 and all(o["k"] != "injection" for o in ops):
            C.make_near({"post": post, "extra": extra}, rng)
        return {"seed": seed, "api": True, "post": post, "extra": extra, "ops": ops,
                "reader": rng.choice(["bilby", "frame"]), "param_cols": rng.random() < 0.3,
                "cpus": rng.choice([1, 2, 3, 4]), "speeds": [rng.choice([1.0, 1.0, 0.05, 8.0]) for _ in range(4)],
                "grain": rng.choice(["line", "line", "opcode"]), "style": rng.choice(["random", "random", "pct", "stall"]),
                "quantum": rng.choice([1, 5, 40, 300, 2000])}

    def gen_call(self, rng, post, pool):
        idx = list(range(post["n"]))
        r = rng.random()
        if r < 0.4:
            sel, how = None, None
        else:
            how = rng.choice(["list", "list", "tuple", "array", "index"])
            sel = rng.sample(idx, rng.randint(1, len(idx)))
            if rng.random() < 0.3:
                sel.sort()
            if rng.random() < 0.15:
                sel += [rng.choice(sel)]
            if rng.random() < 0.06:
                sel = []
        op = {"sel": sel, "how": how, "method": rng.choice(METHODS), "gwkw": rng.choice(pool),
              "ref": rng.choice([{"fref": 0.0098}, {"fref": 0.0105}, {"tref": -1500.0}, {"tref": -600.25}]),
              "n_jobs": rng.choice([-1, -1, 2, 3, 4, 1, 1, None]),
              "backend": C.wchoice(rng, [(None, 6), ("threading", 3), ("multiprocessing", 1), ("hint", 1)])}
        r = rng.random()
        n = post["n"] if sel is None else len(sel)
        if r < 0.12:
            op["death"] = [rng.randint(1, n + 1), rng.choice(["before", "after"])]
        elif r < 0.2:
            op["interrupt"] = rng.randint(1, 2 * n + 2)
        elif r < 0.28:
            op["fatal"] = [rng.randrange(post["n"]), rng.choice(["keyboard", "sysexit"])]
        elif r < 0.32:
            op["bad"] = rng.choice(["label", "two_refs", "no_ref", "njobs0"])
        return op

    def describe(self, spec):
        return {"posterior": spec["post"]["modes"], "cpus": spec["cpus"],
                "ops": [{k: v for k, v in o.items() if k != "gwkw"} for o in spec["ops"]]}

    # --------------------------------------------------------------- running
    def labels(self, spec):
        idx = spec["post"]["index"]
        return [f"s{i}" for i in idx] if spec["post"].get("labels") == "str" else list(idx)

    def expected(self, spec, op):
        """Values of every requested sample measured on its own; None: the call must raise."""
        if op.get("bad") and not (op["bad"] in ("two_refs", "no_ref") and op["k"] == "bounds"):
            return None
        p, labs = spec["post"], self.labels(spec)
        s = {"ref": op["ref"], "method": op["method"], "gwkw": GWKW[op["gwkw"]], "extra": self.plain(spec)}
        sel = range(p["n"]) if op["sel"] is None else op["sel"]
        fn = C.oracle if op["k"] == "post" else bounds_alone
        return [(labs[i],) + tuple(fn(p["w"][i], p["modes"][i], s)) + (p["modes"][i],) for i in sel]

    @staticmethod
    def plain(spec):
        return {k: v for k, v in spec["extra"].items() if k != "memo"}

    def execute(self, spec, tmp):
        out = Out()
        want = []
        for op in spec["ops"]:
            if op["k"] in ("post", "bounds"):
                want.append(self.expected(spec, op))
            elif op["k"] == "injection":
                s = {"ref": op["ref"], "method": op["method"], "gwkw": GWKW[op["gwkw"]], "extra": self.plain(spec)}
                want.append(C.oracle(spec["post"]["w"][op["i"]], "ok", s))
            else:
                want.append(None)
        run = os.path.join(tmp, "api")
        os.makedirs(run, exist_ok=True)
        res = M.run_history(lambda: self.history(spec, run), out)
        if isinstance(res, str):
            out.bad("stuck", f"the calls never end: {res}")
        elif res is not None:
            self.judge(spec, want, res, out)
        return out

    def history(self, spec, run):
        import contextlib
        import joblib
        from gw_eccentricity.postprocess.postprocess import PostProcess
        from gw_eccentricity.postprocess.postprocess_for_bilby import PostProcessForBilby
        df = C.posterior_frame(spec)
        df.index = self.labels(spec)
        cols = C.needed_cols(spec)
        ops = spec["ops"]
        inj = os.path.join(run, "injection.txt")

        class FramePP(PostProcess):
            def get_posterior(self, parameter_columns=None):
                return df.copy() if parameter_columns is None else df[parameter_columns].copy()

            def get_injection_params(self):
                return pd.read_csv(self.injection_file, sep=" ").to_dict(orient="records")[0]
        cls = FramePP
        path = os.path.join(run, "posterior." + spec["post"]["ext"])
        if spec["reader"] == "bilby" and spec["post"].get("labels") != "str":
            cls = PostProcessForBilby
            C.write_posterior(spec, path)
        ch = Choices(spec["seed"], spec.get("sched"))
        eng = joblibsim.Engine(ch, spec["cpus"], spec["speeds"])
        sim = threadsim.Sim(ch, grain=spec["grain"], style=spec["style"], quantum=spec["quantum"],
                            rng=sub_rng("apit", spec["seed"]))
        eng.sim = sim
        joblibsim.install(eng)
        res = []

        def caller():
            pp = cls(path, apigen.make, parameter_columns=cols if spec["param_cols"] else None,
                     data_dict_generator_extra_kwargs=copy.deepcopy(spec["extra"]), injection_file=inj)
            labs = self.labels(spec)
            kept, kws = [], {}
            for op in ops:
                before = pp.postprocess_result
                bdump = repr(before)
                eng.faults, eng.fired, eng.waits, eng.started = [], [], 0, 0
                apigen.FATAL.clear()
                ctx = contextlib.nullcontext()
                try:
                    if op["k"] in ("post", "bounds"):
                        if "death" in op:
                            eng.faults.append(("death",) + tuple(op["death"]))
                        if "interrupt" in op:
                            eng.faults.append(("interrupt", op["interrupt"]))
                        if "fatal" in op:
                            apigen.FATAL[repr(C.uid_of(op["fatal"][0]))] = op["fatal"][1]
                        if op["backend"]:
                            ctx = joblib.parallel_config(**({"prefer": "threads"} if op["backend"] == "hint"
                                                            else {"backend": op["backend"]}))
                        sel = None if op["sel"] is None else [labs[i] for i in op["sel"]]
                        if op.get("bad") == "label":
                            sel = (sel or []) + ["nowhere"]
                        if sel is not None:
                            sel = {"tuple": tuple, "list": list, "array": np.array, "index": pd.Index}[op["how"] or "list"](sel)
                        kw = dict(samples=sel, method=op["method"], n_jobs=0 if op.get("bad") == "njobs0" else op["n_jobs"],
                                  gw_eccentricity_kwargs=kws.setdefault(op["gwkw"], copy.deepcopy(GWKW[op["gwkw"]])))
                        if op["k"] == "post":
                            kw.update(op["ref"])
                            if op.get("bad") == "two_refs":
                                kw.update(tref=-1500.0, fref=0.0098)
                            elif op.get("bad") == "no_ref":
                                kw.update(tref=None, fref=None)
                        with ctx:
                            r = (pp.postprocess if op["k"] == "post" else pp.get_fref_bounds)(**kw)
                        a = ("ok", [tuple(vars(x).values()) for x in r.results], self.tables(r))
                        kept.append((r, repr(r)))
                        stored = pp.postprocess_result is r if op["k"] == "post" else \
                            (pp.postprocess_result is before and repr(before) == bdump)
                    elif op["k"] == "summary":
                        a = ("ok", self.summary(pp), None)
                        stored = pp.postprocess_result is before and repr(before) == bdump
                    else:
                        i = op["i"]
                        row = df.iloc[i].to_dict()
                        row = {k: v for k, v in row.items() if k in ("uid", "w")}
                        pd.DataFrame([{**row, "minimum_frequency": 20.0}]).to_csv(inj, sep=" ", index=False)
                        a = ("ok", pp.get_injection_egw_and_lgw(
                            method=op["method"], gw_eccentricity_kwargs=kws.setdefault(op["gwkw"], copy.deepcopy(GWKW[op["gwkw"]])),
                            **op["ref"]), None)
                        stored = pp.postprocess_result is before
                except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as e:
                    if isinstance(e, M.HarnessError):
                        raise
                    a = ("err", type(e).__name__, M.mask(str(e))[:200])
                    stored = pp.postprocess_result is before and repr(before) == bdump
                stale = [i for i, (r, d) in enumerate(kept) if repr(r) != d]
                res.append((a, stored, stale, list(eng.fired)))

        def closing():
            try:
                caller()
            finally:
                eng.close()

        bodies = [closing] + [eng.thread(i) for i in range(4)]
        ok, _r, detail = sim.run(bodies)
        if ok == "deadlock":
            return f"{detail}"
        if ok != "ok":
            raise M.HarnessError(f"simulated threads: {ok} {detail}")
        return res, eng.log, sim.log, ch.out, sim.lines, sim.switches

    def tables(self, r):
        df = r.to_dataframe()
        t = {"columns": list(df.columns), "rows": [tuple(x) for x in df.itertuples(index=False)]}
        try:
            t["summary"] = r.get_summary()
        except Exception as e:
            t["summary"] = type(e).__name__
        t["success"] = [x.sample_index for x in r.success_only()]
        if hasattr(r, "get_minmax_fref"):
            try:
                t["minmax"] = tuple(r.get_minmax_fref())
            except Exception as e:
                t["minmax"] = "raises"
                t["why"] = type(e).__name__
        return t

    def summary(self, pp):
        a = []
        for f in (pp.postprocess_summary, pp.get_gw_eccentricity_posterior):
            try:
                a.append(f())
            except Exception as e:
                a.append(type(e).__name__)
        return a

    # --------------------------------------------------------------- judging
    def judge(self, spec, want, res, out):
        res, elog, slog, sched, lines, switches = res
        out.sched = [sched]
        out.steps = lines
        out.sig.update(repr((elog, slog)).encode())
        out.digest.update(repr((res, elog, slog)).encode())
        if out.trace is not None:
            out.trace += [repr(e) for e in elog] + [repr(e) for e in slog] + [repr(r) for r in res]
        for e in elog:
            if e[0] in ("start", "abort"):
                out.probe("batch " + e[0])
        stored = None
        for n, (op, exp, (got, kept, stale, fired)) in enumerate(zip(spec["ops"], want, res)):
            out.jobs += 1
            what = f"call {n} ({op['k']}{' n_jobs=' + str(op.get('n_jobs')) if 'n_jobs' in op else ''})"
            out.probe(f"{op['k']}:{got[0]}")
            for f in fired:
                out.faults["worker " + f if f == "death" else "caller " + f] = \
                    out.faults.get("worker " + f if f == "death" else "caller " + f, 0) + 1
            if stale:
                out.bad("result-changed", f"{what} changed results returned earlier (call {stale[0]})")
            if not kept:
                out.bad("stored", f"{what} {'returned but its result is not the stored one' if got[0] == 'ok' and op['k'] == 'post' else 'changed the stored result'}")
            if op["k"] in ("post", "bounds"):
                fatal = op.get("fatal")
                hit = fatal is not None and fatal[0] in (range(spec["post"]["n"]) if op["sel"] is None else op["sel"])
                if hit:
                    out.faults["fatal " + fatal[1]] = out.faults.get("fatal " + fatal[1], 0) + 1
                if got[0] == "err":
                    if exp is not None and not fired and not hit:
                        out.bad("raised", f"{what} raised {got[1]}: {got[2]}; nothing but ordinary sample failures happened")
                    continue
                if exp is None:
                    out.bad("accepted", f"{what} with invalid arguments ({op['bad']}) returned {M.brief(got[1])}")
                    continue
                self.rows(what, op, got, exp, out)
                if op["k"] == "post":
                    stored = exp
            elif op["k"] == "injection":
                if got[0] == "err":
                    if exp[0] == "success":
                        out.bad("injection", f"{what} raised {got[1]}: {got[2]}; alone it gives {exp[1:3]}")
                elif exp[0] != "success" or not same(tuple(map(float, got[1])), exp[1:3]):
                    out.bad("injection", f"{what} gave {got[1]}; alone {exp[:3]}")
            elif self.tab:
                self.check_summary(what, got[1], stored, out)
        out.nontrivial = sum(1 for e in elog if e[0] == "start") > 1 or len(spec["ops"]) > 2

    def rows(self, what, op, got, exp, out):
        rows, tab = got[1], got[2]
        if [r[0] for r in rows] != [e[0] for e in exp]:
            out.bad("order", f"{what} returned samples {[r[0] for r in rows]} for requested {[e[0] for e in exp]}")
            return
        for r, e in zip(rows, exp):
            self.row(what, r, e, out)
        if self.tab:
            self.check_tables(what, op, tab, exp, out)

    def row(self, what, r, e, out):
        lab, status, a, b, msg = r[:5]
        _, st, x, y, emsg, mode = e
        if status != st:
            out.bad("status", f"{what}: sample {lab} is {status!r} ({M.brief(msg)}); alone it is {st!r} ({M.brief(emsg)})")
        elif st == "success":
            if not (same(float(a), x) and same(float(b), y)):
                out.bad("value", f"{what}: sample {lab} has {(a, b)}; measured alone {(x, y)}")
        else:
            if a is not None or b is not None:
                out.bad("value", f"{what}: failed sample {lab} has values {(a, b)}")
            if not msg:
                out.bad("message", f"{what}: failed sample {lab} has no message")
            elif mode not in ("list", "none") and M.mask(str(emsg)) not in M.mask(str(msg)):
                out.bad("message", f"{what}: failed sample {lab} says {M.brief(msg)}; the failure is {M.brief(emsg)}")

    def check_tables(self, what, op, t, exp, out):
        n = len(exp)
        good = [e for e in exp if e[1] == "success"]
        names = ("egw", "lgw") if op["k"] == "post" else ("fref_min", "fref_max")
        if t["success"] != [e[0] for e in good]:
            out.bad("table", f"{what}: successful samples listed {t['success']}, they are {[e[0] for e in good]}")
        cols = t["columns"]
        if cols[:4] != ["sample_index", "status", *names]:
            out.bad("table", f"{what}: table columns {cols}")
        elif [r[0] for r in t["rows"]] != [e[0] for e in exp] or [r[1] for r in t["rows"]] != [e[1] for e in exp]:
            out.bad("table", f"{what}: table rows {[r[:2] for r in t['rows']]} for {[e[:2] for e in exp]}")
        else:
            for r, e in zip(t["rows"], exp):
                if e[1] == "success" and not same((float(r[2]), float(r[3])), (e[2], e[3])):
                    out.bad("table", f"{what}: table row {r[:4]}; alone {e[:4]}")
                if e[1] != "success" and not (pd.isna(r[2]) and pd.isna(r[3])):
                    out.bad("table", f"{what}: table row of a failed sample {r[:4]}")
        self.summary_of(what, t["summary"], exp, names, out)
        if "minmax" in t:
            if not good:
                if t["minmax"] != "raises":
                    out.bad("range", f"{what}: common range {t['minmax']} although no sample succeeded")
            else:
                w = (max(e[2] for e in good), min(e[3] for e in good))
                if w[0] > w[1]:             # nothing in common; a pair the wrong way round, or an error, says so
                    out.probe("no common range")
                    if t["minmax"] != "raises" and t["minmax"][0] <= t["minmax"][1]:
                        out.bad("range", f"{what}: common range {t['minmax']}; the successful samples have none: {[e[2:4] for e in good]}")
                elif t["minmax"] == "raises" or not same(tuple(map(float, t["minmax"])), w):
                    out.bad("range", f"{what}: common range {t['minmax']}; intersection of the successful samples is {w}")
        _ = n

    def summary_of(self, what, s, exp, names, out):
        good = [e for e in exp if e[1] == "success"]
        if isinstance(s, str):
            out.bad("summary", f"{what}: summary raised {s}")
            return
        pct = 100.0 * len(good) / len(exp) if exp else 0.0
        if s["total_samples"] != len(exp) or abs(s["success_percentage"] - pct) > 1e-9:
            out.bad("summary", f"{what}: summary counts {s['total_samples']} samples, {s['success_percentage']}% successful;"
                               f" there are {len(exp)}, {len(good)} successful")
        for k, j in zip(names, (2, 3)):
            if not same([float(x) for x in s[k]], [e[j] for e in good]):
                out.bad("summary", f"{what}: summary {k} {M.brief(s[k])}; the successful samples have {M.brief([e[j] for e in good])}")

    def check_summary(self, what, got, stored, out):
        s, p = got
        if stored is None:
            if not isinstance(s, str) or not isinstance(p, str):
                out.bad("summary", f"{what}: a summary exists although nothing was post-processed: {M.brief(s)}")
            return
        self.summary_of(what, s, stored, ("egw", "lgw"), out)
        good = [e for e in stored if e[1] == "success"]
        if isinstance(p, str) or not all(same([float(x) for x in p[k]], [e[j] for e in good]) for k, j in (("egw", 2), ("lgw", 3))):
            out.bad("posterior", f"{what}: extracted posterior {M.brief(p)}; successful samples have {M.brief([e[2:4] for e in good])}")

    # ---------------------------------------------------------------- shrink
    def shrink(self, spec):
        for i in range(len(spec["ops"])):
            if len(spec["ops"]) > 1:
                s = copy.deepcopy(spec)
                s["ops"].pop(i)
                s.pop("sched", None)
                yield s
        for i, op in enumerate(spec["ops"]):
            for k in ("death", "interrupt", "fatal", "bad"):
                if k in op:
                    s = copy.deepcopy(spec)
                    del s["ops"][i][k]
                    yield s
            if op.get("sel") and len(op["sel"]) > 1:
                for j in range(len(op["sel"])):
                    s = copy.deepcopy(spec)
                    s["ops"][i]["sel"].pop(j)
                    yield s
            if op.get("sel", 0) is None:
                s = copy.deepcopy(spec)
                s["ops"][i].update(sel=list(range(spec["post"]["n"])), how="list")
                yield s
            for k, v in (("gwkw", 2), ("method", "Amplitude"), ("backend", None), ("n_jobs", 2)):
                if k in op and op[k] != v:
                    s = copy.deepcopy(spec)
                    s["ops"][i][k] = v
                    yield s
        for i, m in enumerate(spec["post"]["modes"]):
            if m != "ok":
                s = copy.deepcopy(spec)
                s["post"]["modes"][i] = "ok"
                yield s
        if spec["extra"].get("memo"):
            s = copy.deepcopy(spec)
            del s["extra"]["memo"]
            yield s
        sched = spec.get("sched") or []
        for m in (0, len(sched) // 4, len(sched) // 2, len(sched) - 1):
            if 0 <= m < len(sched):
                s = copy.deepcopy(spec)
                s["sched"] = sched[:m]
                yield s


class C10(ApiCheck):
    pid = "C10"


class C11(ApiCheck):
    pid = "C11"
    tab = True
    mix = {"bounds": 4, "post": 2, "summary": 1}


class C09(checks_cli.C09):
    """The command line half, and one run in four through the Python API."""
    api = type("C09api", (ApiCheck,), {"pid": "C09", "mix": {"post": 4, "bounds": 2}, "fail_p": [0.15, 0.4, 0.4, 1.0]})()

    def setup(self, tmp):
        super().setup(tmp)
        self.api.setup(tmp)

    def pick(self, spec):
        return self.api if spec.get("api") else super()

    def gen(self, seed, tier):
        return self.api.gen(seed, tier) if seed % 4 == 0 else super().gen(seed, tier)

    def execute(self, spec, tmp):
        return self.api.execute(spec, tmp) if spec.get("api") else super().execute(spec, tmp)

    def describe(self, spec):
        return self.api.describe(spec) if spec.get("api") else super().describe(spec)

    def shrink(self, spec):
        return self.api.shrink(spec) if spec.get("api") else super().shrink(spec)

    def pin(self, spec, out):
        return self.api.pin(spec, out) if spec.get("api") else super().pin(spec, out)


CHECKS = {"C09": C09, "C10": C10, "C11": C11}
_ = (freeze,)
