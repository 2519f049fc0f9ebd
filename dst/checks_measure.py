"""Properties of the measurement API itself: C12, C13, C16."""
import copy
import gc
import json
import sys

import numpy as np

from . import measure as M
from . import threadsim
from .checks_cli import Out
from .choices import Choices, sub_rng
from .measure import difference, freeze, same


class MeasureCheck:
    level = "exploration"

    def setup(self, tmp):
        M.warm()

    def pin(self, spec, out):
        s = copy.deepcopy(spec)
        if out.sched:
            s["sched"] = out.sched[0]
        return s

    # ---- shrink helpers shared by all
    def shrink_datasets(self, spec):
        for i, ds in enumerate(spec["datasets"]):
            for k in ("dl", "t0", "extra_modes", "asym", "spin", "flaw", "zeroecc", "dtz", "lay"):
                if ds.get(k):
                    s = copy.deepcopy(spec)
                    del s["datasets"][i][k]
                    yield s
            if ds.get("zkind", "hlm") != "hlm":
                s = copy.deepcopy(spec)
                s["datasets"][i]["zkind"] = "hlm"
                yield s

    def shrink_kws(self, spec):
        for i, kw in enumerate(spec["kws"]):
            for j in range(len(kw or [])):
                s = copy.deepcopy(spec)
                s["kws"][i].pop(j)
                yield s
            if kw is not None:
                s = copy.deepcopy(spec)
                s["kws"][i] = None
                yield s


def world(spec):
    """The caller's live objects."""
    data = [M.place(ds) for ds in spec["datasets"]]
    kws = [M.build_kwargs(k) for k in spec["kws"]]
    return data, kws


def image(data, kws, refs):
    return {"data": [freeze(d) for d in data], "extra_kwargs": [freeze(k) for k in kws],
            "reference": {i: freeze(r) for i, r in refs.items()}}


def changed(before, after):
    for name in before:
        it = before[name].items() if isinstance(before[name], dict) else enumerate(before[name])
        for i, b in it:
            d = difference(b, after[name][i], f"{name} {i}")
            if d:
                return d


def interrupt_at(count, x):
    """x in [0, 1): a point of the whole run; in [1, 2): one of the distinct lines that ran."""
    n, places = count
    if x >= 1.0 and places:
        return places[min(len(places) - 1, int((x - 1.0) * len(places)))]
    return 1 + int((x % 1.0) * max(0, n - 1))


def some_point(rng):
    if rng.random() < 0.5:
        return round(1.0 + 0.9999 * rng.random(), 4)
    return min(0.9999, round(rng.random() if rng.random() < 0.7 else rng.random() ** 3, 4))


# ------------------------------------------------------------------------ C16
class C16(MeasureCheck):
    pid = "C16"
    family = "calls"
    rule = "two or more measurements sharing objects, or an interrupted or failing one"

    def gen(self, seed, tier):
        rng = sub_rng("C16", seed)
        nd = rng.choice([1, 1, 2])
        datasets = [M.gen_dataset(rng) for _ in range(nd)]
        kws = M.gen_worlds(rng, datasets, rng.choice([1, 2]))
        ops = []
        n = rng.randint(1, 4) if tier == "quick" else rng.randint(1, 7)
        for i in range(n):
            if ops and rng.random() < 0.3:
                op = copy.deepcopy(rng.choice(ops))
                op.pop("int", None)
            else:
                op = {"c": M.gen_call(rng, datasets), "kw": rng.randrange(len(kws)), "r": i}
                if ops and rng.random() < 0.3:        # the very same reference object again
                    o = rng.choice(ops)
                    if datasets[o["c"]["d"]].get("t0", 0) == datasets[op["c"]["d"]].get("t0", 0):
                        op["r"] = o["r"]
                        op["c"]["ref"] = copy.deepcopy(o["c"]["ref"])
                        if isinstance(op["c"]["ref"]["v"], list) and rng.random() < 0.4:    # with other content
                            op["c"]["ref"]["v"] = [x + d for x, d in zip(op["c"]["ref"]["v"], [{"t": 37.5, "f": 1.5e-4}[op["c"]["ref"]["k"]]] * 99)]
            op.pop("pre", None)
            if ops and rng.random() < 0.3:            # the caller changes its own objects first
                if rng.random() < 0.7:                # and does otherwise the same as before
                    o = rng.choice(ops)
                    op = {k: copy.deepcopy(o[k]) for k in ("c", "kw", "r")}
                op["pre"] = [rng.choice([["w", rng.randrange(8)], ["dl", 0.7], ["dl", 0.7], ["flaw", "nan"], ["flaw", None],
                                         ["kw", M.gen_kwargs(rng)]])]
            op["tmp"] = rng.random() < 0.25           # objects that live for this call only
            op["keep"] = rng.random() < 0.5           # the measured object is kept
            if rng.random() < 0.3:
                op["int"] = some_point(rng)
                op["exc"] = rng.choice(["kbd", "kbd", "mem"])
            ops.append(op)
        return {"seed": seed, "datasets": datasets, "kws": kws, "ops": ops}

    def describe(self, spec):
        return {"datasets": spec["datasets"], "kws": spec["kws"],
                "ops": [f"{o['c']['method']}@{o['c']['ref']['k']}{' interrupted' if 'int' in o else ''}" for o in spec["ops"]]}

    def execute(self, spec, tmp):
        out = Out()
        want, states = [], []
        dss, knames = copy.deepcopy(spec["datasets"]), copy.deepcopy(spec["kws"])
        for op in spec["ops"]:
            d, k = op["c"]["d"], op["kw"]
            for what, v in op.get("pre", []):
                if what == "kw":
                    knames[k] = v
                elif what == "flaw" and dss[d].get("flaw") not in (None, "nan"):
                    continue
                else:
                    dss[d] = {**dss[d], what: v}
                    if v is None:
                        del dss[d][what]
            ds, kw = copy.deepcopy(dss[d]), knames[k]
            states.append((ds, kw))
            n = M.alone(ds, op["c"], kw, count=True)[1] if "int" in op else None
            want.append((M.alone(ds, op["c"], kw)[0], n))

        def history():
            data, kws = world(spec)
            refs = {}
            for op in spec["ops"]:
                refs.setdefault(op["r"], M.build_ref(op["c"]["ref"]))
            before = image(data, kws, refs)
            res, kept = [], []
            for op, (_, n), (ds, kw) in zip(spec["ops"], want, states):
                d, k = op["c"]["d"], op["kw"]
                ref = M.build_ref(op["c"]["ref"])
                edit = freeze(ref) != freeze(refs[op["r"]])
                if edit:                            # the caller gives its reference object other content
                    kept = [x for x in kept if x[4] != op["r"] or not x[5]]
                    if not M.overwrite(refs[op["r"]], ref):
                        refs[op["r"]] = ref
                for x in op.get("pre", []):
                    edit = True
                    if x[0] == "kw":
                        if not M.overwrite(kws[k], M.build_kwargs(kw)):
                            kws[k] = M.build_kwargs(kw)
                    else:
                        M.overwrite(data[d], M.build_data(ds))
                        kept = [x for x in kept if x[3] != d or not x[5]]      # the object may show the caller's arrays
                if edit:
                    before = image(data, kws, refs)
                a = (op["c"], data[d], refs[op["r"]], kws[k])
                if op.get("tmp"):
                    a = (op["c"], copy.deepcopy(data[d]), copy.deepcopy(refs[op["r"]]), copy.deepcopy(kws[k]))
                where = None
                if "int" in op:
                    trap = M.Trap(interrupt_at(n, op["int"]), MemoryError if op.get("exc") == "mem" else M.Interrupted)
                    try:
                        with trap:
                            M.call(*a)
                        got = ("interrupted",)
                    except M.Interrupted:
                        got = ("interrupted",)
                    where = trap.where
                else:
                    got, live = M.call(*a)
                    if live is not None:
                        if op.get("keep") and not op.get("tmp"):
                            m = {x: getattr(live["gwecc_object"], x) for x in RESULTS if hasattr(live["gwecc_object"], x)}
                            kept.append((len(res), freeze(m), m, d, op["r"], True))
                            m = None
                        live = {x: v for x, v in live.items() if x != "gwecc_object"}
                        kept.append((len(res), freeze(live), live, d, op["r"], False))
                del a
                live = None
                if op.get("tmp"):
                    gc.collect()
                ch = changed(before, image(data, kws, refs))
                stale = [i for i, f, live, _, _, _ in kept if freeze(live) != f]
                live = None
                res.append((got, where, ch, stale))
                if ch:
                    break
            for r in refs.values():                 # at last the caller uses its arrays for something else
                if isinstance(r, np.ndarray) and r.flags.writeable:
                    r[...] = 0
            for x in data:
                for v in x.values():
                    for a in (v.values() if isinstance(v, dict) else [v]):
                        if isinstance(a, np.ndarray) and a.flags.writeable:
                            a[...] = 0
            stale = [i for i, f, live, _, _, ob in kept if not ob and freeze(live) != f]
            return res, stale

        res = M.run_history(history, out)
        if res is None:
            return out
        res, stale = res
        if stale:
            out.bad("result-changed", f"the result returned by measurement {stale[0]} changes when the caller overwrites its own arrays")
        for i, (got, where, ch, stale) in enumerate(res):
            op, (exp, _) = spec["ops"][i], want[i]
            what = f"measurement {i} ({op['c']['method']}, data {op['c']['d']})"
            out.jobs += 1
            out.steps += 1
            out.sig.update(repr((op["c"]["method"], op["kw"], op["c"]["d"], where, exp[0])).encode())
            out.digest.update(repr((got, where, ch, stale)).encode())
            if "int" in op:
                out.faults[("memory " if op.get("exc") == "mem" else "") + "interrupt"] = \
                    out.faults.get(("memory " if op.get("exc") == "mem" else "") + "interrupt", 0) + (where is not None)
            out.probe("outcome:" + (got[0] if got[0] != "err" else "error"))
            if ch:
                out.bad("input-changed", f"{what}{' interrupted at ' + where if where else ''} changed what the caller passed: {ch}")
                break
            if stale:
                out.bad("result-changed", f"{what} changed the result returned by measurement {stale[0]}")
            if got[0] != "interrupted" and not same(got, exp):
                out.bad("not-as-alone", f"{what} gave {M.brief(got)}; in a fresh process {M.brief(exp)}")
        out.nontrivial = len(spec["ops"]) > 1 or any("int" in o for o in spec["ops"])
        return out

    def shrink(self, spec):
        for i in range(len(spec["ops"])):
            if len(spec["ops"]) > 1:
                s = copy.deepcopy(spec)
                s["ops"].pop(i)
                yield s
        for i, op in enumerate(spec["ops"]):
            for key in ("int", "pre", "tmp", "keep"):
                if op.get(key):
                    s = copy.deepcopy(spec)
                    del s["ops"][i][key]
                    yield s
        yield from self.shrink_kws(spec)
        yield from self.shrink_datasets(spec)
        for i, op in enumerate(spec["ops"]):
            for key, val in (("debug", -1), ("nex", 2), ("method", "Amplitude")):
                if op["c"].get(key) != val:
                    s = copy.deepcopy(spec)
                    s["ops"][i]["c"][key] = val
                    yield s


# ------------------------------------------------------------------------ C13
PLOTS = ["plot_eccentricity", "plot_mean_anomaly", "plot_omega_gw", "plot_data_used_for_finding_extrema",
         "plot_decc_dt", "plot_phase_diff_ratio_between_extrema", "plot_omega_gw_average",
         "plot_amp_gw", "plot_residual_omega_gw", "plot_residual_amp_gw"]
RESULTS = ["eccentricity", "mean_anomaly", "tref_out", "fref_out", "tref_in", "fref_in", "t_pericenters",
           "t_apocenters", "pericenters_location", "apocenters_location", "tmin", "tmax", "t", "omega_gw",
           "amp_gw", "phase_gw", "extra_kwargs", "dataDict", "t_for_checks"]


def lines_of(x):
    import matplotlib.axes
    if isinstance(x, tuple):
        return [lines_of(a) for a in x[1:]]
    if isinstance(x, np.ndarray):
        return [lines_of(a) for a in x]
    if isinstance(x, matplotlib.axes.Axes):
        return [np.asarray(ln.get_xydata(), dtype=float) for ln in x.get_lines()]
    return type(x).__name__


def needs_tex(x):
    """Whether drawing this plot needs a LaTeX installation."""
    import matplotlib.text
    if isinstance(x, (tuple, np.ndarray)):
        return any(needs_tex(a) for a in (x[1:] if isinstance(x, tuple) else x))
    return any(t.get_usetex() and t.get_text() != "" for t in x.findobj(matplotlib.text.Text)) if hasattr(x, "findobj") else None


MISC = {
    "mean curve": lambda o, t: o.compute_mean_of_extrema_interpolants(t),
    "average curve": lambda o, t: o.get_available_omega_gw_averaging_methods()["orbit_averaged_omega_gw"](t),
    "zeroecc curve": lambda o, t: o.compute_omega_gw_zeroecc(t),
    "average times": lambda o, t: o.get_t_average_for_orbit_averaged_omega_gw(),
    "pericenter curve": lambda o, t: o.get_omega_gw_extrema_interpolant("pericenters")(t),
    "apocenter curve": lambda o, t: o.get_omega_gw_extrema_interpolant("apocenters")(t),
    "options": lambda o, t: o.get_default_extra_kwargs(),
}


def ask(obj, q, pos):
    """One question put to a measured object."""
    kind = q[0]
    try:
        if kind in ("ecc", "ano", "decc"):
            t = pos["t"][q[1]]
            if kind == "ecc":
                return ("ok", obj.compute_eccentricity(t))
            if kind == "ano":
                return ("ok", obj.compute_mean_anomaly(t))
            return ("ok", obj.derivative_of_eccentricity(t, n=q[2]))
        if kind == "avg":
            return ("ok", obj.get_omega_gw_average(q[1]) if q[1] != "default" else obj.get_omega_gw_average())
        if kind == "bounds":
            return ("ok", obj.get_fref_bounds(q[1]) if q[1] != "default" else obj.get_fref_bounds())
        if kind == "tref":
            return ("ok", obj.compute_tref_in_and_fref_out_from_fref_in(pos["f"][q[1]]))
        if kind == "peri":
            return ("ok", obj.get_orbit_averaged_omega_gw_between_pericenters(),
                    obj.get_orbit_averaged_omega_gw_between_apocenters())
        if kind == "misc":
            return ("ok", MISC[q[1]](obj, pos["t"][q[2]]))
        if kind == "plot":
            import matplotlib
            import matplotlib.pyplot as plt
            style = q[2] if len(q) > 2 else "plain"
            fancy = style != "plain"
            try:
                if not fancy:           # the caller's own settings, whatever they were before
                    matplotlib.rcParams["text.usetex"] = False
                if q[1] == "all":
                    r = obj.make_diagnostic_plots(usetex=style == "tex")
                else:
                    r = getattr(obj, q[1])(usetex=style == "tex", use_fancy_settings=fancy)
                return ("ok", lines_of(r), needs_tex(r) if style != "tex" else None)
            finally:
                plt.close("all")
        raise M.HarnessError(q)
    except M.HarnessError:
        raise
    except Exception as e:
        return ("err", type(e).__name__, M.mask(str(e)))


def positions(obj, spec, fb):
    """The arrays used as question arguments (shared by repeated questions)."""
    a, b = getattr(obj, "tmin", -2000.0), getattr(obj, "tmax", -500.0)
    t = []
    for p in spec["tpos"]:
        t.append(np.array([a + x * (b - a) for x in p]) if isinstance(p, list) else a + p * (b - a))
    f0, f1 = fb
    f = [np.array([f0 + x * (f1 - f0) for x in p]) for p in spec["fpos"]]
    return {"t": t, "f": f}


class C13(MeasureCheck):
    pid = "C13"
    family = "queries"
    rule = "two or more different questions, or an interrupted one"

    def gen(self, seed, tier):
        rng = sub_rng("C13", seed)
        for _ in range(200):
            ds = M.gen_dataset(rng, flaws=False)
            if rng.random() < 0.7:
                ds["zeroecc"] = True
                ds.setdefault("zkind", "hlm")
            if ds["rep"].startswith("prec") and rng.random() < 0.5:
                continue
            ds.pop("asym", None)
            if rng.random() < 0.7:
                ds.pop("spin", None)
            if rng.random() < 0.02:
                ds["flaw"] = "quasi"
            c = M.gen_call(rng, [ds], bad=False)
            kw = M.gen_kwargs(rng, bad=False)
            if rng.random() < 0.08:     # hardly enough extrema to interpolate between
                kw = sorted({"spline", rng.choice(["orbits2", "orbits3"]), rng.choice(["interp5", "mean", "spline"])})
            if ds.get("flaw"):
                kw = ["zerofail"]
            if c["nex"] is None and rng.random() < 0.8:
                c["nex"] = 2
            break
        tpos = []
        for _ in range(rng.randint(2, 4)):
            r = rng.random()
            if r < 0.35:
                tpos.append(round(rng.random(), 4))
            elif r < 0.85:
                tpos.append([round(rng.random(), 4) for _ in range(rng.randint(1, 6))])
            elif r < 0.93:
                tpos.append([0.0, 1.0])
            else:
                tpos.append(rng.choice([1.2, -0.3, [0.5, 1.01]]))
        fpos = []
        for _ in range(rng.randint(1, 3)):
            fpos.append(sorted(round(rng.random(), 4) for _ in range(rng.randint(1, 5))))
            if rng.random() < 0.3:
                fpos[-1] = rng.choice([[-0.5] + fpos[-1], fpos[-1] + [1.05], fpos[-1] + [1.4], [-3.0], [2.0]])
        avg = M.AVG + ["default"]
        pool = []
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            if r < 0.42:
                k = rng.choice(["ecc", "ano", "decc", "decc"])
                pool.append([k, rng.randrange(len(tpos))] + ([rng.choice([1, 2])] if k == "decc" else []))
            elif r < 0.58:
                pool.append(["avg", rng.choice(avg + (["nonsense"] if rng.random() < 0.15 else []))])
            elif r < 0.73:
                pool.append(["bounds", rng.choice(avg + (["nonsense"] if rng.random() < 0.15 else []))])
            elif r < 0.87:
                pool.append(["tref", rng.randrange(len(fpos))])
            elif r < 0.89:
                pool.append(["peri"])
            elif r < 0.93:
                pool.append(["misc", rng.choice(sorted(MISC)), rng.randrange(len(tpos))])
            else:
                pool.append(["plot", "all" if rng.random() < 0.12 else rng.choice(PLOTS), rng.choice(["plain", "plain", "fancy", "tex"])])
        ops = []
        for _ in range(rng.randint(2, 14) if tier == "quick" else rng.randint(2, 30)):
            op = {"q": rng.randrange(len(pool))}
            if rng.random() < 0.25:
                op["int"] = some_point(rng)
                if rng.random() < 0.6:      # and ask the same again
                    ops += [op, {"q": op["q"]}]
                    continue
            ops.append(op)
        spec = {"seed": seed, "datasets": [ds], "kws": [kw], "c": c, "tpos": tpos, "fpos": fpos, "pool": pool, "ops": ops}
        if rng.random() < 0.3:      # another object is measured and asked in between
            ds2 = copy.deepcopy(ds) if rng.random() < 0.4 else M.gen_dataset(rng)
            if rng.random() < 0.5:
                ds2["w"] = rng.randrange(8)
            c2 = M.gen_call(rng, [ds2]) if rng.random() < 0.6 else copy.deepcopy(c)
            if ds2.get("t0", 0) != ds.get("t0", 0):
                c2["ref"] = M.gen_ref(rng, ds2.get("t0", 0.0), False)
            for k in ("prec", "frame"):
                c2.pop(k, None)
            if ds2["rep"].startswith(("prec", "copr")):
                c2["prec"] = True
                if ds2["rep"].startswith("copr"):
                    c2["frame"] = "coprecessing"
            spec["other"] = {"ds": ds2, "c": c2, "kw": rng.choice([kw, M.gen_kwargs(rng)])}
            for _ in range(rng.randint(1, 3)):
                ops.insert(rng.randint(0, len(ops)), {"q": rng.randrange(len(pool)), "other": True})
        return spec

    def describe(self, spec):
        return {"data": spec["datasets"][0], "kw": spec["kws"][0], "method": spec["c"]["method"],
                "ref": spec["c"]["ref"], "ops": [f"{spec['pool'][o['q']]}{' interrupted' if 'int' in o else ''}" for o in spec["ops"]]}

    def measure(self, spec):
        data, kws = world(spec)
        o, r = M.call(spec["c"], data[0], M.build_ref(spec["c"]["ref"]), kws[0])
        return o, r and r["gwecc_object"]

    def execute(self, spec, tmp):
        out = Out()
        used = sorted({o["q"] for o in spec["ops"] if not o.get("other")})
        dflt = (M.build_kwargs(spec["kws"][0]) or {}).get("omega_gw_averaging_method", M.AVG[0])
        need_int = {o["q"] for o in spec["ops"] if "int" in o}

        def fresh():
            o, obj = self.measure(spec)
            if obj is None:
                return o, None, None, None
            fb = M.forked_value(lambda: ask(obj, ["bounds", "default"], None))
            fb = fb[1] if fb[0] == "ok" else [0.009, 0.013]
            pos = positions(obj, spec, fb)

            def one(q, count):
                def run():
                    t = M.Trap()
                    if count:
                        with t:
                            a = ask(obj, q, pos)
                    else:
                        a = ask(obj, q, pos)
                    return a, t.count()
                return M.forked_value(run)
            ans = {}
            for i in used:
                q = spec["pool"][i]
                ans[i] = one(q, i in need_int)
            bounds = {m: one(["bounds", m], False)[0] for m in M.AVG + ["default"]}
            return o, fb, ans, bounds

        o, fb, ans, bounds = M.forked_value(fresh)
        out.jobs = 1
        if ans is None:
            out.probe("measurement failed")
            out.sig.update(repr(o).encode())
            out.digest.update(repr(o).encode())
            return out

        def history():
            o, obj = self.measure(spec)
            pos = positions(obj, spec, fb)

            def results():
                return {k: freeze(getattr(obj, k, None)) for k in RESULTS}
            before = results()
            res = []
            other = None
            for op in spec["ops"]:
                q = spec["pool"][op["q"]]
                where = None
                if op.get("other"):
                    if other is None:
                        ot = spec["other"]
                        _, other = M.call(ot["c"], M.place(ot["ds"]), M.build_ref(ot["c"]["ref"]), M.build_kwargs(ot["kw"]))
                    if other is not None:
                        ask(other["gwecc_object"], q, pos)
                    a = ("other",)
                elif "int" in op:
                    trap = M.Trap(interrupt_at(ans[op["q"]][1], op["int"]))
                    try:
                        with trap:
                            a = ask(obj, q, pos)
                    except M.Interrupted:
                        a = ("interrupted",)
                    where = trap.where
                else:
                    a = ask(obj, q, pos)
                now = results()
                ch = [k for k in before if now[k] != before[k]]
                res.append((a, where, ch))
                if ch:
                    break
            return o, res

        res = M.run_history(history, out)
        if res is None:
            return out
        o2, res = res
        if not same(o, o2):
            out.bad("not-as-alone", f"the same measurement gave {M.brief(o2)} and {M.brief(o)}")
        # which averaging method the remembered frequency bounds may belong to
        # (documented memory of get_fref_bounds); None: nothing remembered
        dset = {"default"} if bounds["default"][0] == "ok" else set()
        cand = {None} | (dset if spec["c"]["ref"]["k"] == "f" else set())
        norm = {dflt: "default"}
        for i, (got, where, ch) in enumerate(res):
            op = spec["ops"][i]
            q = spec["pool"][op["q"]]
            what = f"question {i} {q}"
            out.steps += 1
            out.sig.update(repr((q, where)).encode())
            out.digest.update(repr((got, where, ch)).encode())
            if "int" in op and where:
                out.faults["interrupt"] = out.faults.get("interrupt", 0) + 1
            if ch:
                out.bad("results-changed", f"{what}{' interrupted at ' + where if where else ''} changed the measured {ch}")
                break
            out.probe("question:" + q[0] + ("" if got[0] == "ok" else ":" + got[0]))
            if got[0] == "other":
                continue
            exp = [ans[op["q"]][0]]
            hit = got[0] == "interrupted"
            if q[0] == "bounds":
                m = norm.get(q[1], q[1])
                pred = {k: bounds[k] if k else ans[op["q"]][0] for k in cand}
                exp = [pred[k] for k in sorted(pred, key=str)]
                if hit:
                    cand = cand | ({m} if None in cand and bounds.get(m, ["err"])[0] == "ok" else set())
                else:
                    cand = {k or ((m if m in bounds else "default") if e[0] == "ok" else None) for k, e in pred.items() if same(got, e)} or cand
            elif q[0] == "tref" and not hit and got[0] == "ok":
                cand = dset or cand
            elif q[0] == "tref" or (q[0] == "plot" and q[1] in ("all", "plot_omega_gw_average")):
                cand = cand | dset
            if not hit and not any(same(got, e) for e in exp):
                out.bad("order-dependent", f"{what} answered {M.brief(got)}; a freshly measured object answers {M.brief(exp[0])}")
                break
        out.nontrivial = len(used) > 1 or any("int" in o for o in spec["ops"])
        return out

    def shrink(self, spec):
        for i in range(len(spec["ops"])):
            if len(spec["ops"]) > 1:
                s = copy.deepcopy(spec)
                s["ops"].pop(i)
                yield s
        for i, op in enumerate(spec["ops"]):
            if "int" in op:
                s = copy.deepcopy(spec)
                del s["ops"][i]["int"]
                yield s
        yield from self.shrink_kws(spec)
        yield from self.shrink_datasets(spec)
        for key, val in (("debug", -1), ("nex", 2), ("method", "Amplitude")):
            if spec["c"].get(key) != val:
                s = copy.deepcopy(spec)
                s["c"][key] = val
                yield s


# ------------------------------------------------------------------------ C12
class C12(MeasureCheck):
    pid = "C12"
    family = "threads"
    rule = "two or more threads with at least one switch inside a measurement"

    def gen(self, seed, tier):
        rng = sub_rng("C12", seed)
        datasets = [M.gen_dataset(rng) for _ in range(rng.choice([1, 1, 2]))]
        for ds in datasets:
            ds.pop("asym", None)
            ds.pop("spin", None)
        spin = rng.random() < 0.1
        if spin:                            # precessing systems, one of which needs the spin filter
            datasets = [{"w": rng.randrange(8), "rep": rng.choice(["copr_hlm", "copr_hlm", "copr_ampphaseomega"]),
                         "spin": rng.choice([0.1, 0.02])} for _ in range(2)]
        kws = M.gen_worlds(rng, datasets, rng.choice([1, 2, 2]))
        if spin:
            kws = [[rng.choice(["spline", "rational"]), "filterfast"]]
            method = rng.choice(["Amplitude", "Frequency"])
        threads = []
        twin = rng.random() < 0.25          # the same call everywhere
        own = rng.choice([0.0, 0.2, 1.0])
        first = None
        for i in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for j in range(rng.choice([1, 1, 2]) if own < 1 else rng.choice([1, 2, 3])):
                c = M.gen_call(rng, datasets)
                op = {"c": c, "kw": rng.randrange(len(kws))}
                if spin and rng.random() < 0.8:
                    c["method"] = method
                if twin:
                    first = first or op
                    op = copy.deepcopy(first)
                    if rng.random() < 0.4:
                        op["kw"] = rng.randrange(len(kws))
                    if rng.random() < 0.5:
                        op["c"]["ref"] = M.gen_ref(rng, datasets[op["c"]["d"]].get("t0", 0.0), False)
                op.pop("int", None)
                if rng.random() < own:                # data made for this call only
                    op["own"] = rng.choice([0.0, 0.7, 1.9])
                if rng.random() < 0.1:
                    op["int"] = some_point(rng)
                ops.append(op)
            threads.append(ops)
        return {"seed": seed, "datasets": datasets, "kws": kws, "threads": threads,
                "grain": rng.choice(["line", "line", "opcode"]),
                "style": rng.choice(["random", "random", "pct", "stall"]),
                "quantum": rng.choice([1, 5, 40, 300, 2000])}

    @staticmethod
    def dataset(spec, op):
        ds = spec["datasets"][op["c"]["d"]]
        return {**ds, "dl": op["own"]} if op.get("own") else ds

    def describe(self, spec):
        return {"datasets": spec["datasets"], "kws": spec["kws"], "grain": spec["grain"], "style": spec["style"],
                "threads": [[o["c"]["method"] for o in t] for t in spec["threads"]]}

    def execute(self, spec, tmp):
        out = Out()
        want = []
        for ops in spec["threads"]:
            w = []
            for op in ops:
                ds, kw = self.dataset(spec, op), spec["kws"][op["kw"]]
                n = M.alone(ds, op["c"], kw, count=True)[1] if "int" in op else None
                w.append((M.alone(ds, op["c"], kw)[0], n))
            want.append(w)

        def history():
            data, kws = world(spec)
            refs = {json.dumps(op["c"]["ref"], sort_keys=True): M.build_ref(op["c"]["ref"]) for t in spec["threads"] for op in t}
            ch = Choices(spec["seed"], spec.get("sched"))
            sim = threadsim.Sim(ch, grain=spec["grain"], style=spec["style"], quantum=spec["quantum"],
                                rng=sub_rng("C12t", spec["seed"]))

            def body(i):
                def run():
                    res = []
                    for op, (_, n) in zip(spec["threads"][i], want[i]):
                        if "int" in op:
                            sim.fault(interrupt_at(n, op["int"]), MemoryError)
                        ref = refs[json.dumps(op["c"]["ref"], sort_keys=True)]
                        if op.get("own") is None:
                            got, _r = M.call(op["c"], data[op["c"]["d"]], ref, kws[op["kw"]])
                        else:
                            got, _r = M.call(op["c"], M.place(self.dataset(spec, op)),
                                             copy.deepcopy(ref), copy.deepcopy(kws[op["kw"]]))
                        _r = None
                        if "int" in op:
                            fired = sim.fault(None, None)
                            got = ("interrupted" if fired else got[0],) + got[1:]
                        res.append(got)
                    return res
                return run
            ok, res, detail = sim.run([body(i) for i in range(len(spec["threads"]))])
            return ok, res, detail, sim.log, ch.out, sim.switches, sim.lines

        res = M.run_history(history, out)
        if res is None:
            return out
        ok, res, detail, log, sched, switches, lines = res
        out.jobs = sum(len(t) for t in spec["threads"])
        out.steps = lines
        out.sched = [sched]
        out.sig.update(repr(log).encode())
        out.digest.update(repr((ok, res, detail, log)).encode())
        if out.trace is not None:
            out.trace += [repr(e) for e in log]
        out.nontrivial = switches > 1
        out.probe("switches", switches)
        if ok == "deadlock":
            out.bad("deadlock", f"measurements in {len(spec['threads'])} threads block each other for ever: {detail}")
            return out
        for i, r in enumerate(res):
            for j, got in enumerate(r):
                exp = want[i][j][0]
                if got[0] == "interrupted":
                    out.faults["allocation failure"] = out.faults.get("allocation failure", 0) + 1
                    continue
                out.probe("outcome:" + got[0])
                if not same(got, exp):
                    op = spec["threads"][i][j]
                    out.bad("not-as-alone", f"thread {i} measurement {j} ({op['c']['method']}, data {op['c']['d']}) "
                                            f"gave {M.brief(got)}; alone {M.brief(exp)}")
        return out

    def shrink(self, spec):
        for i in range(len(spec["threads"])):
            if len(spec["threads"]) > 1:
                s = copy.deepcopy(spec)
                s["threads"].pop(i)
                s.pop("sched", None)
                yield s
        for i, t in enumerate(spec["threads"]):
            for j in range(len(t)):
                if len(t) > 1:
                    s = copy.deepcopy(spec)
                    s["threads"][i].pop(j)
                    s.pop("sched", None)
                    yield s
                if "int" in t[j]:
                    s = copy.deepcopy(spec)
                    del s["threads"][i][j]["int"]
                    yield s
        if spec.get("sched"):
            n = len(spec["sched"])
            for m in (n // 8, n // 4, n // 2, 3 * n // 4, n - 2):
                if 0 <= m < n:
                    s = copy.deepcopy(spec)
                    s["sched"] = s["sched"][:m]
                    yield s
            step = max(2, n // 8) // 2 * 2
            for k in range(0, n, step):
                s = copy.deepcopy(spec)
                for x in range(k + 1, min(n, k + step), 2):
                    s["sched"][x] = 0
                if s["sched"] != spec["sched"]:
                    yield s
        for s in list(self.shrink_kws(spec)) + list(self.shrink_datasets(spec)):
            yield s


CHECKS = {"C12": C12, "C13": C13, "C16": C16}
_ = (json, sys)
