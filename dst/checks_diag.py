"""C24: debug output (messages, debug plots written to disk) never changes a measurement."""
import copy
import io
import os
import re
import shutil
import sys

from . import disk, job as J, measure as M
from .checks_cli import Out
from .choices import sub_rng

ERR = ["ENOSPC", "EIO", "EDQUOT", "EROFS", "EACCES"]
KWS = ["orbits", "orbits8", "orbits5", "mid", "mean", "width", "interp", "refine", "zerofail", "fits", "zero"]


class DiagJob(J.Job):
    """Faults belong to the measurement during which they strike."""

    def _ev(self, *e):
        if e[0] == "note" and e[2] == "begin":
            self.faults = [dict(copy.deepcopy(f)) for f in e[4]]
            self.sticky = None
        elif e[0] == "note":
            self.faults, self.sticky = [], None
        super()._ev(*e)


def stub_drawing():
    """Figures whose files are written by the real code, but which draw nothing.
    Text that asks for LaTeX fails as on a machine without it."""
    import matplotlib.figure
    import matplotlib.text

    def draw(self, renderer, *a, **k):
        for t in self.findobj(matplotlib.text.Text):
            if t.get_usetex() and t.get_text():
                raise RuntimeError("Failed to process string with tex because latex could not be found")
        self.stale = False
    matplotlib.figure.Figure.draw = draw

    def tight_layout(self, *a, **k):
        draw(self, None)
    matplotlib.figure.Figure.tight_layout = tight_layout


def complete(path):
    with open(path, "rb") as h:
        b = h.read()
    if path.endswith(".pdf"):
        if not b.startswith(b"%PDF-"):
            return "does not begin like a PDF"
        m = re.search(rb"startxref\s+(\d+)\s+%%EOF\s*$", b)
        if not m:
            return f"is cut short ({len(b)} bytes)"
        if b[int(m.group(1)):int(m.group(1)) + 4] != b"xref":
            return "has its reference table elsewhere than it says"
    elif path.endswith(".png"):
        if not b.startswith(b"\x89PNG\r\n\x1a\n") or b"IEND" not in b[-16:]:
            return f"is not a complete PNG ({len(b)} bytes)"
    elif not b:
        return "is empty"
    return None


class C24:
    pid, family, level = "C24", "diagnostics", "exploration"
    rule = "a disk fault or crash struck while a figure was written, or two or more measurements with debug output"

    def setup(self, tmp):
        M.warm()

    # ------------------------------------------------------------ generation
    def gen(self, seed, tier):
        rng = sub_rng("C24", seed)
        real = rng.random() < 0.12
        datasets = []
        for _ in range(rng.choice([1, 1, 2])):
            ds = M.gen_dataset(rng)
            if rng.random() < 0.12:
                ds = {"w": rng.randrange(8), "rep": rng.choice(["copr_hlm", "prec_hlm"]), "spin": rng.choice([0.02, 0.1])}
            if ds.get("flaw") not in (None, "short", "quasi", "nan"):
                ds.pop("flaw")
            datasets.append(ds)
        ops = []
        for i in range(rng.randint(1, 3) if tier == "quick" else rng.randint(1, 6)):
            if ops and rng.random() < 0.4:
                op = copy.deepcopy(rng.choice(ops))
            else:
                c = M.gen_call(rng, datasets, bad=False)
                if real and c["method"].endswith("Fits"):
                    c["method"] = c["method"][:-4]
                kw = [] if rng.random() < 0.15 else [rng.choice(["spline", "spline", "spline", "rational"])]
                kw += rng.sample(KWS, rng.choice([0, 1, 1, 2]))
                if not datasets[c["d"]].get("zeroecc"):     # documented: only with the quasicircular counterpart
                    kw = [k for k in kw if k != "zero"]
                if c.get("prec") and rng.random() < 0.5:
                    kw.append(rng.choice(["filter", "filterlow"]))
                op = {"c": c, "kw": sorted(set(kw), key=kw.index)}
            op["c"]["debug"] = rng.choice([-1, 0, 1])
            op["plots"] = rng.random() < 0.8
            op["fplots"] = bool(op["c"].get("prec")) and rng.random() < 0.5
            op["fdebug"] = rng.choice([None, 0, 1]) if op["c"].get("prec") else None
            op["stdout"] = rng.choice(["utf-8", "utf-8", "ascii", "cp1252"])
            op["faults"] = self.gen_faults(rng) if rng.random() < 0.5 else []
            ops.append(op)
        return {"seed": seed, "datasets": datasets, "ops": ops, "real": real}

    @staticmethod
    def gen_faults(rng):
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(["write", "write", "write", "open", "any"])
            n = rng.choice([1, 1, 2, 3]) if op == "open" else rng.choice([1, 2, rng.randint(1, 12), rng.randint(1, 40)])
            r = rng.random()
            if r < 0.3:
                act = {"kind": "crash", "when": rng.choice(["before", "mid", "after"]), "frac": rng.random()}
                if rng.random() < 0.4:
                    act["power"] = True
            elif r < 0.5 and op == "write":
                act = {"kind": rng.choice(["short", "full"]), "frac": rng.random()}
            elif r < 0.6:
                act = {"kind": "errno", "errno": "EINTR", "count": rng.choice([1, 3])}
            else:
                act = {"kind": "errno", "errno": rng.choice(ERR), "count": rng.choice([1, 1000])}
            out.append({"trig": {"op": op, "n": n}, "act": act})
        return out

    def describe(self, spec):
        return {"datasets": spec["datasets"], "real": spec["real"],
                "ops": [f"{o['c']['method']} {o['kw']} plots={o['plots']} {o['faults']}" for o in spec["ops"]]}

    def pin(self, spec, out):
        return spec

    def shrink(self, spec):
        def var(f):
            s = copy.deepcopy(spec)
            f(s)
            return s
        for i, o in enumerate(spec["ops"]):
            if len(spec["ops"]) > 1:
                yield var(lambda s: s["ops"].pop(i))
            for j in range(len(o["faults"])):
                yield var(lambda s: s["ops"][i]["faults"].pop(j))
            for j in range(len(o["kw"])):
                yield var(lambda s: s["ops"][i]["kw"].pop(j))
            for k, v in (("plots", False), ("fplots", False), ("fdebug", None), ("stdout", "utf-8")):
                if o[k] != v:
                    yield var(lambda s: s["ops"][i].update({k: v}))
            for k, v in (("debug", -1), ("nex", 2), ("method", "Amplitude")):
                if o["c"].get(k) != v:
                    yield var(lambda s: s["ops"][i]["c"].update({k: v}))
        if spec["real"]:
            yield var(lambda s: s.update(real=False))
        for i, ds in enumerate(spec["datasets"]):
            for k in ("t0", "extra_modes", "asym", "spin", "flaw", "zeroecc", "dtz"):
                if ds.get(k):
                    yield var(lambda s: s["datasets"][i].pop(k))

    # --------------------------------------------------------------- running
    @staticmethod
    def kwargs(op):
        kw = M.build_kwargs(op["kw"])
        if op["plots"]:
            kw["debug_plots"] = True
        if op["fplots"]:
            kw.setdefault("filter_kwargs", {})["debug_plots"] = True
        if op.get("fdebug") is not None:
            kw.setdefault("filter_kwargs", {})["debug_level"] = op["fdebug"]
        return kw

    def execute(self, spec, tmp):
        out = Out()
        want = []
        for op in spec["ops"]:
            c = dict(op["c"], debug=-1)
            want.append(M.alone(spec["datasets"][c["d"]], c, op["kw"])[0])
        run = os.path.join(tmp, "dg")
        shutil.rmtree(run, ignore_errors=True)
        job = os.path.join(run, "job")
        os.makedirs(os.path.join(job, "tmp"))
        os.environ["TMPDIR"] = os.path.join(job, "tmp")
        for ds in spec["datasets"]:
            M.build_data(ds)
        first, part = 0, 0
        while first < len(spec["ops"]):
            power = any(f["act"].get("power") for o in spec["ops"][first:] for f in o["faults"])
            cfg = {"size": 1, "read_faults": False, "faults": [], "sched_seed": repr((spec["seed"], part)), "tick": 0.001}
            jb = DiagJob(cfg, job, self.target(spec, first), os.path.join(run, "log"), max_steps=200000)
            if power:
                jb.model = disk.DiskModel(job)
            r = jb.run()
            out.add_job(r)
            out.sig.update(repr([e[:4] for e in r.events if e[0] in ("note", "fault")]).encode())
            out.sig.update(repr([(o["c"], o["kw"], o["plots"], o["fplots"], o["stdout"]) for o in spec["ops"][first:]]).encode())
            done = self.judge(spec, r, want, job, out, first)
            if r.outcome != "crash" or out.violations:
                break
            out.nontrivial = True
            first, part = done + 1, part + 1       # the measurement that was cut off is not repeated
        shutil.rmtree(run, ignore_errors=True)
        if sum(o["plots"] or o["fplots"] for o in spec["ops"]) > 1:
            out.nontrivial = True
        return out

    def judge(self, spec, r, want, job, out, first):
        """Returns the number of the last measurement begun."""
        if r.outcome not in ("ok", "crash"):
            out.bad("died" if r.outcome == "error" else "stuck", f"measuring with debug output ends with {r.outcome}: {r.detail}")
            return first
        hard, wrote, cur, last = {}, {}, None, first
        for e in r.events:
            if e[0] == "note" and e[2] == "begin":
                cur = last = e[3]
            elif e[0] == "note":
                cur = None
            elif cur is None:
                continue
            elif e[0] == "fault" and "short" not in e[1] and "EINTR" not in e[1] and "sticky" not in e[1]:
                hard[cur] = hard.get(cur, []) + [e[1]]
                out.nontrivial = True
            elif e[0] == "disk" and e[2] in ("write", "open"):
                wrote[cur] = wrote.get(cur, 0) + (e[2] == "write")
        for e in r.events:
            if e[0] != "note" or e[2] != "done":
                continue
            _, _, _, k, got, files, fds, figs, tex = e
            op, exp = spec["ops"][k], want[k]
            on = op["plots"] or op["fplots"]
            what = (f"measurement {k} ({op['c']['method']}, {op['kw']}, debug_level {op['c']['debug']}"
                    f"{', debug_plots' if op['plots'] else ''}{', filter debug_plots' if op['fplots'] else ''}"
                    f"{', filter debug_level %s' % op['fdebug'] if op['fdebug'] is not None else ''}{', stdout in ' + op['stdout'] if op['stdout'] != 'utf-8' else ''})")
            out.probe("outcome:" + got[0])
            if k in hard and got[0] == "err":
                out.probe("failed with the disk")
            elif got[0] != exp[0] or (got[0] == "ok" and not M.same(got, exp)) \
                    or (got[0] == "err" and got[1] != exp[1] and not op["c"]["method"].endswith("Fits")):
                # (where a fit fails, its plots may well meet the bad parameters first)
                out.bad("changed", f"{what} gives {M.brief(got)}{' with ' + str(hard[k]) if k in hard else ''}; without debug output {M.brief(exp)}")
                continue
            if got[0] == "ok" and k not in hard:
                for f, wrong in files:
                    if wrong:
                        out.bad("figure", f"{what} returned but the figure {f} {wrong}")
                names = [f for f, _ in files]
                zero = "zerofail" in op["kw"]
                if op["plots"] and not zero and not any(f.startswith(f"gwecc_{op['c']['method']}_") for f in names):
                    out.bad("figure", f"{what} saved no figure of the measurement ({names})")
                if figs:
                    out.bad("figure", f"{what} leaves {figs} figures open")
            if not on and files:
                out.bad("figure", f"{what} wrote {files}")
            if fds and (got[0] == "ok" or k not in hard):
                out.bad("open-file", f"{what} ({got[0]}) leaves {fds} open")
        return last

    def target(self, spec, first):
        def target(rank, size, seam):
            import gc
            import warnings
            from . import seam as sm
            sm.patch_clock(seam)
            sm.patch_random(rank, repr(spec["seed"]))
            warnings.simplefilter("ignore")
            os.environ["SOURCE_DATE_EPOCH"] = "1700000000"
            cwd = os.path.dirname(os.environ["TMPDIR"])
            os.chdir(cwd)
            import matplotlib
            import matplotlib.pyplot as plt
            if not spec["real"]:
                stub_drawing()

            def stamp():
                res = {}
                for f in sorted(os.listdir(".")):
                    if os.path.isfile(f):
                        st = os.stat(f)
                        res[f] = (st.st_ino, st.st_mtime_ns, st.st_size)
                return res

            def open_files():
                res = []
                for fd in sorted(os.listdir("/proc/self/fd"), key=int):
                    try:
                        p = os.readlink("/proc/self/fd/" + fd)
                    except OSError:
                        continue
                    if p.startswith(cwd + os.sep):
                        res.append(os.path.relpath(p, cwd))
                return res
            for k, op in enumerate(spec["ops"]):
                if k < first:
                    continue
                for f in sorted(os.listdir(".")):       # what an earlier measurement left: old figures
                    if os.path.isfile(f):
                        os.utime(f, ns=(0, 0))
                before, figs, held = stamp(), len(plt.get_fignums()), open_files()
                data = M.place(spec["datasets"][op["c"]["d"]])
                seam.call("note", "begin", k, op["faults"])
                term, sys.stdout = sys.stdout, io.TextIOWrapper(io.BytesIO(), encoding=op["stdout"])    # a terminal that knows some characters only
                got, live = M.call(op["c"], data, M.build_ref(op["c"]["ref"]), self.kwargs(op))
                term, sys.stdout = None, term
                live = None
                gc.collect()
                after = stamp()
                seam.call("note", "done", k, got,
                          [(f, complete(f)) for f in after if after[f] != before.get(f)],
                          [f for f in open_files() if f not in held], len(plt.get_fignums()) - figs, bool(matplotlib.rcParams["text.usetex"]))
        return target


CHECKS = {"C24": C24}
