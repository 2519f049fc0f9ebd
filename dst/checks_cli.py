"""Properties of the command line tool: C01-C09 (CLI part)."""
import copy
import hashlib
import os
import re
import shutil

from . import clisim as C
from . import wave
from .choices import sub_rng


class Out:
    """What one simulated run showed."""

    def __init__(self):
        self.violations = []     # (class, message)
        self.faults = {}
        self.simtime = 0.0
        self.jobs = 0
        self.steps = 0
        self.sig = hashlib.sha1()
        self.digest = hashlib.sha1()
        self.nontrivial = False
        self.probes = {}
        self.sched = []
        self.note = ""
        self.trace = [] if os.environ.get("DST_TRACE") else None

    def bad(self, cls, msg):
        self.violations.append((cls, msg))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def add_job(self, r):
        self.jobs += 1
        self.steps += r.steps
        self.simtime += r.simtime
        for f in r.fired:
            self.faults[f] = self.faults.get(f, 0) + 1
        inter = [e[:3] if e[0] in ("deliver", "gen", "disk") else e[:2]
                 for e in r.events if e[0] in ("deliver", "gen", "disk", "crash", "exit", "fault")]
        self.sig.update(repr(inter).encode())
        if self.trace is not None:
            self.trace += [repr(e) for e in r.events] + [r.outcome]
        self.digest.update(repr((r.outcome, r.steps, round(r.simtime, 9), r.events)).encode())
        self.sched.append(r.choices)
        self.probe("outcome:" + r.outcome)


# ------------------------------------------------------------ history tools
def gens(r):
    return [e[2] for e in r.events if e[0] == "gen"]


def delivered(r, size):
    """(ordered uids whose results rank 0 had in hand, size of the last batch)"""
    if size == 1:
        g = []
        pend = None
        for e in r.events:
            if e[0] == "gen":
                if pend is not None:
                    g.append(pend)
                pend = e[2]
            elif e[0] in ("disk", "exit", "abort") and pend is not None:
                g.append(pend)
                pend = None
        return g, 1
    out, since, inflight, last = [], {}, {}, 1
    for e in r.events:
        if e[0] == "gen":
            since.setdefault(e[1], []).append(e[2])
        elif e[0] == "send" and e[1] != 0 and e[2] == 0:
            inflight.setdefault(e[1], []).append(since.pop(e[1], []))
        elif e[0] == "recv" and e[1] == 0:
            q = inflight.get(e[2])
            if q:
                b = q.pop(0)
                out += b
                if b:
                    last = len(b)
    return out, last


def fingerprint(path):
    try:
        with open(path, "rb") as h:
            return h.read()
    except FileNotFoundError:
        return None


def masked(b):
    """Without memory addresses, which some failure messages carry."""
    return b and re.sub(rb"0x[0-9a-f]+", b"0x", b)


def uid_label(spec):
    return {C.uid_of(i): lab for i, lab in enumerate(spec["post"]["index"])}


# --------------------------------------------------------------- generation
CRASH_WHEN = ["before", "mid", "after"]


def crash_fault(rng, n_labels, save_every, batch, power_ok=True, focus=None):
    power = power_ok and rng.random() < 0.4
    act = {"kind": "crash", "when": rng.choice(CRASH_WHEN), "power": power,
           "frac": rng.choice([0.0, 0.3, 0.7, 0.99]), "pick": rng.randrange(1 << 30)}
    r = rng.random()
    nsave = (n_labels // save_every + 1) if save_every else 0
    if focus == "final" and r < 0.8:
        op = rng.choice(["any", "write", "open", "rename", "fsync"])
        return {"trig": {"op": op, "n": rng.randint(1, {"write": 30, "any": 45}.get(op, 4)), "path": "eccentricity_results"}, "act": act}
    if r < 0.62:
        op = rng.choice(["any", "any", "write", "write", "open", "rename", "fsync", "unlink"])
        per = {"any": 24, "write": 16, "open": 2, "rename": 1, "fsync": 2, "unlink": 1}[op]
        return {"trig": {"op": op, "n": rng.randint(1, max(2, per * (nsave + 2)))}, "act": act}
    if r < 0.8:
        return {"trig": {"gen": rng.randint(1, n_labels + 1)}, "act": act}
    if r < 0.9:
        return {"trig": {"recv": rng.randint(1, n_labels + 1)}, "act": act}
    return {"trig": {"step": rng.randint(1, 25 * n_labels + 40)}, "act": act}


ERR = ["ENOSPC", "EIO", "EDQUOT", "EROFS", "EACCES", "EMFILE"] * 4 + ["EPERM", "EFBIG", "ESTALE", "ETIMEDOUT", "ENODEV"]


def disk_fault(rng, n_labels, save_every):
    nsave = (n_labels // save_every + 1) if save_every else 0
    k = rng.random()
    path = rng.choice([None, "checkpoint", "eccentricity_results"])
    if k < 0.55:
        op = rng.choice(["open", "write", "write", "rename", "fsync", "mkdir", "unlink", "any"])
        per = {"any": 24, "write": 16, "open": 2, "rename": 1, "fsync": 2, "unlink": 1, "mkdir": 1}[op]
        act = {"kind": "errno", "errno": rng.choice(ERR), "count": rng.choice([1, 1, 3, 10 ** 6])}
    elif k < 0.75:
        op, per = "write", 16
        act = {"kind": "full", "frac": rng.random(), "count": rng.choice([1, 10 ** 6])}
    elif k < 0.88:
        op, per = "write", 16
        act = {"kind": "short", "frac": rng.choice([0.01, 0.5, 0.9])}
    else:
        op, per = "read", 6
        act = rng.choice([{"kind": "errno", "errno": "EIO", "count": 1},
                          {"kind": "errno", "errno": "EINTR", "count": 1},
                          {"kind": "short", "frac": 0.3}])
    t = {"op": op, "n": rng.randint(1, max(2, per * (nsave + 1)))}
    if path and op not in ("mkdir", "read"):
        t["path"] = path
        t["n"] = rng.randint(1, max(2, per * (nsave if path == "checkpoint" else 1)))
    return {"trig": t, "act": act}


def se(rng, n):
    return rng.choice([1, 1, 2, 3, rng.randint(1, n + 2)])


# ------------------------------------------------------------------- checks
class CliCheck:
    family = "cli"
    level = "exploration"
    max_steps = 6000

    def setup(self, tmp):
        pass

    def world(self, spec, tmp):
        d = os.path.join(tmp, "run")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return C.World(spec, d)

    def gen(self, seed, tier):
        raise NotImplementedError

    def execute(self, spec, tmp):
        out = Out()
        w = self.world(spec, tmp)
        try:
            self.body(spec, w, out)
        finally:
            if out.violations:
                try:
                    with open(w.log, errors="replace") as h:
                        out.note = h.read()[-3000:]
                except OSError:
                    pass
            shutil.rmtree(os.path.join(tmp, "run"), ignore_errors=True)
        return out

    def run_inc(self, w, inc, out, **kw):
        r = w.run(inc, max_steps=self.max_steps, **kw)
        out.add_job(r)
        if inc["size"] > 1 or r.fired:
            out.nontrivial = True
        return r

    def must_ok(self, r, out, what):
        if r.outcome != "ok":
            out.bad("job-" + r.outcome, f"{what} did not finish: {r.outcome}: {r.detail}")
            return False
        return True

    # ---- minimisation candidates
    def shrink(self, spec):
        def var(f):
            s = copy.deepcopy(spec)
            if f(s) is not False:
                return s
        incs = spec["incs"]
        for i in range(len(incs)):
            if len(incs) > 1 and not incs[i].get("final"):
                yield var(lambda s: s["incs"].pop(i))
        for i, inc in enumerate(incs):
            for j in range(len(inc["faults"])):
                yield var(lambda s: s["incs"][i]["faults"].pop(j))
            if inc.get("blackout"):
                yield var(lambda s: s["incs"][i].pop("blackout"))
            for m in (1, 2, 3):
                if inc["size"] > m:
                    yield var(lambda s: s["incs"][i].update(size=m, sched=None) or s["incs"][i].pop("sched"))
                    yield var(lambda s: s["incs"][i].update(size=m))
            for key, val in (("batch", 1), ("sync_p", 0.0), ("frozen_p", 0.0), ("tick", 0.01),
                             ("net_weight", 1.0), ("gen_cost", [0.0, 1.0])):
                if inc.get(key) != val:
                    yield var(lambda s: s["incs"][i].update({key: val}))
            if inc.get("wall_offset"):
                yield var(lambda s: s["incs"][i].update(wall_offset={}))
            if inc.get("sched"):
                L = inc["sched"]
                for cut in (0, len(L) // 2, len(L) * 3 // 4, len(L) - 1):
                    if cut < len(L):
                        yield var(lambda s: s["incs"][i].update(sched=L[:cut]))
                nz = [k for k, v in enumerate(L) if v]
                for k in nz[:12]:
                    yield var(lambda s: s["incs"][i]["sched"].__setitem__(k, 0))
            for j, f in enumerate(inc["faults"]):
                for k in ("n", "gen", "recv", "step"):
                    v = f["trig"].get(k)
                    if v and v > 1:
                        for nv in {1, v // 2, v - 1}:
                            yield var(lambda s: s["incs"][i]["faults"][j]["trig"].update({k: nv}))
        p = spec["post"]
        for i in range(p["n"]):
            if p["n"] > 1:
                def drop(s):
                    q = s["post"]
                    if q.get("near"):
                        return False
                    lab = q["index"][i]
                    if s["samples"].strip().lower() in ("all", "none"):
                        pass
                    elif ":" in s["samples"]:
                        return False
                    else:
                        t = [x for x in s["labels"] if x != lab]
                        if not t:
                            return False
                        s["samples"] = ",".join(map(str, t)) + ("," if len(t) == 1 else "")
                    s["labels"] = [x for x in s["labels"] if x != lab]
                    for k in ("w", "modes", "index"):
                        q[k].pop(i)
                    q["n"] -= 1
                    if q["kind"] == "range":
                        return False if q["ext"] == "json" else None
                yield var(drop)
        for i, m in enumerate(p["modes"]):
            if m != "ok":
                yield var(lambda s: s["post"]["modes"].__setitem__(i, "ok"))
        if spec["method"] != "Amplitude":
            yield var(lambda s: s.update(method="Amplitude", extra={}))
        if spec["fmt"] != "csv":
            yield var(lambda s: s.update(fmt="csv"))
        if p.get("odd"):
            yield var(lambda s: s["post"].update(odd=[]))
            for c in p["odd"]:
                yield var(lambda s: s["post"]["odd"].remove(c))
        if p["extra_cols"]:
            yield var(lambda s: s["post"].update(extra_cols=False))
        if spec["param_cols"]:
            yield var(lambda s: s.update(param_cols=False))
        if spec["outdir"] != "out":
            yield var(lambda s: s.update(outdir="out"))

    def pin(self, spec, out):
        """Replace seeded schedules by the recorded decisions."""
        s = copy.deepcopy(spec)
        for inc, ch in zip(s["incs"], out.sched):
            inc["sched"] = list(ch)
        return s

    def describe(self, spec):
        return {"seed": spec["seed"], "samples": spec["samples"], "n": spec["post"]["n"],
                "index": spec["post"]["kind"], "fmt": spec["fmt"], "method": spec["method"],
                "modes": [m for m in spec["post"]["modes"] if m != "ok"],
                "incarnations": [{k: inc[k] for k in ("size", "batch", "save_every", "faults")}
                                 for inc in spec["incs"]]}


class C01(CliCheck):
    pid = "C01"
    rule = ("one simulated job per run: seeded posterior (size, index labels, failing samples), selection, "
            "format, ranks, batch size, schedule with stalls and rendezvous/eager sends; non-trivial: at least two ranks")
    report = 0

    def gen(self, seed, tier):
        spec, rng = C.gen_base(seed, n_max=12 if tier == "quick" else 40)
        r = rng.random()
        if r < 0.12 and spec["post"]["n"] > 1:
            lab = [rng.choice(spec["post"]["index"]) for _ in range(rng.randint(2, spec["post"]["n"] + 2))]
            # a sample asked for twice is still one sample: one row, at its first place
            spec["labels"], spec["samples"] = list(dict.fromkeys(lab)), ",".join(map(str, lab))
        elif r < 0.15:
            spec["labels"], spec["samples"] = [], rng.choice(["3:3", "5:2", "0:0"])
        if rng.random() < 0.7:
            # the cheap method leaves room for more schedules
            spec["method"], spec["extra"] = "Amplitude", {k: v for k, v in spec["extra"].items() if k != "zeroecc"}
        if rng.random() < 0.2:
            C.make_near(spec, rng)
        inc = C.gen_inc(rng, len(spec["labels"]), seed, max_size=8)
        inc["save_every"] = rng.choice([None, None, 1, 2, 5])
        spec["incs"] = [inc]
        return spec

    def body(self, spec, w, out):
        r = self.run_inc(w, spec["incs"][0], out)
        if not self.must_ok(r, out, "fault-free job"):
            return
        if spec["incs"][0]["size"] > 1 and len(spec["labels"]) > 1:
            order = gens(r)
            if order != sorted(order):
                out.probe("out-of-order measurement")
        bad = C.check_rows(spec, w.final)[self.report]
        for b in bad[:3]:
            out.bad("rows" if self.report == 0 else "values", b)


class C02(C01):
    pid = "C02"
    report = 1
    rule = ("one simulated job per run as for C01, with all measurement methods and options; every value compared "
            "with an isolated measurement of that sample in a pristine process; non-trivial: at least two ranks")

    def gen(self, seed, tier):
        spec, rng = C.gen_base(("v", seed), n_max=10 if tier == "quick" else 30)
        spec["seed"] = seed
        if rng.random() < 0.25:
            C.make_near(spec, rng)
        inc = C.gen_inc(rng, len(spec["labels"]), seed, max_size=6)
        inc["save_every"] = rng.choice([None, None, 1, 3])
        spec["incs"] = [inc]
        return spec

    def body(self, spec, w, out):
        r = self.run_inc(w, spec["incs"][0], out)
        if not self.must_ok(r, out, "fault-free job"):
            return
        rb, vb = C.check_rows(spec, w.final)
        for b in (vb or ([f"no per-sample values to compare: {rb[0]}"] if rb else []))[:3]:
            out.bad("values", b)


class C03(CliCheck):
    pid = "C03"
    rule = ("one job per run, either fault-free with an awkward shape (more ranks than work, nothing left, stalls) or with "
            "one fatal error at a seeded rank and point; must end on every rank within the step budget, with failure "
            "status in the fatal cases; non-trivial: at least two ranks")
    KINDS = [("fine", 6), ("done", 2), ("gen_missing", 1), ("gen_import", 2), ("gen_rank", 4), ("index", 2),
             ("keyboard", 3), ("sysexit", 2), ("posterior", 2), ("columns", 1), ("both_refs", 1), ("no_ref", 1),
             ("json", 1), ("samples", 1), ("batch0", 2), ("disk", 5), ("gwkw", 2), ("usage_rank", 1), ("sysexit0", 1), ("genexit", 1), ("help", 1)]

    def gen(self, seed, tier):
        spec, rng = C.gen_base(("t", seed), n_max=9 if tier == "quick" else 24)
        spec["seed"] = seed
        spec["method"] = "Amplitude"
        spec["extra"] = {}
        kind = C.wchoice(rng, self.KINDS)
        inc = C.gen_inc(rng, len(spec["labels"]), seed, max_size=10)
        if rng.random() < 0.8 and inc["size"] == 1:
            inc["size"] = rng.randint(2, 6)
            inc["weights"] = [rng.choice([1.0, 1.0, 0.05, 8.0]) for _ in range(inc["size"])]
        inc["save_every"] = rng.choice([None, 1, 2, 4])
        spec["kind"] = kind
        spec["bad_ranks"] = sorted(rng.sample(range(inc["size"]), rng.randint(1, inc["size"])))
        if kind == "gen_rank" and rng.random() < 0.6:
            spec["bad_ranks"] = [rng.randrange(inc["size"])]
        if kind in ("keyboard", "sysexit", "sysexit0", "genexit"):
            inc["faults"] = [{"trig": {"gen": rng.randint(1, max(1, len(spec["labels"])))},
                              "act": {"kind": "raise", "exc": kind}}]
        if kind == "disk":
            inc["save_every"] = rng.choice([1, 2, 3])
            inc["faults"] = [disk_fault(rng, len(spec["labels"]), inc["save_every"])]
        if kind == "batch0":
            inc["batch"] = rng.choice([0, -1])
        spec["incs"] = [inc]
        if kind == "done":
            first = C.gen_inc(rng, len(spec["labels"]), (seed, 1))
            first["faults"] = []
            first["save_every"] = rng.choice([1, 3])
            first["sched_seed"] = [seed, 1]
            spec["incs"] = [first, inc]
        spec["incs"][-1]["final"] = True
        return spec

    def body(self, spec, w, out):
        kind = spec["kind"]
        inc = copy.deepcopy(spec["incs"][-1])
        over = {}
        for pre in spec["incs"][:-1]:
            r = self.run_inc(w, pre, out)
            if not self.must_ok(r, out, "first run"):
                return
        if kind == "gen_missing":
            os.unlink(w.gen)
        elif kind == "gen_import":
            open(w.gen, "a").write("\nraise ImportError('simulated missing dependency')\n")
        elif kind == "gen_rank":
            open(w.gen, "a").write(
                f"\nimport os\nif int(os.environ['OMPI_COMM_WORLD_RANK']) in {spec['bad_ranks']}:\n"
                "    raise ImportError('simulated missing dependency on this node')\n")
        elif kind == "index":
            over["samples"] = f"{spec['post']['index'][0]},987654"
        elif kind == "posterior":
            if spec["seed"] % 2:
                os.unlink(w.post)
            else:
                b = fingerprint(w.post)
                open(w.post, "wb").write(b[:len(b) // 2])
        elif kind == "columns":
            inc["extra_argv"] = ["--parameter-columns", "uid,no_such_column"]
        elif kind == "both_refs":
            inc["extra_argv"] = ["--tref=-700", "--fref=0.01"]
        elif kind == "no_ref":
            over["ref"] = {}
        elif kind == "json":
            inc["extra_argv"] = ["--gw-eccentricity-kwargs", "{'not': json}"]
        elif kind == "samples":
            inc["extra_argv"] = ["--samples=1:2:3:4"]
        elif kind == "usage_rank":
            inc["extra_argv"] = ["--no-such-option", "1"]
        elif kind == "help":
            inc["extra_argv"] = ["--help"]
        elif kind == "gwkw":
            inc["extra_argv"] = ["--gw-eccentricity-kwargs", '{"no_such_option": 1}']
        r = self.run_inc(w, inc, out, over=over)
        out.probe("kind:" + kind + ("" if inc["size"] > 1 else ":serial"))
        if r.outcome in ("hang", "livelock", "spin"):
            out.bad(r.outcome + ":" + ("fault-free" if kind in ("fine", "done") else "fatal"),
                    f"[{kind}] job of {inc['size']} ranks never ends: {r.detail}")
        elif kind in ("fine", "done", "gwkw", "help"):
            self.must_ok(r, out, f"[{kind}] job")
        elif kind == "disk":
            if r.outcome == "crash":
                out.bad("crash", "unexpected crash")
        elif kind == "sysexit0" and inc["size"] == 1:
            pass        # the exit status is the generator's own choice
        elif kind in ("keyboard", "sysexit", "sysexit0", "genexit", "batch0"):
            if kind != "batch0" and not r.fired:
                self.must_ok(r, out, f"[{kind}, not reached] job")
            elif kind == "batch0" and inc["size"] == 1:
                pass
            elif r.outcome == "ok" and kind != "batch0":
                out.bad("silent", f"[{kind}] job reports success after a fatal error on one rank")
        elif r.outcome == "ok":
            out.bad("silent", f"[{kind}] job reports success in spite of a fatal error")


class HistoryCheck(CliCheck):
    """Several incarnations on one output directory."""

    def base(self, seed, tag, tier, n_max=8, cheap=True):
        spec, rng = C.gen_base((tag, seed), n_max=n_max if tier == "quick" else 2 * n_max + 4)
        spec["seed"] = seed
        if cheap and rng.random() < 0.9:
            spec["method"], spec["extra"] = "Amplitude", {k: v for k, v in spec["extra"].items() if k != "zeroecc"}
        return spec, rng

    def inc(self, rng, spec, seed, k, max_size=4):
        i = C.gen_inc(rng, max(1, len(spec["labels"])), 0, max_size=max_size)
        i["sched_seed"] = [seed, k]
        i["save_every"] = se(rng, len(spec["labels"]))
        if rng.random() < 0.5:
            i["faults"] = []
        return i

    def finals(self, spec, w, out, cls="final"):
        rb, vb = C.check_rows(spec, w.final)
        for b in (rb + vb)[:3]:
            out.bad(cls, b)


class C04(HistoryCheck):
    pid = "C04"
    rule = ("one to three crashed jobs (kill or power loss at a seeded system call, message or measurement) followed by a "
            "clean restart with other ranks/batch/interval; restart must succeed and its table equal the uninterrupted "
            "one; non-trivial: a crash fired")

    def gen(self, seed, tier):
        spec, rng = self.base(seed, "c4", tier)
        k = rng.choice([1, 1, 2, 2, 3])
        for j in range(k):
            i = self.inc(rng, spec, seed, j)
            i["faults"].append(crash_fault(rng, len(spec["labels"]), i["save_every"], i["batch"]))
            spec["incs"].append(i)
        last = self.inc(rng, spec, seed, 99)
        last["faults"] = []
        last["final"] = True
        spec["incs"].append(last)
        return spec

    def body(self, spec, w, out):
        for k, inc in enumerate(spec["incs"]):
            r = self.run_inc(w, inc, out)
            what = "first job" if k == 0 else "restarted job"
            if r.outcome == "crash":
                continue
            if not self.must_ok(r, out, what):
                return
            self.finals(spec, w, out, "restart-result" if k else "result")
            if out.violations:
                return
        out.nontrivial = out.probes.get("outcome:crash", 0) > 0


class C05(HistoryCheck):
    pid = "C05"
    rule = ("one to four crashed jobs then clean restarts with checkpoint interval N; results in hand before the last "
            "N-1+batch of a crashed job, and all results of a finished one, must never be measured again; "
            "non-trivial: a crash fired")

    def gen(self, seed, tier):
        spec, rng = self.base(seed, "c5", tier, n_max=10)
        for j in range(rng.choice([1, 2, 2, 3, 4])):
            i = self.inc(rng, spec, seed, j)
            n = len(spec["labels"])
            f = crash_fault(rng, n, i["save_every"], i["batch"])
            i["faults"].append(f)
            spec["incs"].append(i)
        for j in range(rng.choice([1, 2])):
            last = self.inc(rng, spec, seed, 90 + j)
            last["faults"] = []
            last["final"] = True
            spec["incs"].append(last)
        return spec

    def body(self, spec, w, out):
        lab = uid_label(spec)
        safe = {}
        for k, inc in enumerate(spec["incs"]):
            r = self.run_inc(w, inc, out)
            g = gens(r)
            again = [u for u in g if u in safe]
            if again:
                u = again[0]
                out.bad("remeasured", f"run {k + 1} measures sample {lab.get(u)} again, although run {safe[u]} "
                        f"had collected and checkpointed it ({len(again)} such samples)")
                return
            dup = {u for u in g if g.count(u) > 1}
            if dup:
                out.bad("measured-twice", f"run {k + 1} measures sample {lab.get(min(dup))} more than once")
                return
            d, last = delivered(r, inc["size"])
            if r.outcome == "ok":
                keep = d
            else:
                cut = inc["save_every"] - 1 + max(last, 1)
                keep = d[:max(0, len(d) - cut)]
                if keep:
                    out.probe("crash with results that must survive")
            for u in keep:
                safe[u] = k + 1
            if r.outcome not in ("ok", "crash"):
                out.bad("job-" + r.outcome, f"run {k + 1} did not finish: {r.detail}")
                return
        out.nontrivial = out.probes.get("outcome:crash", 0) > 0


class C06(HistoryCheck):
    pid = "C06"
    rule = ("two to five runs on one directory ended by success, kill or a fatal error, each with its own ranks, batch, "
            "interval, format and selection; samples may succeed in one run and fail in another, and the last completed "
            "measurement of each must be what the final table shows; then the job is run once more; non-trivial: a run "
            "resumed from a checkpoint")

    def gen(self, seed, tier):
        spec, rng = self.base(seed, "c6", tier)
        n = rng.choice([1, 2, 2, 3, 4])
        spec["flaky"] = rng.random() < 0.4
        for j in range(n):
            i = self.inc(rng, spec, seed, j)
            end = rng.choice(["ok", "crash", "crash", "fatal"])
            if end == "crash":
                f = crash_fault(rng, len(spec["labels"]), i["save_every"], i["batch"])
                f["act"]["power"] = False
                i["faults"].append(f)
            elif end == "fatal":
                i["faults"].append({"trig": {"gen": rng.randint(1, len(spec["labels"]))},
                                    "act": {"kind": "raise", "exc": rng.choice(["keyboard", "sysexit"])}})
            if end == "ok" and rng.random() < 0.3:
                i["save_every"] = None
            i["fmt"] = rng.choice(["csv", "json", "parquet"])
            if rng.random() < 0.5:
                sub = [x for x in spec["labels"] if rng.random() < 0.7] or spec["labels"][:1]
                if rng.random() < 0.3:
                    rng.shuffle(sub)
                i["labels"] = sub
            if spec["flaky"]:
                i["mode_override"] = {repr(C.uid_of(x)): rng.choice(["ok", "ok", "raise:plain", "value"])
                                      for x in range(spec["post"]["n"]) if rng.random() < 0.5}
            spec["incs"].append(i)
        last = self.inc(rng, spec, seed, 99)
        last["faults"], last["final"] = [], True
        if rng.random() < 0.3:
            last["save_every"] = None
        spec["incs"].append(last)
        again = self.inc(rng, spec, seed, 100)
        again["faults"], again["final"] = [], True
        spec["incs"].append(again)
        return spec

    @staticmethod
    def over(inc):
        o = {}
        if inc.get("fmt"):
            o["fmt"] = inc["fmt"]
        if inc.get("labels"):
            o["labels"] = inc["labels"]
            o["samples"] = ",".join(map(str, inc["labels"]))
        return o

    def body(self, spec, w, out):
        table = None
        modes = list(spec["post"]["modes"])     # what each sample did when it was last measured
        where = {C.uid_of(i): i for i in range(len(modes))}
        safe = {}
        for k, inc in enumerate(spec["incs"]):
            over = self.over(inc)
            r = self.run_inc(w, inc, out, over=over)
            for u in gens(r):
                modes[where[u]] = inc.get("mode_override", {}).get(repr(u), spec["post"]["modes"][where[u]])
            over["eff_modes"] = modes
            again = [u for u in gens(r) if u in safe]
            if again:
                out.bad("remeasured", f"run {k + 1} measures sample {spec['post']['index'][where[again[0]]]} again, which "
                        f"run {safe[again[0]] + 1} had finished and recorded")
                return
            if inc["save_every"]:
                d, lastb = delivered(r, inc["size"])
                if r.outcome != "ok":
                    d = d[:max(0, len(d) - (inc["save_every"] - 1 + max(lastb, 1)))]
                safe.update((u, k) for u in d)
            if r.outcome == "crash" or (r.outcome == "error" and any(f.startswith("raise") for f in r.fired)):
                continue
            if r.outcome == "hang" and r.fired:
                continue      # C03's business
            if not self.must_ok(r, out, f"run {k + 1} of {len(spec['incs'])}"):
                return
            if len(gens(r)) < len(over.get("labels", spec["labels"])):
                out.probe("resumed from checkpoint")
                out.nontrivial = True
            path = w.final.rsplit(".", 1)[0] + "." + over.get("fmt", spec["fmt"])
            rb, vb = C.check_rows(spec, path, over=over)
            for b in (rb + vb)[:3]:
                out.bad("result", f"run {k + 1}: {b}")
            if out.violations:
                return
            if k == len(spec["incs"]) - 2:
                table = masked(fingerprint(path))
            if k == len(spec["incs"]) - 1 and table is not None and spec["fmt"] != "parquet":
                if masked(fingerprint(path)) != table:
                    out.bad("not-idempotent", "running the finished job again changed the results file")


class C07(HistoryCheck):
    pid = "C07"
    rule = ("jobs over a directory that may hold an earlier results file, crashed or failed inside the final write; after "
            "every system call the file under the final name must be absent, the earlier one, or the complete new one; "
            "non-trivial: a crash or error fired in a job that reached the final write")

    def gen(self, seed, tier):
        spec, rng = self.base(seed, "c7", tier, n_max=7)
        spec["prior"] = rng.random() < 0.7
        if spec["prior"]:
            i = self.inc(rng, spec, seed, 0)
            i["faults"] = []
            sub = [x for x in spec["labels"] if rng.random() < 0.6] or spec["labels"][:1]
            i["labels"] = sub
            i["save_every"] = None
            spec["incs"].append(i)
        for j in range(rng.choice([1, 1, 2])):
            i = self.inc(rng, spec, seed, 1 + j)
            if rng.random() < 0.75:
                i["faults"].append(crash_fault(rng, len(spec["labels"]), i["save_every"], i["batch"], focus="final"))
            else:
                f = disk_fault(rng, len(spec["labels"]), i["save_every"])
                f["trig"] = {"op": rng.choice(["write", "open", "rename", "fsync", "any"]), "n": rng.randint(1, 8),
                             "path": "eccentricity_results"}
                i["faults"].append(f)
            if rng.random() < 0.3:
                i["blackout"] = True
            spec["incs"].append(i)
        spec["incs"][-1]["final"] = True
        return spec

    def body(self, spec, w, out):
        st = {"prev": fingerprint(w.final), "last": None, "over": {}}
        st["last"] = st["prev"]

        def look(when):
            cur = fingerprint(w.final)
            if cur == st["last"]:
                return
            st["last"] = cur
            if cur is None:
                if st["prev"] is not None:
                    out.probe("file absent in between")
                return
            if cur == st["prev"]:
                return
            rb, vb = C.check_rows(spec, w.final, over=st["over"])
            if rb or vb:
                out.bad("torn", f"{when}: results file ({len(cur)} bytes) is neither the earlier one nor complete: "
                        f"{(rb + vb)[0]}")

        def on_event(e):
            if e[0] == "ret" and e[2] in ("write", "open", "rename", "unlink", "ftruncate", "truncate", "link") \
                    and not out.violations:
                look(f"after {e[2]}")
        for k, inc in enumerate(spec["incs"]):
            st["over"] = C06.over(inc)
            r = self.run_inc(w, inc, out, over=st["over"], on_event=on_event)
            if out.violations:
                return
            look(f"after the job ended ({r.outcome})")
            if out.violations:
                return
            if r.outcome == "ok":
                rb, vb = ([], []) if inc.get("blackout") else C.check_rows(spec, w.final, over=st["over"])
                if rb or vb:
                    out.bad("incomplete", f"job succeeded but results file is wrong: {(rb + vb)[0]}")
                    return
            elif r.outcome not in ("crash", "error", "hang"):
                out.bad("job-" + r.outcome, r.detail)
            st["prev"] = st["last"] = fingerprint(w.final)
            if any(e[0] == "disk" and "eccentricity_results" in str(e[3]) for e in r.events) and r.fired:
                out.nontrivial = True
                out.probe("fault around final write")


class C08(HistoryCheck):
    pid = "C08"
    rule = ("one or two jobs with a disk fault (errno, disk full, short transfer; transient or persistent) at a seeded file "
            "operation, optionally after a clean or crashed checkpointing run, then a clean run; non-trivial: the fault fired")

    def gen(self, seed, tier):
        spec, rng = self.base(seed, "c8", tier)
        n = len(spec["labels"])
        if rng.random() < 0.5:
            i = self.inc(rng, spec, seed, 0)
            i["faults"] = [{"trig": {"gen": rng.randint(1, n)}, "act": {"kind": "crash", "when": "before", "power": False}}]
            spec["incs"].append(i)
        for j in range(rng.choice([1, 1, 2])):
            i = self.inc(rng, spec, seed, 1 + j)
            if rng.random() < 0.2:
                i["save_every"] = None
            i["faults"].append(disk_fault(rng, n, i["save_every"]))
            if spec["incs"] and rng.random() < 0.35:
                # the restart cannot read what the earlier run left
                op = rng.choice(["open", "read", "read"])
                act = {"kind": "errno", "errno": rng.choice(["EIO", "EACCES", "EMFILE"] if op == "open" else ["EIO", "EINTR"]),
                       "count": rng.choice([1, 1, 1, 10 ** 6])}
                if act["errno"] == "EINTR":         # repeated for ever, a system call that is tried again never ends
                    act["count"] = min(act["count"], 3)
                if op == "read" and rng.random() < 0.3:
                    act = {"kind": "short", "frac": rng.choice([0.0, 0.3, 0.9])}
                i["faults"] = [{"trig": {"op": op, "n": rng.choice([1, 1, 2, 3, 5]), "path": "checkpoint"}, "act": act}]
            i["read_faults"] = any(f["trig"].get("op") == "read" for f in i["faults"])
            if rng.random() < 0.25:
                i["blackout"] = True
            if rng.random() < 0.35:
                i["labels"] = [x for x in spec["labels"] if rng.random() < 0.6] or spec["labels"][-1:]
            spec["incs"].append(i)
        last = self.inc(rng, spec, seed, 99)
        last["faults"], last["final"] = [], True
        spec["incs"].append(last)
        return spec

    def body(self, spec, w, out):
        lab = uid_label(spec)
        safe = {}
        for k, inc in enumerate(spec["incs"]):
            over = C06.over(inc)
            before = fingerprint(w.final)
            r = self.run_inc(w, inc, out, over=over)
            g = gens(r)
            again = [u for u in g if u in safe]
            if again:
                out.bad("progress-lost", f"run {k + 1} measures sample {lab.get(again[0])} again although run "
                        f"{safe[again[0]]} had checkpointed it")
                return
            d, last = delivered(r, inc["size"])
            disk_hit = any(e[0] == "fault" for e in r.events) and r.outcome != "crash"
            if disk_hit:
                out.nontrivial = True
            if inc["save_every"]:
                if r.outcome == "ok":
                    keep = d
                    if disk_hit and any("checkpoint" in str(e[3]) for e in r.events if e[0] == "disk"):
                        keep = []     # a tolerated checkpoint failure may leave this run's progress unsaved
                else:
                    keep = d[:max(0, len(d) - (inc["save_every"] - 1 + max(last, 1)))]
                for u in keep:
                    safe[u] = k + 1
            if r.outcome == "ok":
                rb, vb = C.check_rows(spec, w.final, over=over)
                if (rb or vb) and not (inc.get("blackout") and fingerprint(w.final) in (None, before)):
                    out.bad("silent-loss", f"run {k + 1} reported success with wrong output: {(rb + vb)[0]}")
                    return
            elif r.outcome in ("livelock", "spin"):
                out.bad("job-" + r.outcome, f"run {k + 1}: {r.detail}")
                return
            elif not disk_hit and r.outcome != "crash":
                out.bad("job-" + r.outcome, f"run {k + 1} (no fault left) did not finish: {r.outcome}: {r.detail}")
                return


class C09(HistoryCheck):
    pid = "C09"
    rule = ("posteriors with many failing samples of every kind (exceptions, malformed data, unmeasurable waveforms), run "
            "fault-free and across a crash and restart; failing rows must carry the failure and nothing else, the others "
            "must equal their isolated measurement; non-trivial: mixed outcomes")

    def gen(self, seed, tier):
        rng0 = sub_rng("c9", seed)
        spec, rng = C.gen_base(("c9", seed), n_max=10 if tier == "quick" else 30,
                               fail_p=rng0.choice([0.2, 0.5, 0.9, 1.0]))
        spec["seed"] = seed
        if rng.random() < 0.9:
            spec["method"], spec["extra"] = "Amplitude", {}
        if rng.random() < 0.4:
            i = self.inc(rng, spec, seed, 0)
            f = crash_fault(rng, len(spec["labels"]), i["save_every"], i["batch"], power_ok=False)
            i["faults"].append(f)
            spec["incs"].append(i)
        last = self.inc(rng, spec, seed, 99)
        last["faults"], last["final"] = [], True
        if not spec["incs"] and rng.random() < 0.5:
            last["save_every"] = None
        spec["incs"].append(last)
        return spec

    def body(self, spec, w, out):
        for k, inc in enumerate(spec["incs"]):
            r = self.run_inc(w, inc, out)
            if r.outcome == "crash":
                continue
            if not self.must_ok(r, out, "job with failing samples"):
                return
            self.finals(spec, w, out, "rows")
        st = {e["status"] for e in C.expected_rows(spec)}
        out.nontrivial = len(st) == 2
        for m in spec["post"]["modes"]:
            out.probe("mode:" + m)


CHECKS = {c.pid: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09)}
del wave
