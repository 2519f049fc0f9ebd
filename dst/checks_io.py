"""Properties of load_data's file and network access: C14 (downloads), C15 (loaders)."""
import copy
import hashlib
import json
import os
import re
import shutil
import signal

import numpy as np

from . import clisim as C, job as J, loadoracle, netsim
from .checks_cli import Out
from .choices import sub_rng
from .measure import mask

DATA = "https://data.black-holes.org/files/"
MIRROR = "https://s3.mirror.example/bucket/"
API = "https://api.github.com/repos/sxs-collaboration/sxscatalogdata/releases"
RAW = "https://raw.githubusercontent.com/sxs-collaboration/sxscatalogdata/{}/simulations.json"


# ======================================================================= C14
class NetJob(J.Job):
    """One or more simulated processes with a network; a kill ends one of them."""

    def __init__(self, *a, servers=None, **k):
        super().__init__(*a, **k)
        self.servers = servers

    def _advance(self, dt):
        self.now += dt

    def _crash_now(self):
        if self.size == 1:
            return super()._crash_now()
        r = self.cur
        os.kill(r.pid, signal.SIGKILL)
        os.waitpid(r.pid, 0)
        r.pid = 0
        r.state = "finished"
        self.res.exits[r.id] = ("killed", None)
        self._ev("killed", r.id)

    def _step(self, r):
        self.cur = r
        self.servers.who = r.id
        q = r.req
        if q[0] != "net":
            return super()._step(r)
        self.opn["any"] = self.opn.get("any", 0) + 1
        self.opn["net"] = self.opn.get("net", 0) + 1
        for f in self.faults:
            if f["trig"].get("net") == self.opn["net"] and not f.get("done"):
                f["done"] = True
                self._fire(f, "net")
                self.crashed = f["act"]
                self._crash_now()
                return
        before = len(self.servers.fired)
        val = self.servers.op(q[1:], self._advance)
        for x in self.servers.fired[before:]:
            self.res.fired.append("net-" + x)
            self._ev("fault", "net-" + x)
        self._ev("net", q[1], len(val) if isinstance(val, bytes) else repr(val)[:40])
        self._reply(r, val)
        self._await(r)


def sim_url(t, name, v=0):
    return f"{DATA}{t['id'].replace(':', '_')}/v{v}/Lev{t['lev']}/{name}"


def names_of(order):
    return [f"Strain_N{order}.h5", f"Strain_N{order}.json", "metadata.json", "Horizons.h5"]


def content(seed, t, name, big):
    rng = sub_rng("served", seed, t["id"], t["lev"], name)
    if name.endswith(".json"):
        return json.dumps({"name": name, "lev": t["lev"], "x": [rng.random() for _ in range(rng.randint(1, 60))]}).encode()
    return b"\x89HDF\r\n\x1a\n" + rng.randbytes(rng.choice([0, 100, 5000, 70000, big]))


class C14:
    pid, family, level = "C14", "download", "exploration"
    rule = "a fault hit an attempt, or two processes downloaded at the same time, and a later attempt ran"

    def setup(self, tmp):
        import packaging.version  # noqa: F401
        import requests  # noqa: F401
        import sxs       # noqa: F401
        import sxs.utilities  # noqa: F401
        import tqdm.auto  # noqa: F401
        import zipfile   # noqa: F401

    # ------------------------------------------------------------ generation
    def gen(self, seed, tier):
        rng = sub_rng("c14", seed)
        ids = ["SXS:BBH:2859", "SXS:BBH:0001", "SXS:NSNS:0003"]
        targets = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = {"id": rng.choice(ids), "lev": rng.choice([3, 4]), "order": rng.choice([2, 2, 3, 4])}
            if t not in targets:
                targets.append(t)
        tag = rng.choice(["", "v3.0.0", "3.0.0"])
        incs = []
        n = rng.choice([1, 2, 2, 3]) if tier == "quick" else rng.randint(1, 6)
        for i in range(n):
            calls = [rng.randrange(len(targets)) for _ in range(rng.choice([1, 1, 2, 3]))]
            inc = {"size": rng.choice([1, 1, 2]), "calls": calls, "faults": [], "net": [], "style": rng.choice(["whole", "mixed", "mixed", "drip", "slow"]),
                   "sched_seed": [seed, i]}
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                self.gen_fault(rng, inc)
            if inc["size"] > 1:
                inc["weights"] = rng.choice([[1, 1], [1, 1], [8, 1], [1, 30]])
            incs.append(inc)
        bad = None
        if rng.random() < 0.12:
            bad = rng.choice(["unknown_id", "no_lev", "gone"])
        return {"seed": seed, "targets": targets, "tag": tag, "incs": incs, "bad": bad,
                "data_dir": rng.choice(["data", "./deep/er/data", "~/data", "ABS"]),
                "pre": [rng.random() < 0.5 for _ in range(4)] if rng.random() < 0.3 else [],
                "redirect": rng.random() < 0.4, "big": rng.choice([90000, 200000]),
                "warm_cache": rng.random() < 0.5}

    @staticmethod
    def gen_fault(rng, inc):
        k = C.wchoice(rng, [("body", 5), ("status", 2), ("netop", 3), ("kill", 4), ("disk", 4), ("none", 1)])
        if k == "body":
            inc["net"].append({"req": rng.randint(1, 9), "act": rng.choice(["eof", "reset", "stall", "eof"]),
                               "where": rng.choice(["body", "body", "body", "head"]), "at": rng.choice([0.0, 1.0, rng.random(), rng.random()])})
        elif k == "status":
            inc["net"].append({"req": rng.randint(1, 9), "act": rng.choice([500, 503, 404, 403, 429])})
        elif k == "netop":
            inc["net"].append({"net": rng.randint(1, rng.choice([12, 60])), "act": rng.choice(["refused", "dns", "unreach", "timeout", "reset", "eof", "stall"])})
        elif k == "kill":
            if rng.random() < 0.4:
                inc["faults"].append({"trig": {"net": rng.randint(1, rng.choice([12, 60]))}, "act": {"kind": "crash"}})
            else:
                op = rng.choice(["any", "write", "rename", "open", "unlink"])
                inc["faults"].append({"trig": {"op": op, "n": rng.randint(1, 12 if op != "any" else 40)},
                                      "act": {"kind": "crash", "when": rng.choice(["before", "after", "mid"]), "frac": rng.random()}})
        elif k == "disk":
            op = rng.choice(["write", "write", "open", "rename", "mkdir", "unlink"])
            act = rng.choice([{"kind": "errno", "errno": rng.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS", "EINTR"]),
                               "count": rng.choice([1, 1, 3])},
                              {"kind": "full", "frac": rng.random()}, {"kind": "short", "frac": rng.random()}])
            if act["kind"] == "full" and op != "write" or act["kind"] == "short":
                op = "write"
            trig = {"op": op, "n": rng.randint(1, 8)}
            if rng.random() < 0.6:
                trig["path"] = rng.choice([".h5", "Strain", "metadata", "Horizons", ".json"])
            inc["faults"].append({"trig": trig, "act": act})

    def describe(self, spec):
        return {"targets": spec["targets"], "bad": spec["bad"], "pre": spec["pre"],
                "incs": [{"processes": i["size"], "calls": i["calls"], "faults": i["faults"], "net": i["net"]} for i in spec["incs"]]}

    def pin(self, spec, out):
        return spec

    def shrink(self, spec):
        for i in range(len(spec["incs"])):
            if len(spec["incs"]) > 1:
                s = copy.deepcopy(spec)
                del s["incs"][i]
                yield s
        for i, inc in enumerate(spec["incs"]):
            for key in ("faults", "net"):
                for j in range(len(inc[key])):
                    s = copy.deepcopy(spec)
                    del s["incs"][i][key][j]
                    yield s
            for j in range(len(inc["calls"])):
                if len(inc["calls"]) > 1:
                    s = copy.deepcopy(spec)
                    del s["incs"][i]["calls"][j]
                    yield s
            if inc["style"] != "whole":
                s = copy.deepcopy(spec)
                s["incs"][i]["style"] = "whole"
                yield s
            if inc["size"] > 1:
                s = copy.deepcopy(spec)
                s["incs"][i]["size"] = 1
                yield s
        for k, v in (("redirect", False), ("bad", None), ("pre", []), ("data_dir", "data"), ("big", 90000)):
            if spec[k] != v:
                s = copy.deepcopy(spec)
                s[k] = v
                yield s

    # --------------------------------------------------------------- running
    def world(self, spec):
        """URL routes and expected contents."""
        routes, want, cat = {}, {}, {}
        for t in spec["targets"]:
            files = cat.setdefault(t["id"], {"files": {}})["files"]
            for o in (2, 3, 4):
                for nm in names_of(o):
                    u = sim_url(t, nm)
                    data = content(spec["seed"], t, nm, spec["big"])
                    files[f"Lev{t['lev']}:{nm}"] = {"link": u, "size": len(data), "checksum": hashlib.md5(data).hexdigest()}
                    want[(t["id"], t["lev"], nm)] = data
                    if spec["redirect"]:
                        m = u.replace(DATA, MIRROR)
                        routes[u] = ("redirect", m)
                        routes[m] = ("bytes", data)
                    else:
                        routes[u] = ("bytes", data)
        t0 = spec["targets"][0]
        if spec["bad"] == "unknown_id":
            cat.pop(t0["id"])
        elif spec["bad"] == "no_lev":
            cat[t0["id"]]["files"] = {k: v for k, v in cat[t0["id"]]["files"].items() if not k.startswith(f"Lev{t0['lev']}:")}
        elif spec["bad"] == "gone":
            u = sim_url(t0, names_of(t0["order"])[spec["seed"] % 4])
            routes[u.replace(DATA, MIRROR) if spec["redirect"] else u] = ("status", 404)
        routes[API] = ("json", [{"tag_name": "v2.9.0", "published_at": "2023-01-01T00:00:00Z"},
                                {"tag_name": "v3.0.0", "published_at": "2025-01-01T00:00:00Z"}])
        routes[RAW.format("v3.0.0")] = ("json", cat)
        return routes, want

    def execute(self, spec, tmp):
        out = Out()
        run = os.path.join(tmp, "dl")
        shutil.rmtree(run, ignore_errors=True)
        job = os.path.join(run, "job")
        for d in ("tmp", "home", "cache/sxs", "cache1/sxs", "config"):
            os.makedirs(os.path.join(job, d))
        root = {"ABS": os.path.join(job, "abs/data"), "~/data": os.path.join(job, "home/data")}.get(
            spec["data_dir"], os.path.normpath(os.path.join(job, spec["data_dir"])))
        arg = root if spec["data_dir"] == "ABS" else spec["data_dir"]
        routes, want = self.world(spec)

        def tdir(t):
            return os.path.join(root, t["id"].replace(":", "_"), f"Lev{t['lev']}")
        t0 = spec["targets"][0]
        for nm, p in zip(names_of(t0["order"]), spec["pre"]):
            if p:
                os.makedirs(tdir(t0), exist_ok=True)
                with open(os.path.join(tdir(t0), nm), "wb") as h:
                    h.write(want[(t0["id"], t0["lev"], nm)])
        state = {}

        def complete():
            s = set()
            for (i, lev, nm), data in want.items():
                p = os.path.join(tdir({"id": i, "lev": lev}), nm)
                if os.path.exists(p):
                    with open(p, "rb") as h:
                        if h.read() == data:
                            s.add((i, lev, nm))
            return s

        def partial(where):
            for (i, lev, nm), data in sorted(want.items()):
                p = os.path.join(tdir({"id": i, "lev": lev}), nm)
                if os.path.lexists(p) and os.path.isfile(p):
                    with open(p, "rb") as h:
                        b = h.read()
                    if b != data and not any(v[0] == "wrong-file" for v in out.violations):
                        out.bad("wrong-file", f"{where}: {nm} of {i} Lev{lev} has {len(b)} bytes that are not the {len(data)} served")

        def on_event(e):
            if e[0] == "ret" and e[2] in ("rename", "link"):
                partial("at a rename")
            if e[0] != "note":
                return
            kind, k = e[2], e[3]
            if kind == "begin":
                state[e[1]] = {"have": complete(), "req": len(servers.log), "target": spec["targets"][k]}
                return
            st = state[e[1]]
            t = st["target"]
            for method, url in [x[:2] for x in servers.log[st["req"]:] if x[2] == e[1]]:
                for (i, lev, nm) in st["have"]:
                    u = sim_url({"id": i, "lev": lev}, nm)
                    if method == "GET" and url in (u, u.replace(DATA, MIRROR)):
                        out.bad("refetch", f"{nm} of {i} Lev{lev} was complete and is fetched again")
            if kind == "ok":
                out.probe("attempt:ok")
                have = complete()
                miss = [nm for nm in names_of(t["order"]) if (t["id"], t["lev"], nm) not in have]
                if os.path.realpath(os.path.join(job, e[4])) != os.path.realpath(tdir(t)):
                    out.bad("directory", f"returned {e[4].replace(job, '$')!r}, the files belong in {tdir(t).replace(job, '$')!r}")
                if miss:
                    out.bad("incomplete", f"attempt for {t} returned without {miss} (served with {spec['bad'] or 'everything present'})")
            else:
                out.probe("attempt:" + e[4])
            partial("after an attempt " + ("that returned" if kind == "ok" else f"that raised {e[4]}"))

        incs = list(spec["incs"])
        last = {"size": 1, "calls": list(range(len(spec["targets"]))), "faults": [], "net": [], "style": "whole",
                "sched_seed": [spec["seed"], "last"]}
        hurt = False
        for n, inc in enumerate(incs + [last]):
            servers = netsim.Servers(routes, sub_rng("net", spec["seed"], n), copy.deepcopy(inc["net"]), inc["style"])
            cfg = dict(inc, sched_seed=repr(inc["sched_seed"]), tick=0.001)
            os.environ["TMPDIR"] = os.path.join(job, "tmp")
            r = NetJob(cfg, job, self.target(spec, inc, arg, job, n), os.path.join(run, "log"), max_steps=60000,
                       on_event=on_event, servers=servers).run()
            out.add_job(r)
            out.sig.update(repr([[os.path.basename(x) if isinstance(x, str) else x for x in e[:4]]
                                 for e in r.events if e[0] in ("net", "note", "disk", "killed")]).encode())
            if inc["size"] > 1:
                out.probe("processes:2")
            if r.outcome in ("crash", "error", "ok"):
                partial("after the end of all processes" if inc["size"] > 1 else f"after a process {'kill' if r.outcome == 'crash' else 'death'}")
            if r.outcome in ("hang", "livelock", "spin"):
                out.bad("stuck", f"attempt does not end: {r.outcome} {r.detail}")
            if n < len(incs) and (r.fired or inc["size"] > 1):
                hurt = True
            if n == len(incs):
                notes = [e for e in r.events if e[0] == "note" and e[2] in ("ok", "err")]
                for e in notes:
                    t = spec["targets"][e[3]]
                    expect = True
                    if spec["bad"] and t["id"] == t0["id"]:
                        if spec["bad"] == "unknown_id":
                            expect = False
                        elif t["lev"] == t0["lev"]:
                            expect = None if spec["bad"] == "gone" else False
                    complete_now = all((t["id"], t["lev"], nm) in complete() for nm in names_of(t["order"]))
                    if expect and e[2] != "ok":
                        out.bad("no-recovery", f"with every fault gone the download of {t} still fails: {e[4]}: {e[5]}")
                    if expect is False and e[2] == "ok" and not complete_now:
                        out.bad("silent", f"download of {t}, which is not served, returned")
                if len(notes) != len(last["calls"]):
                    out.bad("no-recovery", f"final attempts: {r.outcome} {r.detail}")
            if out.violations:
                break
        out.nontrivial = hurt
        shutil.rmtree(run, ignore_errors=True)
        return out

    @staticmethod
    def target(spec, inc, arg, job, n):
        def target(rank, size, seam):
            from . import seam as sm
            sm.patch_clock(seam)
            sm.patch_random(rank, repr((spec["seed"], n)))
            os.chdir(job)
            os.environ["HOME"] = os.path.join(job, "home")
            # the catalogue's cache is the sxs package's own; processes at the same time are on different machines
            os.environ["XDG_CACHE_HOME"] = os.path.join(job, "cache" if rank == 0 else "cache1")
            os.environ["XDG_CONFIG_HOME"] = os.path.join(job, "config")
            for k in list(os.environ):
                if k.lower().endswith("_proxy") or k.startswith("SXS") or k == "GITHUB_TOKEN":
                    del os.environ[k]
            netsim.install(seam)
            from gw_eccentricity.load_data import download_sxs_waveform
            for k in inc["calls"]:
                t = spec["targets"][k]
                seam.call("note", "begin", k)
                try:
                    p = download_sxs_waveform(t["id"], t["lev"], arg, extrap_order=t["order"], catalog_tag=spec["tag"])
                    res = ("ok", k, str(p), "")
                except Exception as e:
                    if type(e).__name__ == "Unsupported":
                        raise
                    res = ("err", k, type(e).__name__, mask(str(e)).replace(job, "$")[:200])
                seam.call("note", *res)
        return target



# ======================================================================= C15
FORMATS = ["SXSCatalog", "SXSCatalog_old", "LVCNR_hack", "EOB", "EMRI", "LVCNR", "h22", "meta_txt", "meta_json"]
NEEDED = {"SXSCatalog": ["deltaTOverM", "num_orbits_to_remove_as_junk", "mode_array", "keep_memory", "include_params_dict"],
          "SXSCatalog_old": ["deltaTOverM", "num_orbits_to_remove_as_junk", "mode_array", "extrap_order", "include_params_dict"],
          "LVCNR_hack": ["deltaTOverM", "num_orbits_to_remove_as_junk", "include_params_dict"]}
_files = {}


def _wave(v, n=900, dt=1.0):
    """A cheap chirp with an eccentric modulation, different for every version v."""
    t = np.arange(-100.0, -100.0 + n * dt, dt)
    tc = t[-1] - 60.0
    tau = np.maximum(tc - t, 1.0)
    ph = (150 + 7 * v) * (1 - (tau / (n * dt)) ** (5 / 8))
    soft = np.sqrt((tc - t) ** 2 + 400.0)      # a smooth maximum near tc
    amp = 0.2 * (soft / 100) ** (-0.25) / (1 + np.exp((t - tc - 10) / 8)) * (1 + 0.05 * np.cos(ph / 2.2) * (tau / (n * dt)))
    return t, amp, ph


def file_set(fmt, v):
    """{name: bytes} of the files of one simulation in this format; cached per process."""
    key = (fmt, v)
    if key in _files:
        return _files[key]
    import h5py
    import tempfile
    d = tempfile.mkdtemp()
    t, amp, ph = _wave(v)
    h22 = amp * np.exp(-1j * ph)
    q = loadoracle.ratio(v)
    qs = loadoracle.sxs_ratio(v)

    def write(name, fill):
        with h5py.File(os.path.join(d, name), "w") as h:
            fill(h)
    meta = {"reference_dimensionless_spin1": [0.0, -0.01234567891 * v, 0.1], "reference_dimensionless_spin2": [0.0, 0.0, -0.2],
            "reference_mass1": qs / (1 + qs), "reference_mass2": 1 / (1 + qs), "relaxation_time": 40.0 + v / 3}
    if fmt in ("SXSCatalog", "SXSCatalog_old"):
        def hor(h):
            tt = np.arange(0.0, t[-1], 1.0)
            p = np.interp(tt, t, ph) / 2 + 0.1
            x = np.stack([tt, 5 * np.cos(p), 5 * np.sin(p), 0 * p], 1)
            h["AhA.dir/CoordCenterInertial.dat"] = x
            h["AhB.dir/CoordCenterInertial.dat"] = x * [1, -1, -1, -1]
        write("Horizons.h5", hor)
    if fmt in ("SXSCatalog", "meta_json"):
        with open(os.path.join(d, "metadata.json"), "w") as h:
            json.dump(meta, h, indent=1)
    if fmt in ("SXSCatalog_old", "meta_txt"):
        with open(os.path.join(d, "metadata.txt"), "w") as h:
            h.write("# Metadata\n[main]\nsimulation-name = x\n")
            for k, val in meta.items():
                h.write(f"{k.replace('_', '-')} = {','.join(map(repr, val)) if isinstance(val, list) else repr(val)}\n")
            h.write("comment = " + "x" * 20000 + "\n")
    if fmt == "SXSCatalog":
        import contextlib
        import io
        import sxs
        from sxs.waveforms.format_handlers import rotating_paired_diff_multishuffle_bzip2 as fmt_rpdmb
        modes = []
        for ell in range(2, 4):
            for m in range(-ell, ell + 1):
                modes.append(0.3 ** (abs(2 - abs(m)) + ell - 2) * amp * np.exp(-0.5j * m * ph))
        w = sxs.WaveformModes(np.stack(modes, 1), time=t, time_axis=0, modes_axis=1, ell_min=2, ell_max=3, spin_weight=-2)
        with contextlib.redirect_stdout(io.StringIO()):
            fmt_rpdmb.save(w, os.path.join(d, "Strain_N2.h5"), L2norm_fractional_tolerance=1e-10)
    elif fmt == "SXSCatalog_old":
        def old(h):
            for o in (2, 3):
                for m, s in (((2, 2), 1.0), ((2, 1), 0.05), ((2, -2), 0.9)):
                    x = s * h22 * (1 + 0.01 * o)
                    h[f"Extrapolated_N{o}.dir/Y_l{m[0]}_m{m[1]}.dat"] = np.stack([t, x.real, x.imag], 1)
        write("rhOverM_Asymptotic_GeometricUnits_CoM.h5", old)
    elif fmt in ("LVCNR_hack", "LVCNR"):
        def lv(h):
            k = np.unique(np.concatenate([np.arange(0, len(t), 2), np.arange(len(t) - 90, len(t))]))
            for nm, y in (("amp", amp), ("phase", -ph)):
                g = h.create_group(f"{nm}_l2_m2")
                g["X"], g["Y"], g["deg"] = t[k], y[k], 5
            for a, b in {"mass1": q, "mass2": 1.0, "spin1x": 0.0, "spin1y": 0.0, "spin1z": 0.123456789 * v, "spin2x": 0.0,
                         "spin2y": 0.0, "spin2z": -0.2, "eccentricity": 0.1, "mean_anomaly": 1.0, "Format": 1,
                         "f_lower_at_1MSUN": 500.0, "Lmax": 2}.items():
                h.attrs[a] = b
        write("nr.h5", lv)
    elif fmt == "EOB":
        def eob(h, s=1.0):
            h["t"] = t
            h["(2, 2)"] = s * h22
        write("EccTest_a.h5", eob)
        write("EccTest_zero.h5", lambda h: eob(h, 0.97))
    elif fmt == "EMRI":
        for nm, s in (("wf_q1_e0.300.h5", 1.0), ("wf_q1_e0.000.h5", 2.5)):
            write(nm, lambda h: h.create_dataset("Dataset1", data=np.stack([t, s * h22.real, s * h22.imag], 1)))
        write("wf_q1_e0.300_ecc.h5", lambda h: h.create_dataset("Dataset1", data=np.stack([t, 0.3 - 1e-4 * t], 1)))
    elif fmt == "h22":
        def f22(h):
            h["data/t"] = t
            for g, s in (("data", 1.0), ("nonecc_data", 0.96)):
                h[g + "/hCoOrb/Amp_l2m2"] = s * amp
                h[g + "/hCoOrb/phi_l2m2"] = -ph
        write("eob22.h5", f22)
    out = {}
    for nm in sorted(os.listdir(d)):
        with open(os.path.join(d, nm), "rb") as h:
            out[nm] = h.read()
    shutil.rmtree(d)
    _files[key] = out
    return out


def load_call(c, d):
    """One call of a loader on the files of directory d."""
    from gw_eccentricity import load_data as L
    kw = copy.deepcopy(c["kw"])
    if "mode_array" in kw:
        kw["mode_array"] = [tuple(m) for m in kw["mode_array"]]
    f = c["fmt"]
    if f in ("SXSCatalog", "SXSCatalog_old"):
        kw["data_dir"] = d
    elif f in ("LVCNR_hack", "LVCNR"):
        kw["filepath"] = os.path.join(d, "nr.h5")
    elif f == "EOB":
        kw["filepath"] = os.path.join(d, "EccTest_a.h5")
        if kw.get("include_zero_ecc"):
            kw["filepath_zero_ecc"] = os.path.join(d, "EccTest_zero.h5")
    elif f == "EMRI":
        kw["filepath"] = os.path.join(d, "wf_q1_e0.300.h5")
        if kw.pop("zero_path", False):
            kw["filepath_zero_ecc"] = os.path.join(d, "wf_q1_e0.000.h5")
    elif f == "h22":
        return L.load_h22_from_EOBfile(os.path.join(d, "eob22.h5"))
    elif f == "meta_txt":
        return L.get_params_dict_from_sxs_metadata(os.path.join(d, "metadata.txt"))
    elif f == "meta_json":
        return L.get_params_dict_from_sxs_metadata(os.path.join(d, "metadata.json"))
    return L.load_waveform(origin=f, **kw)


def digest(d):
    """Exact contents of a returned dictionary, as one short string per entry."""
    def h(x):
        if isinstance(x, dict):
            return {str(k): h(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
        if isinstance(x, np.ndarray):
            return f"{x.dtype}{x.shape}{hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]}"
        if isinstance(x, (list, tuple)):
            return [h(v) for v in x]
        if isinstance(x, (float, np.floating)):
            return float(x).hex()
        return repr(x)
    return json.dumps(h(d), sort_keys=True)


_refs = {}


def reference(c, files, tmp):
    """What the loader gives for these files, in a fresh process, storage intact."""
    key = json.dumps([c["fmt"], c["v"], c["kw"], sorted(files)], sort_keys=True)
    if key not in _refs:
        d = os.path.join(tmp, "ref")
        shutil.rmtree(d, ignore_errors=True)
        put(d, files)
        full = not c.get("partial") and set(file_set(c["fmt"], c["v"])) - set(files) <= {"Horizons.h5"}

        def fresh():
            got = load_call(c, d)
            dig = digest(got)
            if not full:
                return dig, None
            try:
                return dig, loadoracle.check(c, got, _wave(c["v"]), "Horizons.h5" in files)
            except (KeyError, TypeError, ValueError, IndexError, AttributeError) as e:
                if os.environ.get("DST_STDERR"):
                    raise
                return dig, f"not the documented dictionary ({type(e).__name__}: {e})"
        r = C.isolated(fresh)
        _refs[key] = (["ok", r[1][0]], r[1][1]) if r[0] == "ok" else (list(r), None)
        shutil.rmtree(d, ignore_errors=True)
    return _refs[key]


def hollow(nm, b, at, tmp):
    """The file of a writer that left one entry out (or half of it); None: not for this file."""
    if nm.startswith("Strain"):             # read by the sxs package on its own
        return None
    if nm.endswith(".json"):
        d = json.loads(b)
        del d[sorted(d)[int(at * len(d))]]
        return json.dumps(d, indent=1).encode()
    if nm.endswith(".txt"):
        lines = b.decode().splitlines(True)
        ks = [i for i, x in enumerate(lines) if "reference-" in x or "relaxation" in x]
        i = ks[int(at * len(ks))]
        if int(at * 1e6) % 2:
            lines[i] = lines[i].split("=")[0] + "=\n"
        else:
            del lines[i]
        return "".join(lines).encode()
    import h5py
    p = os.path.join(tmp, "hollow.h5")
    with open(p, "wb") as h:
        h.write(b)
    with h5py.File(p, "r+") as h:
        names = []
        h.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
        names = sorted(names) + sorted("@" + a for a in h.attrs)
        n = names[int(at * len(names))]
        if n.startswith("@"):
            del h.attrs[n[1:]]
        elif n.startswith("AhB") and int(at * 1e6) % 2:
            x = h[n][:]
            del h[n]
            h[n] = x[:len(x) // 2]
        else:
            del h[n]
    with open(p, "rb") as h:
        b = h.read()
    os.unlink(p)
    return b


def put(d, files):
    os.makedirs(d, exist_ok=True)
    for nm, b in files.items():
        with open(os.path.join(d, nm), "wb") as h:
            h.write(b)


class C15:
    pid, family, level = "C15", "loaders", "exploration"
    rule = "a storage fault hit a load, or a load followed a replaced file or a failed load"

    def setup(self, tmp):
        import contextlib
        import io
        import sxs  # noqa: F401
        import warnings
        warnings.simplefilter("ignore")
        d = os.path.join(tmp, "warm")
        for f in FORMATS:
            for v in range(3):
                file_set(f, v)
        # compile sxs's memory code once, here
        with contextlib.redirect_stdout(io.StringIO()):
            put(d, file_set("SXSCatalog", 0))
            try:
                load_call({"fmt": "SXSCatalog", "kw": {"deltaTOverM": 1.0}}, d)
            except Exception:
                pass
        shutil.rmtree(d)

    # ------------------------------------------------------------ generation
    def gen(self, seed, tier):
        rng = sub_rng("c15", seed)
        ops = []
        fmts = rng.sample(FORMATS, rng.choice([1, 1, 2, 3]))
        for _ in range(rng.randint(1, 4) if tier == "quick" else rng.randint(1, 8)):
            f = rng.choice(fmts)
            ops.append({"k": "load", "fmt": f, "kw": self.gen_kw(rng, f), "hold": rng.random() < 0.3,
                        "faults": self.gen_faults(rng, f) if rng.random() < 0.6 else []})
            r = rng.random()
            if r < 0.25:
                ops.append({"k": "replace", "fmt": f, "v": rng.randrange(3), "how": rng.choice(["rename", "inplace"])})
            elif r < 0.4:
                ops.append({"k": "scribble"})
            elif r < 0.5:
                ops.append({"k": "damage", "fmt": f, "which": rng.randrange(4), "how": rng.choice(["cut", "cut", "missing", "empty", "hollow", "hollow"]),
                            "at": rng.random()})
                ops.append({"k": "load", "fmt": f, "kw": self.gen_kw(rng, f), "hold": rng.random() < 0.3, "faults": []})
            if r < 0.5 and rng.random() < 0.7:
                ops.append(dict(rng.choice([o for o in ops if o["k"] == "load"]), faults=[]))
        return {"seed": seed, "ops": ops, "v0": rng.randrange(3), "horizons": rng.random() < 0.6,
                "dir": rng.choice(["data", "some0ne/e0", "metadata.d", "EccTest"])}

    @staticmethod
    def gen_kw(rng, f):
        kw = {}
        if f in ("SXSCatalog", "SXSCatalog_old"):
            kw = {"deltaTOverM": rng.choice([0.5, 1.0]), "num_orbits_to_remove_as_junk": rng.choice([0, 1, 2]),
                  "include_params_dict": rng.random() < 0.5,
                  "mode_array": rng.choice([[[2, 2]], [[2, 2], [2, 1]], [[2, 1], [2, 2], [2, -2]]])}
            if f == "SXSCatalog":
                kw["keep_memory"] = rng.random() < 0.5
            else:
                kw["extrap_order"] = rng.choice([2, 3])
        elif f in ("LVCNR_hack", "LVCNR"):
            kw = {"deltaTOverM": rng.choice([0.5, 1.0]), "num_orbits_to_remove_as_junk": rng.choice([0, 1, 2]),
                  "include_params_dict": rng.random() < 0.5}
        elif f == "EOB":
            kw = {"include_zero_ecc": rng.random() < 0.5}
        elif f == "EMRI":
            kw = {"include_zero_ecc": rng.random() < 0.5, "include_geodesic_ecc": rng.random() < 0.5,
                  "start_time": rng.choice([None, -500.0]), "end_time": rng.choice([None, -100.0]),
                  "deltaT": rng.choice([None, 0.5]), "zero_path": rng.random() < 0.4}
        return kw

    @staticmethod
    def gen_faults(rng, f):
        out = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            op = rng.choice(["read", "read", "read", "open"])
            n = rng.randint(1, 5) if op == "open" else rng.choice([rng.randint(1, 6), rng.randint(1, 40)])
            r = rng.random()
            if r < 0.35 and op == "read":
                act = {"kind": "short", "frac": rng.choice([0.0, 0.01, 0.5, 0.99])}
            elif r < 0.5:
                act = {"kind": "errno", "errno": "EINTR", "count": rng.choice([1, 1, 3])}
            elif op == "open":
                act = {"kind": "errno", "errno": rng.choice(["EIO", "EMFILE", "EACCES"])}
            else:
                act = {"kind": "errno", "errno": "EIO", "count": rng.choice([1, 1, 1000])}
            t = {"op": op, "n": n}
            if rng.random() < 0.3:
                t["path"] = rng.choice(["Horizons", "metadata", "Strain", ".json", ".h5", "_ecc", "zero", "e0.000"])
            out.append({"trig": t, "act": act})
        return out

    def describe(self, spec):
        return {"ops": [{k: v for k, v in o.items() if v} for o in spec["ops"]], "horizons": spec["horizons"], "dir": spec["dir"]}

    def pin(self, spec, out):
        return spec

    def shrink(self, spec):
        for i in range(len(spec["ops"])):
            if len(spec["ops"]) > 1:
                s = copy.deepcopy(spec)
                del s["ops"][i]
                yield s
        for i, o in enumerate(spec["ops"]):
            for j in range(len(o.get("faults", []))):
                s = copy.deepcopy(spec)
                del s["ops"][i]["faults"][j]
                yield s
            if o.get("hold"):
                s = copy.deepcopy(spec)
                s["ops"][i]["hold"] = False
                yield s
            for k in sorted(o.get("kw", {})):
                s = copy.deepcopy(spec)
                del s["ops"][i]["kw"][k]
                yield s
        for k, v in (("dir", "data"), ("horizons", True), ("v0", 0)):
            if spec[k] != v:
                s = copy.deepcopy(spec)
                s[k] = v
                yield s

    # --------------------------------------------------------------- running
    def execute(self, spec, tmp):
        out = Out()
        run = os.path.join(tmp, "ld")
        shutil.rmtree(run, ignore_errors=True)
        job = os.path.join(run, "job")
        stage = os.path.join(run, "stage")
        os.makedirs(os.path.join(job, "tmp"))
        base = os.path.join(job, spec["dir"])
        # what is on disk before each operation, and what each load must give
        disk, plans, faults, refs = {}, [], [], []
        for f in {o["fmt"] for o in spec["ops"] if "fmt" in o}:
            fs = dict(file_set(f, spec["v0"]))
            if not spec["horizons"]:
                fs.pop("Horizons.h5", None)
            disk[f] = {"v": spec["v0"], "files": fs, "damaged": None}
            put(os.path.join(base, f), fs)
        for k, o in enumerate(spec["ops"]):
            plan = dict(o, n=k)
            if o["k"] == "replace":
                old = disk[o["fmt"]]["files"]
                fs = {nm: b for nm, b in file_set(o["fmt"], o["v"]).items() if nm in old}
                disk[o["fmt"]] = {"v": o["v"], "files": fs, "damaged": None}
                put(os.path.join(stage, str(k)), fs)
            elif o["k"] == "damage":
                st = disk[o["fmt"]]
                nms = [nm for nm in sorted(st["files"]) if nm != "metadata.txt" or o["how"] == "hollow"]
                if o["how"] == "hollow":
                    nms = [nm for nm in nms if not nm.startswith("Strain") and st["damaged"] is None]
                if nms:
                    nm = nms[o["which"] % len(nms)]
                    fs = dict(st["files"])
                    b = fs.pop(nm)
                    if o["how"] == "hollow":
                        fs[nm] = hollow(nm, b, o["at"], run)
                        put(os.path.join(stage, str(k)), {nm: fs[nm]})
                    elif o["how"] != "missing":
                        fs[nm] = b"" if o["how"] == "empty" else b[:int(o["at"] * (len(b) - 1))]
                        put(os.path.join(stage, str(k)), {nm: fs[nm]})
                    plan["name"] = nm
                    disk[o["fmt"]] = {"v": st["v"], "files": fs, "damaged": st["damaged"] or st["files"]}
                else:
                    plan["k"] = "none"
            elif o["k"] == "load":
                st = disk[o["fmt"]]
                good = st["damaged"] or st["files"]
                c = {"fmt": o["fmt"], "v": st["v"], "kw": o["kw"]}
                if any(key not in c["kw"] for key in NEEDED.get(o["fmt"], [])):
                    c["partial"] = True      # a shrunk load which leaves defaults to the loader
                first, wrong = reference(c, good, run)
                if wrong:
                    out.bad("not-the-file", f"load {k} of {o['fmt']} {o['kw']} with intact storage does not return the data of the file: {wrong}")
                ok = {json.dumps(first)}
                if st["damaged"] is not None:
                    if "Horizons.h5" not in st["files"]:       # documented: then the phase is used
                        ok.add(json.dumps(reference(c, {n: b for n, b in good.items() if n != "Horizons.h5"}, run)[0]))
                refs.append((k, c, ok, st["damaged"] is not None))
            plans.append(plan)
        final = {(f, nm): b for f, st in disk.items() for nm, b in st["files"].items()}
        os.environ["TMPDIR"] = os.path.join(job, "tmp")
        cfg = {"size": 1, "read_faults": True, "faults": [], "sched_seed": repr(spec["seed"]), "tick": 0.001}
        jb = LoadJob(cfg, job, self.target(spec, plans, base, stage), os.path.join(run, "log"), max_steps=200000)
        r = jb.run()
        out.add_job(r)
        out.sig.update(repr([e[:4] for e in r.events if e[0] in ("note", "disk", "fault")]).encode())
        self.judge(spec, r, refs, final, base, job, out)
        shutil.rmtree(run, ignore_errors=True)
        return out

    def judge(self, spec, r, refs, final, base, job, out):
        if r.outcome != "ok":
            out.bad("died" if r.outcome in ("error", "crash") else "stuck", f"loading ends with {r.outcome}: {r.detail}")
            return
        got = {e[3]: e for e in r.events if e[0] == "note" and e[2] == "load"}
        hard, cur = {}, None
        for e in r.events:
            if e[0] == "note" and e[2] == "begin":
                cur = e[3]
            elif e[0] == "note":
                cur = None
            elif e[0] == "fault" and cur is not None and "short" not in e[1]:
                hard[cur] = hard.get(cur, []) + [e[1]]
        soft = any(e[0] == "fault" for e in r.events)
        prev_bad = False
        for k, c, ok, damaged in refs:
            e = got.get(k)
            if e is None:
                out.bad("harness", f"load {k} did not report")
                continue
            _, _, _, _, res, fds, fds_held = e
            want = [json.loads(x) for x in ok]
            res = json.loads(res)
            out.probe("load:" + res[0])
            what = f"load {k} of {c['fmt']} {c['kw']}"
            if res[0] == "ok":
                if ["ok", res[1]] not in want:
                    w = want[0]
                    diff = self.diff(w[1], res[1]) if w[0] == "ok" else f"storage intact it raises {w[1]}: {w[2][:100]}"
                    out.bad("wrong-data", f"{what} with {hard.get(k) or 'storage intact'}{' on a damaged file' if damaged else ''}"
                                          f" returned other data than the file holds: {diff}")
            elif not damaged and k not in hard:
                if not any(w[0] == "err" and w[1] == res[1] for w in want):
                    out.bad("raises", f"{what} raised {res[1]}: {res[2]} although no storage error was reported")
            if fds:
                out.bad("open-file", f"{what} ({res[0]}) leaves {fds} open")
            elif fds_held:
                out.bad("open-file", f"{what} raised {res[1]} and leaves {fds_held} open as long as the exception is kept")
            if k in hard or damaged or prev_bad:
                out.nontrivial = True
            prev_bad = res[0] == "err"
        if soft or any(o["k"] == "replace" for o in spec["ops"]):
            out.nontrivial = True
        for (f, nm), b in sorted(final.items()):
            p = os.path.join(base, f, nm)
            if not os.path.exists(p):
                out.bad("modified", f"{f}/{nm} is gone")
            else:
                with open(p, "rb") as h:
                    if h.read() != b:
                        out.bad("modified", f"{f}/{nm} was modified")

    @staticmethod
    def diff(a, b):
        a, b = json.loads(a), json.loads(b)
        return ", ".join(k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))

    @staticmethod
    def target(spec, plans, base, stage):
        def target(rank, size, seam):
            import gc
            from . import seam as sm
            sm.patch_clock(seam)
            sm.patch_random(rank, repr(spec["seed"]))
            os.chdir(os.path.dirname(base) if os.path.isdir(os.path.dirname(base)) else base)
            root = base

            def open_files():
                res = []
                for fd in sorted(os.listdir("/proc/self/fd"), key=int):
                    try:
                        p = os.readlink("/proc/self/fd/" + fd)
                    except OSError:
                        continue
                    if p.startswith(root + os.sep):
                        res.append(os.path.relpath(p, root))
                return res
            last = None
            gc.collect()
            for o in plans:
                k = o["n"]
                if o["k"] == "replace":
                    src = os.path.join(stage, str(k))
                    for nm in sorted(os.listdir(src)):
                        dst = os.path.join(base, o["fmt"], nm)
                        if o["how"] == "rename":
                            os.replace(os.path.join(src, nm), dst)
                        else:
                            shutil.copyfile(os.path.join(src, nm), dst)
                elif o["k"] == "damage":
                    dst = os.path.join(base, o["fmt"], o["name"])
                    if o["how"] == "missing":
                        os.unlink(dst)
                    else:
                        os.replace(os.path.join(stage, str(k), o["name"]), dst)
                elif o["k"] == "scribble":
                    for v in (last or {}).values():
                        for a in (v.values() if isinstance(v, dict) else [v]):
                            if isinstance(a, np.ndarray) and a.flags.writeable:
                                a[...] = 7.25
                            elif isinstance(a, list):
                                a[:] = [9.0]
                    if last:
                        last.clear()
                elif o["k"] == "load":
                    seam.call("note", "begin", k, o["faults"])
                    held = []
                    try:
                        d = load_call(o, os.path.join(base, o["fmt"]))
                        res = ["ok", digest(d)]
                        last = d
                        d = None
                    except Exception as e:
                        if type(e).__name__ == "Unsupported":
                            raise
                        res = ["err", type(e).__name__, re.sub(r"time = \w[^,]*", "time", mask(str(e)).replace(root, "$"))[:200]]
                        if o["hold"]:
                            held = open_files()
                    seam.call("note", "load", k, json.dumps(res), open_files(), held)
        return target


class LoadJob(J.Job):
    """Storage faults belong to the load during which they strike."""

    def _ev(self, *e):
        if e[0] == "note" and e[2] == "begin":
            self.faults = [dict(copy.deepcopy(f)) for f in e[4]]
            self.sticky = None
        elif e[0] == "note":
            self.faults, self.sticky = [], None
        super()._ev(*e)


CHECKS = {"C14": C14, "C15": C15}
