"""Batch driver: seeds -> runs on a pool, evidence, minimisation, replay."""
import gc
import hashlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import bootstrap
from .job import HarnessError

VERIF = bootstrap.VERIF


DET_RUNS = int(os.environ.get("DST_DET", "2"))   # runs per worker executed twice


def base_seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def run_seed(k):
    return base_seed() * 1_000_003 + k


def one(check, spec, tmp):
    out = check.execute(spec, tmp)
    return out


def out_record(check, k, spec, out, dt):
    return {"k": k, "viol": out.violations[:5], "spec": spec if out.violations else None,
            "faults": out.faults, "sim": out.simtime, "jobs": out.jobs, "steps": out.steps,
            "sig": out.sig.hexdigest()[:16], "dig": out.digest.hexdigest()[:16],
            "nt": out.nontrivial, "probes": out.probes,
            "sample": check.describe(spec) if k < 3 else None, "dt": dt}


def worker_loop(check, wid, nw, tier, deadline, max_runs, wfd, tmp, start=0):
    h = os.fdopen(wfd, "wb")

    def put(d):
        b = pickle.dumps(d)
        h.write(struct.pack("<I", len(b)) + b)
        h.flush()
    mytmp = os.path.join(tmp, f"w{wid}")
    os.makedirs(mytmp, exist_ok=True)
    k = start + wid
    n = 0
    while k < start + max_runs and time.monotonic() < deadline:
        t0 = time.monotonic()
        err = None
        for attempt in (0, 1):
            try:
                spec = check.gen(run_seed(k), tier)
                out = one(check, spec, mytmp)
                err = None
                break
            except Exception as e:
                err = f"seed {run_seed(k)}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
        if err:
            put({"k": k, "harness": err})
        else:
            rec = out_record(check, k, spec, out, time.monotonic() - t0)
            if n < DET_RUNS and not out.violations:       # determinism: same seed, same history
                try:
                    o2 = one(check, json.loads(json.dumps(spec)), mytmp)
                except HarnessError as e:
                    put({"k": k, "harness": f"second execution of seed {run_seed(k)}: {e}"})
                    k += nw
                    continue
                rec["det"] = o2.digest.hexdigest()[:16] == rec["dig"]
                if not rec["det"] and out.trace is not None:
                    rec["detdiff"] = [(a, b) for a, b in zip(out.trace, o2.trace) if a != b][:4]
            put(rec)
            if out.violations:
                break
        k += nw
        n += 1
    h.close()


def explore(check, tier, budget, max_runs, nw, tmp, start=0):
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    deadline = time.monotonic() + budget
    pipes = {}
    pids = []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(r)
                for x in pipes:
                    os.close(x)
                from . import seam
                seam.die_with_parent()
                worker_loop(check, w, nw, tier, deadline, max_runs, wr, tmp, start)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        pids.append(pid)
        pipes[r] = b""
    recs = []
    stop = False
    hard = deadline + 300
    while pipes and not stop:
        rd, _, _ = select.select(list(pipes), [], [], 1.0)
        if time.monotonic() > hard:
            break
        for fd in rd:
            b = os.read(fd, 1 << 16)
            if not b:
                os.close(fd)
                del pipes[fd]
                continue
            buf = pipes[fd] + b
            while len(buf) >= 4:
                n, = struct.unpack("<I", buf[:4])
                if len(buf) < 4 + n:
                    break
                rec = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                recs.append(rec)
                if rec.get("viol"):
                    stop = True
            pipes[fd] = buf
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
        except PermissionError:
            os.kill(p, signal.SIGKILL)
    for p in pids:
        os.waitpid(p, 0)
    return recs


def classes(out):
    return {c for c, _ in out.violations}


def minimise(check, spec, out, tmp, budget):
    """Greedy shrink keeping the violation class."""
    cls = out.violations[0][0]
    best, bout = spec, out
    deadline = time.monotonic() + budget
    tries = 0
    try:
        p = check.pin(spec, out)
        o = one(check, p, tmp)
        tries += 1
        if cls in classes(o):
            best, bout = p, o
    except Exception:
        pass
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for cand in check.shrink(best):
            if cand is None:
                continue
            if time.monotonic() > deadline:
                break
            tries += 1
            try:
                o = one(check, cand, tmp)
            except Exception:
                continue
            if cls in classes(o):
                best, bout, changed = cand, o, True
                break
    return best, bout, tries


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {"findings": [], "fixed": []}
    with open(p) as h:
        return json.load(h)


def split_known(pid, out, spec, check):
    """Drop violations that the known-findings file lists (by class and mark)."""
    if not out.violations:
        return []
    hits = []
    marks = set(getattr(check, "marks", lambda s: [])(spec))
    for f in known_findings()["findings"]:
        if f["property"] != pid:
            continue
        for v in list(out.violations):
            if v[0] in f["classes"] and (not f.get("mark") or f["mark"] in marks):
                out.violations.remove(v)
                hits.append(f)
    return hits


def write_replay(check, spec, out, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as h:
        json.dump({"property": check.pid, "violation": out.violations[:5],
                   "digest": out.digest.hexdigest(), "spec": spec, "log_tail": out.note[-1500:]}, h, indent=1)


def replay(check, path, tmp):
    with open(path) as h:
        d = json.load(h)
    d2 = os.path.join(tmp, "replay")
    os.makedirs(d2, exist_ok=True)
    out = one(check, d["spec"], d2)
    want = d["violation"][0][0]
    same = want in classes(out)
    print(json.dumps({"reproduced": same, "digest_equal": out.digest.hexdigest() == d["digest"],
                      "violations": out.violations[:5]}, indent=1), flush=True)
    if out.note:
        print(out.note[-1500:])
    return 1 if same else 0


def report(check, rec, tier, tmp, ev):
    """Minimise a violating run and confirm its replay file in a fresh process."""
    spec = rec["spec"]
    mt = os.path.join(tmp, "min")
    os.makedirs(mt, exist_ok=True)
    out = one(check, spec, mt)
    if not out.violations:
        print(f"HARNESS: seed {run_seed(rec['k'])} violated once but not again: {rec['viol']}", flush=True)
        return False
    best, bout, tries = minimise(check, spec, out, mt, 60 if tier == "quick" else 300)
    env = {k: v for k, v in os.environ.items()
           if (not k.startswith("DST_") or k in ("DST_REPO", "DST_HASHSEED")) and k != "LD_PRELOAD"}
    for s, o in ((best, bout), (spec, out)):      # the minimised run, else the run as it was found
        tag = hashlib.sha1(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, "replays", f"{check.pid}-{run_seed(rec['k'])}-{tag}.json")
        write_replay(check, s, o, path)
        try:
            p = subprocess.run([bootstrap.PY, os.path.join(VERIF, "run.py"), check.pid, "--replay", path],
                               env=env, capture_output=True, text=True, timeout=200)
            confirmed = p.returncode == 1
        except subprocess.TimeoutExpired:
            confirmed = False
        if confirmed:
            break
    for c, m in o.violations[:3]:
        print(f"  {check.pid} [{c}] {m}", flush=True)
    ev["violation"] = {"seed": run_seed(rec["k"]), "what": o.violations[:3], "replay": path,
                       "minimise_runs": tries, "reproduced_in_fresh_process": confirmed}
    if not confirmed:
        print("HARNESS: violation does not reproduce in a fresh process", flush=True)
    return confirmed


def main(check, argv, tmp):
    tier = os.environ.get("VERIF_TIER", "quick")
    rp = None
    budget = None
    max_runs = None
    start = 0
    verbose = False
    it = iter(argv)
    for a in it:
        if a == "--replay":
            rp = next(it)
        elif a == "--budget":
            budget = float(next(it))
        elif a == "--runs":
            max_runs = int(next(it))
        elif a == "--start":
            start = int(next(it))
        elif a == "--tier":
            tier = next(it)
        elif a == "--trace":
            os.environ["DST_TRACE"] = "1"
            n = int(next(it))
            check.setup(tmp)
            os.makedirs(os.path.join(tmp, "tr"), exist_ok=True)
            for _ in range(2):
                spec = check.gen(run_seed(n), tier)
                o = one(check, spec, os.path.join(tmp, "tr"))
                print("=====", o.digest.hexdigest(), o.violations, json.dumps(check.describe(spec)))
                print("\n".join(o.trace))
            return 0
        elif a == "-v":
            verbose = True
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check.setup(tmp)
    if rp:
        return replay(check, rp, tmp)
    if budget is None:
        budget = getattr(check, "budget", {"quick": 45, "thorough": 2400})[tier]
    if max_runs is None:
        max_runs = getattr(check, "max_runs", {"quick": 4000, "thorough": 10 ** 7})[tier]
    nw = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    print(f"{check.pid}: seed {base_seed()} tier {tier} budget {budget:.0f}s workers {nw}", flush=True)
    known = []
    for line in getattr(check, "known_probe", lambda t: [])(tmp):
        known.append(line)
        print(line, flush=True)
    recs = explore(check, tier, budget, max_runs, nw, tmp, start)
    wall = time.monotonic() - t0
    harness = [r for r in recs if "harness" in r]
    recs = sorted((r for r in recs if "harness" not in r), key=lambda r: r["k"])
    viol = [r for r in recs if r["viol"]]
    faults, probes = {}, {}
    for r in recs:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    det = [r["det"] for r in recs if "det" in r]
    nts = {r["sig"] for r in recs if r["nt"]}
    ev = {
        "property": check.pid, "tier": tier, "seed": base_seed(), "level": check.level,
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len(nts),
            "rule": check.rule + "; distinct: by hash of the run's ordered seam events",
            "samples": [r["sample"] for r in recs if r["sample"]][:3],
            "runs_per_hour": round(3600 * len(recs) / max(wall, 1e-9)),
            "seeds": f"{run_seed(start)}..{run_seed(start) + (recs[-1]['k'] - start if recs else 0)}",
            "simulated_jobs": sum(r["jobs"] for r in recs),
            "simulated_seconds": round(sum(r["sim"] for r in recs), 3),
            "scheduler_steps": sum(r["steps"] for r in recs),
            "distinct_interleavings": len({r["sig"] for r in recs}),
            "faults_fired": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "determinism": {"seeds_run_twice": len(det), "histories_differing": det.count(False)},
            "components": check.components if hasattr(check, "components") else COMPONENTS.get(check.family, {}),
            "harness_errors": len(harness),
            "known_findings": known,
        },
        "assumptions": getattr(check, "assumptions", ASSUMPTIONS.get(check.family, [])),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not ev["coverage"]["samples"] and recs:
        ev["coverage"]["samples"] = [check.describe(check.gen(run_seed(recs[0]["k"]), tier))]

    def save():
        with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1, default=str)
    save()
    for r in recs:
        if r.get("det") is False:
            print(f"note: history of seed {run_seed(r['k'])} (run {r['k']}) differs on a second execution", r.get("detdiff", ""))
    print(f"{check.pid}: {len(recs)} runs, {ev['coverage']['distinct_interleavings']} distinct, "
          f"{len(nts)} non-trivial, {ev['coverage']['simulated_jobs']} jobs, faults {sum(faults.values())}, "
          f"{wall:.1f}s, determinism {ev['coverage']['determinism']}", flush=True)
    if verbose:
        print(json.dumps(ev["coverage"], indent=1, default=str))
    if viol:
        for rec in viol[:4]:
            if report(check, rec, tier, tmp, ev):
                save()
                print(f"VIOLATION property={check.pid} replay={ev['violation']['replay']}", flush=True)
                return 1
        save()
        return 2
    if harness:
        print(f"HARNESS: {len(harness)} runs gave no answer; first: " + harness[0]["harness"], flush=True)
        if len(harness) > 0.02 * len(recs):
            return 2
    if not recs:
        print("HARNESS: no run completed", flush=True)
        return 2
    return 0


def self_test(reg, tmp):
    """The simulator itself: one run of each family, executed twice."""
    bad = 0
    seen = set()
    for pid in sorted(reg):
        check = reg[pid]()
        if check.family in seen:
            continue
        seen.add(check.family)
        check.setup(tmp)
        d = os.path.join(tmp, "self")
        os.makedirs(d, exist_ok=True)
        digs = []
        for _ in (0, 1):
            o = one(check, check.gen(run_seed(2), "quick"), d)
            digs.append(o.digest.hexdigest())
        same = digs[0] == digs[1]
        bad += not same
        print(f"self-test {pid} ({check.family}): {'deterministic' if same else 'NOT DETERMINISTIC'}", flush=True)
    return 1 if bad else 0


COMPONENTS = {
    "cli": {"real": ["postprocess_cli.main and all of its code", "core.postprocess_sample", "measure_eccentricity and all "
                     "definitions", "argparse, bilby result reading, pandas/pyarrow writers and readers, file system calls"],
            "stub": ["mpi4py (simulated MPI)", "clocks and sleep", "data_dict_generator (synthetic inspirals)",
                     "power-loss effects (model)"]},
    "calls": {"real": ["measure_eccentricity, all six definitions, spin filter, frame rotation (scri), rational fits"],
              "stub": ["callers (generated histories)", "waveforms (synthetic inspirals)", "interrupts and allocation failures "
                       "(raised by the simulator at a chosen line of the code under test)"]},
    "queries": {"real": ["measure_eccentricity and the measured object's methods, matplotlib figures (Agg)"],
                "stub": ["callers (generated histories)", "waveforms (synthetic inspirals)",
                         "interrupts (raised by the simulator at a chosen line of the code under test)"]},
    "api": {"real": ["PostProcess, PostProcessForBilby and core.py, joblib.Parallel (dispatch, ordering, abort), "
                     "measure_eccentricity and all definitions"],
            "stub": ["joblib's worker pools: process workers are forked children fed pickled batches, thread workers are "
                     "simulated threads", "thread scheduler and locks (simulated)", "sleep",
                     "data_dict_generator (synthetic inspirals)"]},
    "download": {"real": ["download_sxs_waveform, sxs catalogue and download code, requests, urllib3, http.client, file system calls"],
                 "stub": ["sockets and TLS (simulated)", "servers (simulated)", "clock"]},
    "loaders": {"real": ["load_waveform and every file loader of load_data, h5py/HDF5, sxs, lalsimulation, file system calls"],
                "stub": ["storage faults (decided by the simulator at each open and read)", "waveform files (synthetic)", "clock"]},
    "diagnostics": {"real": ["measure_eccentricity, all definitions, spin filter, debug figures, matplotlib's PDF and PNG writers, file system calls"],
                    "stub": ["drawing of most figures (an eighth of the runs draw for real)", "storage faults, kills, power loss (simulated)",
                             "LaTeX (absent)", "clock"]},
    "process": {"real": ["measure_eccentricity and all six definitions, numpy, scipy, matplotlib"],
                "stub": ["failing library calls (raised by the simulator at a chosen call)", "waveforms (synthetic inspirals)"]},
    "posterior": {"real": ["PostProcessForBilby, core.py, measure_eccentricity, bilby's result readers, h5py, pandas, matplotlib, file system calls"],
                  "stub": ["storage faults (decided by the simulator at each open and read)", "data_dict_generator (synthetic inspirals)",
                           "interrupts", "clock"]},
    "threads": {"real": ["measure_eccentricity and all six definitions, in real threads of one process"],
                "stub": ["thread scheduler and locks (simulated)", "waveforms (synthetic inspirals)",
                         "allocation failures (raised at a chosen line)"]},
}
ASSUMPTIONS = {
    "calls": ["the reference is the same call in a fresh forked process; answers are compared to a relative 1e-7, "
              "error messages with numbers masked"],
    "queries": ["the reference is the same question put to a freshly measured object in a forked process (relative 1e-7)",
                "frequency bounds keep the averaging method they were first computed with, as get_fref_bounds documents",
                "plots are compared by the data of their lines"],
    "api": ["a worker process that dies breaks its pool, as in loky; results of process workers travel pickled",
            "threads switch only at lines (or byte codes) of gw_eccentricity code",
            "the reference is each sample measured alone in a fresh process", "posterior index labels are unique"],
    "download": ["servers announce the length of what they send or use chunks, as the real ones do",
                 "two processes at a time share the data directory, not the sxs package's own cache",
                 "a crash is a process kill; power loss is not modelled here"],
    "diagnostics": ["a measurement during which the disk failed may fail or succeed; figures are judged as files, not by looks"],
    "process": ["27 kinds of process-wide state are compared; state inside compiled libraries is not seen"],
    "posterior": ["the posterior files are written by bilby from generated tables; an injection file cut inside a number is not generated"],
    "loaders": ["the reference is the same load in a fresh process with intact storage, compared exactly",
                "stat() does not fail", "LVCNR files need SEOBNRv4ROM data, not installed: only their failing path runs"],
    "threads": ["threads switch only at lines (or byte codes) of gw_eccentricity code; library calls between two such "
                "points are atomic", "the reference is the same call alone in a fresh forked process (relative 1e-7)"],
    "cli": ["MPI delivers every message once and in order per pair; a dead rank takes the job down (mpirun's default)",
            "a kill is the state after the completed system calls; a power loss follows the ordered-journal model in disk.py",
            "fsync in the simulation makes data durable at once"],
}
_ = (shutil,)
