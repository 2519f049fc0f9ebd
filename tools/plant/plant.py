"""Writes /verif/seeded/<id>/ from the table below.

    plant.py            regenerate every planted bug whose patch still applies
    plant.py ID ...     only these

Works in a scratch copy of /repo; /repo itself is not touched.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
BUGS = []
PP = "gw_eccentricity/postprocess/"
CLI, CORE, POST = PP + "postprocess_cli.py", PP + "core.py", PP + "postprocess.py"
ECC, UTIL, LOAD = ("gw_eccentricity/eccDefinition.py", "gw_eccentricity/utils.py",
                   "gw_eccentricity/load_data.py")


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, edits, demo, needs, breaks))


# --- command line -----------------------------------------------------------
bug("c01-isin", "C01", [(CLI,
    "    selected_posterior = posterior.loc[samples]\n",
    "    selected_posterior = posterior[posterior.index.isin(samples)]\n")],
"""
with scratch() as d:
    job(posterior(6), d, ["--samples", "4,1,3"], generator=simple)
    t = pd.read_csv(d + "/eccentricity_results.csv")
    done(list(t["sample_index"]) == [4, 1, 3], list(t["sample_index"]))
""", "a sample selection which is not in the order of the posterior",
"rows come in posterior order instead of the requested order")

bug("c01-round", "C01", [(CLI,
    "    combined = selected_posterior.copy()\n",
    "    # keep the file small\n    combined = selected_posterior.round(12)\n")],
"""
with scratch() as d:
    p = posterior(4, strain=np.array([1.2345e-22, 2e-23, 3e-22, 4e-22]))
    job(p, d, ["--output-format", "parquet"], generator=simple)
    t = pd.read_parquet(d + "/eccentricity_results.parquet")
    done(list(t["strain"]) == list(p["strain"]), list(t["strain"]))
""", "a posterior column with values smaller than 1e-12, such as a strain amplitude",
"posterior parameter columns in the results file are changed")

bug("c02-repeat", "C02", [(CORE,
    "    data_dict = data_dict_generator(\n        params, extra_kwargs)\n",
    """    # Neighbouring samples of a chain are often the same point: generating its
    # waveform once is enough.
    last = getattr(get_data_dict, "_last", None)
    if (last is not None and last[1] is data_dict_generator and last[2] == extra_kwargs
            and last[0].keys() == params.keys()
            and all(_same(last[0][k], v) for k, v in params.items())):
        data_dict = last[3]
    else:
        data_dict = data_dict_generator(
            params, extra_kwargs)
        get_data_dict._last = (params, data_dict_generator, extra_kwargs, data_dict)
"""), (CORE, "def get_data_dict(\n", '''def _same(a, b):
    """Compare two parameter values."""
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))
    return a == b


def get_data_dict(
''')],
"""
with scratch() as d:
    p = posterior(4)
    p["ecc"] = [0.2, 3.2e-10, 1.5e-9, 0.1]
    p["k"] = 1.0
    p["mass"] = 30.0
    job(p, d, generator=lambda q, x: {"e": q["ecc"], "l": 0.5})
    t = pd.read_csv(d + "/eccentricity_results.csv")
    done(list(t["egw"]) == list(p["ecc"]), list(t["egw"]))
""", "two neighbouring samples whose parameters differ by less than 1e-8",
"a sample gets the values of the sample that the same rank measured before it")

bug("c02-tag", "C02", [(CLI,
    "    results = []\n    for sample_index, params in zip(sample_indices, params_list):\n        res = run_postprocess(sample_index, params, config)\n        results.append(res)\n    return results\n",
    """    # Samples of a posterior often repeat: measure each distinct one once.
    results, seen = [], {}
    for sample_index, params in zip(sample_indices, params_list):
        key = tuple(f"{v:.6g}" if isinstance(v, float) else v for v in params.values())
        if key not in seen:
            seen[key] = run_postprocess(sample_index, params, config)
        first = seen[key]
        results.append(PostProcessResult(
            sample_index, first.status, first.egw, first.lgw, first.error_message))
    return results
""")],
"""
with scratch() as d:
    p = posterior(6)
    p["k"] = 1.0 + np.arange(6) * 1e-9
    p["mass"] = 30.0
    gen = lambda q, x: {"e": 1e-3 * (q["k"] - 1) * 1e9, "l": 0.5}
    job(p, d + "/a", n=2, generator=gen)
    job(p, d + "/b", n=1, generator=gen)
    a = pd.read_csv(d + "/a/eccentricity_results.csv")["egw"]
    b = pd.read_csv(d + "/b/eccentricity_results.csv")["egw"]
    done(list(a) == list(b), (list(a), list(b)))
""", "several ranks, and two samples of one batch that agree to six digits in every parameter",
"the second of the two samples gets the values of the first, depending on batching")

bug("c03-stop-idle", "C03", [(CLI,
    "        if size > 1:\n            for worker_rank in range(1, size):\n                comm.send(_STOP, dest=worker_rank)\n        return\n",
    "        if size > 1:\n            for worker_rank in range(1, min(size, n + 1)):\n                comm.send(_STOP, dest=worker_rank)\n        return\n")],
"""
with scratch() as d:
    args = ["--save-every", "1", "--samples", "0:2"]
    job(posterior(4), d, args, n=1, generator=simple)
    job(posterior(4), d, args, n=5, generator=simple, hang=4)
    done(job.world.dead is None, job.world.dead)
""", "restarting an already finished job with more workers than samples",
"workers without a sample are never told to stop: the job hangs")

bug("c03-sysexit", "C03", [(CLI,
    "        results = run_postprocess_batch(sample_indices, params_list, config)\n",
    """        try:
            results = run_postprocess_batch(sample_indices, params_list, config)
        except SystemExit:
            logger.exception("Rank %d: the data_dict generator wants to quit.", rank)
            break
""")],
"""
def gen(q, x):
    if q["k"] == 2:
        sys.exit(3)
    return simple(q, x)
with scratch() as d:
    job(posterior(6), d, ["--batch-size", "1"], n=3, generator=gen, hang=4)
    done(job.world.dead == "abort", job.world.dead)
""", "a generator which calls sys.exit() on a worker rank",
"the worker leaves quietly and rank 0 waits for its results for ever")

bug("c04-resume-count", "C04", [(CLI,
    "        (i, idx, params) for i, (idx, params) in enumerate(zip(row_indices, param_list))\n        if idx not in processed_indices\n    ]\n",
    "        (i, idx, params) for i, (idx, params) in enumerate(zip(row_indices, param_list))\n    ][len(processed_indices.intersection(row_indices)):]\n")],
"""
import time
def gen(q, x):
    if q["k"] == 0:
        time.sleep(1.0)
    if q["k"] == 4 and first[0]:
        time.sleep(0.3)
        raise Dead("killed")
    return simple(q, x)
with scratch() as d:
    args = ["--batch-size", "1", "--save-every", "1"]
    first = [True]
    job(posterior(6), d, args, n=3, generator=gen)
    first = [False]
    job(posterior(6), d, args, n=1, generator=gen)
    t = pd.read_csv(d + "/eccentricity_results.csv")
    done(t["status"].tolist() == ["success"] * 6, t["status"].tolist())
""", "a crash of a job with several workers of which a later one finished first, then a restart",
"the restart measures the wrong samples, and the results table has rows without a result")

bug("c04-use-tmp", "C04", [(CLI,
    "    if not Path(checkpoint_path).exists():\n        return None\n",
    """    if not Path(checkpoint_path).exists():
        # the previous run may have been interrupted just before it could give
        # the checkpoint its final name
        checkpoint_path += ".tmp"
        if not Path(checkpoint_path).exists():
            return None
""")],
"""
with scratch() as d:
    job(posterior(4), d + "/a", ["--save-every", "2"], generator=simple)
    whole = open(d + "/a/checkpoint.parquet", "rb").read()
    ok = True
    os.makedirs(d + "/b")
    with open(d + "/b/checkpoint.parquet.tmp", "wb") as f:   # killed while writing it
        f.write(whole[:len(whole) // 2])
    ends = job(posterior(4), d + "/b", ["--save-every", "2"], generator=simple)
    done(ends == [None], ends)
""", "a kill in the middle of writing the very first checkpoint, then a restart",
"the restart reads the torn temporary file and fails")

bug("c05-fail-count", "C05", [(CLI,
    "            results[pos] = res\n            samples_since_checkpoint += 1\n            completed += 1\n",
    "            results[pos] = res\n            samples_since_checkpoint += res.status == \"success\"\n            completed += 1\n")],
"""
def gen(q, x):
    if 1 <= q["k"] <= 6:
        raise ValueError("no waveform here")
    if q["k"] == 7:
        raise Dead("killed")
    return simple(q, x)
with scratch() as d:
    job(posterior(9), d, ["--batch-size", "1", "--save-every", "2"], n=2, generator=gen)
    t = pd.read_parquet(d + "/checkpoint.parquet") if os.path.exists(d + "/checkpoint.parquet") else []
    done(len(t) >= 6, len(t))
""", "several ranks, a run of failing samples, and a crash before the next successful one",
"failed samples do not count towards the checkpoint interval and are lost in a crash")

bug("c05-prefix", "C05", [(CLI,
    "    results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()\n    checkpoint_path",
    "    # everything up to the first sample which is still being measured\n    n_done = next((i for i, r in enumerate(results) if r is None), len(results))\n    results_df = PostProcessResults(results[:n_done]).to_dataframe()\n    checkpoint_path")],
"""
import time
def gen(q, x):
    if q["k"] == 0:
        time.sleep(1.0)
    if q["k"] == 7:
        raise Dead("killed")
    return simple(q, x)
with scratch() as d:
    job(posterior(9), d, ["--batch-size", "1", "--save-every", "1"], n=3, generator=gen)
    t = pd.read_parquet(d + "/checkpoint.parquet") if os.path.exists(d + "/checkpoint.parquet") else []
    done(len(t) >= 4, len(t))
""", "a slow worker holding an early sample while others finish later ones, then a crash",
"results after the first unfinished sample are not checkpointed and are measured again")

bug("c06-larger", "C06", [(CLI,
    "    processed_indices = set()\n    if checkpoint_df is not None:\n",
    """    processed_indices = set()
    if checkpoint_df is not None and len(checkpoint_df) > n:
        logger.warning("Ignoring checkpoint with more rows than samples: %s", checkpoint_path)
        checkpoint_df = None
    if checkpoint_df is not None:
""")],
"""
calls = []
def gen(q, x):
    calls.append(q["k"])
    return simple(q, x)
with scratch() as d:
    args = ["--save-every", "2"]
    job(posterior(6), d, args, generator=gen)
    job(posterior(6), d, args + ["--samples", "0:3"], generator=gen)
    job(posterior(6), d, args, generator=gen)
    done(len(calls) == 6, calls)
""", "a run that selects fewer samples than an earlier run of the same job finished",
"finished samples are measured again, and the results of the others are lost")

bug("c06-cleanup", "C06", [(CLI,
    "    logger.info(\"Final results saved: %s\", path)\n",
    """    logger.info("Final results saved: %s", path)
    # the checkpoint has served its purpose
    Path(f"{config['output_dir']}/checkpoint.parquet").unlink(missing_ok=True)
""")],
"""
calls = []
def gen(q, x):
    calls.append(q["k"])
    return simple(q, x)
with scratch() as d:
    args = ["--save-every", "2"]
    job(posterior(6), d, args + ["--samples", "0:3"], generator=gen)
    job(posterior(6), d, args, generator=gen)
    done(len(calls) == 6, calls)
""", "a finished run, then a run in the same directory that selects more samples",
"samples finished in the earlier run are measured again")

bug("c07-stream", "C07", [(CLI,
    "    write_df(combined, path, config[\"output_format\"])\n    logger.info(\"Final",
    """    if config["output_format"] == "csv":
        # rows can be written as they come, without a second copy of the file
        combined.to_csv(path, index=False, chunksize=1000)
    else:
        write_df(combined, path, config["output_format"])
    logger.info("Final""")],
"""
with scratch() as d:
    p = posterior(4)
    job(p, d, generator=simple)
    before = open(d + "/eccentricity_results.csv").read()
    class Bad:
        def __str__(self):
            raise OSError(28, "No space left on device")
    real = pd.DataFrame.to_csv
    def torn(self, path=None, **kw):
        real(self.iloc[:2], path, **kw)
        raise OSError(28, "No space left on device")
    pd.DataFrame.to_csv = torn
    ends = job(p, d, generator=simple)
    after = open(d + "/eccentricity_results.csv").read()
    done(after == before and ends[0] is not None, ends)
""", "a kill or a full disk while the final csv table is being written",
"a truncated table is left under the final name")

bug("c08-lenient", "C08", [(CLI,
    "    return pd.read_parquet(checkpoint_path)\n",
    """    try:
        return pd.read_parquet(checkpoint_path)
    except OSError as exc:
        logger.warning("Ignoring unreadable checkpoint %s: %s", checkpoint_path, exc)
        return None
""")],
"""
calls = []
def gen(q, x):
    calls.append(q["k"])
    return simple(q, x)
with scratch() as d:
    args = ["--save-every", "1"]
    job(posterior(5), d, args + ["--samples", "0:4"], generator=gen)
    real = pd.read_parquet
    def bad(*a, **k):
        raise OSError(5, "Input/output error")
    pd.read_parquet = bad
    job(posterior(5), d, args + ["--samples", "4:5"], generator=gen)
    pd.read_parquet = real
    job(posterior(5), d, args, generator=gen)
    done(len(calls) == 5 or calls.count(0.0) == 1, calls)
""", "a read error on the checkpoint when a job is restarted",
"the checkpoint is overwritten by the results of this run only: earlier progress is lost")

bug("c08-enospc", "C08", [(CLI,
    "    write_df(combined, path, config[\"output_format\"])\n    logger.info(\"Final",
    """    try:
        write_df(combined, path, config["output_format"])
    except OSError as exc:
        if exc.errno != 28:  # ENOSPC
            raise
        logger.error("Disk full. Results remain in the checkpoint. "
                     "Run again once there is space.")
        return
    logger.info("Final""")],
"""
with scratch() as d:
    def full(self, *a, **k):
        raise OSError(28, "No space left on device")
    pd.DataFrame.to_csv = full
    ends = job(posterior(4), d, generator=simple)
    done(ends[0] is not None, ends)
""", "a disk which becomes full while the final table is written",
"the job reports success without a results file")

bug("c09-giveup", "C09", [(CLI,
    "        res = run_postprocess(sample_index, params, config)\n        results.append(res)\n    return results\n",
    """        if len(results) >= 3 and all(r.status == "fail" for r in results[-3:]):
            # the generator does not work for this part of the posterior
            res = PostProcessResult(sample_index, "fail", None, None, results[-1].error_message)
        else:
            res = run_postprocess(sample_index, params, config)
        results.append(res)
    return results
""")],
"""
def gen(q, x):
    if 1 <= q["k"] <= 3:
        raise ValueError("no waveform here")
    return simple(q, x)
with scratch() as d:
    job(posterior(7), d, n=2, generator=gen)
    t = pd.read_csv(d + "/eccentricity_results.csv")
    done((t["status"] == "success").sum() == 4, t["status"].tolist())
""", "three failing samples in a row in one batch",
"good samples after them in the batch are reported as failed without being measured")

bug("c09-narrow", "C09", [(CORE,
    "            egw=res[\"eccentricity\"],\n            lgw=res[\"mean_anomaly\"]\n        )\n    except Exception as e:\n        logger.warning(f\" Sample {params} failed: {e}\")",
    "            egw=res[\"eccentricity\"],\n            lgw=res[\"mean_anomaly\"]\n        )\n    except Exception as e:\n        if isinstance(e, (MemoryError, AssertionError)):\n            raise  # not the fault of the sample\n        logger.warning(f\" Sample {params} failed: {e}\")")],
"""
def gen(q, x):
    if q["k"] == 2:
        raise MemoryError("waveform too long")
    return simple(q, x)
with scratch() as d:
    ends = job(posterior(5), d, generator=gen)
    done(ends == [None], ends)
""", "a sample whose waveform generation fails with MemoryError or AssertionError",
"one failing sample ends the whole job")

# --- Python API -------------------------------------------------------------
API = """
import gw_eccentricity.gw_eccentricity as g
core = load_core(measure)
import gw_eccentricity.postprocess.postprocess as P
class PP(P.PostProcess):
    df = posterior(8)
    def get_posterior(self, parameter_columns=None):
        return self.df
"""
bug("c10-unordered", "C10", [(POST,
    "        results_list = Parallel(\n            n_jobs=n_jobs, pre_dispatch=\"2*n_jobs\")(\n",
    "        results_list = Parallel(\n            n_jobs=n_jobs, pre_dispatch=\"2*n_jobs\", return_as=\"generator_unordered\")(\n"),
    (POST, "        self.postprocess_result = PostProcessResults(results_list)\n",
     "        self.postprocess_result = PostProcessResults(\n            [result for result in results_list if result is not None])\n")],
API + """
import time
def gen(q, x):
    time.sleep(0.5 if q["k"] == 0 else 0.0)
    return simple(q, x)
import joblib
with joblib.parallel_config(backend="threading"):
    r = PP("f", gen).postprocess(fref=20.0, n_jobs=3)
got = [x.sample_index for x in r.results]
done(got == list(range(8)), got)
""", "parallel jobs that complete in another order than they were started",
"results come in completion order, no longer matching the requested samples")

bug("c10-early", "C10", [(POST,
    "        results_list = Parallel(\n            n_jobs=n_jobs, pre_dispatch=\"2*n_jobs\")(\n",
    "        # drop the result of an earlier call, which can be large\n        self.postprocess_result = None\n        results_list = Parallel(\n            n_jobs=n_jobs, pre_dispatch=\"2*n_jobs\")(\n")],
API + """
def gen(q, x):
    if bad[0] and q["k"] == 5:
        raise KeyboardInterrupt
    return simple(q, x)
bad = [False]
pp = PP("f", gen)
first = pp.postprocess(fref=20.0, n_jobs=1)
bad[0] = True
try:
    pp.postprocess(fref=20.0, n_jobs=1)
except BaseException:
    pass
done(pp.postprocess_result is first, pp.postprocess_result)
""", "a second call which fails as a whole or is interrupted",
"the result stored by the first call is gone")

bug("c10-iloc", "C10", [(POST,
    "        param_list = self.posterior.loc[samples].to_dict(orient=\"records\")\n        data_dict_generator = self",
    "        param_list = self.posterior.iloc[samples].to_dict(orient=\"records\")\n        data_dict_generator = self")],
API + """
PP.df = posterior(8).iloc[::-1]
r = PP("f", simple).postprocess(fref=20.0, samples=[1, 6], n_jobs=1)
got = [x.egw for x in r.results]
done(np.allclose(got, [0.011, 0.061]), got)
""", "a posterior whose index is not 0, 1, 2, ... in order (thinned, sorted or filtered)",
"each result belongs to another sample than the index it carries")

bug("c10-kwargs", "C10", [(CORE,
    "    if gw_eccentricity_kwargs is None:\n        gw_eccentricity_kwargs = {}\n    try:\n        data_dict = get_data_dict(params, data_dict_generator, data_dict_generator_extra_kwargs)\n",
    """    if gw_eccentricity_kwargs is None:
        gw_eccentricity_kwargs = {}
    # the bounds are wanted for the entire waveform
    if gw_eccentricity_kwargs.get("extra_kwargs"):
        gw_eccentricity_kwargs["extra_kwargs"]["use_only_these_many_orbits"] = None
    try:
        data_dict = get_data_dict(params, data_dict_generator, data_dict_generator_extra_kwargs)
""")],
API + """
seen = []
class Obj:
    def get_fref_bounds(self):
        return [1.0, 2.0]
def measure2(dataDict, tref_in=None, fref_in=None, method="A", extra_kwargs=None, **kw):
    seen.append((extra_kwargs or {}).get("use_only_these_many_orbits"))
    return {"eccentricity": 0.1, "mean_anomaly": 0.2, "gwecc_object": Obj()}
load_core(measure2)
pp = PP("f", lambda q, x: {"t": np.arange(3.0)})
kw = {"extra_kwargs": {"use_only_these_many_orbits": 8}}
pp.postprocess(fref=20.0, samples=[1], gw_eccentricity_kwargs=kw, n_jobs=1)
pp.get_fref_bounds(samples=[1], gw_eccentricity_kwargs=kw, n_jobs=1)
pp.postprocess(fref=20.0, samples=[1], gw_eccentricity_kwargs=kw, n_jobs=1)
done(seen[0] == seen[-1] == 8, seen)
""", "get_fref_bounds and then postprocess with the same options dictionary in one process",
"the user's options are changed, and later results are measured with other settings")

bug("c11-dup", "C11", [(POST,
    "        return FrefBoundsResults(results=results)",
    "        # one entry per sample\n        results = list({res.sample_index: res for res in results}.values())\n        return FrefBoundsResults(results=results)")],
API + """
class Obj:
    def get_fref_bounds(self):
        return [1.0, 2.0]
load_core(lambda **k: {"eccentricity": 0.1, "mean_anomaly": 0.2, "gwecc_object": Obj()})
r = PP("f", lambda q, x: {"t": np.arange(3.0)}).get_fref_bounds(samples=[3, 1, 3], n_jobs=1)
got = [x.sample_index for x in r.results]
done(got == [3, 1, 3], got)
""", "a sample requested twice", "the frequency bounds have fewer entries than requested samples")

bug("c11-zero", "C11", [(CORE,
    "            'egw': [r.egw for r in successful],\n            'lgw': [r.lgw for r in successful]\n",
    "            'egw': [r.egw for r in successful if r.egw],\n            'lgw': [r.lgw for r in successful if r.egw]\n")],
API + """
def gen(q, x):
    return {"e": 0.0 if q["k"] == 3 else 0.1, "l": 0.2}
pp = PP("f", gen)
pp.postprocess(fref=20.0, n_jobs=1)
s = pp.postprocess_summary()
done(len(s["egw"]) == 8, s)
""", "a sample with eccentricity exactly zero (return_zero_if_small_ecc_failure)",
"summaries and extracted posteriors silently leave circular samples out")

# --- measurement ------------------------------------------------------------
MEAS = """
from gw_eccentricity import measure_eccentricity
"""
bug("c12-buffer", "C12", [(UTIL,
    "    res = 0*y\n    # First do the interior\n",
    """    # reuse the work array: modes of one waveform all have the same length
    key = (len(y), y.dtype.str)
    res = _work_arrays.get(key)
    if res is None:
        _work_arrays.clear()
        res = _work_arrays[key] = 0*y
    # First do the interior
"""), (UTIL, "def time_deriv_4thOrder(y, dt):\n",
       "_work_arrays = {}\n\n\ndef time_deriv_4thOrder(y, dt):\n")],
"""
import threading
from gw_eccentricity.utils import time_deriv_4thOrder
sys.setswitchinterval(1e-6)
t = np.linspace(0, 1, 200000)
want = [time_deriv_4thOrder(np.sin((k + 1) * t), t[1]) for k in range(4)]
bad = []
def go(k):
    y = np.sin((k + 1) * t)
    for _ in range(150):
        if not np.array_equal(time_deriv_4thOrder(y, t[1]), want[k]):
            bad.append(k)
ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
[x.start() for x in ts]; [x.join() for x in ts]
done(not bad, f"{len(bad)} wrong derivatives")
""", "two threads computing the frequency of waveforms of the same length at the same time",
"one measurement gets frequencies mixed with those of another")

bug("c13-cached-average", "C13", [(ECC,
    "        if method is None:\n            method = self.extra_kwargs[\"omega_gw_averaging_method\"]\n        if method != \"orbit_averaged_omega_gw\":\n",
    "        if self.omega_gw_average is not None:\n            # already computed\n            return self.t_for_omega_gw_average, self.omega_gw_average\n        if method is None:\n            method = self.extra_kwargs[\"omega_gw_averaging_method\"]\n        if method != \"orbit_averaged_omega_gw\":\n")],
MEAS + """
t, h = inspiral()
d = {"t": t, "hlm": {(2, 2): h}}
def new():
    return measure_eccentricity(tref_in=t, dataDict=d, method="Amplitude")["gwecc_object"]
a = new().get_omega_gw_average("mean_of_extrema_interpolants")
o = new()
o.get_fref_bounds("orbit_averaged_omega_gw")
b = o.get_omega_gw_average("mean_of_extrema_interpolants")
done(len(a[0]) == len(b[0]) and np.array_equal(a[1], b[1]), (len(a[0]), len(b[0])))
""", "asking for the average frequency of one method after the bounds of another",
"get_omega_gw_average returns the average of another method")

bug("c13-half", "C13", [(ECC,
    """        self.orbit_averaged_omega_gw_pericenters \\
            = self.get_orbit_averaged_omega_gw_between_pericenters()
        self.orbit_averaged_omega_gw_apocenters \\
            = self.get_orbit_averaged_omega_gw_between_apocenters()
""",
    """        if getattr(self, "orbit_averaged_omega_gw_pericenters", None) is None:
            self.orbit_averaged_omega_gw_pericenters \\
                = self.get_orbit_averaged_omega_gw_between_pericenters()
            self.orbit_averaged_omega_gw_apocenters \\
                = self.get_orbit_averaged_omega_gw_between_apocenters()
""")],
MEAS + """
t, h = inspiral()
o = measure_eccentricity(tref_in=t, dataDict={"t": t, "hlm": {(2, 2): h}}, method="Amplitude")["gwecc_object"]
cls = type(o)
real = cls.get_orbit_averaged_omega_gw_between_apocenters
def stop(self):
    cls.get_orbit_averaged_omega_gw_between_apocenters = real
    raise KeyboardInterrupt
cls.get_orbit_averaged_omega_gw_between_apocenters = stop
try:
    o.get_omega_gw_average("orbit_averaged_omega_gw")
except KeyboardInterrupt:
    pass
cls.get_orbit_averaged_omega_gw_between_apocenters = real
try:
    done(len(o.get_omega_gw_average("orbit_averaged_omega_gw")) == 2)
except Exception as e:
    done(False, repr(e))
""", "an interrupt (Ctrl-C, alarm) at one point of the first query of the average frequency",
"the repeated query fails for ever: half of the lazily computed data is missing")

bug("c16-shallow", "C16", [(ECC,
    "            deepcopy(extra_kwargs), self.get_default_extra_kwargs(),\n",
    "            dict(extra_kwargs or {}), self.get_default_extra_kwargs(),\n")],
MEAS + """
kw = {"extrema_finding_kwargs": {"prominence": 1e-6}}
t, h = inspiral()
measure_eccentricity(tref_in=t, dataDict={"t": t, "hlm": {(2, 2): h}}, method="Amplitude", extra_kwargs=kw)
done(kw == {"extrema_finding_kwargs": {"prominence": 1e-6}}, kw)
""", "options with a nested dictionary, reused for another waveform",
"the width chosen for the first waveform is written into the user's options and used for the next")

bug("c16-shift", "C16", [(ECC,
    "        self.t_zeroecc_shifted = (self.t_zeroecc\n                                  - self.t_merger_zeroecc\n                                  + self.t_merger)\n",
    "        self.t_zeroecc_shifted = self.t_zeroecc\n        self.t_zeroecc_shifted += self.t_merger - self.t_merger_zeroecc\n")],
MEAS + """
t, h = inspiral()
tz, hz = inspiral(T=4200.0, n=4201, zero=True, t0=55.0)
keep = tz.copy()
measure_eccentricity(tref_in=t, dataDict={"t": t, "hlm": {(2, 2): h}, "t_zeroecc": tz, "hlm_zeroecc": {(2, 2): hz}}, method="ResidualAmplitude")
done(np.array_equal(tz, keep), float(np.max(np.abs(tz - keep))))
""", "a zero eccentricity waveform whose merger is at another time than that of the eccentric one",
"the caller's t_zeroecc array is shifted in place")

# --- debug output and process state ------------------------------------------
FITS, RAT = "gw_eccentricity/eccDefinitionUsingFrequencyFits.py", "gw_eccentricity/rational_fit.py"
bug("c24-pages", "C24", [(FITS,
    """        if pp:
            pp.close()

        if sign > 0:
""",
    """        if sign > 0:
            if pp:
                pp.close()
""")],
MEAS + """
import contextlib, gc
t, h = inspiral()
with scratch() as d:
    os.chdir(d)
    with contextlib.redirect_stdout(None):
        r = measure_eccentricity(tref_in=-1500.0, dataDict={"t": t, "hlm": {(2, 2): h}}, method="FrequencyFits",
                                 extra_kwargs={"debug_plots": True})
    bad = [f for f in sorted(os.listdir(".")) if f.endswith(".pdf") and b"%%EOF" not in open(f, "rb").read()[-10:]]
    os.chdir("/")
    done(not bad, bad)
""", "debug_plots with one of the two Fits methods", "the figures of the apocenter search stay open and cut short")

bug("c24-view", "C24", [(ECC,
    """            t_for_debug = np.copy(self.t)
            amp_for_debug = np.copy(self.amp_gw)
            omega_for_debug = np.copy(self.omega_gw)
""",
    """            t_for_debug, amp_for_debug, omega_for_debug \\
                = self.t, self.amp_gw, self.omega_gw
"""), (ECC,
    """        # plot full waveform
        axes[0].plot(t_for_debug, amp_for_debug, label="Full waveform")
""",
    """        # plot full waveform, without the ringdown that would set the scale
        np.minimum(omega_for_debug, omega_for_debug[self.segment_end_index],
                   out=omega_for_debug)
        axes[0].plot(t_for_debug, amp_for_debug, label="Full waveform")
""")],
MEAS + """
import contextlib
t, h = inspiral()
with scratch() as d:
    os.chdir(d)
    def run(f, **kw):
        with contextlib.redirect_stdout(None):
            return measure_eccentricity(fref_in=f, dataDict={"t": t, "hlm": {(2, 2): h}}, method="Amplitude",
                                        extra_kwargs={"use_only_these_many_orbits": 10, **kw})
    pairs = [(run(f)["eccentricity"], run(f, debug_plots=True)["eccentricity"]) for f in (0.0092, 0.0095, 0.0098, 0.0101, 0.0104)]
    os.chdir("/")
    done(all(abs(a - b) < 1e-9 for a, b in pairs), pairs)
""", "debug_plots together with use_only_these_many_orbits", "the plotting function clips the frequency that is then measured")

bug("c25-svd", "C25", [(RAT,
    """    _, s, VH = np.linalg.svd(A, full_matrices=False)
    with np.errstate(divide='ignore'):
        cond = s[0] / s[-1]
""",
    """    old = np.seterr(divide='ignore')
    _, s, VH = np.linalg.svd(A, full_matrices=False)
    cond = s[0] / s[-1]
    np.seterr(**old)
""")],
"""
from gw_eccentricity.rational_fit import RationalFit
before = np.geterr()
real = np.linalg.svd
def svd(*a, **k):
    raise np.linalg.LinAlgError("SVD did not converge")
np.linalg.svd = svd
try:
    x = np.linspace(0, 1, 30)
    RationalFit(x, 1 / (2 - x), degrees=(3, 3)).fit()
except Exception as e:
    print(repr(e))
np.linalg.svd = real
done(np.geterr() == before, np.geterr())
""", "a singular value decomposition that does not converge (or runs out of memory) in a rational fit",
"numpy stays silent about divisions by zero in the rest of the process")

bug("c25-lru", "C25", [(ECC,
    """        available_methods = {
            "mean_of_extrema_interpolants": self.compute_mean_of_extrema_interpolants,
""",
    """        return self._averaging_methods()

    @lru_cache(maxsize=None)
    def _averaging_methods(self):
        available_methods = {
            "mean_of_extrema_interpolants": self.compute_mean_of_extrema_interpolants,
"""), (ECC, "import numpy as np\n", "from functools import lru_cache\nimport numpy as np\n")],
MEAS + """
import gc, weakref
t, h = inspiral()
o = measure_eccentricity(tref_in=-1500.0, dataDict={"t": t, "hlm": {(2, 2): h}}, method="Amplitude")["gwecc_object"]
w = weakref.ref(o)
del o
gc.collect()
done(w() is None, "the measured object is still alive")
""", "many measurements in one process", "every measured object with its waveform is kept for ever: memory grows")

bug("c25-print", "C25", [(FITS,
    """                with np.printoptions(precision=2):
                    print(f"       idx_extrema=   {idx_extrema}, "
                          f"Nleft={Nleft},"
                          f" Nright={Nright}")
                    print(f"       t[idx_extrema]={t_extrema}")
""",
    """                np.set_printoptions(precision=2)
                print(f"       idx_extrema=   {idx_extrema}, "
                      f"Nleft={Nleft},"
                      f" Nright={Nright}")
                print(f"       t[idx_extrema]={t_extrema}")
                np.set_printoptions(precision=8)
""")],
MEAS + """
import contextlib
t, h = inspiral()
np.set_printoptions(precision=4)
with contextlib.redirect_stdout(None):
    try:
        measure_eccentricity(tref_in=-1500.0, dataDict={"t": t, "hlm": {(2, 2): h}}, method="FrequencyFits", debug_level=1,
                             extra_kwargs={"kwargs_for_fits_methods": {"verbose": True}})
    except Exception:
        measure_eccentricity(tref_in=-1500.0, dataDict={"t": t, "hlm": {(2, 2): h}}, method="FrequencyFits", debug_level=1)
done(np.get_printoptions()["precision"] == 4, np.get_printoptions()["precision"])
""", "a user who has set numpy's print precision, and debug_level=1 with a Fits method",
"the user's print precision is replaced")

# --- files ------------------------------------------------------------------
DL = """
import types, json
import gw_eccentricity.load_data as L
import sxs, sxs.utilities
FILES = {"Strain_N2.h5": b"strain" * 50, "Strain_N2.json": b"{}" * 30,
         "metadata.json": b"{ }" * 20, "Horizons.h5": b"horizons" * 40}
fail = {}
def entry():
    return {"files": {f"Lev3:{n}": {"link": "mem://" + n, "size": len(b)} for n, b in FILES.items()
                      if n not in missing}}
missing = set()
class Sims:
    @staticmethod
    def load(*a, **k):
        return {"SXS:BBH:1": entry()}
sxs.Simulations = Sims
L.sxs.Simulations = Sims
def download_file(url, path, progress=False, if_newer=True, **k):
    name = url[6:]
    data = FILES[name]
    if name in fail:
        with open(str(path) + ".part", "wb") as f:
            f.write(data[:len(data) // 2])
        raise OSError("connection lost")
    with open(path, "wb") as f:
        f.write(data)
sxs.utilities.download_file = download_file
def get(d):
    return L.download_sxs_waveform("SXS:BBH:1", 3, d)
def whole(p):
    return all(os.path.exists(os.path.join(p, n)) and open(os.path.join(p, n), "rb").read() == b
               for n, b in FILES.items())
"""
bug("c14-count", "C14", [(LOAD,
    "    os.makedirs(target_dir, exist_ok=True)\n\n    # Load the simulations catalogue to resolve file URLs.\n",
    "    os.makedirs(target_dir, exist_ok=True)\n    if len(os.listdir(target_dir)) >= 4:\n        return target_dir  # downloaded before, no need to fetch the catalogue\n\n    # Load the simulations catalogue to resolve file URLs.\n")],
DL + """
with scratch() as d:
    fail["Horizons.h5"] = 1
    try:
        get(d)
    except OSError:
        pass
    fail.clear()
    done(whole(get(d)), "files missing after a download that returned")
""", "a download interrupted in its last file, then another attempt",
"the partial file counts as the fourth file: the second attempt returns without Horizons.h5")

bug("c14-optional", "C14", [(LOAD,
    "    for filename in filenames:\n        dest = os.path.join(target_dir, filename)\n",
    "    for filename in filenames:\n        if f\"Lev{lev}:{filename}\" not in sim_files:\n            warnings.warn(f\"{filename} is not available for {sxs_id}.\")\n            continue\n        dest = os.path.join(target_dir, filename)\n")],
DL + """
with scratch() as d:
    missing.add("Horizons.h5")
    try:
        get(d)
        ok = False
    except Exception:
        ok = True
    done(ok, "returned although a required file could not be downloaded")
""", "a catalogue without an entry for one of the required files",
"the download returns a directory in which a required file is missing")

bug("c15-cache", "C15", [(LOAD,
    "def get_params_dict_from_sxs_metadata(metadata_path):\n",
    "@functools.lru_cache(maxsize=16)\ndef get_params_dict_from_sxs_metadata(metadata_path):\n"),
    (LOAD, "import warnings\n", "import functools\nimport warnings\n")],
"""
import json
import gw_eccentricity.load_data as L
def put(p, q):
    with open(p, "w") as f:
        json.dump({"reference_dimensionless_spin1": [0, 0, 0.1], "reference_dimensionless_spin2": [0, 0, 0],
                   "reference_mass1": q, "reference_mass2": 1.0, "relaxation_time": 100.0}, f)
with scratch() as d:
    p = d + "/metadata.json"
    put(p, 2.0)
    a = L.get_params_dict_from_sxs_metadata(p)
    put(p, 3.0)
    b = L.get_params_dict_from_sxs_metadata(p)
    done(b["q"] == 3.0, b)
""", "loading a waveform again after its metadata file was replaced",
"the parameters of the file's earlier content are returned")

bug("c15-horizons", "C15", [(LOAD,
    "    if horizon_file_exits:\n        t, modes_dict = remove_junk_from_sxs_catalogformat_using_horizons_data(\n            t, modes_dict, kwargs[\"num_orbits_to_remove_as_junk\"],\n            os.path.join(kwargs[\"data_dir\"], \"Horizons.h5\"))\n    else:\n",
    """    try:
        if not horizon_file_exits:
            raise OSError("no Horizons.h5")
        t, modes_dict = remove_junk_from_sxs_catalogformat_using_horizons_data(
            t, modes_dict, kwargs["num_orbits_to_remove_as_junk"],
            os.path.join(kwargs["data_dir"], "Horizons.h5"))
    except OSError:
        # use the phase of the (2, 2) mode
""")],
"""
import gw_eccentricity.load_data as L
t, h = inspiral()
h = np.exp(1j * 0) * h
with scratch() as d:
    with open(d + "/Horizons.h5", "wb") as f:
        f.write(b"damaged")
    kw = {"data_dir": d, "num_orbits_to_remove_as_junk": 2, "include_zero_ecc": False,
          "include_params_dict": False, "keep_memory": True}
    try:
        L.make_return_dict_for_sxs_catalog_format(t, {(2, 2): h}, True, **kw)
        ok = False
    except OSError:
        ok = True
    done(ok, "a waveform was returned although Horizons.h5 could not be read")
""", "a Horizons.h5 that exists but cannot be read",
"the junk radiation is removed using another estimate, shifting the waveform, instead of raising")


# --- later additions ----------------------------------------------------------
FILT, BILBY = "gw_eccentricity/spin_filter.py", PP + "postprocess_for_bilby.py"

bug("c11-disjoint", "C11", [(CORE,
    "        return max(summary['fref_min']), min(summary['fref_max'])\n",
    "        return tuple(sorted([max(summary['fref_min']), min(summary['fref_max'])]))\n")],
"""
from gw_eccentricity.postprocess import core
r = core.FrefBoundsResults([core.FrefBoundsResult(sample_index=i, status="success", fref_min=a, fref_max=b)
                            for i, (a, b) in enumerate([(10.0, 20.0), (25.0, 40.0)])])
try:
    got = r.get_minmax_fref()
except Exception:
    got = None
done(got is None or got[0] > got[1], got)
""", "samples whose frequency ranges have nothing in common",
"a range is returned in which no two samples can be measured")

PRECESSING = MEAS + """
def precessing(l0=0.0, w=0.035, a=0.1, e0=0.06, om0=0.046):
    t, h = inspiral(n=1000, T=3000.0, e0=e0, l0=l0, om0=om0)
    c, s = a * np.cos(w * t), 0.5 * a * np.sin(w * t)
    return {"t": t, "hlm": {(2, 2): h * (1 + c) * np.exp(-1j * s), (2, -2): np.conj(h) * (1 - c) * np.exp(-1j * s),
                            (2, 1): 0.02 * h, (2, -1): 0.02 * np.conj(h), (2, 0): 0.001 * np.abs(h) + 0j}}
def ecc(d, **kw):
    return measure_eccentricity(tref_in=-1500.0, dataDict=d, method="Amplitude", precessing=True, frame="coprecessing",
                                extra_kwargs={"filter_kwargs": kw})["eccentricity"]
"""
bug("c12-segments", "C12", [(FILT,
    "        results = []\n\n        iter = 0\n",
    "        results = _segments\n        results.clear()\n\n        iter = 0\n"), (FILT,
    "        self.filter_segment_results = results\n",
    "        self.filter_segment_results = list(results)\n"), (FILT,
    "def get_default_kwargs_for_filtering():\n",
    "_segments = []      # of the filter that runs\n\n\ndef get_default_kwargs_for_filtering():\n")],
PRECESSING + """
import threading
sys.setswitchinterval(1e-5)
data = [precessing(l0) for l0 in (0.0, 1.0, 2.0, 2.5)]
want = [ecc(d) for d in data]
bad = []
def go(k):
    for _ in range(4):
        try:
            got = ecc(data[k])
        except Exception as e:
            got = repr(e)
        if got != want[k]:
            bad.append((k, got, want[k]))
ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
for t in ts:
    t.start()
for t in ts:
    t.join()
done(not bad, bad[:3])
""", "two threads measuring precessing systems which need the spin filter at the same time",
"the segments of one waveform are combined into the filtered data of another")

bug("c24-filterplot", "C24", [(FILT,
    "        residual_filtered = filtered_data - secular_trend(self.t)\n",
    "        residual_filtered = np.subtract(\n            filtered_data, secular_trend(self.t), out=filtered_data)\n")],
PRECESSING + """
import contextlib
with scratch() as d:
    os.chdir(d)
    with contextlib.redirect_stdout(None):
        res = []
        for kw in ({}, {"debug_plots": True}):
            try:
                res.append(ecc(precessing(), alpha=8, **kw))
            except Exception as e:
                res.append(repr(e))
    os.chdir("/")
    done(res[0] == res[1], res)
""", "debug_plots of the spin filter for a precessing waveform which really needs the filter",
"plotting the filtered signal subtracts its trend from the data that is then measured")

bug("c26-histogram", "C26", [(POST,
    """        summary = self.postprocess_summary()
        return {"egw": summary["egw"],
                "lgw": summary["lgw"]}
""",
    """        # going through all samples takes a while: once is enough
        shown = getattr(self, "_shown", None)
        if shown is None or shown[0] != len(self.postprocess_result.results):
            summary = self.postprocess_summary()
            shown = self._shown = (len(self.postprocess_result.results), summary)
        return {"egw": shown[1]["egw"],
                "lgw": shown[1]["lgw"]}
""")],
API + """
val = {"e": 0.1}
def gen(q, x):
    return {"e": val["e"] + q["k"] / 1000, "l": 0.2}
pp = PP("f", gen)
pp.postprocess(fref=20.0, n_jobs=1)
a = pp.get_gw_eccentricity_posterior()["egw"]
val["e"] = 0.3
pp.postprocess(fref=25.0, n_jobs=1)
b = pp.get_gw_eccentricity_posterior()["egw"]
done(b[0] == 0.3, (a, b))
""", "the posterior is extracted or plotted, the object post-processes as many samples again, and it is extracted again",
"the values of the earlier post-processing are returned and plotted")

bug("c26-injection", "C26", [(BILBY,
    """            injection = pd.read_csv(self.injection_file, sep=" ").to_dict(orient="records")[0]
""",
    """            # read it again only if the file has changed
            stamp = os.stat(self.injection_file).st_size
            if getattr(self, "_injection", (None,))[0] != stamp:
                self._injection = (stamp, pd.read_csv(
                    self.injection_file, sep=" ").to_dict(orient="records")[0])
            injection = dict(self._injection[1])
"""), (BILBY, "import bilby\n", "import os\nimport bilby\n")],
"""
bilby = types.ModuleType("bilby")
bilby.result = types.SimpleNamespace(read_in_result=lambda *a, **k: types.SimpleNamespace(posterior=posterior(4)))
sys.modules["bilby"] = bilby
from gw_eccentricity.postprocess.postprocess_for_bilby import PostProcessForBilby
with scratch() as d:
    p = os.path.join(d, "injection.dat")
    def put(x):
        with open(p, "w") as f:
            f.write("k minimum_frequency\\n%s 20.0\\n" % x)
    put("1.25")
    pp = PostProcessForBilby("f", lambda q, x: {}, injection_file=p)
    a = pp.get_injection_params()
    put("3.75")
    b = pp.get_injection_params()
    done(a["k"] == 1.25 and b["k"] == 3.75, (a, b))
""", "the injection file is replaced by another one of the same size while the object lives",
"the injection of the earlier file is measured")

bug("c16-order", "C16", [(ECC,
    "            self.tref_in = np.atleast_1d(tref_in)\n",
    "            self.tref_in = np.atleast_1d(tref_in)\n            # the output is in order of time\n            self.tref_in.sort()\n")],
MEAS + """
t, h = inspiral()
ref = np.array([-1500.0, -1900.0, -1100.0])
measure_eccentricity(tref_in=ref, dataDict={"t": t, "hlm": {(2, 2): h}}, method="Amplitude")
done(list(ref) == [-1500.0, -1900.0, -1100.0], ref)
""", "an array of reference times that are in no particular order", "the caller's array is rearranged")


bug("c01-int32", "C01", [(CLI,
    "    results_df[\"sample_index\"] = results_df[\"sample_index\"].astype(int)\n",
    "    results_df[\"sample_index\"] = results_df[\"sample_index\"].astype(\"int32\")\n")],
"""
with scratch() as d:
    job(posterior(4, start=5_000_000_000), d, generator=simple)
    t = pd.read_csv(d + "/eccentricity_results.csv")
    done(list(t["status"]) == ["success"] * 4, list(t["status"]))
""", "sample labels that do not fit into 32 bits", "the outcome of every such sample is lost from the results file")

bug("c09-percent", "C09", [(CORE,
    "        logger.warning(f\" Sample {params} failed: {e}\")\n",
    "        logger.warning((f\" Sample failed: {e} (\" + \"%s)\") % params)\n")],
"""
def gen(q, x):
    if q["k"] == 2:
        raise ValueError("100% of the waveform is missing, see %s")
    return simple(q, x)
with scratch() as d:
    ends = job(posterior(5), d, generator=gen)
    done(ends == [None], ends)
""", "a failing sample whose error message contains a percent sign", "one failing sample ends the whole job")

bug("c13-kcopy", "C13", [(UTIL,
    """                # make a copy so that the original spline_kwargs remains
                # unmodified.
                kwargs = spline_kwargs.copy()
                kwargs["k"] = len(oldX) - 1
""",
    """                spline_kwargs["k"] = len(oldX) - 1
                kwargs = spline_kwargs
""")],
MEAS + """
import warnings
warnings.simplefilter("ignore")
t, h = inspiral()
def new():
    return measure_eccentricity(tref_in=-1500.0, dataDict={"t": t, "hlm": {(2, 2): h}}, method="Amplitude",
                                extra_kwargs={"use_only_these_many_orbits": 2, "omega_gw_extrema_interpolation_method": "spline"})["gwecc_object"]
o = new()
try:
    o.get_fref_bounds()
except Exception:
    pass
done(o.extra_kwargs["general_interp_kwargs"] == new().extra_kwargs["general_interp_kwargs"], o.extra_kwargs["general_interp_kwargs"])
""", "a measurement with so few orbits that the spline order has to be lowered for one of the curves",
"asking for the frequency bounds changes the options of the object, and with them its other answers")

bug("c26-draws", "C26", [(BILBY,
    "        posterior = self.posterior_result.posterior\n",
    "        posterior = self.posterior_result.posterior.drop_duplicates()\n")],
"""
bilby = types.ModuleType("bilby")
p = pd.concat([posterior(4), posterior(4).iloc[[1]]], ignore_index=True)
bilby.result = types.SimpleNamespace(read_in_result=lambda *a, **k: types.SimpleNamespace(posterior=p))
sys.modules["bilby"] = bilby
from gw_eccentricity.postprocess.postprocess_for_bilby import PostProcessForBilby
q = PostProcessForBilby("f", lambda q, x: {}).posterior
done(len(q) == 5, len(q))
""", "a posterior in which one point was drawn twice", "the sample is missing, and the weight of the point halved")


bug("c15-relax", "C15", [(LOAD,
    "        t_relax = data[\"relaxation_time\"]\n",
    "        t_relax = data.get(\"relaxation_time\") or 0.0\n")],
"""
import json
import gw_eccentricity.load_data as L
with scratch() as d:
    p = d + "/metadata.json"
    with open(p, "w") as f:
        json.dump({"reference_dimensionless_spin1": [0, 0, 0.1], "reference_dimensionless_spin2": [0, 0, 0],
                   "reference_mass1": 2.0, "reference_mass2": 1.0}, f)
    try:
        x = L.get_params_dict_from_sxs_metadata(p)
    except Exception:
        x = None
    done(x is None, x)
""", "a metadata file whose writer left the relaxation time out",
"a made-up relaxation time is returned, and the memory is integrated from there")


def main(only):
    base = "/tmp/plant_repo"
    shutil.rmtree(base, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", base], check=True)
    ids = set()
    for id, prop, edits, demo, needs, breaks in BUGS:
        assert id not in ids, id
        ids.add(id)
        if only and id not in only:
            continue
        for f, old, new in edits:
            p = os.path.join(base, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "-C", base, "diff"], capture_output=True, text=True, check=True).stdout
        subprocess.run(["git", "-C", base, "checkout", "-q", "--", "."], check=True)
        d = os.path.join(SEEDED, id)
        os.makedirs(d, exist_ok=True)
        w = lambda n, s: open(os.path.join(d, n), "w").write(s)
        w("patch.diff", patch)
        shutil.copy(os.path.join(HERE, "lib.py"), os.path.join(d, "lib.py"))
        w("demo.py", "from lib import *\n" + demo.lstrip("\n"))
        w("demo.sh", "#!/bin/bash\n# Run with the repository as working directory.\n"
          "export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n"
          "export OMPI_MCA_ess_singleton_isolated=1\n"
          "export PYTHONPATH=\"$PWD\"\n"
          "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        w("meta.json", json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])
