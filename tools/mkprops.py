import json
CLI="gw_eccentricity/postprocess/postprocess_cli.py"
CORE="gw_eccentricity/postprocess/core.py"
API="gw_eccentricity/postprocess/postprocess.py"
BIL="gw_eccentricity/postprocess/postprocess_for_bilby.py"
ECC="gw_eccentricity/eccDefinition.py"
GW="gw_eccentricity/gw_eccentricity.py"
LD="gw_eccentricity/load_data.py"
UT="gw_eccentricity/utils.py"
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

NOT="The test suite never imports the postprocess package: no test runs the command line tool at all, let alone "
p("C01","Command-line job writes exactly one row per requested sample, in order",
 "When a command-line post-processing job finishes successfully, its results file holds exactly one row for every requested posterior sample, in the requested order, each carrying that sample's index and its unchanged posterior parameter columns. Nothing is lost, duplicated, reordered or attributed to another sample, whatever the number of MPI ranks, the batch size, the sample selection, the output format (csv, json, parquet), and the order in which ranks run and messages arrive.",
 ["schedules","configurations","inputs"],
 "All interleavings of master and workers, message delays and reorderings across workers, eager or rendezvous sends, stalled ranks; all rank counts, batch sizes, selections (all, single, list, range, repeated or shuffled indices, empty), posterior index labels and formats.",
 NOT+"several ranks with reordered completions; which worker returns which batch when is decided by MPI and the machine.",
 [CLI],[("positional results array, index-to-position map","postprocess_cli.master"),("merge onto the selected posterior","postprocess_cli.save_final"),("batch dispatch and refill","postprocess_cli.master stage 4B")],
 ["eccentricity_results.{csv,json,parquet} in the output directory"],
 [("results","one slot per selected row, filled as batches return","master")])
p("C02","Parallel job values equal measuring each sample alone",
 "Every value the command-line job records for a sample (status, eccentricity, mean anomaly) is the value obtained by measuring that sample's waveform on its own with the same settings. The result does not depend on the number of ranks, on how samples are batched, on which rank measured the sample, or on what that rank measured before it.",
 ["schedules","configurations","histories"],
 "All assignments of samples to ranks and orders of measurement; all rank counts and batch sizes; reference frequency or reference time; all measurement methods.",
 NOT+"compare two different assignments of samples to workers; within the tests each measurement is made once, in one order.",
 [CLI,CORE,GW,ECC],[("sample evaluation","core.postprocess_sample"),("batch loop","postprocess_cli.run_postprocess_batch"),("settings passed through","postprocess_cli.run_postprocess")],
 ["status, egw and lgw columns of the results file"])
p("C03","Every job terminates on every rank; fatal errors end the whole job",
 "A command-line job always terminates on all ranks: it finishes on every schedule, including when there are more workers than work, nothing left to do, or slow or stalled workers. If any rank hits an error it cannot recover from (bad options, unreadable posterior, an index outside the posterior, a generator that cannot be loaded, a disk error, an exception that is not a per-sample failure), the whole job ends with a failure status instead of leaving other ranks waiting for ever.",
 ["schedules","configurations","fault_sequences"],
 "All schedules, rank counts, batch sizes and remaining work; every rank and every point at which one rank can fail; blocking or buffered sends.",
 NOT+"a failing rank next to waiting ones; a hang depends on which ranks are blocked in receive when another one stops.",
 [CLI],[("stop messages to idle and finished workers","postprocess_cli.master"),("receive loop","postprocess_cli.worker"),("entry point","postprocess_cli.main")],
 ["process exit of every rank, MPI_Abort"])
p("C04","A crash at any point never blocks or corrupts a restart",
 "If a job with checkpointing is killed, or the machine loses power, at any instant (including in the middle of writing a checkpoint), running the same command again with any number of ranks succeeds. The results it then writes are exactly those of an uninterrupted run: no row is torn, invented, stale or attributed to the wrong sample.",
 ["crash_points","histories","schedules"],
 "Every system call of every checkpoint and results write as the crash point (before, inside and after it), every message and measurement as the crash point, repeated crashes, kill and power-loss semantics.",
 NOT+"kill it inside a file write; the window is microseconds wide.",
 [CLI],[("checkpoint write","postprocess_cli.save_checkpoint"),("checkpoint replay","postprocess_cli.load_checkpoint, master stages 1 and 3")],
 ["exit status and results file of the restarted job"],
 [("checkpoint.parquet","durable record of finished samples","output directory")])
p("C05","Checkpointed work survives crashes: bounded loss, no re-measuring",
 "With checkpointing every N results, a crash costs at most the N most recent results plus the batch being recorded: every other result the job had collected survives and is not measured again by later runs of the same command. Progress never goes backwards over any sequence of crashes and restarts, and samples recorded as failed are not retried.",
 ["crash_points","histories","schedules"],
 "Every crash point, any number of crash/restart rounds, every N, batch size and rank count (changing between rounds).",
 NOT+"count what a restart measures again after a crash at an arbitrary instant.",
 [CLI],[("periodic snapshot","postprocess_cli.save_checkpoint and the save_every counter in master"),("skip processed","postprocess_cli.master stage 3")],
 ["calls to the data-dict generator after a restart"],
 [("samples_since_checkpoint","results collected since the last snapshot","master")])
p("C06","Restarted jobs reach the same results as an uninterrupted run",
 "For every history of interrupted and resumed runs of the same measurement (each with its own rank count, batch size, checkpoint interval, output format and selection of samples), the final successful run writes the same table as one uninterrupted run of its own command. A sample finished in an earlier run keeps its recorded status and values, and finishing an already finished job again changes nothing.",
 ["histories","schedules","crash_points","configurations"],
 "All sequences of runs ended by success, kill or fatal error, with rank count, batch size, interval, format and selection varying between runs; mixtures of successes and failures, all-failed and all-successful checkpoints.",
 NOT+"run it twice on the same output directory.",
 [CLI],[("checkpoint replay into positional results","postprocess_cli.master stage 3"),("final merge","postprocess_cli.save_final")],
 ["results file of the last run"])
p("C07","A results file is either absent, the previous one, or complete",
 "At every instant, including after a kill, a power loss or a failed write, the results file in the output directory is either absent, the complete file of an earlier run, or the complete file of this run. A reader never finds a truncated or mixed table under the final name.",
 ["crash_points","fault_sequences","histories"],
 "Every system call of the final write as crash or failure point, for each output format, with and without an earlier results file.",
 NOT+"look at the output directory between two system calls of the final write.",
 [CLI],[("final write","postprocess_cli.write_df, save_final")],
 ["eccentricity_results.* after a crash or failed run"])
p("C08","Disk faults fail the job loudly or not at all, and lose no progress",
 "When a disk operation fails (disk full, I/O error, quota, read-only or unreadable file, interrupted or short writes), the job either reports success with a complete and correct results file, or ends with a failure status; it never reports success with missing or wrong output. A failed write never destroys results that earlier checkpoints had saved, and once the fault is gone the same command completes correctly.",
 ["fault_sequences","schedules","histories"],
 "Every file operation of a job (create, write, sync, rename, remove, make directory, read) as the failing one, each error kind, transient or persistent.",
 NOT+"make a system call fail.",
 [CLI],[("error propagation from file writes","postprocess_cli.save_checkpoint, write_df, main"),("checkpoint load","postprocess_cli.load_checkpoint")],
 ["exit status, results file, generator calls of the next run"])
p("C09","One failing sample never affects another",
 "If generating or measuring one sample fails with an ordinary exception, that sample is reported with status \"fail\", no eccentricity or mean anomaly, and a message naming the failure, and every other sample is reported exactly as if the failing sample were not there. This holds on the command line and in the Python API, for any number and position of failing samples in any batch, and across checkpoint restarts.",
 ["fault_sequences","schedules","histories"],
 "Every subset of failing samples, every kind of exception or malformed return value (including messages with quotes, newlines and non-ASCII text), every position in a batch, every schedule.",
 NOT+"make a generator fail for some samples and compare the others.",
 [CORE,CLI,API],[("exception to status conversion","core.postprocess_sample, core.get_fref_bounds_for_sample"),("type check of generator output","core.get_data_dict")],
 ["status, egw, lgw, error_message of each result"])
p("C10","Python post-processing results are ordered and schedule-independent",
 "The Python post-processing API returns one result per requested sample, in the requested order, with the sample's own index and the values of measuring that sample alone, whatever the number of parallel jobs and the order in which they complete. If the parallel run fails as a whole (a worker dies, a non-sample error), the call raises and the previously stored result stays in place; it never stores a partial or mixed result.",
 ["schedules","configurations","fault_sequences"],
 "All completion orders, job counts, task batchings, process-like (copied) or thread-like (shared, preempted) workers; worker death at any task.",
 "No test imports the post-processing API; completion order is decided by joblib and the machine.",
 [API,CORE,BIL],[("ordered gather","PostProcess.postprocess"),("sample selection","posterior.loc[samples] in PostProcess.postprocess")],
 ["returned PostProcessResults, PostProcess.postprocess_result"])
p("C11","Frequency bounds and summaries account for every sample",
 "Frequency bounds computed in parallel are reported one per requested sample in order, each equal to the bounds of that sample measured alone, and the common range returned is exactly the intersection over the successful samples; an error is raised when none succeeded. Summaries, status tables and extracted posteriors count every sample once, list the successful ones' values in order, and never mix in failed ones.",
 ["schedules","configurations","fault_sequences"],
 "All completion orders and job counts, every subset of failing samples including all and none.",
 "No test imports the post-processing API, and none evaluates summaries for mixed outcomes.",
 [API,CORE],[("parallel bounds","PostProcess.get_fref_bounds"),("intersection and summaries","core.FrefBoundsResults, core.PostProcessResults")],
 ["FrefBoundsResults, PostProcessResults, get_gw_eccentricity_posterior"])
p("C12","Concurrent measurements do not disturb each other",
 "Measurements made at the same time from several threads, even on the same input data, each return exactly what they return when made alone. No interleaving makes one measurement see another's data, options or intermediate results.",
 ["schedules","configurations"],
 "All interleavings at source-line granularity of two or more measurements, over all methods and options, sharing the data and option dictionaries or not.",
 "Every test measures in one thread.",
 [GW,ECC,UT],[("per-object state","eccDefinition.__init__"),("method dispatch","gw_eccentricity.measure_eccentricity")],
 ["eccentricity, mean_anomaly, tref_out, fref_out of each call"])
p("C13","A measured object answers the same in any query order",
 "After a measurement, the questions its object answers (eccentricity, its derivatives and mean anomaly at given times, average frequency and frequency bounds by any averaging method, time for a frequency, diagnostic plots) have the same answer in any order, any number of times, and after any other query, as on a freshly measured object. A query that fails, or is interrupted part-way and then repeated, leaves these answers and the measured results unchanged. (Documented memory: get_fref_bounds reports the bounds of the average frequency computed last, if any.)",
 ["histories","fault_sequences","configurations"],
 "All sequences of queries on one object, with interruptions (exceptions raised at arbitrary source lines inside a query) and failing queries anywhere in the sequence, over methods and options.",
 "Tests make at most one or two fixed follow-up queries on an object, and never interrupt one.",
 [ECC],[("lazily computed quantities cached on the object","eccDefinition: compute_eccentricity, derivative_of_eccentricity, get_omega_gw_average, get_fref_bounds, compute_orbit_averaged_omega_gw_between_extrema")],
 ["return values of the object's methods; its tref_out, fref_out, eccentricity, mean_anomaly"],
 [("ecc_interp, ecc_for_checks, omega_gw_average, tmin_for_fref, ...","lazily filled caches","eccDefinition instance")])
p("C14","Interrupted waveform downloads never leave a wrong file behind",
 "After any sequence of failed, interrupted or crashed attempts to download an SXS waveform, an attempt that returns has put every required file in the returned directory, byte for byte as served, and an attempt that could not do so raises. Files already downloaded completely are not fetched again, and a partial transfer is never taken for a complete file.",
 ["fault_sequences","crash_points","histories"],
 "Every point of every transfer as the failing one: connection refused, reset or cut short, HTTP errors, timeouts, disk errors, process kill; any number of retries; files already present.",
 "The test suite needs the real network for downloads and is excluded here; it never interrupts one.",
 [LD],[("skip what exists, download the rest","load_data.download_sxs_waveform")],
 ["files under <data_dir>/<id>/Lev<n>, requests made"])
p("C15","Waveform loaders return the file's data or raise, and release the file",
 "Loading a waveform or metadata file returns the same modes whatever the storage does (short reads, interrupted reads, slow reads), or raises if the storage reports an error at any point; it never returns partial, shifted or default data in place of unreadable data. The file is left unmodified and every handle on it is released, also after an error.",
 ["fault_sequences","configurations"],
 "Every open and read of every supported file format as the failing one, each error kind, repeated loads.",
 "Tests read intact local files only, once each.",
 [LD],[("h5py and text readers","load_data.load_*, get_params_dict_from_sxs_metadata")],
 ["dictionary returned by load_waveform, open file descriptors"])
p("C16","Measuring never changes the caller's data; repeats agree",
 "Measuring eccentricity leaves everything the caller passed in (waveform arrays, mode dictionaries, reference times or frequencies, option dictionaries) exactly as it was, whether the call succeeds, fails or is interrupted part-way. Results returned earlier stay as they were, and any later measurement, with the same or other settings and on the same or other data, returns exactly what it returns in a fresh process.",
 ["histories","fault_sequences","configurations"],
 "All sequences of measurements over shared inputs: every method, option, data representation (modes, amplitude and phase, with frequencies, with a quasicircular counterpart, precessing), with failing and interrupted calls (exceptions raised at arbitrary source lines) in between.",
 "Each test builds its input afresh or happens to use it once per setting; none compares the input before and after, none interrupts a call.",
 [GW,ECC,UT],[("copying and truncation of the input","eccDefinition.process_data_dict, get_amp_phase_omega_data"),("option defaults","utils.check_kwargs_and_set_defaults")],
 ["the caller's dictionaries and arrays before and after; results of later calls"])
NA="Tests sample a few waveforms and settings; the claim quantifies over all of them."
p("C17","Eccentricity lies in [0, 1) and mean anomaly in [0, 2 pi)",
 "For every valid waveform, each returned eccentricity is at least 0 and below 1, and each returned mean anomaly is at least 0 and below 2 pi, growing linearly from 0 at one pericenter to 2 pi at the next.",
 ["inputs","configurations"],"All valid waveforms, methods, options and reference points.",NA,[ECC],
 [("definition","eccDefinition.compute_eccentricity, compute_mean_anomaly")])
p("C18","Results do not depend on units, time origin, phase or representation",
 "Rescaling to physical units, shifting the time origin, rotating the phase, scaling the amplitude, or giving the same modes as complex modes or as amplitude and phase changes no measured eccentricity or mean anomaly.",
 ["inputs","configurations"],"All waveforms, masses, shifts and representations.",NA,[ECC],
 [("normalisation of input","eccDefinition.process_data_dict, get_amp_phase_omega_data")])
p("C19","Reference time and reference frequency agree",
 "Measuring at a reference frequency gives the eccentricity and mean anomaly of measuring at the time at which the average frequency equals it, and the outputs contain exactly those requested points that lie within the allowed range.",
 ["inputs","configurations"],"All waveforms, reference points and averaging methods.",NA,[ECC],
 [("inversion of the average frequency","eccDefinition.compute_tref_in_and_fref_out_from_fref_in")])
p("C20","Measuring on a short segment agrees with the full waveform",
 "Restricting the measurement to a number of orbits around the reference point changes the eccentricity and mean anomaly only within the documented tolerance.",
 ["inputs","configurations"],"All waveforms, reference points and segment lengths.",NA,[ECC],
 [("segment selection","eccDefinition.get_amp_phase_omega_gw_segments")])
p("C21","Eccentricity decreases to zero with the true eccentricity for all methods",
 "For a family of inspirals with decreasing eccentricity every method's measured eccentricity decreases smoothly to its floor, decreases in time along each inspiral, and methods agree with each other within tolerance.",
 ["inputs","configurations"],"All families of waveforms and all pairs of methods.",NA,[ECC],
 [("method classes","eccDefinitionUsing*.py")])
p("C22","Precessing inputs measure the same in inertial and coprecessing frames",
 "For a precessing waveform, giving inertial-frame modes gives the same result as giving the corresponding coprecessing-frame modes, and for a non-precessing waveform both equal the non-precessing measurement within tolerance.",
 ["inputs","configurations"],"All precessing waveforms.",NA,[ECC,"gw_eccentricity/spin_filter.py"],
 [("frame transformation","eccDefinition.transform_inertial_to_coprecessing")])
p("C23","Rational fits interpolate without spurious poles",
 "A rational fit of monotonic extrema data reproduces the data within tolerance and has no pole in the fitted range.",
 ["inputs"],"All extrema sequences.",NA,["gw_eccentricity/rational_fit.py"],
 [("barycentric/Arnoldi fit","rational_fit.RationalFit")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"])); assert x["statement"].count(". ")<=3,x["id"]
