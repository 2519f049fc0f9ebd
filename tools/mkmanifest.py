import json, os
V='/verif'
TECH="deterministic simulation with fault injection: seeded search over schedules and faults"
claimed={
"C01":"simulated MPI (order, stalls, rendezvous/eager), real job code; every row compared with the posterior",
"C02":"simulated MPI; every value compared with an isolated measurement in a pristine process",
"C03":"simulated MPI with fatal errors, disk faults and awkward shapes; deadlock and livelock detection at quiescence",
"C04":"simulated kill and power loss at seeded system calls, messages and measurements, then restart",
"C05":"simulated crash sequences; history check of what was measured, collected and measured again",
"C06":"simulated histories of interrupted and resumed runs against a last-measurement model",
"C07":"results file inspected after every system call of simulated runs with crashes and disk errors",
"C08":"simulated disk faults (errno, full disk, short transfers; transient or lasting), then a clean run",
"C09":"failing samples of every kind in simulated jobs and through the Python API, against isolated measurements",
"C10":"simulated joblib workers (completion order, copying or sharing workers, preemption, worker death)",
"C11":"simulated joblib workers for frequency bounds; summaries recomputed from isolated measurements",
"C12":"simulated thread interleavings at source lines of concurrent measurements, against isolated measurements",
"C13":"seeded query histories with interruptions at source lines, against a freshly measured object",
"C14":"simulated download faults, disk faults and crashes over several attempts",
"C15":"simulated storage: short, slow, interrupted and failing reads under every loader",
"C16":"seeded measurement histories with failures and interruptions at source lines; inputs snapshotted",
"C24":"simulated disk faults, kills and power loss while debug figures are written; outcomes against isolated measurements without debug output",
"C25":"seeded histories in altered process states with failing library calls; process-wide state compared, weak references",
"C26":"simulated storage (short, interrupted and failing reads, replaced and damaged files) and interrupted calls in seeded histories of one post-processing object",
}
import importlib,sys
have=set(sys.argv[1:])
na={
"C17":"pure function of its input: no schedule, fault, clock or history can change whether the range holds; deciding it needs input generation, not simulation",
"C18":"pure function of its input (an invariance of numerical results); nothing for a simulator to control",
"C19":"pure function of its input (consistency of two evaluations of the same data); nothing for a simulator to control",
"C20":"pure function of its input (numerical tolerance); nothing for a simulator to control",
"C21":"pure function of its input (numerical trend over a family of waveforms); nothing for a simulator to control",
"C22":"pure function of its input (frame transformation accuracy); nothing for a simulator to control",
"C23":"pure function of its input (quality of a fit); nothing for a simulator to control",
}
checks=[]
for c,n in claimed.items():
    if have and c not in have: 
        na[c]="check under construction"
        continue
    checks.append({"property":c,"quick_cmd":f"/opt/venv/bin/python run.py {c}","thorough_cmd":f"/opt/venv/bin/python run.py {c} --tier thorough",
     "technique":TECH,"level":"exploration","level_note":n+". Sampling, not enumeration: a clean batch is evidence over the seeds run; assumptions are in the evidence file and DESIGN.md."})
m={"version":1,"setup_cmd":"/opt/venv/bin/python run.py --self-test","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(na.items())],
 "notes":"No hooks in /repo: every seam is outside it (LD_PRELOAD disk seam, stand-ins for mpi4py, joblib backend, clocks). DST_REPO selects another tree, DST_WORKERS the number of worker processes."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
