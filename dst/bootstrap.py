"""Process bootstrap: pinned environment, compiled disk seam, re-exec under it."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"

PINNED = {
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "ARROW_DEFAULT_MEMORY_POOL": "system",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHON_JULIAPKG_OFFLINE": "yes",
    "OMPI_MCA_ess_singleton_isolated": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
    "TQDM_DISABLE": "1",
}


def build_shim(dest):
    """Compile the disk seam (about 0.3 s); always from the committed source."""
    src = os.path.join(HERE, "shim", "simio.c")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", dest, src,
                    "-ldl", "-lpthread"], check=True)


def fixed_addresses():
    """Turn address randomisation off for child processes (object addresses
    appear in messages and in set orders); harmless if the kernel refuses."""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def reexec(argv):
    """Re-exec this interpreter with the pinned environment and the seam.

    Returns the scratch directory when already inside.
    """
    if os.environ.get("DST_INSIDE") == "1":
        return os.environ["DST_TMP"]
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    if base:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 300 * 1024 * 1024:
            base = None
    tmp = tempfile.mkdtemp(prefix="dst_", dir=base)
    try:
        shim = os.path.join(tmp, "simio.so")
        build_shim(shim)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("PYTHON", "OMPI", "PMI", "SLURM")) or k == "LD_PRELOAD":
                del env[k]
        env.update(PINNED)
        env["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", "0")
        env["PYTHONPATH"] = os.pathsep.join([VERIF, REPO])
        env["TMPDIR"] = os.path.join(tmp, "tmp")
        for d in ("tmp", "pyc"):
            os.makedirs(os.path.join(tmp, d))
        env["DST_INSIDE"] = "1"
        env["DST_TMP"] = tmp
        env["LD_PRELOAD"] = shim
        fixed_addresses()
        p = subprocess.Popen([PY] + argv, env=env, cwd=VERIF)
        import signal

        def fwd(sig, frm):
            p.send_signal(sig)
        signal.signal(signal.SIGTERM, fwd)
        signal.signal(signal.SIGINT, fwd)
        rc = p.wait()
        if rc < 0:
            print(f"HARNESS: checker process died with signal {-rc}", flush=True)
            rc = 2
        sys.exit(rc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
