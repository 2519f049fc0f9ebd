"""Rank-side seam: everything a simulated process asks of the scheduler.

One request is outstanding per process at any time; the process is parked in
the kernel until the scheduler answers, so the scheduler alone decides which
process runs next.
"""
import ctypes
import os
import pickle
import signal
import sys

_lib = ctypes.CDLL(None)


def shim_present():
    return hasattr(_lib, "simio_present")


if shim_present():
    _lib.simio_enable.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
    _lib.simio_enable.restype = None
    _lib.simio_call.argtypes = [ctypes.c_char_p, ctypes.c_uint32,
                                ctypes.POINTER(ctypes.c_uint32)]
    _lib.simio_call.restype = ctypes.c_void_p
    _lib.simio_free.argtypes = [ctypes.c_void_p]
    _lib.simio_disable.restype = None


class Seam:
    """The simulated process's handle on the scheduler."""

    def __init__(self, sock_fd, root, read_faults, wall_offset=0.0):
        self.now = 0.0
        self.wall_offset = wall_offset
        _lib.simio_enable(sock_fd, os.fsencode(root), 1 if read_faults else 0)

    def call(self, *req):
        buf = pickle.dumps(req, protocol=4)
        n = ctypes.c_uint32()
        p = _lib.simio_call(buf, len(buf), ctypes.byref(n))
        raw = ctypes.string_at(p, n.value)
        _lib.simio_free(p)
        now, val = pickle.loads(raw)
        self.now = now
        return val


SEAM = None


def patch_clock(seam):
    """Route the clocks and sleep of this process to the simulated clock."""
    import time
    import datetime  # noqa: F401  (C-level datetime.now keeps the real clock; unused by the code under test)
    epoch = 1.7e9

    time.monotonic = lambda: seam.now
    time.perf_counter = lambda: seam.now
    time.process_time = lambda: seam.now
    time.time = lambda: epoch + seam.now + seam.wall_offset
    time.monotonic_ns = lambda: int(seam.now * 1e9)
    time.perf_counter_ns = lambda: int(seam.now * 1e9)
    time.time_ns = lambda: int((epoch + seam.now + seam.wall_offset) * 1e9)

    def sleep(dt):
        if dt < 0:
            raise ValueError("sleep length must be non-negative")
        seam.call("sleep", float(dt))
    time.sleep = sleep


def patch_random(*salt):
    """Every source of randomness of this process, derived from the run's seed."""
    import random
    import tempfile
    import uuid
    import zlib
    rng = random.Random(repr(("os.urandom",) + salt))
    os.urandom = lambda n: rng.randbytes(n)
    # os.getrandom stays: nothing in the tree or its libraries calls it directly
    random._urandom = os.urandom
    random.seed(repr(("random",) + salt))
    random.SystemRandom.getrandbits = lambda self, k: rng.getrandbits(k)
    random.SystemRandom.random = lambda self: rng.random()
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)
    import numpy
    numpy.random.seed(rng.getrandbits(32))

    class Names(tempfile._RandomNameSequence):
        @property
        def rng(self):
            return rng
    tempfile._name_sequence = Names()
    # process numbers end up in file names and log lines
    real, kill = os.getpid(), os.kill
    fake = 1000 + zlib.crc32(repr(salt[1:]).encode()) % 200000 * 16 + int(salt[0])
    os.getpid = lambda: fake
    os.kill = lambda pid, sig: kill(real if pid == fake else pid, sig)
    # the real choice of this directory probes it by writing a random file
    tempfile.tempdir = os.environ.get("TMPDIR") or "/tmp"


def die_with_parent():
    try:
        _lib.prctl(1, signal.SIGKILL, 0, 0, 0)  # PR_SET_PDEATHSIG
    except Exception:  # pragma: no cover
        pass


def redirect_output(path):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)
