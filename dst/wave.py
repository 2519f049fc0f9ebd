"""Synthetic eccentric inspirals: cheap inputs for the real measurement code."""
import numpy as np


def inspiral(n=1000, T=3000.0, e0=0.2, om0=0.05, l0=0.0, zero=False, T0=3000.0, scale=1.0, t0=0.0):
    t = np.linspace(-T, 0, n)
    tau = np.clip((30 - t) / (30 + T0), 1e-9, None)
    om = om0 * tau ** (-3 / 8.0)
    ph = np.cumsum(np.concatenate([[0], 0.5 * (om[1:] + om[:-1]) * np.diff(t)]))
    e = 0.0 if zero else e0 * np.clip(tau, 0, 1) ** 0.4
    ell = ph / 2 * 0.98 + l0
    amp = scale * 0.5 * om ** (2 / 3.0) * (1 + e * np.cos(ell))
    phase = ph + 2 * e * np.sin(ell)
    return t + t0, amp * np.exp(-1j * phase)


POOL = 24


def pool_params(w):
    """Deterministic family of POOL distinct waveforms."""
    return dict(e0=0.06 + 0.014 * ((7 * w) % POOL), l0=0.37 * w,
                om0=0.046 + 0.0005 * (w % 9))


# value k of a column that hardly varies: (first value, step), steps exact in binary
NEAR = {"ulp": (1.0, 2.0 ** -52), "gps": (1187008882.0, 2.0 ** -22), "tiny": (1e-22, 1e-25),
        "small": (0.0, 2.0 ** -40), "digits": (35.0, 2.0 ** -30), "percent": (0.0, 0.0625)}


def near_value(kind, k):
    a, d = NEAR[kind]
    return a + k * d


def near_index(kind, x):
    a, d = NEAR[kind]
    return int(round((x - a) / d))


def uid_of(i):
    """Unique value carried by sample number i of the posterior."""
    return 1000.0 + i + i / 128.0


# columns the waveform does not depend on, of the kinds real posteriors carry
TEXTS = ["plain", "a, b", 'say "hi"', "two\nlines", "M\u2299 \u00e9", "nan", "", " padded ", "0012", "null", "{}", "True"]
FLOATS = [0.1, float("nan"), 1e300, -0.0, 2.5e-13, 1 / 3, -1e22, 123456789.12345679]
ODD = {"odd_int": lambda i: 10 ** 12 + 1 + 2 * i, "odd_neg": lambda i: -7 * i, "odd_bool": lambda i: i % 3 == 0,
       "odd text": lambda i: TEXTS[i % len(TEXTS)], "odd,float": lambda i: FLOATS[i % len(FLOATS)],
       "\u03b7": lambda i: (i + 1) / 7}


def equal(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, (float, np.floating)):
        return a == b or (a != a and b != b)
    return int(a) == int(b)


def resolve(params, extra):
    """(params with the waveform they stand for, unique value of the sample); checks
    that the other columns are this sample's own."""
    uid = float(params["uid"])
    if "dst_near" in extra:
        kind, w0, o = extra["dst_near"]
        k = near_index(kind, uid)
        params = dict(params, w=(w0 + k) % POOL)
        i = k - o
        uid = uid_of(i)
    else:
        i = int(round((uid - 1000.0) * 128 / 129))
    for c, fn in ODD.items():
        if c in params and not equal(fn(i), params[c]):
            raise AssertionError(f"sample {i} is handed {c}={params[c]!r} instead of {fn(i)!r}")
    return params, uid


def data_dict(w, mode="ok", zeroecc=False):
    p = pool_params(int(w))
    if mode == "slow":                      # frequencies far below everybody else's
        p["om0"] *= 0.4
    if mode == "circular":
        t, h = inspiral(n=1000, T=3000.0, zero=True, **p)
    elif mode == "short":
        t, h = inspiral(n=200, T=180.0, **p)
    else:
        t, h = inspiral(n=1000, T=3000.0, **p)
    d = {"t": t, "hlm": {(2, 2): h}}
    if mode == "nan":
        h[500:520] = np.nan
    if zeroecc:
        tz, hz = inspiral(n=1050, T=3100.0, zero=True, **{k: v for k, v in p.items() if k == "om0"})
        d["t_zeroecc"] = tz
        d["hlm_zeroecc"] = {(2, 2): hz}
    return d


class SampleError(Exception):
    pass


MESSAGES = {
    "plain": "sample failed deliberately",
    "csv": 'a "quoted", comma, and\nnewline; tab\t.',
    "unicode": "échec: M\u2299 \u2264 0",
    "nan": "nan",
    "long": "x" * 300,
    "percent": "100% of {0} at 5 %d, %(x)s {} done \\n",
}


def make(params, extra, mode=None):
    """The data_dict_generator body used by all simulated jobs."""
    if mode is None:
        mode = str(params.get("mode", "ok"))
        if "mode_code" in params:
            mode = MODES[int(params["mode_code"])]
    if mode.startswith("raise"):
        raise SampleError(MESSAGES[mode.split(":")[1]])
    if mode == "value":
        raise ValueError("bad parameters for this sample")
    if mode == "assert":
        raise AssertionError
    if mode == "memory":
        raise MemoryError("out of memory for this sample")
    if mode == "key":
        return {"t": np.arange(3.0)}
    if mode == "list":
        return [1, 2, 3]
    if mode == "none":
        return None
    return data_dict(params["w"], mode, zeroecc=bool(extra.get("zeroecc")))


MODES = ["ok", "raise:plain", "raise:csv", "raise:unicode", "raise:nan", "raise:long",
         "value", "memory", "key", "list", "none", "short", "nan", "assert", "circular", "circular", "slow",
         "raise:percent"]
