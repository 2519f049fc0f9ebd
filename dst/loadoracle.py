"""What a loader must return for the synthesised files, computed without the loader.

`check` compares a loaded dictionary with the arrays that were written: values to
1e-6 of the largest amplitude, times to 1e-6 after the time origin, which must be
within a fifth of a step of the amplitude's peak.
"""
import numpy as np
from scipy.interpolate import CubicSpline


class Mismatch(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Mismatch(what)


def peak(t, amp2):
    i = max(2, min(len(t) - 3, int(np.argmax(amp2))))
    x = t[i - 2:i + 3] - t[i]
    c2, c1, _ = np.polyfit(x, np.sqrt(amp2[i - 2:i + 3]), 2)
    return t[i] - c1 / (2 * c2)


def close(a, b, what, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, f"{what}: {a.shape} values for {b.shape}")
    if a.size:
        need(np.isfinite(a).all(), f"{what}: not finite")
        d = np.max(np.abs(a - b)) / max(np.max(np.abs(b)), 1e-300)
        need(d <= tol, f"{what}: off by {d:.2g} of the largest value")


def aligned(got, t, h, start, slack, what, dt=None, origin=None, ends=(0,)):
    """got = (times, modes) must be the tail of (t, h) from about `start` on.

    slack: how far the first time may be from `start`; ends: how many of the last
    points may be missing."""
    gt, gh = np.asarray(got[0]), got[1]
    need(gt.ndim == 1 and len(gt) > 1, f"{what}: times of shape {gt.shape}")
    dt = dt or t[1] - t[0]
    shift = 0.0 if origin is None else origin
    k = int(round((gt[0] + shift - t[0]) / dt))
    need(k >= 0, f"{what}: starts before the data")
    need(abs(t[k] - start) <= slack, f"{what}: starts at {t[k]:.6g}, not at {start:.6g}")
    n = len(t) - k
    need(n - len(gt) in ends, f"{what}: {len(gt)} points of {n}")
    ref = t[k:k + len(gt)]
    off = gt + shift - ref
    need(abs(off[0]) <= (0.2 * dt if origin is not None else 1e-6), f"{what}: time origin off by {off[0]:.3g}")
    need(np.max(np.abs(off - off[0])) <= 1e-6, f"{what}: times not those of the data")
    need(list(gh) == list(h), f"{what}: modes {list(gh)} for {list(h)}")
    for m in h:
        close(gh[m], h[m][k:k + len(gt)], f"{what} mode {m}")


def orbit_start(t, h22, orbits):
    """First point kept when the orbits are counted by the (2, 2) phase."""
    ph = np.abs(np.unwrap(np.angle(h22)) - np.angle(h22[0]))
    return t[int(np.argmin(np.abs(ph - 4 * np.pi * orbits)))]


def params(got, v, meta, what="params_dict"):
    for k, x in meta.items():
        need(k in got, f"{what} lacks {k}")
        close(np.atleast_1d(np.asarray(got[k], float)), np.atleast_1d(np.asarray(x, float)), f"{what}[{k}]", 1e-12)


def ratio(v):
    return 1.5123456789 + 0.1 * v


def sxs_ratio(v):
    return 0.99999 if v == 2 else ratio(v)      # equal masses up to numerical noise count as equal


def meta_of(v):
    q = max(1.0, sxs_ratio(v))
    return {"q": q, "chi1": [0.0, -0.01234567891 * v, 0.1], "chi2": [0.0, 0.0, -0.2], "t_relax": 40.0 + v / 3}


def sxs_modes(v, wave):
    t, amp, ph = wave
    return t, {(ell, m): 0.3 ** (abs(2 - abs(m)) + ell - 2) * amp * np.exp(-0.5j * m * ph)
               for ell in (2, 3) for m in range(-ell, ell + 1)}


def old_modes(wave, order):
    t, amp, ph = wave
    return t, {m: s * amp * np.exp(-1j * ph) * (1 + 0.01 * order) for m, s in (((2, 2), 1.0), ((2, 1), 0.05), ((2, -2), 0.9))}


def memory_free(v, t, modes, relax):
    import sxs
    w = sxs.WaveformModes(np.stack(list(modes.values()), 1), time=t, time_axis=0, modes_axis=1,
                          ell_min=2, ell_max=3, spin_weight=-2)
    mem = sxs.waveforms.memory.J_E(w, integration_start_time=relax)
    return {m: modes[m] - np.asarray(mem.data)[:, mem.index(*m)] for m in modes}


def check(c, got, wave, horizons):
    """None if `got` is what the files of version c["v"] hold, else what differs."""
    try:
        _check(c, got, wave, horizons)
    except Mismatch as e:
        return str(e)
    return None


def _check(c, got, wave, horizons):
    f, v, kw = c["fmt"], c["v"], c["kw"]
    t, amp, ph = wave
    h22 = amp * np.exp(-1j * ph)
    if f in ("meta_txt", "meta_json"):
        params(got, v, meta_of(v), "parameters")
        return
    if f == "h22":
        for k, s in (("", 1.0), ("_zeroecc", 0.96)):
            close(got["t" + k], t, "t" + k)
            close(got["hlm" + k], s * h22, "hlm" + k)
        return
    if f == "EOB":
        tp = peak(t, amp ** 2)
        for k, s in (("", 1.0), ("_zeroecc", 0.97)) if kw.get("include_zero_ecc") else (("", 1.0),):
            aligned((got["t" + k], got["hlm" + k]), t, {(2, 2): s * h22}, t[0], 1e-9, "waveform" + k, origin=tp)
        need(("t_zeroecc" in got) == bool(kw.get("include_zero_ecc")), "zero eccentricity data given or missing against the request")
        return
    if f == "EMRI":
        tp = peak(t, amp ** 2)
        a, b = kw.get("start_time"), kw.get("end_time")
        step = t[1] - t[0]
        n = len(t) - 1 if b is None else int(np.argmin(np.abs(t - tp - b)))
        i = 0 if a is None else int(np.argmin(np.abs(t - tp - a)))
        tt, hh = t[i:n], h22[i:n]
        ecc = (0.3 - 1e-4 * t)[i:n]
        if kw.get("deltaT"):
            x = np.arange(tt[0], tt[-1], kw["deltaT"])
            hh = CubicSpline(tt, np.abs(hh))(x) * np.exp(1j * CubicSpline(tt, np.unwrap(np.angle(hh)))(x))
            ecc, tt = CubicSpline(tt, ecc)(x), x
        gt = np.asarray(got["t"])
        need(abs(len(gt) - len(tt)) <= 2, f"waveform: {len(gt)} points of {len(tt)}")
        k = min(len(gt), len(tt))
        off = gt[:k] + tp - tt[:k]
        need(np.max(np.abs(off - off[0])) <= 1e-6 and abs(off[0]) <= 0.2 * step, f"times off by {off[0]:.3g}")
        close(got["hlm"][(2, 2)][:k], hh[:k], "waveform")
        need(list(got["hlm"]) == [(2, 2)] and len(got["hlm"][(2, 2)]) == len(gt), "waveform: modes and times differ in length")
        if kw.get("include_zero_ecc"):
            gz = np.asarray(got["t_zeroecc"])
            need(len(t) - len(gz) in (0, 1), f"waveform_zeroecc: {len(gz)} points of {len(t)}")
            off = gz + tp - t[:len(gz)]
            need(np.max(np.abs(off)) <= 0.2 * step, f"t_zeroecc off by {np.max(np.abs(off)):.3g}")
            close(got["hlm_zeroecc"][(2, 2)], 2.5 * h22[:len(gz)] / np.sqrt(2 * np.pi), "waveform_zeroecc")
        else:
            need("t_zeroecc" not in got, "zero eccentricity data without request")
        need(("e_geodesic" in got) == bool(kw.get("include_geodesic_ecc")), "e_geodesic given or missing against the request")
        if kw.get("include_geodesic_ecc"):
            need(len(got["e_geodesic"]) == len(gt), "e_geodesic: length")
            close(got["e_geodesic"][:k], ecc[:k], "e_geodesic")
        return
    dt = kw["deltaTOverM"]
    if f == "LVCNR_hack":
        k = np.unique(np.concatenate([np.arange(0, len(t), 2), np.arange(len(t) - 90, len(t))]))
        x = np.arange(t[k[0]], t[k[-1]], dt)
        h = CubicSpline(t[k], amp[k])(x) * np.exp(1j * CubicSpline(t[k], -ph[k])(x))
        s = orbit_start(x, h, kw["num_orbits_to_remove_as_junk"])
        aligned((got["t"], got["hlm"]), x, {(2, 2): h}, s, 1.01 * dt, "waveform", dt)
        if kw["include_params_dict"]:
            params(got["params_dict"], v, {"q": ratio(v), "chi1": [0, 0, 0.123456789 * v], "chi2": [0, 0, -0.2], "ecc": 0.1, "mean_ano": 1.0})
        return
    if f == "SXSCatalog":
        tt, modes = sxs_modes(v, wave)
        if not kw["keep_memory"]:
            modes = memory_free(v, tt, modes, meta_of(v)["t_relax"])
    elif f == "SXSCatalog_old":
        tt, modes = old_modes(wave, kw["extrap_order"])
    else:
        return
    x = np.arange(tt[0], tt[-1], dt)
    h = {}
    for m in kw["mode_array"]:
        y = modes[tuple(m)]
        h[tuple(m)] = CubicSpline(tt, y.real)(x) + 1j * CubicSpline(tt, y.imag)(x)
    n = kw["num_orbits_to_remove_as_junk"]
    if horizons:
        th = np.arange(0.0, t[-1], 1.0)
        p = np.interp(th, t, ph) / 2
        s, slack = th[int(np.argmin(np.abs(p - p[0] - 2 * np.pi * n)))], 1.01 + dt
        s = x[int(np.argmin(np.abs(x - s)))]
    else:
        s, slack = orbit_start(x, h[(2, 2)] if (2, 2) in h else next(iter(h.values())), n), 1.01 * dt
    origin = None
    if len(got["t"]) > 4:
        w = x >= s
        origin = peak(x[w], sum(np.abs(h[m][w]) ** 2 for m in h))
    aligned((got["t"], got["hlm"]), x, h, s, slack, "waveform", dt, origin)
    if kw["include_params_dict"]:
        params(got["params_dict"], v, meta_of(v))
    need(("params_dict" in got) == bool(kw["include_params_dict"]), "params_dict given or missing against the request")
