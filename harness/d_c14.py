import numpy as np
import astropy.units as u
import lib
import userfns
from lib import call, lits

FREQ = {"Hz": u.Hz, "mHz": u.mHz, "1/day": 1 / u.day}
TU = {"yr": u.yr, "s": u.s, "day": u.day}
TAB = [0.5, 1, 2, 4, 5]
EDGE = [1e-4, 1.0, np.nextafter(1e-4, 0), np.nextafter(1.0, 2), 0.999e-4, 1.001, 1.13e-3, 2.58e-3]


def freqs(c, r, shape):
    def one():
        k = c["range"] if c["range"] != "wide" else r.choice(["knee", "low", "high", "edges"])
        if k == "edges" and c["freq"] == "Hz":
            return r.choice(EDGE)
        lo, hi = {"knee": (3e-4, 6e-3), "low": (1e-6, 3e-4), "high": (6e-3, 150), "edges": (0.5e-4, 1.5e-4)}[k]
        return lib.logu(r, lo, hi)
    if shape == ():
        return one()
    return np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)


def length(c, r):
    k = c["t"]
    if k == "auto":
        return "auto"
    if k == "tab":
        v = r.choice(TAB)
    elif k == "four":
        v = 4
    elif k == "near":       # close to (but not at) the midpoints between tabulated lengths
        v = r.choice([0.75, 1.5, 3.0, 4.5]) * (1 + r.choice([-1, 1]) * lib.logu(r, 1e-3, 0.05))
    elif k == "long":
        v = r.uniform(5.5, 40)
    else:
        v = r.uniform(0.1, 6)
    q = v * u.yr
    if c["t"] in ("four", "tab") and c["tunit"] != "yr":
        return float(v) * 31557600 * u.s if c["tunit"] == "s" else v * 365.25 * u.day
    return q.to(TU[c["tunit"]])


def run(c, r):
    psd = LW.psd
    n = lib.lots(r, r.randint(2, 7), 60, 400, .03)
    shape = {"scalar": (), "one": (1,), "vec": (n,), "mat": (2, n), "empty": (0,)}[c["shape"]]
    f = (freqs(c, r, shape) * u.Hz).to(FREQ[c["freq"]])
    t = length(c, r)
    m = c["model"]
    val = {"none": None, "unknown": r.choice(["robson18", "auto", "Robson19", ""])}.get(m, userfns.NOISE.get(m, m))
    kw = {}
    before = lib.snapshot(f)
    if c["fn"] == "get":
        if not (t == "auto" and r.random() < .5):
            kw["t_obs"] = t
        out = call(psd.get_confusion_noise, f=f, model=val, **kw)
    elif c["fn"] == "direct":
        if m == "thiele21":
            t = "auto"
        if t != "auto":
            kw["t_obs"] = t
        out = call(getattr(psd, "get_confusion_noise_" + m), f, **kw)
    else:
        if val == "auto":
            val = "karnesis22"
        d = getattr(psd, {"LISA": "lisa_psd", "TianQin": "tianqin_psd", "DECIGO": "decigo_psd"}[c["inst"]])
        if t != "auto":
            kw["t_obs"] = t
        if r.random() < .5:
            out = call(d, f, confusion_noise=val, **kw)
        else:
            out = call(psd.power_spectral_density, f, instrument=c["inst"], confusion_noise=val, **kw)
    return [{"fn": c["fn"], "model": m, "inst": c["inst"], "t": "auto" if isinstance(t, str) else lib.lit(t), "f": lib.si(f), "shape": list(shape),
             "out": out, "kept": lib.unchanged(before, f), "_cfac": 1 + 1e-6}]
