import json
import os
import subprocess
import sys
import numpy as np
import astropy.units as u
import astropy.constants as const
import lib
import userfns
from lib import call, lits

FREQ = {"Hz": u.Hz, "mHz": u.mHz, "1/day": 1 / u.day}
LU = {"m": u.m, "km": u.km, "AU": u.AU}
BAND = {"LISA": (1e-7, 2.0), "DECIGO": (1e-3, 100.0), "TianQin": (1e-5, 1.0), "custom": (1e-5, 1.0), "unknown": (1e-5, 1.0)}


def freqs(c, r, shape, lo, hi, top):
    def one():
        k = c["range"] if c["range"] != "mixed" else r.choice(["band", "low", "edges", "outside"])
        if k == "edges":
            v = r.choice([lo, hi, np.nextafter(lo, 0), np.nextafter(hi, 1e9), np.nextafter(lo, 1), np.nextafter(hi, 0)])
        elif k == "outside":
            v = r.choice([lib.logu(r, lo * 1e-3, lo * 0.999), lib.logu(r, hi * 1.001, hi * 50)])
        elif k == "low":
            v = lib.logu(r, lo, lo * 100)
        else:
            v = lib.logu(r, lo, hi)
        return v if v <= top or v > hi else lib.logu(r, lo, top)
    if shape == ():
        return one()
    return np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)


NOTABLE = []


def setup(lw, seed, tier):
    """The package without its tabulated response, in a process of its own"""
    r = lib.rng_for(seed, "C13", "notable")
    jobs = []
    for i in range(60):
        kind = "response" if i % 2 == 0 else "psd"
        fs = lib.logu(r, 1e-3, 1) if kind == "response" else 0
        hi = 100 * fs if kind == "response" else 2
        jobs.append({"kind": kind, "fstar": fs, "x": [lib.logu(r, 1e-5 * (fs or 1), hi) for _ in range(r.choice([1, 1, 4]))]})
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "notable.py")], input=json.dumps(jobs),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    try:
        NOTABLE.extend(zip(jobs, json.loads(p.stdout)))
    except ValueError:
        raise RuntimeError("no result without the table: " + p.stderr[-2000:])


def run(c, r):
    psd = LW.psd
    if c["fn"] == "notable":
        job, out = r.choice(NOTABLE)
        out = dict(out)
        return [{"fn": "notable", "kind": job["kind"], "f": lits(job["x"]), "fstar": lib.num(job["fstar"]), "warned": out.pop("warned"),
                 "shape": [] if job["kind"] == "response" and len(job["x"]) == 1 else [len(job["x"])], "out": out, "_cfac": 1 + 1e-5}]
    n = lib.lots(r, r.randint(2, 7), 60, 400, .03)
    shape = {"scalar": (), "one": (1,), "vec": (n,), "mat": (2, n), "cube": (2, 1, n), "empty": (0,)}[c["shape"]]
    if c["fn"] in ("response", "approx_response"):
        fs = lib.logu(r, 1e-3, 1)
        x = freqs(dict(c, range="band"), r, shape, 2e-5, 108, 108) * fs
        fn = psd.load_response_function if c["fn"] == "response" else psd.approximate_response_function
        omit = c["fn"] == "response" and r.random() < .3
        if omit:
            x, fs = x / fs * 19.09e-3, 19.09e-3
        out = call(fn, x) if omit else call(fn, x, fs)
        return [{"fn": c["fn"], "f": lits(x), "fstar": lib.num(fs), "shape": list(shape), "out": out, "_cfac": 1 + 1e-5}]
    inst = c["inst"]
    lo, hi = BAND[inst]
    band = []
    kw = {}
    if c["fn"] == "direct" and inst == "DECIGO" and c["band"] == "custom":
        lo, hi = lib.logu(r, 1e-4, 1e-2), lib.logu(r, 1, 50)
        flo, fhi = (lo * u.Hz if r.random() < .5 else (lo * 1e3) * u.mHz), (hi * u.Hz if r.random() < .5 else (hi * 1e3) * u.mHz)
        lo, hi = flo.to(u.Hz).value, fhi.to(u.Hz).value
        band = [lib.num(lo), lib.num(hi)]
        kw.update(f_low=flo, f_high=fhi)
    t = "auto" if c["t"] == "auto" else r.choice([0.5, 1, 2, 3.3, 4, 4.0, 5, 7.7]) * u.yr
    if not isinstance(t, str) and r.random() < .5:
        t = t.to(u.s)
    L = "auto" if c["L"] == "auto" else (lib.logu(r, 1e8, 2.57e9) * u.m).to(LU[c["lunit"]])
    noise = c["noise"]
    if c["fn"] == "direct" and noise == "auto":
        noise = "omit"
    val = None if noise == "none" else userfns.NOISE.get(noise, noise)
    if t != "auto" or (c["fn"] != "direct" and r.random() < .5):
        kw["t_obs"] = t
    if L != "auto" or (c["fn"] != "direct" and r.random() < .5):
        kw["L"] = L
    approx = False
    if c["approx"] != "omit":
        approx = c["approx"] == "yes"
        kw["approximate_R"] = approx if r.random() < .8 else np.bool_(approx)
    if noise != "omit":
        kw["confusion_noise"] = val
    # the tabulated response ends at f / f* = 108
    top = hi
    if inst == "LISA":
        Lm = 2.5e9 if isinstance(L, str) else L.to(u.m).value
        top = min(hi, 107 * 299792458 / (2 * np.pi * Lm))
    f0 = freqs(c, r, shape, lo, hi, top)
    f = (f0 * u.Hz) if c["range"] in ("edges", "mixed") else (f0 * u.Hz).to(FREQ[c["freq"]])
    before = lib.snapshot(f)
    userfns.CALLS.clear()
    psdname = "none"
    if c["fn"] == "direct":
        if inst == "LISA" and r.random() < .3 and "approximate_R" not in kw:
            pass
        out = call(getattr(psd, {"LISA": "lisa_psd", "TianQin": "tianqin_psd", "DECIGO": "decigo_psd"}[inst]), f, **kw)
    else:
        name = inst
        if inst == "unknown":
            name = r.choice(["lisa", "ET", "", None, "Custom", "TIANQIN"])
        if inst == "custom" or r.random() < .2:
            psdname = r.choice(["psdA", "psdB"])
            kw["custom_psd"] = userfns.PSD[psdname]
        if not (inst == "LISA" and r.random() < .4):
            kw["instrument"] = name
        out = call(psd.power_spectral_density, f, **kw)
    def given(v):
        return "auto" if isinstance(v, str) else lib.lit(v)
    def nm(v):
        return "none" if v is None else v if isinstance(v, str) else userfns.NAMES[id(v)]
    seen = [{"id": i, "t": given(k["t_obs"]), "L": given(k["L"]), "approx": bool(k["approximate_R"]), "noise": nm(k["confusion_noise"])}
            for i, _, k in userfns.CALLS if i.startswith("psd")]
    p = {"instrument": inst, "psd": psdname, "t": given(t), "L": given(L), "approx": approx, "noise": "auto" if noise == "omit" else noise}
    return [{"fn": c["fn"], "p": p, "band": band, "f": lib.si(f), "shape": list(shape), "seen": seen, "out": out,
             "kept": lib.unchanged(before, f), "_cfac": 1 + 1e-6}]
