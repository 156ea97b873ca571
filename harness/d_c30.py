"""C30: the verification binaries."""
import os
import shutil
import tempfile
import numpy as np
import astropy.units as u
import lib
from lib import call, lits, si


def plain(o):
    S = LW.source.Source(m_1=o.m_1.copy(), m_2=o.m_2.copy(), ecc=np.zeros(len(o)), dist=o.dist.copy(), f_orb=o.f_orb.copy(), position=o.position,
                         inclination=o.inclination.copy(), polarisation=o.polarisation.copy(), interpolate_g=False)
    return S


def meddle(o, pre, r):
    """what a user may do to an instance"""
    if pre == "change":
        o.m_1 = o.m_1 * 2
        o.dist = o.dist[::-1]
        o.ecc = o.ecc + .1
    elif pre == "scale":
        for k in ("m_1", "m_2", "dist", "f_orb", "inclination", "polarisation"):
            x = getattr(o, k)
            x *= 1.5
        o.ecc += 0.3
        o.true_snr *= 2
        o.merged[:] = True
        o.max_snr_harmonic[:] = 7
    elif pre == "labels":
        if isinstance(o.labels, list):
            o.labels.reverse()
        else:
            o.labels[:] = o.labels[::-1].copy()
        o.true_snr[:] = 0
    elif pre == "evolve":
        o.evolve_sources(1e5 * u.yr)
    elif pre == "snr":
        o.get_snr(instrument="TianQin", t_obs=1 * u.yr)
    elif pre == "settings":
        o.sc_params["instrument"] = "DECIGO"
        o.sc_params.update(t_obs=1 * u.yr, approximate_R=True)
        o.gw_lum_tol = 0.2
    elif pre == "merge":
        o.evolve_sources(1e3 * u.Gyr)


def run(c, r):
    VB = LW.source.VerificationBinaries
    other = VB()
    meddle(other, c["pre"], r)
    x = other if c["pre"] != "none" else VB()
    try:
        o = VB()
    except Exception as e:
        return [{"fn": "fields", "out": lib.err(e), "nocanary": True}]
    p = o.sc_params
    pol2 = VB().polarisation
    ev = {"fn": "fields", "out": {"ok": True}, "nocanary": True, "o": {
        "n": int(o.n_sources), "len": len(o), "labels": [str(s).encode("ascii", "replace").decode() for s in o.labels], "true": lits(np.asarray(o.true_snr)),
        "m1": si(o.m_1), "m2": si(o.m_2), "dist": si(o.dist), "f": si(o.f_orb), "inc": si(o.inclination), "ecc": lits(np.asarray(o.ecc)), "pol": si(o.polarisation),
        "other": si(pol2), "lon": si(o.position.lon), "lat": si(o.position.lat), "frame": o.position.frame.name,
        "msh": [int(v) for v in o.max_snr_harmonic], "merged": [int(v) for v in o.merged], "snr": "none" if o.snr is None else "set",
        "t_merge": "none" if o.t_merge is None else "set", "weights": "none" if o.weights is None else "set",
        "settings": [str(p[k]) if p[k] is not None else "none" for k in ("instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise")]}}
    out = [ev]
    if r.random() < .5:
        b = lib.json.loads(lib.json.dumps(ev))
        k = r.choice(["m1", "f", "dist", "inc", "true", "labels", "lat", "msh", "merged", "settings"])
        i = r.randrange(len(b["o"][k]))
        b["o"][k][i] = 3 if k in ("msh", "merged") else "0.77"
        out.append(dict(b, canary=True))
    ask = c["ask"]
    if ask == "fields":
        return out
    q = plain(o)
    n = len(o)
    wk = {"which_sources": np.array([r.random() < .6 for _ in range(n)])} if c["which"] == "mask" else {}
    if ask == "snr":
        kw = dict(wk)
        if c["inst"] != "omit":
            kw["instrument"] = c["inst"]
        if c["t"] == "given":
            kw["t_obs"] = r.choice([1., 4., 10.]) * u.yr
        if c["noise"] != "omit":
            kw["confusion_noise"] = None if c["noise"] == "none" else c["noise"]
        f = lambda s: s.get_snr(**kw)
    elif ask == "strain":
        h = 2 if c["harm"] == "one" else [1, 2, 3]
        nm = r.choice(["get_h_0_n", "get_h_c_n"])
        f = lambda s: getattr(s, nm)(h, **wk)
    elif ask == "merger":
        f = lambda s: s.get_merger_time()
    elif ask == "mask":
        a = (r.choice([None, True, False]), r.choice([None, True, False]))
        f = lambda s: s.get_source_mask(*a)
    elif ask == "evolve":
        t = lib.logu(r, 1e3, 1e10) * u.yr

        def f(s):
            s.evolve_sources(t)
            return s.f_orb
    elif ask == "save":
        d = tempfile.mkdtemp(prefix="verif-c30-")

        def f(s):
            path = os.path.join(d, "x%d.h5" % id(s))
            s.save(path)
            return LW.source.Source.from_file(path).get_snr()
    else:
        def f(s):
            import matplotlib.pyplot as plt
            s.get_snr()
            _, ax = s.plot_sources_on_sc(show=False)
            v = np.concatenate([np.asarray(x.get_offsets()).ravel() for x in ax.collections if len(x.get_offsets()) > 1])
            plt.close("all")
            return v
    try:
        out.append({"fn": "calc", "ask": ask, "out": call(f, o), "ref": call(f, q), "_cfac": 1 + 1e-6, "nocanary": ask in ("mask",)})
    finally:
        if ask == "save":
            shutil.rmtree(d, ignore_errors=True)
    return out
