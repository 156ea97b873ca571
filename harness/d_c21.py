"""C21: classification of sources, chirp of the orbital frequency."""
import numpy as np
import astropy.units as u
import lib
import userfns
from lib import call, lits

FUN = {"Hz": u.Hz, "mHz": u.mHz, "1/yr": 1 / u.yr}
G, C = 6.6743e-11, 299792458.0
BAD = ["yes", 2, "circular", 0.5, "None", -1]


def F(e):
    return (1 + 73 / 24 * e**2 + 37 / 96 * e**4) / (1 - e**2)**3.5


def eccs(c, r, n):
    def one():
        k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "low", "mid", "high"])
        return {"zero": 0.0, "low": r.uniform(1e-4, 0.15), "mid": r.uniform(0.15, 0.7), "high": r.uniform(0.7, 0.98)}[k]
    return np.array([one() for _ in range(n)])


def life(mc, f, e):
    """seconds until the closed form reaches the merger (only used to choose interesting times)"""
    return f**(-8 / 3) * 5 * C**5 / (2**(32 / 3) * np.pi**(8 / 3) * (G * mc)**(5 / 3) * F(e))


def horizon(c, r):
    k = c["horizon"] if c["horizon"] != "mixed" else r.choice(["tiny", "part", "near", "beyond", "change"])
    return {"none": lambda: 0.0, "tiny": lambda: lib.logu(r, 1e-9, 1e-4), "part": lambda: r.uniform(1e-3, 0.9), "near": lambda: 1 - lib.logu(r, 1e-6, 0.1),
            "beyond": lambda: r.choice([1 + lib.logu(r, 1e-6, 1), lib.logu(r, 2, 1e6)]), "change": lambda: lib.logu(r, 3e-3, 0.3)}[k]()


def run(c, r):
    ev_ = LW.evol
    n = {"one": 1, "few": r.randint(2, 3), "several": lib.lots(r, 7)}[c["src"]]
    m1, m2 = (lib.tie(c, "m", np.array([lib.logu(r, 0.1, 100) for _ in range(n)])) for _ in "12")
    m1, m2 = (m1 * u.Msun).to(c["munit"]), (m2 * u.Msun).to(c["munit"])
    if c["mix"] == "yes":
        m2 = lib.other_unit(r, m2, [u.Msun, u.kg, u.g])
    mc = LW.utils.chirp_mass(m1, m2)
    e = lib.tie(c, "e", eccs(c, r, n))
    if c["fn"] == "mask":
        return mask(c, r, n, m1, m2, e)
    f = lib.tie(c, "f", np.array([lib.logu(r, 1e-6, 0.1) for _ in range(n)]))
    if c["eccarg"] == "omit" and c["fn"] == "freq":
        e = np.zeros(n)
    elif c["eccarg"] == "scalar":
        e = np.repeat(e[0], n)
    L = life(mc.to(u.kg).value, f, e)
    h = np.array([horizon(c, r) for _ in range(n)])
    if c["time"] == "each" or n == 1:
        t = h * L
        if n == 1 and c["time"] == "one":
            t = t[0]
    else:
        t = h[0] * L[r.randrange(n)]
        if t > 0 and c["horizon"] == "mixed":          # one time, frequencies chosen so that the sources differ
            f = (h * L / t)**(3 / 8) * f
    t = (t * u.s).to(c["tunit"])
    f = (f * u.Hz).to(FUN[c["funit"]])
    rec = {"fn": c["fn"], "m1": lib.si(m1), "m2": lib.si(m2), "mc": lib.si(mc), "f": lib.si(f), "t": lib.si(t), "e": lits(e), "inst": "LISA", "tol": "", "_cfac": 1.01}
    ea = float(e[0]) if c["eccarg"] == "scalar" else e
    if c["fn"] == "freq":
        kw = {"f_orb_i": f, "m_c": mc, "t_evol": t}
        if c["eccarg"] != "omit":
            kw["ecc_i"] = ea
        rec["mergef"] = "1000000000.0"
        if c["mergef"] == "given":
            kw["merge_f"] = (lib.logu(r, 1e-3, 1e6) * u.Hz).to(FUN[c["funit"]])
            rec["mergef"] = lib.lit(kw["merge_f"])
        before = lib.snapshot(f, mc, t, e)
        rec["out"] = call(ev_.evolve_f_orb_circ, **kw)
        rec["kept"] = lib.unchanged(before, f, mc, t, e)
        return [rec]
    kw = {"f_orb_i": f, "t_evol": t, "ecc_i": ea}
    if c["fn"] == "reject":
        if r.random() < .7:
            kw[r.choice(["m_1", "m_2"])] = m1
        rec["out"] = call(ev_.determine_stationarity, **kw)
        rec["nocanary"] = True
        return [rec]
    if c["mass"] != "m":
        kw["m_c"] = mc
        if c["mass"] == "both":
            kw.update(m_1=m1, m_2=m2)
            kw["m_c"] = mc = mc * r.uniform(0.3, 3)
            rec["mc"] = lib.si(mc)
    else:
        rec["mc"] = []
        kw.update(m_1=m1, m_2=m2)
    tol = tolerance(c, r, mc.to(u.kg).value, f.to(u.Hz).value, e, np.atleast_1d(t.to(u.s).value) * np.ones(n))
    if tol is not None:
        kw["stat_tol"] = tol
        rec["tol"] = lib.num(tol)
    before = lib.snapshot(f, mc, m1, m2, t, e)
    rec["out"] = call(ev_.determine_stationarity, **kw)
    rec["kept"] = lib.unchanged(before, f, mc, m1, m2, t, e)
    rec["nocanary"] = not sure(rec, tol, mc.to(u.kg).value, f.to(u.Hz).value, e, np.atleast_1d(t.to(u.s).value) * np.ones(n))
    return [rec]


def change(mc, f, e, t):
    with np.errstate(all="ignore"):
        x = 1 - t / life(mc, f, e)
        return np.where(x > 0, np.abs(x)**(-3 / 8) - 1, np.inf)


def sure(rec, tol, mc, f, e, t):
    """every source well away from the tolerance: a falsified verdict must be noticed"""
    d, tol = change(mc, f, e, t), 0.01 if tol is None else tol
    return bool(np.all(np.abs(d - tol) > 1e-4 * tol + 1e-9) and np.all(f < 1e6) and np.all(np.abs(1 - t / life(mc, f, e)) > 1e-6))


def tolerance(c, r, mc, f, e, t):
    k = c["tol"]
    if k == "omit":
        return None
    if k == "edge":
        d = float(change(mc, f, e, t)[0])
        if np.isfinite(d) and d > 1e-9:
            return d * (1 + r.choice([-1, 1]) * 1e-4)
        k = "given"
    return {"given": lib.logu(r, 1e-6, 1), "zero": 0.0, "huge": lib.logu(r, 1e2, 1e8)}[k]


def mask(c, r, n, m1, m2, e):
    if n > 1 and c["cls"] != "Source" and r.random() < .5:
        e[:] = 0
    auto = 5 if c["inst"] in ("TianQin", "custom") else 4
    stored = (lib.logu(r, 1e-3, 100) * u.yr).to(c["tunit"])
    asked = (lib.logu(r, 1e-3, 100) * u.yr).to(c["tunit"])
    tq = asked if c["t"] == "given" else stored if (c["t"] == "omit" and c["st"] == "given") else auto * u.yr
    # frequencies for which the change over that time is of interest
    h = lib.tie(c, "f", np.array([horizon(c, r) for _ in range(n)]))
    mc = LW.utils.chirp_mass(m1, m2).to(u.kg).value
    f = (life(mc, 1.0, e) * h / tq.to(u.s).value)**(3 / 8)
    f = np.clip(f, 1e-9, 1e2) * u.Hz
    tol = tolerance(c, r, mc, f.value, e, tq.to(u.s).value)
    kw = dict(m_1=m1, m_2=m2, ecc=e, dist=np.repeat(10.0, n) * u.kpc, f_orb=f.to(FUN[c["funit"]]), interpolate_g=False, interpolate_sc=r.random() < .3)
    if tol is not None:
        kw["stat_tol"] = tol
    if r.random() < .5:
        kw["gw_lum_tol"] = r.choice([0.01, 0.05, 0.1, 0.3])
    sc = {"instrument": c["inst"]}
    if c["inst"] == "custom":
        sc["custom_psd"] = userfns.PSD["psdA"]
    rec = {"fn": "mask", "inst": c["inst"], "tol": "" if tol is None else lib.num(tol), "_cfac": 1.01}
    rec["t"] = ["auto"]
    if c["st"] == "auto":
        sc["t_obs"] = "auto"
    elif c["st"] == "given":
        sc["t_obs"] = stored
        rec["t"] = lib.si(stored)
    cls = getattr(LW.source, c["cls"])
    S = cls(sc_params=sc, **kw)
    if c["pre"] == "update":
        k = r.choice(["t", "t", "auto", "inst"])
        if k == "t":
            x = lib.logu(r, 1e-3, 100) * u.yr
            S.sc_params.update({"t_obs": x})
            rec["t"] = lib.si(x)
        elif k == "auto":
            S.sc_params.update({"t_obs": "auto"})
            rec["t"] = ["auto"]
        else:
            rec["inst"] = r.choice(["LISA", "TianQin", "DECIGO"])
            S.sc_params.update({"instrument": rec["inst"]})
    elif c["pre"] == "evolve":
        S.evolve_sources(lib.logu(r, 1e-4, 10) * u.yr)
    elif c["pre"] == "index":
        S = S[r.choice([slice(None, None, -1), slice(0, max(1, n - 1)), np.arange(n) % 2 == 0])]
        n = S.n_sources
    elif c["pre"] == "lum":
        S.gw_lum_tol = r.choice([0.005, 0.02, 0.2, 0.4])
    elif c["pre"] == "freq":
        S.f_orb = S.f_orb * np.array([lib.logu(r, 0.3, 3) for _ in range(n)])
        if r.random() < .5:
            S.ecc = r.choice([0.5, 1.0]) * S.ecc
        if r.random() < .5:
            S.stat_tol = lib.logu(r, 1e-4, 0.5)
            rec["tol"] = lib.num(S.stat_tol)
    if r.random() < .3:            # exactly on the threshold counts as circular
        k = r.randrange(n)
        S.ecc[k] = S.ecc_tol if r.random() < .5 else np.nextafter(S.ecc_tol, 1)
    q = {}
    if c["t"] == "given":
        q["t_obs"] = asked
        rec["t"] = lib.si(asked)
    elif c["t"] == "auto":
        q["t_obs"] = "auto"
        rec["t"] = ["auto"]
    if c["sel"] == "invalid":
        which = r.choice(["circular", "stationary", "both"])
        b = r.choice(BAD)
        q.update({k: b for k in ("circular", "stationary") if which in (k, "both")})
        if which != "both" and r.random() < .5:
            q["stationary" if which == "circular" else "circular"] = r.choice([None, True, False])
        return [{"fn": "reject", "out": call(S.get_source_mask, **q), "nocanary": True}]
    rec.update(m1=lib.si(S.m_1), m2=lib.si(S.m_2), mc=[], f=lib.si(S.f_orb), e=lits(S.ecc), et=lib.num(S.ecc_tol))
    held = (S.m_1, S.m_2, S.f_orb, S.ecc, S.dist)
    before = lib.snapshot(*held)
    masks = [call(S.get_source_mask, **({} if a is None and r.random() < .5 else {"circular": a}), **({} if s is None and r.random() < .5 else {"stationary": s}), **q)
             for a in (None, True, False) for s in (None, True, False)]
    rec["out"] = {"ok": all(m["ok"] for m in masks), "kind": "parts", "err": "", "parts": masks}
    rec["kept"] = lib.unchanged(before, *held)
    tt = {"auto": (5 if rec["inst"] in ("TianQin", "custom") else 4) * 31557600.0}.get(rec["t"][0]) or float(rec["t"][0])
    rec["nocanary"] = not sure(rec, None if rec["tol"] == "" else float(rec["tol"]), S.m_c.to(u.kg).value, S.f_orb.to(u.Hz).value, S.ecc, tt)
    return [rec]
