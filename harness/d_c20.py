import numpy as np
import astropy.units as u
import lib
from lib import call, lits
from d_c19 import steps, pickouts, FUN

OPTS = ["timesteps", "ecc", "a", "f_orb", "f_GW"]


def setup(lw, seed, tier):
    lw.evol.get_t_merge_ecc(ecc_i=0.5, a_i=1 * u.AU, beta=lw.utils.beta(1 * u.Msun, 1 * u.Msun))
    lw.evol.de_dt(0.5, 0.0, 1.0, 1.0)


def ecc(c, r):
    k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["low", "mid", "high", "extreme"])
    return {"low": lambda: lib.logu(r, 1e-4, 0.1), "mid": lambda: r.uniform(0.1, 0.8), "high": lambda: r.uniform(0.8, 0.95),
            "extreme": lambda: r.uniform(0.95, 0.99)}[k]()


def run(c, r):
    ut, ev_ = LW.utils, LW.evol
    ns = {"scalar": 1, "one": 1, "few": 2, "several": lib.lots(r, 4, 30, 80)}[c["src"]]
    scalar = c["src"] == "scalar"
    arr = lambda lo, hi: np.array([lib.logu(r, lo, hi) for _ in range(ns)])
    e = lib.tie(c, "e", np.array([ecc(c, r) for _ in range(ns)]))
    m1, m2 = (lib.tie(c, "m", arr(0.1, 100)) * u.Msun).to(c["munit"]), (lib.tie(c, "m", arr(0.1, 100)) * u.Msun).to(c["munit"])
    if c["mix"] == "yes":
        m2 = lib.other_unit(r, m2, [u.Msun, u.kg, u.g])
    a = (lib.tie(c, "f", arr(1e-2, 10)) * u.AU).to(c["lunit"])
    f = ut.get_f_orb_from_a(a, m1, m2).to(FUN[c["funit"]])
    beta = ut.beta(m1, m2)
    if c["mass"] == "both":
        beta = beta * r.uniform(0.2, 3)
    pick = (lambda x: x[0]) if scalar else (lambda x: x)
    rec = {"fn": "evol", "m1": lib.si(m1), "m2": lib.si(m2), "e": lits(e), "beta": [], "a": [], "f": lib.si(f), "flat": scalar, "_cfac": 1.01}
    if c["fn"] == "rate":
        c0 = ut.c_0(a, e)
        return [dict(rec, fn="rate", beta=lib.si(beta), c0=lib.si(c0),
                     out=call(ev_.de_dt, float(e[0]), r.uniform(0, 1e9), float(beta[0].si.value), float(c0[0].si.value)))]
    if c["fn"] == "reject":
        opts = [{"m_1": pick(m1), "a_i": pick(a)}, {"m_2": pick(m2), "f_orb_i": pick(f)}, {"m_1": pick(m1), "m_2": pick(m2)}, {"beta": pick(beta), "f_orb_i": pick(f)},
                {"beta": pick(beta), "a_i": pick(a)}, {"beta": pick(beta), "a_i": pick(a), "m_1": pick(m1)}, {"beta": pick(beta), "a_i": pick(a), "m_2": pick(m2)}]
        kw = r.choice(opts)
        kw["t_evol"] = 1 * u.yr
        if r.random() < .7:
            kw["output_vars"] = r.choice(["f_orb", "f_GW", ["a", "f_GW"], ["f_orb", "timesteps", "ecc"]])
        return [dict(rec, fn="reject", out=call(ev_.evol_ecc, ecc_i=pick(e), **kw), nocanary=True)]
    kw = {}
    if c["mass"] != "beta":
        kw.update(m_1=pick(m1), m_2=pick(m2))
    if c["mass"] != "m":
        kw["beta"] = pick(beta)
        rec["beta"] = lib.si(beta)
    aa = a
    if c["orbit"] != "f":
        aa = a if c["orbit"] == "a" else a * r.uniform(0.5, 2)
        kw["a_i"] = pick(aa)
        rec["a"] = lib.si(aa)
    if c["orbit"] != "a":
        kw["f_orb_i"] = pick(f)
    b = beta if "beta" in kw else ut.beta(m1, m2)
    lifeq = ev_.get_t_merge_ecc(ecc_i=e, a_i=aa, beta=b)
    life = lifeq.to(u.s).value
    avoid = c["avoid"] != "no"
    ts = steps(c, r, ns, life, scalar, kw, rec, frac=None if avoid else lambda x: min(x, 0.9) * r.uniform(0.5, 1))
    if c["steps"] in ("scalar", "shared") and not avoid:
        # one time for all: keep it before the first merger
        sh = 0.9 * min(life) / max(life)
        for k in ("t_evol", "timesteps"):
            if k in kw:
                kw[k] = kw[k] * sh
        if "t_evol" in kw:
            rec["tevol"] = lib.si(kw["t_evol"])
        else:
            rec["ts"] = [lib.si(kw["timesteps"])]
        ts = [kw.get("t_evol", kw.get("timesteps"))]
    if c["outs"] == "all":
        vs = list(OPTS if "m_1" in kw else OPTS[:3])
        r.shuffle(vs)
        kw["output_vars"] = vs
    else:
        opts = OPTS if "m_1" in kw else ["timesteps", "ecc", "a"]
        vs = pickouts(c, r, opts, ["ecc", "f_orb"], kw)
        if "m_1" not in kw and c["outs"] == "omit":
            kw["output_vars"] = vs = ["ecc", "a"]
    if c["avoid"] != "omit":
        kw["avoid_merger"] = avoid
    tb = 1 * u.Myr
    if c["before"] != "none":
        x = {"small": lambda: lib.logu(r, 1e-4, 1e-1), "part": lambda: r.uniform(0.1, 0.9), "more": lambda: r.uniform(1.01, 3)}[c["before"]]()
        tb = (x * r.choice(list(life)) * u.s).to(r.choice([u.yr, u.s, u.Myr]))
        kw["t_before"] = tb
    elif avoid and r.random() < .7:
        tb = (lib.logu(r, 1e-3, 1e-1) * min(life) * u.s).to(u.yr)
        kw["t_before"] = tb
    if c["exact"] != "omit":
        kw["exact_t_merge"] = c["exact"] == "yes"
    tm = None
    if c["given"] == "own":
        tm = lifeq * np.array([r.uniform(0.9, 1.0) for _ in range(ns)])
        tm = tm.to(r.choice([u.Gyr, u.yr]))
        kw["t_merge"] = pick(tm)
    if c["nproc"] > 1 and r.random() < .25:
        kw["n_proc"] = c["nproc"]
    rec.update(avoid=avoid, tbefore=lib.lit(tb), exact=c["exact"] == "yes", tmerge=[] if tm is None else lib.si(tm))
    before = lib.snapshot(m1, m2, a, aa, f, beta, e, tm, *ts)
    out = call(ev_.evol_ecc, ecc_i=float(e[0]) if scalar else e, **kw)
    kept = lib.unchanged(before, m1, m2, a, aa, f, beta, e, tm, *ts)
    rec["alone"] = [[] for _ in vs]
    rec["which"] = 1
    if out["ok"] and not scalar and ns > 1 and r.random() < .5:
        i = r.randrange(ns)
        k1 = dict(kw)
        for k in ("m_1", "m_2", "beta", "a_i", "f_orb_i", "t_merge"):
            if k in k1:
                k1[k] = k1[k][i]
        if c["steps"] == "array":
            k1["t_evol"] = k1["t_evol"][i]
        if c["steps"] == "own":
            k1["timesteps"] = k1["timesteps"][i]
        k1.pop("n_proc", None)
        if r.random() < .2:
            k1["n_proc"] = 2
        o1 = call(ev_.evol_ecc, ecc_i=float(e[i]), **k1)
        ps = [o1] if len(vs) == 1 else o1.get("parts", [])
        rec["alone"] = [p["v"] if p.get("ok") else ["nan"] for p in ps] if o1["ok"] else [["nan"] for _ in vs]
        rec["which"] = i + 1
    return [dict(rec, vars=vs, out=out, kept=kept)]
