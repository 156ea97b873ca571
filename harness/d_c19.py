import numpy as np
import astropy.units as u
import lib
from lib import call, lits

FUN = {"Hz": u.Hz, "mHz": u.mHz}
OPTS = ["timesteps", "a", "f_orb", "f_GW"]


def steps(c, r, ns, life, scalar, kw, rec, frac=None):
    """Chooses the time specification; life: merger times in s. Fills the call's keywords and the record. Returns arrays to watch."""
    tu = u.Unit(c["tunit"])

    def one(i):
        h = c["horizon"] if c["horizon"] != "mixed" else r.choice(["short", "part", "merger", "beyond"])
        x = {"short": lambda: lib.logu(r, 1e-9, 1e-2), "part": lambda: r.uniform(0.05, 0.97), "merger": lambda: r.choice([1.0, 1 - 1e-6, 1 + 1e-6, 0.9999]),
             "beyond": lambda: r.uniform(1.01, 5)}[h]()
        return (frac(x) if frac else x) * life[i]
    nstep = {"omit": 100, "few": r.randint(3, 9), "one": 1, "two": 2}[c["nstep"]]
    if c["nstep"] == "few" and ns == 1 and r.random() < .1:
        nstep = r.randint(501, 700)
    if c["nstep"] != "omit":
        kw["n_step"] = nstep
    rec.update(mode=c["steps"], nstep=nstep, tevol=[], ts=[])
    k = c["steps"]
    if k == "none":
        if c["nstep"] == "omit" and ns > 3:
            kw["n_step"] = rec["nstep"] = 7
        return []
    if k in ("scalar", "array"):
        t = np.array([one(i) for i in range(ns if k == "array" else 1)]) * u.s
        t = t.to(tu)
        rec.update(mode="even", tevol=lib.si(t))
        kw["t_evol"] = t[0] if k == "scalar" else t
        return [t]
    m = r.randint(1, 6)
    rows = []
    for i in range(ns if k == "own" else 1):
        end = one(i)
        rows.append([0.0] + sorted(r.uniform(0, 1) * end for _ in range(m - 1)) if r.random() < .7 else [0.0] + [end * (j + 1) / m for j in range(m - 1)])
    ts = (np.array(rows) * u.s).to(tu)
    if k == "shared":
        ts = ts[0]
    rec.update(mode="given", ts=[lib.si(x) for x in (ts if k == "own" else [ts])])
    kw["timesteps"] = ts
    return [ts]


def pickouts(c, r, opts, default, kw):
    if c["outs"] == "omit":
        return default
    if c["outs"] == "str":
        v = r.choice(opts)
        kw["output_vars"] = v
        return [v]
    v = [r.choice(opts) for _ in range(r.randint(1, 5))]
    kw["output_vars"] = {"list": list, "tuple": tuple, "array": np.array}[c["outs"]](v)
    return v


def run(c, r):
    ut, ev_ = LW.utils, LW.evol
    ns = {"scalar": 1, "one": 1, "few": 3, "several": lib.lots(r, 5, 40, 150)}[c["src"]]
    scalar = c["src"] == "scalar"
    arr = lambda lo, hi: np.array([lib.logu(r, lo, hi) for _ in range(ns)])
    m1, m2 = (lib.tie(c, "m", arr(0.1, 100)) * u.Msun).to(c["munit"]), (lib.tie(c, "m", arr(0.1, 100)) * u.Msun).to(c["munit"])
    if c["mix"] == "yes":
        m2 = lib.other_unit(r, m2, [u.Msun, u.kg, u.g])
    a = (lib.tie(c, "f", arr(1e-3, 1)) * u.AU).to(c["lunit"])
    f = ut.get_f_orb_from_a(a, m1, m2).to(FUN[c["funit"]])
    beta = ut.beta(m1, m2)
    if c["mass"] == "both":
        beta = beta * r.uniform(0.2, 3)
    pick = (lambda x: x[0]) if scalar else (lambda x: x)
    rec = {"fn": "evol", "m1": lib.si(m1), "m2": lib.si(m2), "beta": [], "a": [], "f": lib.si(f), "flat": scalar, "_cfac": 1.001}
    kw = {}
    if c["fn"] == "reject":
        opts = [{"m_1": pick(m1), "a_i": pick(a)}, {"m_2": pick(m2), "f_orb_i": pick(f)}, {"m_1": pick(m1), "m_2": pick(m2)}, {"beta": pick(beta), "f_orb_i": pick(f)},
                {"beta": pick(beta), "a_i": pick(a)}, {"beta": pick(beta), "a_i": pick(a), "m_1": pick(m1)}, {"beta": pick(beta), "a_i": pick(a), "m_2": pick(m2)}]
        kw = r.choice(opts)
        kw["t_evol"] = 1 * u.yr
        kw["output_vars"] = r.choice(["f_orb", "f_GW", ["a", "f_GW"], ["f_orb", "timesteps"]])
        return [dict(rec, fn="reject", out=call(ev_.evol_circ, **kw), nocanary=True)]
    if c["mass"] != "beta":
        kw.update(m_1=pick(m1), m_2=pick(m2))
    if c["mass"] != "m":
        kw["beta"] = pick(beta)
        rec["beta"] = lib.si(beta)
    aa = a
    if c["orbit"] != "f":
        aa = a if c["orbit"] == "a" else a * r.uniform(0.5, 2)
        kw["a_i"] = pick(aa)
        rec["a"] = lib.si(aa)
    if c["orbit"] != "a":
        kw["f_orb_i"] = pick(f)
    b = beta if "beta" in kw else ut.beta(m1, m2)
    life = (aa**4 / (4 * b)).to(u.s).value
    ts = steps(c, r, ns, life, scalar, kw, rec)
    if c["fn"] == "grid":
        if scalar or "m_1" not in kw and "beta" not in kw:
            scalar = False
        k2 = {k: v for k, v in kw.items() if k in ("t_evol", "n_step", "timesteps")}
        before = lib.snapshot(*ts)
        out = call(ev_.create_timesteps_array, a_i=aa, beta=b, ecc_i=np.zeros(ns), **k2)
        if out.get("kind") == "q":
            out["unit"] = "yr"
        rec["beta"], rec["a"] = lib.si(b), lib.si(aa)
        return [dict(rec, vars=["timesteps"], flat=False, out=out, kept=lib.unchanged(before, *ts))]
    opts = OPTS if "m_1" in kw else ["timesteps", "a"]
    vs = pickouts(c, r, opts, ["f_orb"], kw)
    if "m_1" not in kw and c["outs"] == "omit":
        kw["output_vars"] = "a"
        vs = ["a"]
    before = lib.snapshot(m1, m2, a, aa, f, beta, *ts)
    out = call(ev_.evol_circ, **kw)
    # a one-element list of variables is returned bare, as documented for a single variable
    return [dict(rec, vars=vs, out=out, kept=lib.unchanged(before, m1, m2, a, aa, f, beta, *ts))]
