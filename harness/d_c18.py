import numpy as np
import astropy.units as u
import lib
from lib import call, lits

EDGES = [0.15, np.nextafter(0.15, 0), 0.9999, np.nextafter(0.9999, 1), 1e-6, 0.9999 + 5e-5, 0.0, 0.151, 0.149]


def setup(lw, seed, tier):
    call(lw.evol.get_t_merge_ecc, ecc_i=0.5, a_i=1 * u.AU, beta=lw.utils.beta(1 * u.Msun, 1 * u.Msun))


def ecc(c, r):
    k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "small", "other", "large", "edges"])
    return {"zero": 0.0, "small": lib.logu(r, 1e-4, 0.149), "other": r.uniform(0.151, 0.9998), "large": 1 - lib.logu(r, 1e-7, 9e-5),
            "edges": float(r.choice(EDGES))}[k]


def run(c, r):
    ev_ = LW.evol
    ut = LW.utils
    fn = c["fn"]
    ns = {"scalar": 1, "one": 1, "few": 3, "several": lib.lots(r, 7)}[c["src"]]
    arr = lambda lo, hi: np.array([lib.logu(r, lo, hi) for _ in range(ns)])
    e = lib.tie(c, "e", np.array([ecc(c, r) for _ in range(ns)]))
    m1, m2 = (lib.tie(c, "m", arr(0.1, 100)) * u.Msun).to(c["munit"]), (lib.tie(c, "m", arr(0.1, 100)) * u.Msun).to(c["munit"])
    if c["mix"] == "yes":
        m2 = lib.other_unit(r, m2, [u.Msun, u.kg, u.g])
    a = (lib.tie(c, "f", arr(1e-3, 3)) * u.AU).to(c["lunit"])
    f = ut.get_f_orb_from_a(a, m1, m2).to({"Hz": u.Hz, "mHz": u.mHz, "1/yr": 1 / u.yr}[c["funit"]])
    beta = ut.beta(m1, m2)
    # a beta that does not belong to the masses: it takes precedence over them
    if c["mass"] == "both":
        beta = beta * r.uniform(0.2, 3)
    scalar = c["src"] == "scalar"
    pick = (lambda x: x[0]) if scalar else (lambda x: x)
    se, le = (0.15, 1 - 1e-4) if c["tols"] == "std" else (r.choice([0.0, 0.05, 0.3]), r.choice([0.95, 0.999, 0.9999]))
    base = {"m1": lib.si(m1), "m2": lib.si(m2), "e": lits(e), "se": lib.num(se), "le": lib.num(le), "beta": [], "a": [], "f": lib.si(f),
            "exact": c["exact"] != "no", "shape": [] if scalar else [ns], "_cfac": 1 + 1e-3, "fn": fn}
    if fn == "mandel":
        x = float(e[0]) if scalar else e
        return [dict(base, out=call(ev_.t_merge_mandel_fit, x))]
    if fn == "reject":
        opts = [{"m_1": pick(m1), "a_i": pick(a)}, {"m_2": pick(m2), "f_orb_i": pick(f)}, {"a_i": pick(a)}, {"beta": pick(beta)},
                {"m_1": pick(m1), "m_2": pick(m2)}, {"beta": pick(beta), "f_orb_i": pick(f)}, {"beta": pick(beta), "m_1": pick(m1), "f_orb_i": pick(f)}, {}]
        kw = r.choice(opts)
        g = r.choice(["circ", "ecc", "check"])
        if g == "circ":
            out = call(ev_.get_t_merge_circ, **kw)
        elif g == "ecc":
            out = call(ev_.get_t_merge_ecc, ecc_i=pick(e), **kw)
        else:
            out = call(ev_.check_mass_freq_input, **kw)
        return [dict(base, fn="reject", out=out, nocanary=True)]
    if fn == "source":
        if c["tols"] == "custom":
            base.update(se=lib.num(0.15), le=lib.num(1 - 1e-4))
        S = LW.source.Source(m_1=m1, m_2=m2, ecc=e, dist=arr(1, 20) * u.kpc, f_orb=f, interpolate_g=False, interpolate_sc=False)
        merged = [r.randint(0, 1) if c["merged"] == "some" else 0 for _ in range(ns)]
        S.merged = np.array(merged, dtype=bool)
        kw = {} if c["exact"] == "omit" else {"exact": c["exact"] == "yes"}
        which = [1] * ns
        saved = True
        if c["save"] == "no":
            kw["save_in_class"] = False
            saved = False
            if c["which"] == "mask":
                which = [r.randint(0, 1) for _ in range(ns)]
                kw["which_sources"] = np.array(which, dtype=bool)
        out = call(S.get_merger_time, **kw)
        stored = {"ok": True, "shape": [], "v": ["none"]} if S.t_merge is None else lib.enc(S.t_merge)
        return [dict(base, merged=merged, which=which, out=out, saved=saved, stored=stored)]
    kw = {}
    if c["mass"] != "beta":
        kw.update(m_1=pick(m1), m_2=pick(m2))
    if c["mass"] != "m":
        kw["beta"] = pick(beta)
        base["beta"] = lib.si(beta)
    if c["orbit"] != "f":
        # when both are given the separation takes precedence
        aa = a if c["orbit"] == "a" else a * r.uniform(0.5, 2)
        kw["a_i"] = pick(aa)
        base["a"] = lib.si(aa)
    if c["orbit"] != "a":
        kw["f_orb_i"] = pick(f)
    before = lib.snapshot(m1, m2, a, f, beta, e)
    if fn == "circ":
        out = call(ev_.get_t_merge_circ, **kw)
    else:
        ek = dict(kw)
        if c["exact"] != "omit":
            ek["exact"] = c["exact"] == "yes"
        if c["tols"] == "custom":
            ek.update(small_e_tol=se, large_e_tol=le)
        as_list = not scalar and r.random() < .1
        out = call(ev_.get_t_merge_ecc, ecc_i=float(e[0]) if scalar else [float(x) for x in e] if as_list else e, **ek)
    ev = dict(base, out=out, kept=lib.unchanged(before, m1, m2, a, f, beta, e))
    if fn == "alone":
        ev["single"] = []
        for i in range(ns):
            sub = {k: (v[i] if r.random() < .5 else v[i:i + 1]) if k in ("m_1", "m_2", "a_i", "f_orb_i", "beta") and np.ndim(v) else v for k, v in ek.items()}
            # either everything scalar or everything length one
            one = r.random() < .5
            sub = {k: (np.atleast_1d(v)[i:i + 1] if one else np.atleast_1d(v)[i]) if k in ("m_1", "m_2", "a_i", "f_orb_i", "beta") else v for k, v in ek.items()}
            ev["single"].append(call(ev_.get_t_merge_ecc, ecc_i=e[i:i + 1] if one else float(e[i]), **sub))
    return [ev]
