"""C31: what collections and calculations announce about themselves."""
import contextlib
import io
import logging
import re

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord

import lib
import userfns
from lib import lits
from d_c21 import life, horizon, tolerance

G_TABLE = "linear"
PATTERNS = [r"Calculating SNR for (\d+) sources\b", r"(\d+) sources have already merged", r"(\d+) sources are stationary$", r"(\d+) sources are evolving$",
            r"(\d+) sources are stationary and circular", r"(\d+) sources are stationary and eccentric",
            r"(\d+) sources are evolving and circular", r"(\d+) sources are evolving and eccentric"]


@contextlib.contextmanager
def hear():
    """everything said on standard output and through the package's logger"""
    buf, rec, said = io.StringIO(), [], {}

    class H(logging.Handler):
        def emit(self, x):
            rec.append((x.levelname, x.getMessage()))
    hd, lg = H(), logging.getLogger("LEGWORK")
    lvl, others = lg.level, list(lg.handlers)
    for x in others:
        lg.removeHandler(x)
    lg.addHandler(hd)
    lg.setLevel(logging.DEBUG)
    try:
        with contextlib.redirect_stdout(buf):
            yield said
    finally:
        lg.removeHandler(hd)
        for x in others:
            lg.addHandler(x)
        lg.setLevel(lvl)
        said.update(text=buf.getvalue(), log=rec)


def ints(v):
    return {"ok": True, "kind": "i", "shape": [len(v)], "unit": "none", "v": [int(x) for x in v]}


def counts(text):
    """the number announced for each class (0 where the class is not mentioned); anything unexpected makes it -9"""
    lines = [x for x in text.split("\n") if x.strip()]
    v, used = [0] * 8, 0
    for k, p in enumerate(PATTERNS):
        hits = [m for m in (re.search(p, x.rstrip()) for x in lines) if m]
        used += len(hits)
        v[k] = int(hits[0].group(1)) if len(hits) == 1 else (0 if not hits else sum(int(m.group(1)) for m in hits))
    return v if used == len(lines) else [-9] * 8


def eccs(c, r, n):
    def one():
        k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "low", "mid"])
        return {"zero": 0.0, "low": r.uniform(1e-4, 0.15), "mid": r.uniform(0.15, 0.6)}[k]
    return np.array([one() for _ in range(n)])


def run(c, r):
    return {"snr": snr, "part": snr, "repr": rep, "new": new, "steps": steps}[c["fn"]](c, r)


def make(c, r, n, tq):
    m1, m2 = (np.array([lib.logu(r, 0.2, 80) for _ in range(n)]) * u.Msun for _ in "12")
    e = eccs(c, r, n)
    mc = LW.utils.chirp_mass(m1, m2).to(u.kg).value
    h = np.array([horizon(c, r) for _ in range(n)])
    f = np.clip((life(mc, 1.0, e) * h / tq.to(u.s).value)**(3 / 8), 1e-5, 1) * u.Hz
    return dict(m_1=m1, m_2=m2, ecc=e, dist=np.repeat(10.0, n) * u.kpc, f_orb=f, interpolate_g=False, interpolate_sc=c["interp"])


def settings(c, r):
    sc = {"instrument": c["inst"]}
    if c["inst"] == "custom":
        sc["custom_psd"] = userfns.PSD["psdA"]
    auto = (5 if c["inst"] in ("TianQin", "custom") else 4) * u.yr
    stored, asked = (lib.logu(r, 0.1, 20) * u.yr for _ in "12")
    if c["st"] == "given":
        sc["t_obs"] = stored
    tq = {"omit": stored if c["st"] == "given" else auto, "given": asked, "auto": auto}[c["t"]]
    kw = {"given": {"t_obs": asked}, "auto": {"t_obs": "auto"}, "omit": {}}[c["t"]]
    return sc, kw, tq, "auto" if tq is auto else lib.lit(tq)


def snr(c, r):
    n = {"one": 1, "few": r.randint(2, 3), "several": r.randint(4, 12)}[c["src"]]
    sc, kw, tq, lit = settings(c, r)
    S = getattr(LW.source, c["cls"])(sc_params=sc, **make(c, r, n, tq))
    if c["pre"] == "index":
        S = S[np.array([r.randrange(n) for _ in range(r.randint(1, n + 2))])]
        n = len(S)
    elif c["pre"] == "tol":
        S.gw_lum_tol = r.choice([0.005, 0.02, 0.2, 0.4])
    elif c["pre"] == "stat":
        S.stat_tol = lib.logu(r, 1e-4, 0.5)
    if r.random() < .4:
        S.get_merger_time()
    if c["merged"] != "none":
        S.merged = np.array([c["merged"] == "all" or r.random() < .4 for _ in range(n)])
        if S.t_merge is not None:
            S.t_merge[S.merged] = 0 * u.Gyr
    if c["again"] == "yes":
        S.get_snr()
    which = {"omit": None, "some": np.array([r.random() < .6 for _ in range(n)]), "none": np.zeros(n, dtype=bool), "all": np.ones(n, dtype=bool)}[c["sel"]]
    regime = None
    if c["fn"] == "part" or c["cls"] != "Source":
        regime = {"Source": r.choice(["stationary", "evolving"]), "Stationary": "stationary", "Evolving": "evolving"}[c["cls"]]
    f = (lambda o: getattr(o, "get_snr_" + regime)) if c["cls"] == "Source" and regime else (lambda o: o.get_snr)
    if c["cls"] == "Source":
        kw["which_sources"] = which
    else:
        which = None
    if regime != "stationary":
        kw["n_step"] = r.choice([5, 10])
    Q = S.copy()
    rec = {"fn": "part" if regime else "snr", "regime": regime or "", "inst": c["inst"], "t": lit, "tol": lib.num(S.stat_tol), "et": lib.num(S.ecc_tol), "m1": lib.si(S.m_1), "m2": lib.si(S.m_2),
           "f": lib.si(S.f_orb), "e": lits(S.ecc), "merged": [int(x) for x in S.merged], "sel": [1] * n if which is None else [int(x) for x in which]}
    try:
        with hear() as loud:
            a = f(S)(verbose=True, **kw)
        with hear() as calm:
            b = f(Q)(**kw) if r.random() < .5 else f(Q)(verbose=False, **kw)
    except Exception as e:
        return [dict(rec, out=lib.err(e), same=0, quiet=0, nocanary=True)]
    rec["same"] = int(lits(a) == lits(b) and all((x is None) == (y is None) and (x is None or lits(x) == lits(y)) for x, y in ((S.snr, Q.snr), (S.max_snr_harmonic, Q.max_snr_harmonic)))
                      and dict(S.sc_params) == dict(Q.sc_params))
    rec["quiet"] = int(calm["text"] == "" and calm["log"] == loud["log"])
    return [dict(rec, out=ints(counts(loud["text"])))]


def rep(c, r):
    n = {"one": 1, "few": r.randint(2, 3), "several": lib.lots(r, 9, 100, 1200)}[c["src"]]
    cls = c["cls"]
    if r.random() < .1:
        S, cls = LW.source.VerificationBinaries(), "VerificationBinaries"
        n = 16
    else:
        sc, kw, tq, lit = settings(c, r)
        S = getattr(LW.source, cls)(sc_params=sc, **make(c, r, n, tq))
        for _ in range(r.randint(0, 3)):
            k = r.choice(["mask", "index", "copy", "slice", "new"])
            if k == "mask":
                m = np.array([r.random() < .7 for _ in range(n)], dtype=bool)
                S, n = S[m], int(m.sum())
            elif k == "index":
                i = [r.randrange(n) for _ in range(r.randint(1, 5))] if n else []
                if i:
                    S, n = S[i], len(i)
            elif k == "copy":
                S = S.copy()
            elif k == "slice":
                S, n = S[1::2], n // 2
            elif n and n < 20:
                S, cls = S.evolve_sources(1 * u.yr, create_new_class=True), "Source"
    how = r.choice([repr, str, lambda x: "{}".format(x), lambda x: repr([x])[1:-1]])
    try:
        with hear() as said:
            x = how(S)
        out = {"ok": True, "kind": "s", "shape": [1], "unit": "none", "v": [x + said["text"]]}
    except Exception as e:
        out = lib.err(e)
    return [{"fn": "repr", "cls": cls, "n": n, "out": out, "nocanary": True}]


def new(c, r):
    n = {"small": r.randint(1, 30), "1000": 1000, "1001": 1001, "big": r.randint(1002, 1500)}[c["size"]]
    kw = dict(m_1=np.array([lib.logu(r, 0.2, 80) for _ in range(n)]) * u.Msun, m_2=np.repeat(1.0, n) * u.Msun, ecc=np.zeros(n) if c["pos"] != "none" or r.random() < .3 else np.repeat(.2, n),
              dist=np.repeat(10.0, n) * u.kpc, f_orb=np.repeat(1e-3, n) * u.Hz, interpolate_sc=c["interp"], n_proc=1)
    if c["g"] == "table":
        if r.random() < .5:
            kw["interpolate_g"] = True
    else:
        kw["interpolate_g"] = False
    ang = lambda hi: np.array([r.uniform(0, hi) for _ in range(n)]) * u.rad
    if c["pos"] != "none":
        kw["position"] = SkyCoord(ang(6.28), ang(1.5), distance=kw["dist"], frame=r.choice(["icrs", "galactic", "barycentrictrueecliptic"]))
        if c["inc"] == "given":
            kw["inclination"] = ang(1.57)
        if c["pol"] == "given":
            kw["polarisation"] = ang(3.14)
    rec = {"fn": "new", "n": n, "g": c["g"] == "table", "pos": c["pos"] != "none", "inc": c["inc"] == "given", "pol": c["pol"] == "given"}
    try:
        with hear() as said:
            getattr(LW.source, c["cls"])(**kw)
        v = [0, 0, 0, 0]
        for lvl, x in said["log"]:
            k = 0 if lvl == "INFO" and "random" in x and "inclination" in x else 1 if lvl == "INFO" and "random" in x and "polarisation" in x \
                else 2 if lvl == "WARNING" and "interpolate_g" in x else 3
            v[k] += 1
        v[3] += said["text"] != ""
        out = ints(v)
    except Exception as e:
        out = lib.err(e)
    return [dict(rec, out=out, nocanary=not out["ok"])]


def steps(c, r):
    n = {"one": 1, "few": r.randint(2, 3), "several": r.randint(4, 7)}[c["src"]]
    single = n == 1 and r.random() < .5
    m1, m2 = (np.array([lib.logu(r, 0.2, 80) for _ in range(n)]) * u.Msun for _ in "12")
    e = np.array([r.uniform(0.02, 0.8) for _ in range(n)])
    a = np.array([lib.logu(r, 1e-3, 1) for _ in range(n)]) * u.AU
    if c["steps"] == "shared":
        a[...] = a[0]
    f = LW.utils.get_f_orb_from_a(a, m1, m2)
    tm = LW.evol.get_t_merge_ecc(ecc_i=e, a_i=a, beta=LW.utils.beta(m1, m2)).to(u.s).value
    given = c["given"] == "own"
    if given:
        tm = tm * np.array([r.uniform(.9, 1) for _ in range(n)])
    first = float(min(tm))
    guard = first * r.uniform(.05, .3)
    k = r.randint(3, 6)
    lim = [float(x) for x in tm] if c["steps"] != "shared" else [first] * n
    rows = []
    # which sources have steps past the merger or within the guard time
    chosen = r.randrange(n)
    for i in range(n):
        top = lim[i] - guard
        t = np.sort(np.array([r.uniform(.01, .95) for _ in range(k)])) * top
        if c["near"] == "all" or (c["near"] == "one" and i == chosen):
            lo = 1 if c["near"] == "all" else r.randrange(1, k)
            t[lo:] = np.sort([lim[i] - guard * r.uniform(.05, .9) for _ in range(k - lo)])
        if c["past"] == "all" or (c["past"] == "one" and i == chosen):
            t[-1] = lim[i] * r.uniform(1.05, 2)
        t[0] = 0
        rows.append(t)
    rec = {"fn": "steps", "m1": lib.si(m1), "m2": lib.si(m2), "f": lib.si(f), "e": lits(e), "tbefore": lib.num(guard), "avoid": c["avoid"] != "no", "ts": [], "tevol": [], "nstep": k,
           "tmerge": lits(tm) if given else []}
    kw = dict(m_1=m1, m_2=m2, f_orb_i=f, t_before=(guard * u.s).to(r.choice([u.s, u.yr])))
    if single:
        kw.update({x: kw[x][0] for x in ("m_1", "m_2", "f_orb_i")})
    if c["steps"] == "shared":
        kw["timesteps"] = rows[chosen] * u.s
        rec["ts"] = [lits(rows[chosen])]
    elif c["steps"] == "each":
        kw["timesteps"] = np.array(rows) * u.s if not single else rows[0] * u.s
        rec["ts"] = [lits(x) for x in rows]
    else:
        t = np.array([x[-1] for x in rows])
        if single:
            t = t[0]
        kw.update(t_evol=t * u.s, n_step=k)
        rec["tevol"] = lits(t)
    if c["avoid"] != "omit":
        kw["avoid_merger"] = c["avoid"] == "yes"
    if given:
        kw["t_merge"] = tm * u.s if not single else tm[0] * u.s
    try:
        with hear() as said:
            LW.evol.evol_ecc(ecc_i=e[0] if single else e, **kw)
        v = [0, 0, 0]
        for lvl, x in said["log"]:
            v[0 if lvl == "WARNING" and x.startswith("Some timesteps are past the merger") else 1 if lvl == "WARNING" and x.startswith("All timesteps are too close to merger") else 2] += 1
        v[2] += said["text"] != ""
        out = ints(v)
    except Exception as x:
        out = lib.err(x)
    # (a verdict that the margins leave open may be falsified unnoticed)
    return [dict(rec, out=out, nocanary=not (out["ok"] and given))]
