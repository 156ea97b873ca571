"""C26: construction of collections."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
import lib
import userfns
from lib import lits

ARGS = ["m_1", "m_2", "dist", "f_orb", "a", "ecc", "weights", "inclination", "polarisation"]
FUN = {"Hz": u.Hz, "mHz": u.mHz, "1/yr": 1 / u.yr}
NAMES = {u.Msun: "Msun", u.kg: "kg", u.Mjup: "Mjup", u.Hz: "Hz", u.mHz: "mHz", 1 / u.yr: "1/yr", u.kpc: "kpc", u.Mpc: "Mpc", u.pc: "pc", u.rad: "rad", u.deg: "deg", u.AU: "AU"}


def uname(x):
    if not isinstance(x, u.Quantity):
        return "none"
    for k, v in NAMES.items():
        if x.unit == k:
            return v
    return str(x.unit)


def enc(x):
    """values exactly as held (no unit conversion), shape, unit"""
    if x is None:
        return {"v": ["none"], "shape": [], "unit": "none"}
    a = np.asarray(x.value if isinstance(x, u.Quantity) else x)
    return {"v": lits(a), "shape": list(a.shape), "unit": uname(x)}


def dress(x, unit, style):
    """x: 1-d array"""
    if style == "scalar" and len(x) == 1:
        x = x[0].item()
    elif style == "list":
        x = [y.item() for y in x]
    return lib.form(x if unit is None else x * unit)


def run(c, r):
    if c["fn"] == "ensure":
        return ensure(c, r)
    n = {"one": 1, "few": r.randint(2, 4), "many": lib.lots(r, 7)}[c["n"]]
    style = dict(zip(ARGS, [c["s1"], c["s2"], c["s3"], c["s4"], c["s4"], c["s5"], c["s6"], c["s7"], c["s8"]]))
    L = {k: n for k in ARGS + ["position"]}
    wrong, arg = c["wrong"], c["arg"]
    present = {"m_1", "m_2", "dist", "ecc"} | {"f": {"f_orb"}, "a": {"a"}, "both": {"f_orb", "a"}}[c["orbit"]]
    if c["weights"] != "none":
        present.add("weights")
    if c["frame"] != "none":
        present.add("position")
        present |= {k for k, d in (("inclination", "inc"), ("polarisation", "pol")) if c[d] == "given"}
    elif wrong == "angle":
        present.add(r.choice(["inclination", "polarisation"]))
        present |= {k for k, d in (("inclination", "inc"), ("polarisation", "pol")) if c[d] == "given"}
    if wrong == "orbit":
        present -= {"f_orb", "a"}
    differ = unitless = False
    if wrong in ("short", "long", "onlyone") and arg in present and n > 1 and (arg != "a" or "f_orb" not in present):
        L[arg] = {"short": n - 1, "long": n + 1, "onlyone": 1}[wrong]
        # a single position or separation stands for all sources
        differ = not (arg in ("position", "a") and L[arg] == 1)
    if arg in ("position",) and wrong == "none" and n > 1 and r.random() < .3:
        L["position"] = 1
    ecc = np.zeros(n)
    if c["ecc"] == "some":
        ecc = np.array([r.choice([0.0, r.uniform(0.01, 0.9)]) for _ in range(L["ecc"])])
    elif c["ecc"] == "last":
        ecc = np.zeros(L["ecc"])
        ecc[-1] = r.choice([1e-9, 0.3])
    ecc = np.resize(ecc, L["ecc"])
    if c["frame"] != "none" and r.random() < .7:
        ecc = np.zeros(L["ecc"])
    if c["ecc"] == "int":
        ecc = np.zeros(L["ecc"], dtype=int)
    eccentric = bool(np.any(ecc > 0))
    rnd = lambda k, lo, hi: np.array([lib.logu(r, lo, hi) for _ in range(L[k])])
    w = np.array([r.uniform(0, 2) for _ in range(L["weights"])])
    if c["weights"] == "int":
        w = np.array([r.randrange(1, 9) for _ in range(L["weights"])])
    if r.random() < .15:
        w = w * 0
    ang = getattr(u, c["aunit"])
    val = {"m_1": (rnd("m_1", 0.1, 100), getattr(u, c["munit"])), "m_2": (rnd("m_2", 0.1, 100), getattr(u, r.choice([c["munit"], "Msun"]))),
           "dist": (rnd("dist", 0.1, 1e4), getattr(u, c["dunit"])), "f_orb": (rnd("f_orb", *r.choice([(1e-6, 1e-2), (1e-10, 1e3)])), FUN[c["funit"]]), "a": (rnd("a", *r.choice([(1e-3, 10), (1e-8, 1e6)])), u.AU),
           "ecc": (ecc, None), "weights": (w, None), "inclination": ((rnd("inclination", 0.01, 3) * u.rad).to(ang).value, ang),
           "polarisation": ((rnd("polarisation", 0.01, 3) * u.rad).to(ang).value, ang)}
    if wrong == "unitless" and arg in present & {"m_1", "m_2", "dist", "f_orb", "a"} and not (arg == "a" and "f_orb" in present):
        unitless = True
        val[arg] = (val[arg][0], None)
    kw = {k: dress(*val[k], style[k]) for k in ARGS if k in present}
    ev = {"fn": "new", "n": n, "args": {k: (enc(None) if k not in present else enc(val[k][0] if val[k][1] is None else val[k][0] * val[k][1])) for k in ARGS}, "from": c["frame"],
          "call": {"f": "f_orb" in present, "a": "a" in present, "pos": "position" in present, "inc": "inclination" in present, "pol": "polarisation" in present,
                   "eccentric": eccentric, "unitless": unitless, "differ": differ}}
    if "weights" not in present:
        ev["args"]["weights"]["v"] = []
    if "a" in present and val["a"][1] is not None:
        ev["args"]["a"]["v"] = lits((val["a"][0] * val["a"][1]).si.value)
    # the masses in SI for Kepler's law only
    ev["given"], ev["sep"] = [], []
    if "position" in present:
        lo = np.array([r.uniform(0, 2 * np.pi) for _ in range(L["position"])])
        la = np.arcsin([r.uniform(-1, 1) for _ in range(L["position"])])
        ev["given"] = [[lib.num(a), lib.num(b)] for a, b in zip(lo, la)]
        if L["position"] == 1 and r.random() < .5:
            lo, la = lo[0], la[0]
        kw["position"] = SkyCoord(lo * u.rad, la * u.rad, frame=c["frame"], **({"distance": 3 * u.kpc} if r.random() < .3 else {}))
    o = {"stat_tol": 0.01, "gw_lum_tol": 0.05, "n_proc": 1, "isc": True, "g": False, "inst": "LISA"}
    kw["interpolate_g"] = False
    if c["opts"] == "given":
        o.update(stat_tol=r.choice([0.1, 0.002]), gw_lum_tol=r.choice([0.01, 0.2]), n_proc=r.choice([1, 3]), isc=r.random() < .5, inst=r.choice(["LISA", "TianQin"]))
        kw.update(stat_tol=o["stat_tol"], gw_lum_tol=o["gw_lum_tol"], n_proc=o["n_proc"], interpolate_sc=o["isc"], sc_params={"instrument": o["inst"]})
    ev["opts"] = [lib.num(o["stat_tol"]), lib.num(o["gw_lum_tol"]), o["n_proc"], o["isc"], o["g"], o["inst"]]
    held = [kw[k] for k in ARGS if k in kw]
    before = lib.snapshot(*held)
    try:
        S = getattr(LW.source, c["cls"])(**kw)
    except Exception as e:
        ev["out"] = lib.err(e)
        ev["kept"] = lib.unchanged(before, *held)
        ev["obj"] = {}
        ev["nocanary"] = True
        return [ev]
    ev["out"] = {"ok": True}
    ev["kept"] = lib.unchanged(before, *held)
    ob = {k: enc(getattr(S, k)) for k in ("m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation")}
    if not ev["call"]["f"]:
        ob["f_orb"] = enc(S.f_orb.to(u.Hz))
        ev["args"]["m_1"]["v"], ev["args"]["m_2"]["v"] = lib.si(val["m_1"][0] * val["m_1"][1]), lib.si(val["m_2"][0] * val["m_2"][1])
        ob["m_1"]["v"], ob["m_2"]["v"] = lib.si(S.m_1), lib.si(S.m_2)
    ob.update(n=int(S.n_sources), len=len(S), position="none" if S.position is None else S.position.frame.name, lon=[], lat=[],
              merged=[int(x) for x in S.merged], opts=[lib.num(S.stat_tol), lib.num(S.gw_lum_tol), S.n_proc, bool(S.interpolate_sc), S.g is not None, S.sc_params["instrument"]],
              snr="none" if S.snr is None else "set", t_merge="none" if S.t_merge is None else "set", msh="none" if S.max_snr_harmonic is None else "set")
    if S.position is not None:
        ob["lon"], ob["lat"] = lib.si(S.position.lon), lib.si(S.position.lat)
        ref = kw["position"].transform_to("barycentrictrueecliptic")
        sep = SkyCoord(S.position.lon, S.position.lat, frame="barycentrictrueecliptic").separation(SkyCoord(ref.lon, ref.lat, frame="barycentrictrueecliptic"))
        ev["sep"] = lits(np.resize(np.atleast_1d(sep.to(u.rad).value), len(ob["lon"])))
    # random angles are drawn anew for every collection
    ev["drawn"] = True
    if "position" in present and r.random() < .5:
        S2 = getattr(LW.source, c["cls"])(**kw)
        ev["drawn"] = all(k in present or not np.any(np.asarray(getattr(S, k)) == np.asarray(getattr(S2, k))) for k in ("inclination", "polarisation"))
    ev["obj"] = ob
    out = [ev]
    if r.random() < .5:
        bad = lib.json.loads(lib.json.dumps(ev))
        k = r.choice(["m_1", "m_2", "dist", "ecc", "merged", "n", "snr", "opts", "call"])
        b = bad["obj"]
        if k == "merged":
            b[k][0] = 1
        elif k == "n":
            b[k] += 1
        elif k == "snr":
            b[k] = "set"
        elif k == "opts":
            b[k][0] = "0.5"
        elif k == "call":
            bad["call"]["differ"] = True
        else:
            b[k]["v"][-1] = "0.12345"
        out.append(dict(bad, canary=True, nocanary=True))
    ev["nocanary"] = True
    return out


def ensure(c, r):
    vals, given = [], []
    for s in (c["s1"], c["s2"], c["s3"], c["s4"], c["s5"])[:r.randint(1, 5)]:
        k = "none" if r.random() < .15 else s
        n = 1 if k == "scalar" else r.randint(1, 4)
        x = np.array([r.uniform(-5, 5) for _ in range(n)])
        un = r.choice([None, None, getattr(u, c["munit"]), FUN[c["funit"]], getattr(u, c["dunit"])])
        if k == "none":
            vals.append(None)
            given.append({"style": k, "v": ["none"], "unit": "none"})
            continue
        if un is None and r.random() < .3:
            x = x.astype(int)
        y = dress(x, un, k)
        given.append({"style": "array" if (k == "list" and un is not None) else k, "v": lits(x), "unit": uname(y)})
        vals.append(y)
    before = lib.snapshot(*[v for v in vals if v is not None])
    try:
        res, flag = LW.utils.ensure_array(*vals)
    except Exception as e:
        return [{"fn": "ensure", "given": given, "out": lib.err(e)}]
    kept = lib.unchanged(before, *[v for v in vals if v is not None])
    ev = {"fn": "ensure", "given": given, "out": {"ok": True}, "res": [enc(x) for x in res], "flag": bool(flag), "kept": kept, "nocanary": True}
    return [ev] + ([dict(ev, flag=not flag, canary=True)] if r.random() < .3 else [])
