import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
import lib
from lib import call, lits


def gtable(n, e):
    n, e = np.broadcast_arrays(n, e)
    return 0.8 - 1.1 * e + 0.01 * n


def ecc(c, r):
    k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "low", "mid", "high"])
    return {"zero": 0.0, "low": r.uniform(1e-4, 0.12), "mid": r.uniform(0.12, 0.8), "high": r.uniform(0.8, 0.98)}[k]


def harmonics(c, r):
    hi = {"low": 6, "mid": 40, "high": 400}[c["hmax"]]
    one = r.randint(1, hi)
    k = c["harm"]
    if k in ("int", "npint"):
        return one if k == "int" else r.choice([np.int64, np.int32, np.int16, np.uint16, np.uint64])(one)
    if k == "one-array":
        return np.array([one])
    a = sorted(r.sample(range(1, max(hi, 8) + 1), r.randint(2, 5) if hi < 100 else lib.lots(r, r.randint(2, 5), 40, 150, .12)))
    if k == "unordered":
        r.shuffle(a)
    return a if k == "list" else np.array(a, dtype=r.choice([np.int32, np.int32, np.int16, np.uint16, np.uint32, np.uint64]) if k == "array32" else np.int64)


def run(c, r):
    st = LW.strain
    fn = c["fn"]
    reject = fn == "reject"
    if reject:
        fn = r.choice(["h_0_n", "h_c_n", "get_h_0_n", "get_h_c_n"])
    coll = fn.startswith("get_")
    ns = {"scalar": 1, "one": 1, "few": 3, "several": lib.lots(r, 6, 40, 120)}[c["src"]]
    ny = {"flat": 1, "one": 1, "many": r.randint(2, 4)}[c["steps"]] if not coll else 1
    n = harmonics(c, r)
    if reject:
        bad = 0 if getattr(getattr(n, "dtype", None), "kind", "i") == "u" else r.choice([0, -1])
        if np.ndim(n):
            n[r.randrange(len(n))] = bad
        else:
            n = type(n)(bad)
    sky = c["pos"] == "given"
    if coll and sky:
        c = dict(c, ecc="zero")
    mass, dist, freq = u.Unit(c["mass"]), u.Unit(c["dist"]), u.Unit(c["freq"])
    e = np.array([[ecc(c, r) for _ in range(ny)] for _ in range(ns)])
    f = np.array([[lib.logu(r, 1e-6, 1e-1) for _ in range(ny)] for _ in range(ns)])
    lib.tie(c, "e", e), lib.tie(c, "f", f)
    # one eccentricity per source for all its steps (also when there are as many steps as sources)
    flat_e = not coll and ny > 1 and r.random() < .35
    if flat_e:
        e[:, :] = e[:, :1]
        if r.random() < .6 and 1 < ns < 9:
            e, f = np.repeat(e[:, :1], ns, axis=1), np.array([[lib.logu(r, 1e-6, 1e-1) for _ in range(ns)] for _ in range(ns)])
            ny = ns
    f = (f * u.Hz).to(freq)
    d = (lib.tie(c, "d", np.array([lib.logu(r, 0.1, 1e6) for _ in range(ns)])) * u.kpc).to(dist)
    ev = {"fn": fn, "kind": "h0" if "h_0" in fn else "hc", "n": [int(x) for x in np.atleast_1d(n)], "e": [lits(x) for x in e],
          "f": [lib.si(x) for x in f], "d": lib.si(d), "g": "exact", "sky": [], "_cfac": 1 + 1e-4}
    kw = {}
    lon, lat = np.array([r.uniform(0, 6.28) for _ in range(ns)]), np.array([np.arcsin(r.uniform(-1, 1)) for _ in range(ns)])
    psi, inc = np.array([r.uniform(0, 3.14) for _ in range(ns)]), np.array([np.arccos(r.uniform(-1, 1)) for _ in range(ns)])
    if sky:
        ev["sky"] = [[lib.num(x) for x in (lon[i], lat[i], psi[i], inc[i])] for i in range(ns)]
        kw = {"position": SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=d, frame="barycentrictrueecliptic"),
              "polarisation": (psi * u.rad).to(r.choice([u.rad, u.deg])), "inclination": (inc * u.rad).to(r.choice([u.rad, u.deg]))}
    if not coll:
        mc = (lib.tie(c, "m", np.array([lib.logu(r, 0.1, 1e6) for _ in range(ns)])) * u.Msun).to(mass)
        ev["mc"] = [[x] for x in lib.si(mc)]
        if c["g"] == "table":
            ev["g"] = "table"
            kw["interpolated_g"] = gtable
        fa, ea = (f[:, 0], e[:, 0]) if c["steps"] == "flat" else (f, e[:, 0].copy() if flat_e else e)
        ma, da = mc, d
        if c["src"] == "scalar" and c["steps"] == "flat" and not sky:
            fa, ea, ma, da = fa[0], float(ea[0]), mc[0], d[0]
        before = lib.snapshot(ma, fa, ea, n, da)
        ev["out"] = call(getattr(st, fn), m_c=ma, f_orb=fa, ecc=ea, n=n, dist=da, **kw)
        ev["kept"] = lib.unchanged(before, ma, fa, ea, n, da)
        return [ev]
    m1 = (np.array([lib.logu(r, 0.1, 100) for _ in range(ns)]) * u.Msun).to(mass)
    m2 = (np.array([lib.logu(r, 0.1, 100) for _ in range(ns)]) * u.Msun).to(mass)
    if c["mix"] == "yes":
        m2 = lib.other_unit(r, m2, [u.Msun, u.kg, u.g])
    ev["mc"] = [[lib.si(m1)[i], lib.si(m2)[i]] for i in range(ns)]
    S = LW.source.Source(m_1=m1, m_2=m2, ecc=e[:, 0], dist=d, f_orb=f[:, 0], interpolate_g=False, interpolate_sc=False, **kw)
    if c["g"] == "table":
        ev["g"] = "table"
        S.g = gtable
    merged = [0] * ns
    if c["merged"] == "some":
        merged = [r.randint(0, 1) for _ in range(ns)]
        if all(merged) and reject:
            merged[0] = 0
    S.merged = np.array(merged, dtype=bool)
    which = [1] * ns
    if c["which"] != "omit" and not reject:
        which = {"mask": [r.randint(0, 1) for _ in range(ns)], "none-of-them": [0] * ns, "one-of-them": [0] * ns}[c["which"]]
        if c["which"] == "one-of-them":
            which[r.randrange(ns)] = 1
        wk = {"which_sources": np.array(which, dtype=bool)}
    else:
        wk = {}
    before = lib.snapshot(S.m_1, S.m_2, S.ecc, S.dist, S.f_orb, S.merged)
    ev.update(merged=merged, which=which)
    ev["out"] = call(getattr(S, fn), n, **wk)
    ev["kept"] = lib.unchanged(before, S.m_1, S.m_2, S.ecc, S.dist, S.f_orb, S.merged)
    return [ev]
