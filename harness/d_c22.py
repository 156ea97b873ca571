import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
import lib
import userfns
from lib import call, lits

YEAR = 31557600.0


def gtable(n, e):
    n, e = np.broadcast_arrays(n, e)
    return 0.8 - 1.1 * e + 0.01 * n


def eccs(c, r, ns):
    def one():
        k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "low", "mid", "high"])
        return {"zero": 0.0, "low": r.uniform(1e-4, 0.12), "mid": r.uniform(0.12, 0.7), "high": r.uniform(0.7, 0.95)}[k]
    return np.array([one() for _ in range(ns)])


UN = {"si": (u.kg, u.Hz, u.m, u.s), "astro": (u.Msun, u.Hz, u.kpc, u.yr), "odd": (u.Mjup, u.mHz, u.Mpc, u.Myr)}


def settings(c, r, tobs, kw, unit_t):
    """keyword arguments for the noise and the matching settings record"""
    inst = c["inst"] if c["inst"] != "omit" else "LISA"
    p = {"instrument": inst, "psd": "none", "t": lib.lit(tobs), "L": "auto", "approx": False, "noise": "auto", "sc": "none"}
    if c["inst"] != "omit":
        kw["instrument"] = inst
    if inst == "custom":
        p["psd"] = r.choice(["psdA", "psdB"])
        kw["custom_psd"] = userfns.PSD[p["psd"]]
    if c["noise"] != "omit":
        p["noise"] = c["noise"]
        kw["confusion_noise"] = None if c["noise"] == "none" else userfns.NOISE.get(c["noise"], c["noise"])
    if c["approx"] != "omit":
        kw["approximate_R"] = c["approx"] == "yes"
        p["approx"] = c["approx"] == "yes"
    if c["len"] == "auto":
        kw["L"] = "auto"
    elif c["len"] == "given":
        L = (lib.logu(r, 5e8, 2.57e9) * u.m).to(r.choice([u.m, u.km]))
        kw["L"] = L
        p["L"] = lib.lit(L)
    if c["sc"] == "user":
        p["sc"] = r.choice(["psdA", "psdB"])
        kw["interpolated_sc"] = userfns.PSD[p["sc"]]
    return p


def run(c, r):
    sn = LW.snr
    ns = {"one": 1, "few": 3, "several": lib.lots(r, 6, 40, 150)}[c["src"]]
    N = {"one": 1, "two": 2, "ten": 10, "fifty": 50}[c["nharm"]]
    far = c["nharm"] == "fifty" and c["src"] == "one" and c["fn"] == "ecc" and c["g"] == "exact" and c["ret"] != "terms" and r.random() < .25      # strongly eccentric: a thousand harmonics matter
    if far:
        N = r.randint(1001, 1400)
    mu, fu, du, tu = UN[c["units"]]
    mc = (lib.tie(c, "m", np.array([lib.logu(r, 0.1, 1e5) for _ in range(ns)])) * u.Msun).to(mu)
    top = 0.9 if c["fn"] == "circ" else 1.8 / N
    lo = min(1e-5, top / 10)
    if c["inst"] == "DECIGO":
        lo = 5e-4
    f = lib.tie(c, "f", np.array([lib.logu(r, lo, top) for _ in range(ns)]))
    if c["fr"] == "edge":
        f[r.randrange(ns)] = r.choice([1e-8, 4e-8, 1.0, 1.5, 60.0])
    if c["inst"] in ("LISA", "omit") and c["sc"] == "none" and (c["approx"] != "yes"):
        f = np.where((f * max(N, 2) > 1.99) & (f < 50), 1.9 / max(N, 2), f)
    f = (f * u.Hz).to(fu)
    d = (lib.tie(c, "d", np.array([lib.logu(r, 0.1, 1e5) for _ in range(ns)])) * u.kpc).to(du)
    e = lib.tie(c, "e", eccs(c, r, ns)) if not far else np.array([r.uniform(0.985, 0.995)])
    T = ({"short": lib.logu(r, 1e-3, 1), "four": 4.0, "long": r.uniform(4.5, 12)}[c["tobs"]] * u.yr).to(tu)
    kw = {}
    p = settings(c, r, T, kw, tu)
    ev = {"fn": c["fn"], "ret": "total", "mc": lib.si(mc), "f": lib.si(f), "d": lib.si(d), "e": lits(e), "T": lib.lit(T), "N": N if c["fn"] == "ecc" else 1,
          "g": "exact", "p": p, "sky": [], "_cfac": 1 + 1e-4}
    if c["g"] == "table":
        ev["g"] = "table"
        kw["interpolated_g"] = gtable
    if c["fn"] == "circ":
        if c["sky"] == "yes":
            lon, lat = np.array([r.uniform(0, 6.28) for _ in range(ns)]), np.array([np.arcsin(r.uniform(-1, 1)) for _ in range(ns)])
            psi, inc = np.array([r.uniform(0, 3.14) for _ in range(ns)]), np.array([np.arccos(r.uniform(-1, 1)) for _ in range(ns)])
            ev["sky"] = [[lib.num(x) for x in (lon[i], lat[i], psi[i], inc[i])] for i in range(ns)]
            au = r.choice([u.rad, u.deg])
            kw.update(position=SkyCoord(lon=lon * u.rad, lat=lat * u.rad, distance=d, frame="barycentrictrueecliptic"),
                      polarisation=(psi * u.rad).to(au), inclination=(inc * u.rad).to(au))
        before = lib.snapshot(mc, f, d)
        ev["out"] = call(sn.snr_circ_stationary, m_c=mc, f_orb=f, dist=d, t_obs=T, **kw)
    else:
        ev["ret"] = c["ret"]
        if c["ret"] == "max":
            kw["ret_max_snr_harmonic"] = True
        if c["ret"] == "terms":
            kw["ret_snr2_by_harmonic"] = True
        before = lib.snapshot(mc, f, d, e)
        ev["out"] = call(sn.snr_ecc_stationary, m_c=mc, f_orb=f, ecc=e, dist=d, t_obs=T, harmonics_required=N, **kw)
    ev["kept"] = lib.unchanged(before, mc, f, d, *([] if c["fn"] == "circ" else [e]))
    return [ev]
