"""C24: detector response factors, amplitude modulation, sky positions of collections."""
import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord
import lib
from lib import call, lits

SPECIAL = [0.0, np.pi / 4, np.pi / 2, 3 * np.pi / 4, np.pi, 3 * np.pi / 2]


def angles(c, r, n):
    def th():
        k = c["sky"]
        return r.choice([0.0, np.pi]) if k == "pole" else np.pi / 2 if k == "equator" else r.choice(SPECIAL[:5]) if k == "quarter" else np.arccos(r.uniform(-1, 1))

    def ps():
        return {"zero": 0.0, "quarter": np.pi / 4, "half": np.pi / 2, "wide": r.uniform(-10, 10), "any": r.uniform(0, np.pi)}[c["pol"]]

    def inc():
        return {"any": np.arccos(r.uniform(-1, 1)), "face": 0.0, "edge": np.pi / 2, "away": np.pi}[c["inc"]]
    ph = [r.choice(SPECIAL) if c["sky"] == "quarter" else r.uniform(0, 2 * np.pi) for _ in range(n)]
    return (np.array([th() for _ in range(n)]), np.array(ph), np.array([ps() for _ in range(n)]), np.array([inc() for _ in range(n)]))


def dress(c, r, x, shape):
    x = float(x[0]) if shape == () else np.asarray(x).reshape(shape)
    k = c["unit"] if c["unit"] != "mixed" else r.choice(["rad", "deg", "other"])
    return x if k == "plain" else x * u.rad if k == "rad" else (x * u.rad).to(u.deg if k == "deg" else r.choice([u.arcmin, u.hourangle, u.arcsec, u.mrad]))


def run(c, r):
    ut, st = LW.utils, LW.strain
    fn = c["fn"]
    if fn == "source":
        return source(c, r)
    n = lib.lots(r, r.randint(2, 5), 60, 400, .03)
    shape = {"scalar": (), "one": (1,), "vec": (n,), "mat": (2, n)}[c["shape"]]
    n = int(np.prod(shape)) if shape else 1
    th, ph, ps, inc = angles(c, r, n)
    ev = {"fn": fn, "shape": list(shape), "th": lits(th), "ph": lits(ph), "ps": lits(ps), "inc": lits(inc), "_cfac": 1 + 1e-5}
    if fn == "amp":
        lat = (np.pi / 2 - th).reshape(shape) if shape else np.pi / 2 - th[0]
        pos = SkyCoord(lon=(ph.reshape(shape) if shape else ph[0]) * u.rad, lat=lat * u.rad, frame="barycentrictrueecliptic")
        a = [dress(c, r, ps, shape), dress(c, r, inc, shape)]
        before = lib.snapshot(*a)
        ev["out"] = call(st.amplitude_modulation, position=pos, polarisation=a[0], inclination=a[1])
    else:
        f = {"Dp": ut.D_plus_squared, "Dx": ut.D_cross_squared, "Dpx": ut.D_plus_D_cross, "Fp": ut.F_plus_squared, "Fx": ut.F_cross_squared}[fn]
        a = [dress(c, r, x, shape) for x in ((th, ph) if fn[0] == "D" else (th, ph, ps))]
        before = lib.snapshot(*a)
        ev["out"] = call(f, *a)
    ev["kept"] = lib.unchanged(before, *a)
    return [ev]


def source(c, r):
    n = {"one": 1, "few": lib.lots(r, r.randint(2, 5), 60, 300, .03), "single": 1}[c["src"]]
    th, ph, ps, inc = angles(c, r, n)
    lat = np.pi / 2 - th
    frame = c["frame"].split("-")[0]
    dist = np.array([lib.logu(r, 0.1, 1e4) for _ in range(n)]) * u.kpc
    one = c["src"] == "single"
    kw = {"distance": dist[0] if one else dist} if c["frame"].endswith("distance") else {}
    lo, la = (ph[0], lat[0]) if one else (ph, lat)
    if c["frame"] == "icrs-vector":
        pos = SkyCoord(x=np.cos(la) * np.cos(lo), y=np.cos(la) * np.sin(lo), z=np.sin(la), representation_type="cartesian", frame="icrs")
        pos.representation_type = "unitspherical"
    else:
        pos = SkyCoord(lo * u.rad, la * u.rad, frame=frame, **kw)
    ref = pos.transform_to("barycentrictrueecliptic")
    pol, incl = (ps * u.rad).to(r.choice([u.rad, u.deg, u.hourangle])), (inc * u.rad).to(r.choice([u.rad, u.deg, u.arcmin]))
    if one:
        pol, incl = pol[0], incl[0]
    m1, m2 = np.array([lib.logu(r, 0.5, 50) for _ in range(n)]) * u.Msun, np.array([lib.logu(r, 0.5, 50) for _ in range(n)]) * u.Msun
    f = np.array([lib.logu(r, 1e-4, 1e-2) for _ in range(n)]) * u.Hz
    e = np.zeros(n)
    base = dict(m_1=m1[0] if one else m1, m_2=m2[0] if one else m2, dist=dist[0] if one else dist, f_orb=f[0] if one else f, ecc=0.0 if one else e,
                interpolate_g=False, interpolate_sc=False)
    S = LW.source.Source(position=pos, polarisation=pol, inclination=incl, **base)
    P = LW.source.Source(**base)
    ev = {"fn": "source", "from": frame, "given": [[lib.num(ph[i]), lib.num(lat[i])] for i in range(n)], "lon": lib.si(S.position.lon), "lat": lib.si(S.position.lat),
          "frame": S.position.frame.name, "ps": lits(S.polarisation.to(u.rad).value), "inc": lits(S.inclination.to(u.rad).value),
          "sep": lits(np.atleast_1d(SkyCoord(S.position.lon, S.position.lat, frame="barycentrictrueecliptic").separation(
              SkyCoord(ref.lon, ref.lat, frame="barycentrictrueecliptic")).to(u.rad).value)), "_cfac": 1 + 1e-5}
    ask = c["ask"]
    if ask in ("position", "amplitude"):
        ev["out"] = call(LW.strain.amplitude_modulation, position=S.position, polarisation=S.polarisation, inclination=S.inclination)
    elif ask == "strain":
        get = r.choice(["get_h_0_n", "get_h_c_n"])
        ev["out"] = call(lambda: (getattr(S, get)(2) / getattr(P, get)(2))[:, 0]**2)
    else:
        ev["out"] = call(lambda: (S.get_snr_stationary() / P.get_snr_stationary())**2)
    out = [ev]
    if r.random() < .3:
        out.append(dict(ev, lon=ev["lat"], lat=ev["lon"], canary=True, nocanary=True))
        out.append(dict(ev, frame="icrs", canary=True, nocanary=True))
    return out
