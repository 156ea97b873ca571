import numpy as np
import astropy.units as u
import lib
from lib import call, lits, si

MASS = {"Msun": u.Msun, "kg": u.kg, "g": u.g, "earthMass": u.earthMass}
LEN = {"AU": u.AU, "m": u.m, "R_sun": u.R_sun, "km": u.km, "pc": u.pc}
FREQ = {"Hz": u.Hz, "mHz": u.mHz, "1/yr": 1 / u.yr, "1/day": 1 / u.day}


def shapes(c, r, k):
    """k argument shapes"""
    s = c["shape"]
    if s == "scalar":
        return [()] * k
    if s == "one":
        return [(1,)] * k
    if s == "empty":
        return [(0,)] * k
    n = lib.lots(r, r.randint(2, 6), 60, 400, .03)
    if s == "vec":
        return [(n,)] * k
    if s == "mat":
        return [(r.randint(2, 3), n)] * k
    if s == "cube":
        return [(2, 1, n)] * k
    out = [r.choice([(), (n,), (3, n), (3, 1)]) for _ in range(k)]
    return out


def draw(r, shape, lo, hi):
    if shape == ():
        return lib.logu(r, lo, hi)
    return np.array([lib.logu(r, lo, hi) for _ in range(int(np.prod(shape)))]).reshape(shape)


def whole(r, x):
    """the same as integers of a type that can hold them"""
    x = np.maximum(1, np.round(x))
    top = np.max(x, initial=1)
    t = r.choice([t for t in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64) if np.iinfo(t).max >= top])
    return x.astype(t) if np.ndim(x) else t(x) if r.random() < .5 else int(x)


def run(c, r):
    ut = LW.utils
    lo, hi = {"stellar": (0.1, 80), "massive": (1e4, 1e8), "extreme-ratio": (0.3, 1e7), "equal": (1, 50)}[c["range"]]
    m1 = lambda s: draw(r, s, lo, hi)
    elo, ehi = {"mid": (0.01, 0.9), "tiny": (1e-9, 1e-3), "high": (0.99, 0.99999), "mixed": (1e-6, 0.9999)}[c["ecc"]]

    def mass(x):
        return x if c["mass"] == "none" else (x * u.Msun).to(MASS[c["mass"]])

    def length(x):
        return x if c["length"] == "none" else (x * u.AU).to(LEN[c["length"]])

    fn = c["fn"]
    plain = False
    if fn in ("chirp_mass", "beta"):
        s = shapes(c, r, 2)
        a, b = m1(s[0]), m1(s[1])
        if c["range"] == "equal" and s[0] == s[1]:
            b = a + 0
        args = [mass(a), mass(b)]
        plain = c["mass"] == "none"
    elif fn in ("get_a_from_f_orb", "roundtrip_f"):
        s = shapes(c, r, 3)
        args = [(draw(r, s[0], 1e-9, 10) * u.Hz).to(FREQ[c["freq"]]), mass(m1(s[1])), mass(m1(s[2]))]
    elif fn in ("get_f_orb_from_a", "roundtrip_a"):
        s = shapes(c, r, 3)
        args = [length(draw(r, s[0], 1e-6, 100)), mass(m1(s[1])), mass(m1(s[2]))]
    else:
        s = shapes(c, r, 2)
        a, e = length(draw(r, s[0], 1e-6, 100)), draw(r, s[1], elo, ehi)
        if fn == "get_a_from_ecc" and r.random() < .3:
            e = np.where(np.array([r.random() < .4 for _ in range(np.size(e))]).reshape(np.shape(e)), 0.0, e) if np.ndim(e) else 0.0
        args = [e, a] if fn == "get_a_from_ecc" else [a, e]
        plain = c["length"] == "none"
    if c["mix"] == "yes":
        ms = [i for i, x in enumerate(args) if isinstance(x, u.Quantity) and x.unit.is_equivalent(u.kg)]
        if len(ms) == 2:
            i = r.choice(ms)
            args[i] = lib.other_unit(r, args[i], list(MASS.values()))
    if fn == "chirp_mass" and plain and r.random() < .6:
        args = [whole(r, x) for x in args]
    before = lib.snapshot(*args)
    if fn == "roundtrip_f":
        out = call(lambda f, p, q: ut.get_f_orb_from_a(ut.get_a_from_f_orb(f, p, q), p, q), *args)
    elif fn == "roundtrip_a":
        out = call(lambda a, p, q: ut.get_a_from_f_orb(ut.get_f_orb_from_a(a, p, q), p, q), *args)
    elif fn == "roundtrip_c0":
        out = call(lambda a, e: ut.get_a_from_ecc(e, ut.c_0(a, e)), *args)
    else:
        names = {"chirp_mass": ("m_1", "m_2"), "beta": ("m_1", "m_2"), "get_a_from_f_orb": ("f_orb", "m_1", "m_2"),
                 "get_f_orb_from_a": ("a", "m_1", "m_2"), "c_0": ("a_i", "ecc_i"), "get_a_from_ecc": ("ecc", "c_0")}[fn]
        f = getattr(ut, fn)
        out = call(f, *args) if r.random() < 0.5 else call(f, **dict(zip(names, args)))
    plain_si = [x.si.value if isinstance(x, u.Quantity) else x for x in args]
    b = np.broadcast_arrays(*plain_si)
    if fn == "roundtrip_f" or fn == "roundtrip_a" or fn == "roundtrip_c0":
        pass
    return [{"fn": fn, "in": [lits(x) for x in b], "shape": list(b[0].shape), "plain": plain, "out": out,
             "kept": lib.unchanged(before, *args), "_cfac": 1 + 1e-7}]
