import numpy as np
import astropy.units as u
import lib
from lib import call, lits

FREQ = {"Hz": u.Hz, "mHz": u.mHz, "1/yr": 1 / u.yr}


def ecc(c, r, shape):
    def one():
        k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "tiny", "low", "mid", "high"])
        return {"zero": lambda: 0.0, "tiny": lambda: lib.logu(r, 1e-7, 1e-3), "low": lambda: r.uniform(0.001, 0.15),
                "mid": lambda: r.uniform(0.15, 0.8), "high": lambda: 1 - lib.logu(r, 1e-4, 0.1)}[k]()
    return one() if shape == () else lib.tie(c, "e", np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape))


def harm(c, r, shape):
    lo, hi = {"one": (1, 1), "two": (2, 2), "few": (1, 6), "tens": (3, 60), "hundreds": (100, 900), "thousands": (1000, 10000), "beyond": (10001, 10**6)}[c["harm"]]
    one = lambda: r.randint(lo, hi)
    t = {"int": int, "float": float}.get(c["dtype"]) or getattr(np, c["dtype"])
    if t not in (int, float):
        hi = min(hi, int(np.iinfo(t).max))
        lo = min(lo, hi)
    if shape == ():
        return t(one())
    return lib.tie(c, "d", np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape).astype(t))


def run(c, r):
    if c["fn"] == "fn_dot" and c["harm"] == "thousands" and r.random() < .5:
        c = dict(c, harm="beyond")
    ut = LW.utils
    fn = c["fn"]
    n = lib.lots(r, r.randint(2, 5), 60, 300, .03)
    sh = {"scalar": [(), ()], "one": [(1,), (1,)], "vec": [(n,), (n,)], "outer": [(1, n), (r.randint(2, 3), 1)],
          "outer3": [(1, 1, n), (2, 2, 1)], "mat": [(2, n), (2, n)]}[c["shape"]]
    if fn == "peters_g":
        args = [harm(c, r, sh[0]), ecc(c, r, sh[1])]
        before = lib.snapshot(*args)
        out = call(ut.peters_g, *args)
        b = np.broadcast_arrays(*args)
        ins, shape = b, b[0].shape
    elif fn == "gsum":
        e = ecc(c, r, ())
        N = int(60 + 40 / (1 - e)**1.5)
        ns = np.arange(1, N + 1).astype(int if c["dtype"] == "int" else c["dtype"])
        args = [ns, e]
        before = lib.snapshot(*args)
        out = call(ut.peters_g, ns, e)
        ins, shape = [np.array([e])], (N,)
    elif fn == "peters_f":
        args = [ecc(c, r, sh[1])]
        before = lib.snapshot(*args)
        out = call(ut.peters_f, *args)
        ins, shape = args, np.shape(args[0])
    else:
        draw = lambda s, lo, hi: lib.logu(r, lo, hi) if s == () else np.array([lib.logu(r, lo, hi) for _ in range(int(np.prod(s)))]).reshape(s)
        m = (lib.tie(c, "m", draw(sh[1], 0.1, 1e6)) * u.Msun).to(c["mass"])
        f = (lib.tie(c, "f", draw(sh[1], 1e-8, 1)) * u.Hz).to(FREQ[c["freq"]])
        hn = harm(c, r, sh[0])
        if c["bad"] != "no":
            bad = {"zero": 0, "negative": -r.randint(1, 4), "fraction": 0.5}[c["bad"]]
            if np.ndim(hn):
                hn.flat[r.randrange(hn.size)] = bad
            else:
                hn = type(hn)(bad)
        args = [m, f, ecc(c, r, sh[1]), hn]
        before = lib.snapshot(*args)
        out = call(ut.fn_dot, *args) if r.random() < .5 else call(ut.fn_dot, m_c=m, f_orb=f, e=args[2], n=hn)
        ins = np.broadcast_arrays(m.si.value, f.si.value, args[2], hn)
        shape = ins[0].shape
    return [{"fn": fn, "in": [lits(x) for x in ins], "shape": list(shape), "out": out, "kept": lib.unchanged(before, *args),
             "_cfac": 1 + 1e-5, "nocanary": fn == "gsum"}]
