"""Replays a generated operation history (spec/SourceStore.tla) on the real classes and records what happened."""
import contextlib
import copy as cp
import hashlib
import inspect
import io
import json
import logging
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np
import astropy.units as u
from astropy.coordinates import SkyCoord

import lib
import userfns
from lib import call, lits, si, num

PROP = os.environ.get("VERIF_PROP", "")
REAL_G = PROP == "C28"
YEAR = 31557600.0
PROBE_F = np.array([5e-8, 3e-7, 1.3e-5, 2e-4, 9e-4, 1.7e-3, 6e-3, 2.3e-2, .11, .47, 1.3, 3.0])
PROBE_E = np.array([0, .02, .05, .1, .2, .3, .45, .6, .7, .8, .9, .97, .999])
KEYS = ["instrument", "custom_psd", "t_obs", "L", "approximate_R", "confusion_noise"]
FIELD = dict(zip(KEYS, ["instrument", "psd", "t", "L", "approx", "noise"]))
FN = dict(userfns.NOISE, **userfns.PSD)
OLD = "0.0.7.7"


# ------------------------------------------------------------------ parameter values
def pyval(k, v, r=None):
    """The python value of a parameter value of the specification"""
    if k == "custom_psd":
        return None if v == "none" else userfns.PSD[v]
    if k == "confusion_noise":
        return None if v == "none" else userfns.NOISE.get(v, v)
    if k == "t_obs" and v != "auto":
        # the unit is a function of the value: the same value is always given in the same unit
        return [float(v) / YEAR * u.yr, float(v) * u.s, float(v) / YEAR / 1e6 * u.Myr][sum(map(ord, v)) % 2]
    if k == "L" and v != "auto":
        return [float(v) * u.m, float(v) / 1e3 * u.km][sum(map(ord, v)) % 2]
    return v


def canon(p):
    def one(k):
        v = p[k]
        if k in ("custom_psd", "confusion_noise"):
            if callable(v):
                return userfns.NAMES.get(id(v), "unknown function")
            return "none" if v is None else str(v)
        if isinstance(v, u.Quantity):
            return lits(v.si.value)[0]
        if k == "approximate_R":
            return bool(v) if isinstance(v, (bool, np.bool_)) else False if v is None else bool(v)
        return str(v)
    return {FIELD[k]: one(k) for k in KEYS}


def as_dict(ch):
    return {x["k"]: pyval(x["k"], x["v"]) for x in ch}


# ------------------------------------------------------------------ observable state
def opt(x):
    return [] if x is None else [x]


def snap(o):
    pos = o.position
    d = {"cls": type(o).__name__, "n": int(len(o)), "nsrc": int(o.n_sources),
         "m1": si(o.m_1), "m2": si(o.m_2), "dist": si(o.dist), "f": si(o.f_orb), "ecc": lits(o.ecc),
         "w": opt(None if o.weights is None else lits(o.weights)),
         "pos": opt(None if pos is None else [lits(pos.lon.rad), lits(pos.lat.rad)]),
         "posd": opt(None if pos is None or pos.distance.unit == u.dimensionless_unscaled else lits(pos.distance.m)),
         "inc": opt(None if o.inclination is None else si(o.inclination)), "pol": opt(None if o.polarisation is None else si(o.polarisation)),
         "tm": opt(None if o.t_merge is None else si(o.t_merge)), "snr": opt(None if o.snr is None else lits(o.snr)),
         "msh": opt(None if o.max_snr_harmonic is None else [int(x) for x in o.max_snr_harmonic]),
         "merged": [int(x) for x in np.asarray(o.merged)],
         "units": [str(x.unit) for x in (o.m_1, o.m_2, o.dist, o.f_orb)] + ["" if x is None else str(x.unit) for x in (o.inclination, o.polarisation)],
         "mc": si(o.m_c), "a": si(o.a), "tol": num(o.gw_lum_tol), "stol": num(o.stat_tol), "nproc": int(o.n_proc),
         "ip": bool(o.interpolate_sc), "ig": bool(o.interpolate_g), "g": opt(None if o.g is None else lits(o.g(np.array([1, 2, 3]), np.array([.1, .3, .5])))),
         "et": num(o.ecc_tol), "hr": [int(x) for x in o.harmonics_required(PROBE_E)], "ms": [int(x) for x in o.max_strain_harmonic(PROBE_E)],
         "p": canon(o.sc_params), "keys": sorted(str(k) for k in o.sc_params.keys()),
         "curve": opt(None if o.sc is None else lits(o.sc(PROBE_F * u.Hz).to(1 / u.Hz).value))}
    if PROP == "C01":
        d["curvem"] = opt(None if o.sc is None else lits(o.sc((PROBE_F * 1e3).reshape(3, 4) * u.mHz).to(1 / u.Hz).value.ravel()))
    return d


def defaults():
    """every mutable default argument of the package's functions"""
    out = {}
    for mn in ("source", "visualisation", "snr", "strain", "psd", "evol", "utils"):
        mod = getattr(LW, mn)
        for name, x in list(vars(mod).items()):
            for nm, f in ([(name, x)] + [(name + "." + a, b) for a, b in vars(x).items()] if isinstance(x, type) else [(name, x)]):
                f = getattr(f, "__func__", getattr(f, "fget", f))
                if inspect.isfunction(f) and str(f.__module__).startswith("legwork"):
                    for k, v in list(enumerate(f.__defaults__ or ())) + sorted((f.__kwdefaults__ or {}).items()):
                        if isinstance(v, (dict, list, set, np.ndarray)):
                            out["%s.%s.%s" % (mn, nm, k)] = repr(v)
    return out


def file_hash(path):
    return hashlib.sha256(open(path, "rb").read()).hexdigest()


# ------------------------------------------------------------------ everything an operation says, on any channel
class Heard:
    def __init__(self):
        self.text = ""


@contextlib.contextmanager
def listening():
    h = Heard()
    buf = io.StringIO()
    rec = []

    class H(logging.Handler):
        def emit(self, r):
            rec.append(r.getMessage())
    hd = H()
    lg = logging.getLogger("LEGWORK")
    lvl = lg.level
    lg.addHandler(hd)
    lg.setLevel(logging.DEBUG)
    others = [x for x in lg.handlers if x is not hd]
    for x in others:
        lg.removeHandler(x)
    try:
        with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            warnings.simplefilter("always")
            yield h
            h.text = buf.getvalue() + "\n".join(rec) + "\n".join(str(x.message) for x in w)
    finally:
        lg.removeHandler(hd)
        for x in others:
            lg.addHandler(x)
        lg.setLevel(lvl)


# ------------------------------------------------------------------ making collections
MU, DU, FU, AU_ = [u.Msun, u.kg], [u.kpc, u.Mpc, u.m], [u.Hz, u.mHz], [u.AU, u.Rsun, u.m]


def orbit(r, ns, m1, m2, ecc):
    """orbital frequencies: lifetimes from weeks to much longer than any observation"""
    b = LW.utils.beta(m1, m2)
    f = np.zeros(ns)
    for i in range(ns):
        life = {"brief": lambda: lib.logu(r, 0.15, 3), "mission": lambda: lib.logu(r, 3, 60), "slow": lambda: lib.logu(r, 60, 1e4), "old": lambda: lib.logu(r, 1e4, 1e9)}[
            r.choice(["brief", "mission", "mission", "slow", "old", "old"])]() * u.yr
        a = (4 * b[i] * life)**0.25 / (1 - ecc[i]**2)**0.875
        f[i] = LW.utils.get_f_orb_from_a(a, m1[i], m2[i]).to(u.Hz).value
    return f * u.Hz


def make(op, r):
    """constructor arguments of a new collection"""
    n = op["n"]
    m1 = np.array([lib.logu(r, 0.3, 100) for _ in range(n)]) * u.Msun
    m2 = m1 * np.array([r.uniform(0.1, 1) for _ in range(n)])

    def e1():
        k = op["ecc"] if op["ecc"] != "mixed" else r.choice(["zero", "tiny", "ecc", "ecc"])
        if op["pos"]:
            k = "zero"
        if k == "ecc" and PROP in ("C10", "C11", "C12") and r.random() < .08:        # hundreds of harmonics
            return r.uniform(0.86, 0.955)
        return {"zero": lambda: 0.0, "tiny": lambda: lib.logu(r, 1e-4, 0.02), "ecc": lambda: r.choice([r.uniform(0.03, 0.3), r.uniform(0.2, 0.75)])}[k]()
    e = np.array([e1() for _ in range(n)])
    f = orbit(r, n, m1, m2, e).to(r.choice(FU))
    m1, m2 = m1.to(r.choice(MU)), m2.to(r.choice(MU))
    d = (np.array([lib.logu(r, 0.1, 1e4) for _ in range(n)]) * u.kpc).to(r.choice(DU))
    kw = dict(m_1=m1, m_2=m2, ecc=e, dist=d, gw_lum_tol=float(op["tol"]), stat_tol=r.choice([1e-2, 1e-2, 5e-3, 0.1, 0.0123456789]), n_proc=1,
              interpolate_sc=op["interp"], interpolate_g=op["g"] == "table")
    inp = {"m1": si(m1), "m2": si(m2), "dist": si(d), "ecc": lits(e), "f": [], "a": [], "nproc": 1}
    if op["from"] in ("f", "both"):
        kw["f_orb"] = f
        inp["f"] = si(f)
    if op["from"] in ("a", "both"):
        a = LW.utils.get_a_from_f_orb(f, m1, m2).to(r.choice(AU_))
        if op["from"] == "both":
            a = a * 1.7
        kw["a"] = a
        inp["a"] = si(a)
    if op["wts"]:
        kw["weights"] = np.array([r.uniform(0.1, 5) for _ in range(n)])
    if op["pos"]:
        lon, lat = np.array([r.uniform(0, 360) for _ in range(n)]) * u.deg, np.array([np.degrees(np.arcsin(r.uniform(-1, 1))) for _ in range(n)]) * u.deg
        frame = r.choice(["icrs", "galactic", "barycentrictrueecliptic"])
        kw["position"] = SkyCoord(lon, lat, distance=d, frame=frame)
        if r.random() < .8:
            kw["inclination"] = (np.array([np.arccos(r.uniform(0, 1)) for _ in range(n)]) * u.rad).to(r.choice([u.rad, u.deg]))
        if r.random() < .8:
            kw["polarisation"] = (np.array([r.uniform(0, np.pi) for _ in range(n)]) * u.rad).to(r.choice([u.rad, u.deg]))
    sc = as_dict(op["ch"])
    if sc or r.random() < .5:
        kw["sc_params"] = sc
    return {k: lib.form(v, ("gaps", "back", "as is", "offset", "swapped")) for k, v in kw.items()}, inp


def mutate_dict(d):
    """what the caller may do to its own dictionary and values afterwards"""
    for k in list(d):
        if isinstance(d[k], u.Quantity):
            d[k] *= 3
    d["t_obs"] = 0.123 * u.yr
    d["surprise"] = 1


def index_of(x, r=None):
    k = x["kind"]
    if k in ("int", "npint"):
        return x["v"][0] if k == "int" else np.int64(x["v"][0])
    if k == "list":
        return list(x["v"])
    if k == "array":
        small = [np.int32, np.int8, np.int16] + ([np.uint8, np.uint64] if min(x["v"] or [0]) >= 0 else [])
        t = (r.choice([None, None] + small) if r and max([abs(v) for v in x["v"]] or [0]) < 127 else None)
        return np.array(x["v"], dtype=t) if t else np.array(x["v"])
    if k in ("mask", "masklist"):
        return np.array(x["m"], dtype=bool) if k == "mask" else [bool(y) for y in x["m"]]
    if k == "slice":
        return slice(x["a"][0] if x["a"] else None, x["b"][0] if x["b"] else None, x["s"] if x["s"] != 1 else None)
    return {"float": 1.0, "string": "m_1", "floats": [0.0, 1.0], "none": None}[k]


def some(r, n):
    return np.array([r.random() < .6 for _ in range(n)], dtype=bool)


def effT(p):
    if p["t"] != "auto":
        return float(p["t"])
    return (4 if p["instrument"] in ("LISA", "DECIGO") else 5) * YEAR


def rebuilt(o, resolved_t=None, **over):
    """A fresh collection of the same sources and settings, through the constructor."""
    sc = {k: (v.copy() if isinstance(v, u.Quantity) else v) for k, v in o.sc_params.items()}
    sc.update(over)
    if resolved_t is not None:
        sc["t_obs"] = resolved_t
    kw = dict(m_1=o.m_1.copy(), m_2=o.m_2.copy(), ecc=np.array(o.ecc), dist=o.dist.copy(), f_orb=o.f_orb.copy(), n_proc=o.n_proc, position=o.position,
              polarisation=None if o.polarisation is None else o.polarisation.copy(), inclination=None if o.inclination is None else o.inclination.copy(),
              weights=None if o.weights is None else np.array(o.weights), gw_lum_tol=o.gw_lum_tol, stat_tol=o.stat_tol, interpolate_g=False,
              interpolate_sc=o.interpolate_sc, sc_params=sc)
    cls = type(o) if type(o) is not LW.source.VerificationBinaries else LW.source.Source
    x = cls(**kw)
    x.g = o.g
    x.t_merge = None if o.t_merge is None else o.t_merge.copy()
    x.merged = np.array(o.merged)
    return x


def filekey(name):
    return name if name.endswith((".h5", ".hdf5")) else name + ".h5"


ARRAYS = ("m_1", "m_2", "dist", "f_orb", "ecc", "weights", "inclination", "polarisation", "t_merge", "snr", "max_snr_harmonic", "merged")


def shared(objs, slots):
    """the attributes of which two collections use the same memory"""
    out = set()
    for i in slots & set(objs):
        for j in objs:
            if i == j:
                continue
            for a in ARRAYS:
                x = getattr(objs[i], a, None)
                if x is None:
                    continue
                for b in ARRAYS:
                    y = getattr(objs[j], b, None)
                    if y is not None and np.size(x) and np.size(y) and np.shares_memory(getattr(x, "value", x), getattr(y, "value", y)):
                        out.add(a)
    return sorted(out)


class World:
    def __init__(self, r, d):
        self.r, self.dir = r, d
        self.objs, self.handles, self.snaps, self.saved, self.inway = {}, {}, {}, {}, []
        # what the names A and B of the specification stand for: anything that does not end like an HDF5 file
        self.stems = {x: x + r.choice(["", "", "", ".hdf", ".H5", ".v1.5", "h5", "hdf5", ".h5.old", " c", ".he5", ".hdf5x"]) for x in "AB"}

    def path(self, name):
        return os.path.join(self.dir, self.stems[name[0]] + name[1:])

    def files(self):
        out = {}
        for f in sorted(os.listdir(self.dir)):
            name = next((x + e for x in "AB" for e in (".h5", ".hdf5") if f == self.stems[x] + e), f)
            out[name] = file_hash(os.path.join(self.dir, f))
        return out

    def obstacle(self, op, o):
        """something that is not a collection may already be where the next file is to be saved"""
        for p in self.inway:
            os.path.lexists(p) and os.remove(p)
        self.inway = []
        if PROP != "C08" or op["op"] != "save" or o is None or filekey(op["name"]) in self.saved or self.r.random() > .4:
            return
        p = self.path(filekey(op["name"]))
        k = self.r.choice(["empty", "text", "link", "readonly"])
        q = p
        if k == "link":
            q = os.path.join(self.dir + "-elsewhere", os.path.basename(p))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.symlink(q, p)
        with open(q, "w") as f:
            f.write("" if k == "empty" else "not a collection\n")
        if k == "readonly":
            os.chmod(q, 0o444)
        self.inway = [p, q]

    # -------------------------------------------------------------- one operation
    def step(self, op):
        r = self.r
        o = self.objs.get(op["o"])
        self.obstacle(op, o)
        before_files = self.files()
        ev = {"fn": op["op"], "op": op, "nocanary": True, "src": [], "inp": [], "val": [], "sel": [], "which": [], "also": {"kind": "no", "pos": [], "v": []},
              "dictkept": True, "said": [], "a": [], "b": [], "c": []}
        if op["op"] not in ("new", "load"):
            if o is None:
                return None
            ev["a"] = [json.loads(self.snaps[op["o"]])]
        n0 = len(userfns.CALLS)
        new = {}
        with listening() as heard:
            res = getattr(self, "do_" + op["op"])(op, o, ev, new)
            if res is None:
                return None
        ev["out"] = res
        big = {}
        for name, nf, _ in userfns.CALLS[n0:ev.pop("_ncalls", None)]:
            if nf >= 1000:
                big[name] = big.get(name, 0) + 1
        ev["big"] = max(big.values()) if big else 0
        t = heard.text
        # the warning about another version names both
        ev["said"] = sorted({k for k, w in (("custom_psd", "custom_psd"), ("confusion_noise", "confusion_noise")) if w in t}
                            | ({"version"} if LW.__version__ in t and (op["op"] != "load" or self.other in t) else set()))
        # who changed
        if op["op"] == "drop":
            self.objs.pop(op["o"])
            self.handles.pop(op["o"], None)
            self.snaps.pop(op["o"])
        for slot, x in new.items():
            self.objs[slot] = x
            self.handles.pop(slot, None)
        chg = []
        for slot, x in self.objs.items():
            s = json.dumps(snap(x))
            if slot in new:
                ev["c"] = [json.loads(s)]
            elif slot == op["o"]:
                ev["b"] = [json.loads(s)]
            elif s != self.snaps[slot]:
                chg.append(slot)
            self.snaps[slot] = s
        ev["chg"] = chg
        ev["shared"] = shared(self.objs, set(new) | {op["o"]}) if PROP == "C06" else []
        ev.update(ev.pop("_side", {}))
        after_files = self.files()
        ev["defaultskept"] = PROP != "C06" or defaults() == DEFAULT_ARGS
        ev["files"] = sorted(after_files)
        ev["hadfiles"] = sorted(before_files)
        ev["filechg"] = sorted(f for f in set(before_files) | set(after_files) if before_files.get(f) != after_files.get(f))
        return ev

    def do_new(self, op, o, ev, new):
        r = self.r
        if op["cls"] == "VB":
            def go():
                new[op["o"]] = LW.source.VerificationBinaries()
                return 0
            return call(go)
        kw, inp = make(op, r)
        d = kw.get("sc_params")
        before = None if d is None else (dict(d), [repr(v) for v in d.values()])
        ev["inp"] = [dict(inp, stol=num(kw["stat_tol"]), w=opt(lits(kw["weights"]) if "weights" in kw else None))]

        def go():
            new[op["o"]] = getattr(LW.source, op["cls"])(**kw)
            return 0
        out = call(go)
        if d is not None:
            ev["dictkept"] = before == (dict(d), [repr(v) for v in d.values()])
            mutate_dict(d)
        return out

    def target(self, op, o, ev):
        if op["via"] == "handle":
            h = self.handles.get(op["o"])
            if h is not None:
                ev["op"] = dict(op, via="stale" if h[1] == "stale" else "obj")
                return h[0]
            ev["op"] = dict(op, via="obj")
        return o.sc_params

    def do_set(self, op, o, ev, new):
        (c,) = op["ch"]
        if op["via"] == "aug":
            cur = o.sc_params.get(c["k"]) if c["k"] in KEYS else None
            if isinstance(cur, u.Quantity):
                fac = self.r.choice([2, 0.5, 1.25, 1])
                ev["op"] = dict(op, via="obj", ch=[{"k": c["k"], "v": lits((cur * fac).si.value)[0]}])

                def go():
                    o.sc_params[c["k"]] *= fac
                    return 0
                return call(go)
            op = ev["op"] = dict(op, via="obj")
        t = self.target(op, o, ev)
        v = pyval(c["k"], c["v"])

        def go():
            t[c["k"]] = v
            return 0
        out = call(go)
        if isinstance(v, u.Quantity):
            v *= 3
        return out

    def do_setdefault(self, op, o, ev, new):
        t = self.target(op, o, ev)
        (c,) = op["ch"]

        def go():
            t.setdefault(c["k"], pyval(c["k"], c["v"]))
            return 0
        return call(go)

    def do_update(self, op, o, ev, new):
        t = self.target(op, o, ev)
        d = as_dict(op["ch"])
        before = (dict(d), [repr(v) for v in d.values()])
        form = self.r.choice(["dict", "kwargs", "pairs", "both"])

        def go():
            if form == "kwargs":
                t.update(**d)
            elif form == "pairs":
                t.update(list(d.items()))
            elif form == "both" and len(d) > 1:
                k = list(d)[0]
                t.update({k: d[k]}, **{x: y for x, y in d.items() if x != k})
            else:
                t.update(d)
            return 0
        out = call(go)
        ev["dictkept"] = before == (dict(d), [repr(v) for v in d.values()])
        mutate_dict(d)
        return out

    def do_ior(self, op, o, ev, new):
        t = self.target(op, o, ev)
        d = as_dict(op["ch"])

        def go():
            x = t
            x |= d
            return 0
        out = call(go)
        mutate_dict(d)
        return out

    def do_assign(self, op, o, ev, new):
        d = as_dict(op["ch"])
        before = (dict(d), [repr(v) for v in d.values()])
        old = canon(o.sc_params)

        def go():
            o.sc_params = d
            return 0
        out = call(go)
        ev["dictkept"] = before == (dict(d), [repr(v) for v in d.values()])
        mutate_dict(d)
        h = self.handles.get(op["o"])
        if h is not None and out["ok"] and h[1] == "current":
            if canon(o.sc_params) == old:
                self.handles.pop(op["o"])       # whether an equal set replaces the object is not specified
            else:
                self.handles[op["o"]] = (h[0], "stale")
        return out

    def do_remove(self, op, o, ev, new):
        t = self.target(op, o, ev)

        def go():
            how = op["how"]
            if how == "pop":
                t.pop("t_obs")
            elif how == "popdef":
                t.pop("instrument", None)
            elif how == "popitem":
                t.popitem()
            elif how == "clear":
                t.clear()
            else:
                del t["confusion_noise"]
            return 0
        return call(go)

    def do_keep(self, op, o, ev, new):
        self.handles[op["o"]] = (o.sc_params, "current")
        return call(lambda: 0)

    def do_read(self, op, o, ev, new):
        def go():
            w = op["what"]
            if w == "params":
                p = o.sc_params
                list(p.items()), p.get("t_obs"), "L" in p, len(p), p.get("nothing"), dict(p), repr(p), p == dict(p)
            elif w == "paramscopy":
                c = o.sc_params.copy()
                cp.copy(o.sc_params)
                c2 = dict(o.sc_params)
                c2["t_obs"] = 77 * u.yr
                if type(c) is dict:
                    c["instrument"] = "elsewhere"
            elif w == "curve":
                if o.sc is not None:
                    o.sc(PROBE_F * u.Hz)
            elif w == "derived":
                o.m_c, o.a, o.n_sources, o.ecc_tol, o.gw_lum_tol
            elif w == "repr":
                repr(o), str(o), len(o)
            elif w == "mask":
                if o.sc_params["instrument"] in ("LISA", "TianQin", "DECIGO", "custom"):
                    o.get_source_mask(circular=True, stationary=False)
            else:
                o.harmonics_required(np.asarray(o.ecc)), o.max_strain_harmonic(np.asarray(o.ecc))
            return 0
        return call(go)

    def do_settol(self, op, o, ev, new):
        def go():
            o.gw_lum_tol = float(op["tol"])
            return 0
        return call(go)

    def do_setattr(self, op, o, ev, new):
        r, a, n = self.r, op["attr"], len(o)
        if a in ("m_1", "m_2", "dist", "f_orb", "a"):
            cur = getattr(o, a)
            if a in ("f_orb", "a"):
                fac = np.array([1.0 if m else r.uniform(0.7, 1.4) for m in o.merged])
            else:
                fac = np.array([r.uniform(0.6, 1.5) for _ in range(n)])
            v = (cur * fac).to({"m_1": u.kg, "m_2": u.Msun, "dist": u.Mpc, "f_orb": u.mHz, "a": u.km}[a] if r.random() < .5 else cur.unit)
            ev["val"] = si(v)
        elif a == "weights":
            v = np.array([r.uniform(0.1, 5) for _ in range(n)])
            ev["val"] = lits(v)
        else:
            v = r.choice([1, 2, 3]) if a == "n_proc" else r.choice([1e-2, 3e-3, 0.05])
            ev["val"] = [num(v)]

        def go():
            setattr(o, a, v)
            return 0
        out = call(go)
        if a in ("m_1", "m_2", "f_orb", "a"):
            o.t_merge = None
        if a == "n_proc":
            o.n_proc = int(v)
        return out

    def do_forbidden(self, op, o, ev, new):
        a = op["attr"]
        v = {"m_c": o.m_c * 2, "n_sources": 3, "ecc_tol": 0.1, "a": np.ones(len(o))}[a]

        def go():
            setattr(o, a, v)
            return 0
        return call(go)

    def do_poke(self, op, o, ev, new):
        a = op["attr"]
        x = getattr(o, a)
        if x is None or len(o) == 0:
            return call(lambda: 0)
        live = ~np.asarray(o.merged)
        fac = {"m_1": 1.3, "m_2": 0.8, "dist": 2.0, "f_orb": 0.8, "ecc": 0.9, "weights": 2.0, "inclination": 0.5, "polarisation": 0.5, "snr": 3.0, "t_merge": 0.5}.get(a, 2)

        def go():
            i = np.where(live)[0]
            if self.r.random() < .5:
                i = i[:1]
            x[i] = x[i] * fac
            return 0
        out = call(go)
        if a in ("m_1", "m_2", "f_orb", "ecc"):
            o.t_merge = None
        return out

    def do_index(self, op, o, ev, new):
        x = op["idx"]

        if PROP == "C05" and self.r.random() < .06 and 0 < len(o) <= 8 and op["o"] not in ("", None) and type(o).__name__ != "VerificationBinaries":
            return self.big_index(op, o, ev)
        deep = PROP != "C28" and self.r.random() < .3

        def go():
            new[op["to"]] = (cp.deepcopy(o) if deep else o.copy()) if x["kind"] == "copy" else o[index_of(x, self.r)]
            return 0
        return call(go)

    def big_index(self, op, o, ev):
        """the same question of a large collection (made of the same sources)"""
        r = self.r
        k = r.choice([20, 40])
        big = o[np.tile(np.arange(len(o)), k)]
        if len(big) != k * len(o):
            return None
        for a in ("dist", "ecc"):          # (so that the sources differ)
            setattr(big, a, getattr(big, a) * (1 - 1e-4 * np.arange(len(big))))
        n = len(big)
        kind = r.choice(["int", "npint", "list", "array", "mask", "slice", "copy"])
        x = {"kind": kind, "v": [], "m": [], "a": [], "b": [], "s": 1}
        if kind in ("int", "npint"):
            x["v"] = [r.randrange(-n, n)]
        elif kind in ("list", "array"):
            x["v"] = [r.randrange(-n, n) for _ in range(r.choice([3, 30, n, n + 20]))]
        elif kind == "mask":
            x["m"] = [r.random() < .5 for _ in range(n)]
        elif kind == "slice":
            x.update(a=r.choice([[], [r.randrange(n)]]), b=r.choice([[], [r.randrange(n)]]), s=r.choice([1, 1, 2, -1, -3, 7]))
        ev["op"] = dict(op, idx=x)
        ev["a"] = [snap(big)]
        got = {}

        def go():
            got["c"] = big.copy() if kind == "copy" else big[index_of(x)]
            return 0
        out = call(go)
        ev["_side"] = {"b": [snap(big)], "c": [snap(got["c"])] if out["ok"] else []}
        return out

    def do_drop(self, op, o, ev, new):
        return call(lambda: 0)

    def do_switchsc(self, op, o, ev, new):
        old = o.interpolate_sc

        def go():
            o.interpolate_sc = op["on"]
            o.set_sc()
            return 0
        out = call(go)
        if not out["ok"]:
            o.interpolate_sc = old
        return out

    def do_setg(self, op, o, ev, new):
        def go():
            o.set_g(op["g"] == "table")
            return 0
        return call(go)

    def do_save(self, op, o, ev, new):
        def go():
            if op["over"]:
                o.save(self.path(op["name"]), overwrite=True)
            else:
                o.save(self.path(op["name"]))
            return 0
        out = call(go)
        if out["ok"]:
            key = filekey(op["name"])
            self.saved[key] = self.snaps[op["o"]]
            self.inway = []
        return out

    def do_load(self, op, o, ev, new):
        import h5py
        key = filekey(op["name"])
        p = self.path(key)
        have = os.path.exists(p)
        orig = None
        self.other = ""
        if have:
            ev["src"] = [json.loads(self.saved[key])]
            if op["ver"] == "old":
                orig = open(p, "rb").read()
                # another version, also a later one
                self.other = self.r.choice([OLD, "99.7.7", LW.__version__ + ".77", "0"])
                with h5py.File(p, "a") as f:
                    f.attrs["legwork_version"] = self.other
        kw = {}
        if op["sc"] != "stored":
            kw["interpolate_sc"] = op["sc"] == "on"
        if op["np"]:
            kw["n_proc"] = op["np"]
        if op["g"] == "off":
            kw["interpolate_g"] = False

        def go():
            new[op["o"]] = getattr(LW.source, op["via"]).from_file(self.path(op["name"]), **kw)
            return 0
        out = call(go)
        if orig is not None:
            open(p, "wb").write(orig)
        return out

    def do_mergertime(self, op, o, ev, new):
        n = len(o)
        if n == 0:
            return None
        kw = {"save_in_class": op["save"]} if not op["save"] or self.r.random() < .5 else {}
        sel = list(range(1, n + 1))
        if op["which"] == "some" and not op["save"]:
            m = some(self.r, n)
            kw["which_sources"] = m
            sel = [i + 1 for i in range(n) if m[i]]
        if not op["exact"] or self.r.random() < .5:
            kw["exact"] = op["exact"]
        ev["sel"] = sel
        return call(o.get_merger_time, **kw)

    def lifetimes(self, o):
        if o.t_merge is not None:
            return o.t_merge.to(u.Gyr)
        t = LW.evol.get_t_merge_ecc(ecc_i=np.array(o.ecc), f_orb_i=o.f_orb, m_1=o.m_1, m_2=o.m_2)
        return np.where(o.merged, 0, t.to(u.Gyr).value) * u.Gyr

    def do_evolve(self, op, o, ev, new):
        r, n = self.r, len(o)
        if n == 0:
            return None
        life = self.lifetimes(o).value
        alive = life[life > 0]
        t = op["t"]
        exact = 0
        if len(alive) == 0:
            t = "zero" if t in ("part", "some", "exact") else t
        if t == "zero":
            te = 0.0 * u.Gyr
        elif t == "part":
            te = r.uniform(0.05, 0.9) * min(alive) * u.Gyr
        elif t == "all":
            te = (1.1 * max(alive) if len(alive) else 1.0) * u.Gyr
        elif t == "exact":
            k = r.choice([i for i in range(n) if life[i] > 0])
            te = np.array([r.choice([0.5, 0.9, 1.2]) * x for x in life]) * u.Gyr
            if all(x == life[k] or life[k] <= 0.9 * x or life[k] >= 1.001 * x for x in life) and r.random() < .7:
                te = life[k] * u.Gyr
            else:
                te[k] = life[k] * u.Gyr
            exact = k + 1
        elif t == "some":
            # between two lifetimes, well away from both
            cand = [f * x for x in alive for f in (1.05, 0.5) if all(y >= f * x / 0.9 or y <= f * x / 1.001 for y in life)]
            te = (r.choice(cand) if cand else 0.3 * min(alive)) * u.Gyr
        else:
            te = np.array([r.choice([0.2, 0.6, 0.9] + ([1.3] if t == "each" else [])) * (x if x > 0 else 0.01) for x in life]) * u.Gyr
            if t == "eachpart":
                te = np.minimum(te.value, 0.9 * np.where(life > 0, life, 1)) * u.Gyr
        if not exact:
            te = te.to(r.choice([u.Gyr, u.yr, u.Myr, u.s]))
        ev["val"] = si(te) if te.ndim else [lits(te.si.value)[0]] * n
        ev["which"] = [exact]
        ev["dictkept"] = True
        keep = te.copy()

        def go():
            if op["to"]:
                new[op["to"]] = o.evolve_sources(te, create_new_class=True)
            elif r.random() < .5:
                o.evolve_sources(te)
            else:
                o.evolve_sources(t_evol=te, create_new_class=False)
            return 0
        out = call(go)
        ev["dictkept"] = bool(np.all(keep == te))
        return out

    def do_snr(self, op, o, ev, new):
        r, n = self.r, len(o)
        if n == 0:
            return None
        cls = type(o).__name__
        fn = op["fn"]
        limited = fn == "get_snr" and cls in ("Stationary", "Evolving")
        ch = [c for c in op["ch"] if pyval(c["k"], c["v"]) is not None and (not limited or c["k"] in ("t_obs", "instrument", "custom_psd"))]
        kw = as_dict(ch)
        steps = r.choice([2, 3, 4])
        if not (fn == "get_snr_stationary" or (limited and cls == "Stationary")):
            kw["n_step"] = steps
        sel = list(range(1, n + 1))
        wanted = list(sel)
        if op["which"] == "some" and not limited:
            m = some(r, n)
            kw["which_sources"] = m
            wanted = [i + 1 for i in range(n) if m[i]]
            if fn != "get_snr":
                sel = list(wanted)
        ev["op"] = dict(op, ch=ch, nstep=steps)
        ev["sel"], ev["which"] = sel, wanted
        also = op["also"]
        if PROP == "C10":
            also = "unmerged"
        if PROP == "C12":
            also = "resolved"
        vb = cls == "VerificationBinaries"
        twin = None
        if vb and also not in ("fresh", "resolved"):
            also = "no"
        if also in ("alone", "permuted", "procs", "tiled", "unmerged"):
            twin = o.copy()
            twin.sc_params = {k: (v.copy() if isinstance(v, u.Quantity) else v) for k, v in o.sc_params.items()}
        before = None
        if also in ("fresh", "resolved"):
            before = o if vb else o.copy()
            if vb:
                before = rebuilt(o)
        n1 = len(userfns.CALLS)
        del userfns.CALLS[:]
        vals = [v.copy() if isinstance(v, u.Quantity) else None for v in kw.values()]
        out = call(getattr(o, fn), **kw)
        ev["_ncalls"] = len(userfns.CALLS)
        ev["dictkept"] = all(x is None or bool(np.all(x == y)) for x, y in zip(vals, kw.values()))
        if not out["ok"]:
            return out
        # the same sources in other company
        if also in ("alone", "permuted", "procs", "tiled", "unmerged"):
            if also == "alone":
                cand = [w for w in wanted] or [1]
                idx = [r.choice(cand) - 1]
            elif also == "permuted":
                idx = list(range(n))
                r.shuffle(idx)
            elif also == "tiled":           # the same sources many times over
                idx = list(range(n)) * (r.randint(30, 130) // n + 1)
                r.shuffle(idx)
            elif also == "unmerged":
                idx = [i for i in range(n) if not ev["a"][0]["merged"][i]]
            else:
                idx = list(range(n))
                twin.n_proc = 2
            if idx:
                k2 = {k: (v.copy() if isinstance(v, u.Quantity) else v) for k, v in kw.items() if k != "which_sources"}
                other = twin if also == "procs" else twin[np.array(idx)]
                o2 = call(getattr(other, fn), **k2)
                ev["also"] = {"kind": also, "pos": [i + 1 for i in idx], "v": o2["v"] if o2["ok"] else ["nan"] * len(idx)}
        elif also in ("fresh", "resolved"):
            p = dict(ev["a"][0]["p"])
            for c in ch:
                p[FIELD[c["k"]]] = c["v"]
            res = effT(p) / YEAR * u.yr if also == "resolved" else None
            f2 = call(lambda: 0)
            try:
                x = rebuilt(before, res, **as_dict(ch))
            except Exception as e:
                ev["also"] = {"kind": also, "pos": sel, "v": ["nan"] * len(sel)}
                return out
            k2 = {k: v for k, v in kw.items() if k in ("n_step", "which_sources")}
            f2 = call(getattr(x, fn), **k2)
            ev["also"] = {"kind": also, "pos": sel, "v": f2["v"] if f2["ok"] else ["nan"] * len(sel)}
        return out

    def do_strain(self, op, o, ev, new):
        n = len(o)
        if n == 0:
            return None
        r = self.r
        hs = sorted(r.sample(range(1, 9), r.randint(1, 3)))
        arg = np.array(hs) if len(hs) > 1 or r.random() < .5 else hs[0]
        kw = {}
        sel = list(range(1, n + 1))
        if op["which"] == "some":
            m = some(r, n)
            if not m.any():
                m[r.randrange(n)] = True
            kw["which_sources"] = m
            sel = [i + 1 for i in range(n) if m[i]]
        ev["sel"], ev["which"] = sel, hs
        return call(o.get_h_0_n if op["fn"] == "h_0" else o.get_h_c_n, arg, **kw)

    def do_plot(self, op, o, ev, new):
        import matplotlib.pyplot as plt
        r = self.r
        if len(o) == 0 or o.sc_params["instrument"] not in ("LISA", "TianQin", "DECIGO", "custom") or (o.sc_params["instrument"] == "custom" and not callable(o.sc_params["custom_psd"])):
            return None
        what = op["what"]
        if what == "onsc" and (o.snr is None or not np.any(np.asarray(o.snr)[~np.asarray(o.merged)] > 0)):
            what = "curve"
        if what in ("one", "two") and (np.sum(~np.asarray(o.merged)) < 2 or "kg" in str(o.m_1.unit)):
            what = "curve"
        d = {"scatter": {"color": "grey", "s": 20, "alpha": 0.5}, "vis": {"y_quantity": r.choice(["ASD", "h_c"]), "fill": True}, "line": {"lw": 2}, "lim": (1e-5, 1e-1)}
        sel = np.repeat(True, len(o))
        before = repr((d, sel))
        kinds = {"onsc": lambda again: o.plot_sources_on_sc(show=False, **({"sc_vis_settings": d["vis"]} if again else {})),
                 "one": lambda again: o.plot_source_variables("m_1", which_sources=sel, show=False, disttype="hist", **({"linewidth": 2} if again else {})),
                 "two": lambda again: o.plot_source_variables("m_1", "dist", which_sources=sel, show=False, disttype="scatter", **({"scatter_s": 10} if again else {})),
                 "curve": lambda again: LW.visualisation.plot_sensitivity_curve(show=False, **o.sc_params)}

        def go():
            try:
                for k in range(2):
                    kinds[what](bool(op["again"]) == (k == 0))
            finally:
                plt.close("all")
            return 0
        out = call(go)
        ev["dictkept"] = before == repr((d, sel))
        return out

    def do_smask(self, op, o, ev, new):
        if len(o) == 0 or o.sc_params["instrument"] not in ("LISA", "TianQin", "DECIGO", "custom"):
            return None
        kw = {}
        ev["val"] = []
        if op["t"] == "given":
            t = lib.logu(self.r, 0.1, 30) * u.yr
            ev["val"] = [lits(t.si.value)[0]]
            kw["t_obs"] = t
        elif op["t"] == "auto":
            kw["t_obs"] = "auto"
        masks = [call(o.get_source_mask, circular=c, stationary=s, **kw) for c in (None, True, False) for s in (None, True, False)]
        return {"ok": all(m["ok"] for m in masks), "kind": "masks", "err": "" if all(m["ok"] for m in masks) else "raised", "parts": masks, "v": [], "shape": []}


# ------------------------------------------------------------------ falsified events that the judge must reject
def _num(lst, i, fac=1.01):
    lst[i] = num(float(lst[i]) * fac)


def canaries(ev, r):
    """falsified copies of an event, each certain to break the property PROP"""
    def cp_(e):
        return json.loads(json.dumps(e))
    out = []

    def add(f):
        x = cp_(ev)
        if f(x):
            x["canary"] = True
            out.append(x)
    b = "b" if ev["b"] else "c"
    have = bool(ev[b])
    op = ev["op"]
    ok = ev["out"]["ok"]
    if PROP == "C01" and have and ev[b][0]["curve"]:
        def f(x):
            c = x[b][0]["curve"][0]
            i = [k for k in range(2, 9) if c[k] not in ("inf", "nan")]
            if not i:
                return False
            _num(c, i[0], 1.1)
            return True
        add(f)
        add(lambda x: x[b][0].update(curve=[]) is None)
    if PROP == "C02" and have:
        add(lambda x: x[b][0].update(keys=x[b][0]["keys"][:-1]) is None)
        if op["op"] == "assign" and ok:
            add(lambda x: x[b][0]["p"].update(noise="cnB" if x[b][0]["p"]["noise"] != "cnB" else "cnA") is None)
    if PROP == "C03" and have:
        add(lambda x: x[b][0].update(et=num(float(x[b][0]["et"]) + 1e-3)) is None)
        add(lambda x: x[b][0]["hr"].__setitem__(4, x[b][0]["hr"][4] + 9) is None)
    if PROP == "C04" and have and ev[b][0]["n"]:
        add(lambda x: _num(x[b][0]["mc"], 0) is None)
        add(lambda x: _num(x[b][0]["a"], 0) is None)
    if PROP == "C05" and op["op"] == "index" and ok:
        add(lambda x: x["c"][0].update(stol="0.123") is None)
        if ev["c"][0]["n"]:
            add(lambda x: _num(x["c"][0][r.choice(["m1", "m2", "dist", "ecc", "f"])], 0, 1.01) is None and x["c"][0] != ev["c"][0])
    if PROP == "C06":
        add(lambda x: x.update(chg=[7]) is None)
        if op["op"] in ("read", "index", "save", "strain") and ev["b"] and ev["b"][0]["n"]:
            add(lambda x: _num(x["b"][0]["m2"], 0) is None)
    if PROP == "C07" and op["op"] == "load" and ok:
        add(lambda x: x["c"][0].update(stol="0.123") is None)
        if ev["c"][0]["n"]:
            add(lambda x: _num(x["c"][0][r.choice(["m1", "m2", "dist", "f"])], 0) is None)
    if PROP == "C08" and op["op"] in ("save", "load"):
        add(lambda x: x.update(out={"ok": True, "kind": "i", "v": [0], "shape": [], "unit": "none"} if not ok else {"ok": False, "err": "KeyError", "msg": ""}) is None)
    if PROP == "C09" and op["op"] == "evolve" and ok:
        t = "c" if op["to"] else "b"
        add(lambda x: _num(x[t][0]["f"], 0, 1.01) is None)
        add(lambda x: x[t][0]["merged"].__setitem__(0, 1 - x[t][0]["merged"][0]) is None)
    if PROP == "C10" and op["op"] in ("snr", "strain", "mergertime") and ok and ev["sel"]:
        m = [i for i, s in enumerate(ev["sel"]) if ev["a"][0]["merged"][s - 1]]
        if m:
            w = len(ev["out"]["v"]) // len(ev["sel"])
            add(lambda x: x["out"]["v"].__setitem__(m[0] * w, "1e-21") is None)
    if PROP == "C11" and op["op"] == "snr" and ok and ev["sel"]:
        i = [k for k, v in enumerate(ev["out"]["v"]) if float(v) > 1e-12]
        if i:
            add(lambda x: _num(x["out"]["v"], i[0], 1.2) is None)
    if PROP == "C12" and op["op"] == "snr" and ok:
        add(lambda x: x["b"][0]["p"].update(t="77.0") is None)
    if PROP == "C28" and have:
        add(lambda x: x[b][0].update(ig=not x[b][0]["ig"]) is None)
    return out


DEFAULT_ARGS = {}


def setup(lw, seed, tier):
    DEFAULT_ARGS.update(defaults())
    lw.evol.get_t_merge_ecc(ecc_i=0.5, a_i=1 * u.AU, beta=lw.utils.beta(1 * u.Msun, 1 * u.Msun))
    lw.evol.de_dt(0.5, 0.0, 1.0, 1.0)
    np.random.seed(seed)
    s = lw.source.Source(m_1=1 * u.Msun, m_2=1 * u.Msun, ecc=0.1, dist=1 * u.kpc, f_orb=1e-3 * u.Hz, interpolate_g=PROP in TABLE_PROPS)
    s.position


TABLE_PROPS = ("C05", "C06", "C07", "C08", "C09", "C11", "C28")
G_TABLE = "real" if REAL_G else "linear"


def run(c, r):
    np.random.seed(r.randrange(2**31))
    d = tempfile.mkdtemp(prefix="verif-store-")
    evs = []
    try:
        w = World(r, d)
        for k, op in enumerate(c["h"]):
            ev = w.step(op)
            if ev is None:
                continue
            ev["step"] = k + 1
            evs.append(ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "-elsewhere", ignore_errors=True)
    out = []
    for e in evs:
        out.append(e)
        if r.random() < .12:
            out += canaries(e, r)
    return out
