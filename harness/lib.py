"""Driver library: imports the code under test from /repo's working tree, encodes values for the trace."""
import json
import math
import os
import random
import sys
import tempfile
import shutil
import atexit

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "legwork")
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")

import numpy as np
import warnings
warnings.filterwarnings("ignore")
np.seterr(all="ignore")
import astropy.units as u
import astropy.constants as const

# ------------------------------------------------------------------ data files the repository does not carry
E_MIN, E_MAX, E_LEN, N_MAX = 0.0, 0.995, 160, 6000


def e_grid():
    return 1 - np.logspace(np.log10(1 - E_MIN), np.log10(1 - E_MAX), E_LEN)


def _g(n, e):
    """g(n,e) of Peters & Mathews, independent of the code under test (only used to make the data tables)"""
    from scipy.special import jv
    x = n * e
    j0, jm1, jp1, jm2, jp2 = jv(n, x), jv(n - 1, x), jv(n + 1, x), jv(n - 2, x), jv(n + 2, x)
    b1 = jm2 - 2 * e * jm1 + 2 / n * j0 + 2 * e * jp1 - jp2
    b2 = jm2 - 2 * j0 + jp2
    return n**4 / 32 * (b1**2 + (1 - e**2) * b2**2 + 4 / (3 * n**2) * j0**2)


def _atomic(path, write):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(path), suffix=os.path.splitext(path)[1])
    os.close(fd)
    write(tmp)
    os.replace(tmp, path)


def harmonics_file():
    path = os.path.join(BUILD, "harmonics2-%g-%g-%d-%d.npz" % (E_MIN, E_MAX, E_LEN, N_MAX))
    if not os.path.exists(path):
        n = np.arange(1, N_MAX + 1)
        g = np.zeros((E_LEN, N_MAX))
        for i, e in enumerate(e_grid()):
            # beyond this harmonic g is below 1e-16 of the total
            top = min(N_MAX, int(40 + 25 / (1 - e)**1.5))
            g[i, :top] = _g(n[:top], e)
        _atomic(path, lambda t: np.savez(t, e_lims=np.array([E_MIN, E_MAX, E_LEN], dtype=float), n_max=np.array(N_MAX), g_vals=g))
    return path


def peters_g_file(real):
    """The 1000 x 10000 table of g on the grid the code expects; computed on every 'real' request once, else not provided."""
    path = os.path.join(BUILD, "peters_g.npy")
    if not os.path.exists(path):
        from multiprocessing import get_context
        e = np.linspace(0, 1, 1000)
        with get_context("fork").Pool(8) as p:
            rows = p.map(_row, e, chunksize=8)
        _atomic(path, lambda t: np.save(t, np.array(rows, dtype=np.float64)))
    return path


def _row(e):
    n = np.arange(1, 10001)
    out = np.zeros(10000)
    top = 10000 if e > 0.98 else min(10000, int(60 + 40 / (1 - e)**1.5))
    out[:top] = _g(n[:top], e)
    return out


# ------------------------------------------------------------------ importing the code under test
def linear_g_file():
    """A table on the same grid whose interpolation is exact: UserG of spec/Physics.tla"""
    path = os.path.join(BUILD, "linear_g.npy")
    if not os.path.exists(path):
        e, n = np.meshgrid(np.linspace(0, 1, 1000), np.arange(1, 10001), indexing="ij")
        _atomic(path, lambda t: np.save(t, 0.8 - 1.1 * e + 0.01 * n))
    return path


def _memo_spline():
    """The fit of the same table is always the same: make it once per process"""
    import scipy.interpolate as si_
    real = si_.RectBivariateSpline
    seen = {}

    def memo(x, y, z, *a, **k):
        z = np.asarray(z)
        key = (np.asarray(x).tobytes(), np.asarray(y).tobytes(), z.shape, z[::97, ::13].tobytes(), repr(a), repr(k))
        if key not in seen:
            seen[key] = real(x, y, z, *a, **k)
        return seen[key]
    si_.RectBivariateSpline = memo


def lots(r, usual, lo=60, hi=250, p=.04):
    """the usual number of sources or values, and now and then many of them"""
    return r.randint(lo, hi) if r.random() < p else usual


def load_legwork(g_table=False, without=()):
    """An overlay package directory: links to every file of the repository's package plus the data files it does not carry."""
    if g_table:
        _memo_spline()
    over = tempfile.mkdtemp(prefix="verif-overlay-")
    atexit.register(shutil.rmtree, over, ignore_errors=True)
    pkg = os.path.join(over, "legwork")
    os.mkdir(pkg)
    for name in os.listdir(SRC):
        if name in ("__pycache__", "tests") or name in without:
            continue
        os.symlink(os.path.join(SRC, name), os.path.join(pkg, name))
    if not os.path.exists(os.path.join(pkg, "harmonics.npz")):
        os.symlink(harmonics_file(), os.path.join(pkg, "harmonics.npz"))
    if g_table and not os.path.exists(os.path.join(pkg, "peters_g.npy")):
        os.symlink(linear_g_file() if g_table == "linear" else peters_g_file(True), os.path.join(pkg, "peters_g.npy"))
    sys.path.insert(0, over)
    import legwork
    assert os.path.dirname(os.path.abspath(legwork.__file__)) == pkg, legwork.__file__
    legwork.logger.setLevel(60)
    _cache_njit(legwork)
    return legwork


def _cache_njit(legwork):
    """get_t_merge_ecc compiles its integrand on every call: keep the compiled function of identical code (same semantics, faster)"""
    real = getattr(legwork.evol, "njit", None)
    if real is None:
        return
    seen = {}

    def njit(*a, **k):
        if len(a) != 1 or k or getattr(a[0], "__closure__", 1) is not None:
            return real(*a, **k)
        c = a[0].__code__
        key = (c.co_code, repr(c.co_consts), c.co_names)
        if key not in seen:
            seen[key] = real(a[0])
        return seen[key]
    legwork.evol.njit = njit


# ------------------------------------------------------------------ encoding
UNITS = {"Msun": u.Msun, "AU": u.AU, "Hz": u.Hz, "m4/s": u.m**4 / u.s, "Gyr": u.Gyr, "yr": u.yr, "s": u.s, "m": u.m, "kpc": u.kpc,
         "Hz/yr": u.Hz / u.yr, "Hz^-1/2": u.Hz**-0.5, "rad": u.rad, "deg": u.deg, "none": u.dimensionless_unscaled}


def unit_name(un):
    for k, v in UNITS.items():
        try:
            if un == v:
                return k
        except Exception:
            pass
    return str(un)


def num(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def lits(a):
    return [num(x) for x in np.asarray(a, dtype=float).ravel()]


def enc(x):
    """One result value: SI literals, flattened, with its shape and unit."""
    if isinstance(x, (list, tuple)) and any(isinstance(y, (u.Quantity, np.ndarray)) for y in x):
        return {"ok": True, "kind": "parts", "parts": [enc(y) for y in x], "n": len(x)}
    if isinstance(x, u.Quantity):
        un = unit_name(x.unit)
        si = x.si.value if x.unit is not None else x.value
        a = np.asarray(si)
        return {"ok": True, "kind": "q", "unit": un, "shape": list(a.shape), "v": lits(a)}
    a = np.asarray(x)
    if a.dtype == bool:
        return {"ok": True, "kind": "b", "unit": "none", "shape": list(a.shape), "v": [int(y) for y in a.ravel()]}
    if np.issubdtype(a.dtype, np.integer):
        return {"ok": True, "kind": "i", "unit": "none", "shape": list(a.shape), "v": [int(y) if abs(int(y)) < 2**31 else num(y) for y in a.ravel()]}
    if np.issubdtype(a.dtype, np.floating):
        return {"ok": True, "kind": "f", "unit": "none", "shape": list(a.shape), "v": lits(a)}
    if np.issubdtype(a.dtype, np.complexfloating):
        return {"ok": False, "err": "Complex", "msg": ""}
    if a.dtype == object:
        return {"ok": False, "err": "Object", "msg": repr(x)[:200]}
    return {"ok": True, "kind": "s", "unit": "none", "shape": list(a.shape), "v": [str(y) for y in a.ravel()]}


def err(e):
    return {"ok": False, "err": type(e).__name__, "msg": str(e)[:200]}


# ------------------------------------------------------------------ the same array, laid out differently in memory
FORMS = None        # a random generator where the case has such arguments


def forms_for(seed, prop, case):
    """One case in four hands its arrays over as views with gaps, backwards, in Fortran order, or write-protected"""
    global FORMS
    r = rng_for(seed, "forms", prop, case)
    FORMS = r if r.random() < .25 else None


def form(x, kinds=("gaps", "back", "fortran", "locked", "as is", "offset", "swapped")):
    """Equal to x in type, shape and values, but not in the layout of its memory"""
    if FORMS is None or type(x) not in (np.ndarray, u.Quantity) or x.ndim == 0 or x.size == 0 or x.dtype.kind not in "fiub":
        return x
    a = x.value if type(x) is u.Quantity else x
    k = FORMS.choice(kinds)
    if k == "as is":
        return x
    if k == "gaps":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        v = b[..., ::2]
        v[...] = a
    elif k == "back":
        v = a[::-1].copy()[::-1]
    elif k == "fortran":
        v = np.array(a, order="F")
    elif k == "swapped":        # (big-endian, as read from a FITS file)
        v = a.astype(a.dtype.newbyteorder())
    elif k == "offset":
        b = np.zeros((a.shape[0] + 3,) + a.shape[1:], dtype=a.dtype)
        v = b[2:-1]
        v[...] = a
    else:
        v = a.copy()
        v.flags.writeable = False
    if type(x) is u.Quantity:
        v = u.Quantity(v, x.unit, dtype=v.dtype, copy=False)
    return v


def call(fn, *a, **k):
    """Result of the call, encoded; an exception is a result too."""
    given = []
    if FORMS is not None:
        seen = {}

        def one(x):
            if id(x) not in seen:
                seen[id(x)] = form(x)
                if seen[id(x)] is not x:
                    given.append((x, seen[id(x)]))
            return seen[id(x)]
        a, k = tuple(one(x) for x in a), {n: one(x) for n, x in k.items()}
    try:
        r = fn(*a, **k)
    except Exception as e:
        return err(e)
    finally:
        for x, v in given:      # what the call did to its argument is done to the original
            if x.flags.writeable:
                x[...] = v
    try:
        return enc(r)
    except Exception as e:
        return {"ok": False, "err": "Unencodable", "msg": repr(e)[:200]}


def rng_for(seed, *salt):
    return random.Random("%s|%s" % (seed, "|".join(map(str, salt))))


def logu(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def si(q):
    """SI literal(s) of a Quantity or plain number/array"""
    return lits(base(q)) if isinstance(q, u.Quantity) else lits(q)


SI = {"mass": u.kg, "length": u.m, "frequency": u.Hz, "time": u.s, "angle": u.rad}


def base(q):
    """(astropy's .si keeps degrees, and gives tonnes for a solar mass that was read from a file)"""
    for t, x in SI.items():
        if t in q.unit.physical_type:
            return q.to(x).value
    return q.si.value


def lit(q):
    return si(q)[0]


def tie(c, key, a):
    """Equal entries where the case asks for them: everywhere, or in the first two places"""
    k = c.get("tie", "no")
    if np.ndim(a) and np.size(a) > 1:
        if k in (key, "all"):
            a[...] = a[(0,) * np.ndim(a)]
        elif k == "pair":
            if a.shape[0] > 1:
                a[1] = a[0]
            else:
                a[..., 1] = a[..., 0]
    return a


def other_unit(r, q, units):
    """The same quantity in another unit"""
    return q.to(r.choice([x for x in units if x != q.unit]))


def snapshot(*arrs):
    return [None if a is None else np.array(a.value if isinstance(a, u.Quantity) else a, copy=True) for a in arrs]


def unchanged(before, *arrs):
    for b, a in zip(before, arrs):
        if b is None and a is None:
            continue
        v = np.array(a.value if isinstance(a, u.Quantity) else a)
        if v.shape != b.shape or not np.array_equal(v, b, equal_nan=v.dtype.kind == "f"):
            return 0
    return 1


def corrupt(o, factor, r):
    """A copy of an encoded result with one value falsified (for the canaries)."""
    o = json.loads(json.dumps(o))
    tgt = o
    while tgt.get("kind") == "parts":
        tgt = tgt["parts"][r.randrange(len(tgt["parts"]))]
    if not tgt.get("ok"):
        return {"ok": False, "err": "CanaryError", "msg": ""} if tgt is o else None
    idx = [i for i, v in enumerate(tgt["v"])
           if tgt["kind"] == "b" or (tgt["kind"] == "i") or (tgt["kind"] in "fq" and v not in ("nan", "inf", "-inf") and float(v) != 0)]
    if not idx:
        return None
    i = r.choice(idx)
    if tgt["kind"] == "b":
        tgt["v"][i] = 1 - tgt["v"][i]
    elif tgt["kind"] == "i":
        tgt["v"][i] = int(tgt["v"][i]) + 1
    else:
        tgt["v"][i] = num(float(tgt["v"][i]) * factor)
    return o


def parallel(items, work, procs=8):
    """work(item) -> list of events, over forked processes (children may fork further); order of items kept."""
    items = list(items)
    if procs <= 1 or len(items) < 2 * procs:
        return [ev for it in items for ev in work(it)]
    pids = []
    d = tempfile.mkdtemp(prefix="verif-par-")
    try:
        for k in range(procs):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with open(os.path.join(d, str(k)), "w") as f:
                        for j in range(k, len(items), procs):
                            f.write(json.dumps([j, work(items[j])]) + "\n")
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stdout.flush(); sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        bad = [p for p in pids if os.waitpid(p, 0)[1] != 0]
        if bad:
            raise RuntimeError("driver worker failed")
        out = {}
        for k in range(procs):
            with open(os.path.join(d, str(k))) as f:
                for line in f:
                    j, evs = json.loads(line)
                    out[j] = evs
        return [ev for j in sorted(out) for ev in out[j]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
