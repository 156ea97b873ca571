"""C25: sensitivity curve and sources over it."""
import logging
import re
import numpy as np
import astropy.units as u
import lib
import userfns
from lib import lits

FUN = {"Hz": u.Hz, "mHz": u.mHz, "1/yr": 1 / u.yr}


class Hear(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, rec):
        m = rec.getMessage()
        k = re.search(r"\d+", m)
        self.got.append({"level": rec.levelname, "number": int(k.group()) if k else -1, "circ": int("circular" in m), "ecc": int("eccentric" in m)})


def settings(c, r):
    """keyword arguments given, and the settings record they mean"""
    inst = c["inst"] if c["inst"] != "omit" else "LISA"
    p = {"instrument": inst, "psd": "none", "t": "auto", "L": "auto", "approx": False, "noise": "auto"}
    kw = {}
    if c["inst"] != "omit":
        kw["instrument"] = inst
    if inst == "custom":
        p["psd"] = r.choice(["psdA", "psdB"])
        kw["custom_psd"] = userfns.PSD[p["psd"]]
    if c["t"] == "auto":
        kw["t_obs"] = "auto"
    elif c["t"] == "given":
        kw["t_obs"] = r.choice([0.5, 1, 2, 4, 6, 10]) * u.yr
        p["t"] = lib.lit(kw["t_obs"])
    if c["L"] == "auto":
        kw["L"] = "auto"
    elif c["L"] == "given":
        kw["L"] = (lib.logu(r, 5e8, 2.5e9) * u.m).to(r.choice([u.m, u.km]))
        p["L"] = lib.lit(kw["L"])
    if c["approx"] != "omit":
        p["approx"] = kw["approximate_R"] = c["approx"] == "yes"
    if c["noise"] != "omit":
        p["noise"] = c["noise"]
        kw["confusion_noise"] = None if c["noise"] == "none" else userfns.NOISE.get(c["noise"], c["noise"])
    return kw, p


def change(mc, f, e, t):
    from d_c21 import change as ch
    return ch(mc, f, e, t)


def rcstate():
    import matplotlib
    import matplotlib.units as mu
    return repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items())), sorted(repr(k) for k in mu.registry)


def tohex(col):
    import matplotlib.colors as mc
    return mc.to_hex(col)


def si(vals, unit):
    """numbers of an axis in its unit -> SI literals"""
    v = np.ma.filled(np.ma.asarray(vals, dtype=float), np.nan)
    return lits((v * unit).si.value) if isinstance(unit, u.UnitBase) else lits(v)


def look(ax, seen):
    """what was added to the axes"""
    from matplotlib.collections import PathCollection
    xu, yu = ax.xaxis.get_units(), ax.yaxis.get_units()
    new = [a for a in ax.collections if a not in seen]
    pts = [a for a in new if isinstance(a, PathCollection)]
    o = {"px": [], "py": [], "size": [], "label": "", "fills": len([a for a in new if not isinstance(a, PathCollection)]), "lines": []}
    for a in pts:
        off = a.get_offsets()
        o["px"] += si(off[:, 0], xu)
        o["py"] += si(off[:, 1], yu)
        o["size"] += lits(a.get_sizes())
        o["label"] = a.get_label()
    for l in ax.lines:
        if l in seen:
            continue
        x, y = l.get_xdata(orig=False), l.get_ydata(orig=False)
        at = sorted(set(int(k) for k in np.linspace(0, len(x) - 1, 9)))
        o["lines"].append({"n": len(x), "at": at, "x": si(x[at], xu), "y": si(y[at], yu)})
    o["xlim"] = si(ax.get_xlim(), xu)
    ls = [l for l in ax.lines if l not in seen]
    fl = [a for a in new if not isinstance(a, PathCollection)]
    o["got"] = {"color": [tohex(l.get_color()) for l in ls], "linewidth": lits([l.get_linewidth() for l in ls]), "label": [str(l.get_label()) for l in ls],
                "alpha": [lib.num(a.get_alpha()) for a in fl if a.get_alpha() is not None], "fillcolor": [tohex(a.get_facecolor()[0]) for a in fl],
                "figsize": lits(ax.figure.get_size_inches()), "points": sorted({tohex(q) for a in pts for q in a.get_facecolors()}), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel()}
    return o


def run(c, r):
    import matplotlib.pyplot as plt
    plt.close("all")
    if r.random() < .2:
        plt.rcParams.update({"font.size": r.choice([9.0, 13.0]), "figure.figsize": r.choice([[5.0, 4.0], [12.0, 8.0]]), "axes.linewidth": 2.2})
    vis = LW.visualisation
    fn = c["fn"]
    kw, p = settings(c, r)
    ev = {"fn": fn, "p": p, "fail": c["fail"], "own": c["axes"] == "own", "show": c["show"] != "no", "fill": c["fill"] == "omit", "snr": [], "f": [], "msh": [], "w": [], "e": [], "m1": [], "m2": [],
          "merged": [], "et": "0", "stol": "0.01", "cutoff": "0", "reaches": True, "s": "20", "_cfac": 1.01, "nocanary": True}
    vs = {}
    if c["y"] != "omit":
        vs["y_quantity"] = c["y"]
    ev["y"] = "h_c" if c["y"] == "h_c" else "ASD"
    if c["fail"] == "quantity":
        vs["y_quantity"] = r.choice(["PSD", "hc", "asd"])
    if c["fill"] == "no":
        vs["fill"] = False
    ev["range"] = {"given": False, "n": 1000, "x": [], "lo": "1e-05", "hi": "1"}
    if c["range"] == "given":
        n = r.randint(3, 30)
        fr = np.sort([lib.logu(r, 2e-5, 0.5) for _ in range(n)]) if r.random() < .8 else np.array([lib.logu(r, 2e-5, 0.5) for _ in range(n)])
        fr = (fr * u.Hz).to(FUN[c["funit"]])
        vs["frequency_range"] = fr
        at = sorted(set(int(k) for k in np.linspace(0, n - 1, 9)))
        h = fr.si.value
        ev["range"] = {"given": True, "n": n, "x": lits(h[at]), "lo": lib.num(min(h)), "hi": lib.num(max(h))}
    if c["look"] == "given":
        vs.update(r.choice([{"color": r.choice(["red", "#0a5c33"])}, {"linewidth": r.choice([3, 0.4]), "alpha": 0.5}, {"label": "curve"}, {"figsize": (r.choice([4.0, 9.5]), 5.0)}]))
    ev["look"] = {"color": "", "linewidth": "0", "alpha": "0", "label": "", "figsize": [], "points": ""}
    ev["got"] = {"color": [], "linewidth": [], "alpha": [], "label": [], "figsize": [], "fillcolor": [], "xlabel": "", "ylabel": "", "points": []}
    for k in ev["look"]:
        if k in vs:
            ev["look"][k] = tohex(vs[k]) if k == "color" else vs[k] if k == "label" else lits(vs[k]) if k == "figsize" else lib.num(vs[k])
    args = {}
    if c["show"] != "omit":
        args["show"] = c["show"] == "yes"
    fig = ax = None
    seen = []
    if c["axes"] != "own":
        if c["axes"] == "curve":
            fig, ax = vis.plot_sensitivity_curve(show=False, frequency_range=np.logspace(-4, -1, 20) * u.Hz, y_quantity="ASD" if c["fail"] == "quantity" else ev["y"])
        else:
            if r.random() < .5:
                fig, ax = plt.subplots()
            else:       # one of two panels, not the current one
                fig, both = plt.subplots(1, 2)
                ax = both[0]
            if r.random() < .3:
                plt.figure()
            if c["axes"] == "logged":
                ax.set_xscale("log"), ax.set_yscale("log"), ax.set_xlim(1e-4, 1e-1), ax.set_ylim(1e-21, 1e-15)
        seen = list(ax.collections) + list(ax.lines)
        args.update(fig=fig, ax=ax)
    elif c["half"] == "yes":       # only one of the two: neither is used
        spare = plt.subplots()
        h = r.randrange(2)
        args[["fig", "ax"][h]] = spare[h]
        spare_before = (len(spare[1].get_children()), spare[1].get_xlim(), spare[1].get_ylim(), spare[1].get_xlabel(), spare[1].get_xscale())
    if fn == "curve":
        a = dict(args, **vs, **kw)
        if c["fail"] == "keyword":
            a["nonsense"] = 1
        held = [vs[k] for k in ("frequency_range",) if k in vs]
        f = lambda: vis.plot_sensitivity_curve(**a)
    else:
        f, held = sources(c, r, ev, kw, vs, args)
    ylim = None if ax is None else ax.get_ylim()
    shows = []
    real, plt.show = plt.show, lambda *a, **k: shows.append(1)
    hear = Hear()
    log = logging.getLogger("LEGWORK")
    level, disabled = log.level, log.propagate
    log.addHandler(hear)
    log.setLevel(logging.WARNING)
    others = [h for h in log.handlers if h is not hear]
    for h in others:
        log.removeHandler(h)
    before, figs, rc = lib.snapshot(*held), plt.get_fignums(), rcstate()
    rf = ra = None
    try:
        rf, ra = f()
        ev["out"] = {"ok": True}
    except Exception as e:
        ev["out"] = lib.err(e)
    finally:
        plt.show = real
        log.removeHandler(hear)
        for h in others:
            log.addHandler(h)
        log.setLevel(level)
    ev["rc"] = int(rcstate() == rc)
    ev["kept"] = lib.unchanged(before, *held)
    ev["shows"], ev["msgs"] = len(shows), hear.got
    ev["newfigs"] = len([k for k in plt.get_fignums() if k not in figs])
    ev["same"] = 2 if rf is None and ra is None else int(fig is not None and rf is fig and ra is ax)
    ev["spare"] = 1 if c["axes"] != "own" or c["half"] != "yes" else int(
        (len(spare[1].get_children()), spare[1].get_xlim(), spare[1].get_ylim(), spare[1].get_xlabel(), spare[1].get_xscale()) == spare_before)
    ev["half"] = c["axes"] == "own" and c["half"] == "yes"
    ev["ylim"] = 1 if ax is None else int(np.allclose(ax.get_ylim(), ylim, rtol=1e-12, atol=0))
    ax = ra if ra is not None else ax
    ev.update({"px": [], "py": [], "size": [], "label": "", "fills": 0, "lines": [], "xlim": ["0", "0"]} if ax is None or not ev["out"]["ok"] else look(ax, seen))
    plt.close("all")
    out = [ev]
    if ev["out"]["ok"] and r.random() < .6:
        out += canaries(ev, r)
    return out


def canaries(ev, r):
    bad = lib.json.loads(lib.json.dumps(ev))
    k = r.choice(["rc", "points", "px", "py", "size", "msgs", "lines", "shows", "drop", "kept"])
    if k in ("rc", "kept"):
        bad[k] = 0
    elif k == "points":
        if not ev["look"]["points"] or not bad["px"]:
            return []
        bad["got"]["points"] = ["#000001"]
    elif k in ("px", "py", "size"):
        if not bad[k] or not bad["px"]:
            return []
        i = r.randrange(len(bad[k]))
        bad[k][i] = lib.num(float(bad[k][i]) * 1.01)
    elif k == "msgs":
        bad[k].append({"level": "WARNING", "number": 99, "circ": 1, "ecc": 0})
    elif k == "lines":
        if not bad[k] or not (float(bad[k][0]["y"][1]) < 1e99) or bad["px"] == [] and ev["fn"] != "curve":
            return []
        bad[k][0]["y"][1] = lib.num(float(bad[k][0]["y"][1]) * 1.01)
    elif k == "shows":
        bad[k] += 1
    else:
        if not bad["px"]:
            return []
        bad["px"].pop(), bad["py"].pop()
    return [dict(bad, canary=True)]


def sources(c, r, ev, kw, vs, args):
    vis = LW.visualisation
    n = {"one": 1, "few": 3, "several": r.randint(5, 8)}[c["src"]]
    inst = ev["p"]["instrument"]
    m1, m2 = (np.array([lib.logu(r, *{"slow": (0.1, 1), "mixed": (0.1, 50), "fast": (5, 50)}[c["pace"]]) for _ in range(n)]) * u.Msun for _ in "12")
    tsec = float(ev["p"]["t"]) if ev["p"]["t"] != "auto" else (5 if inst in ("TianQin", "custom") else 4) * 31557600.0
    tol = 0.01 if c["tol"] == "omit" else r.choice([1e-4, 1e-3, 0.1])
    mc = LW.utils.chirp_mass(m1, m2).to(u.kg).value
    lo, hi = {"slow": (6e-4, 2e-3), "mixed": (6e-4, 2e-2), "fast": (5e-3, 3e-2)}[c["pace"]]
    if inst == "DECIGO":
        lo, hi = max(lo, 1.1e-3), max(hi, 3e-3)
    f, e = np.zeros(n), np.zeros(n)
    for i in range(n):
        for _ in range(50):
            f[i] = lib.logu(r, lo, hi)
            k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["zero", "low", "mid", "high"])
            e[i] = {"zero": lambda: 0.0, "low": lambda: r.uniform(1e-3, 0.05), "mid": lambda: r.uniform(0.1, 0.4), "high": lambda: r.uniform(0.4, 0.8)}[k]()
            if not abs(change(mc[i], f[i], e[i], tsec) - tol) < 1e-5 * tol:
                break
    w = np.array([r.uniform(0.1, 3) for _ in range(n)]) if c["weights"] == "yes" else None
    fq = (f * u.Hz).to(FUN[c["funit"]])
    snr = np.array([r.choice([0.0, lib.logu(r, 1e-3, 1e3)]) if r.random() < .3 else lib.logu(r, 0.1, 300) for _ in range(n)])
    msh = np.array([2 if x == 0 or r.random() < .2 else r.randint(1, 12) for x in e])
    S = None
    if c["fn"] == "source":
        S = LW.source.Source(m_1=m1, m_2=m2, ecc=e, dist=np.repeat(8.0, n) * u.kpc, f_orb=fq, weights=w, interpolate_g=False, interpolate_sc=r.random() < .3, sc_params={} if c["pre"] == "settings" else dict(kw), stat_tol=tol)
        if c["pre"] == "settings":
            if r.random() < .5:
                S.sc_params.update(kw)
            else:
                S.sc_params = dict(kw)
        if c["snr"] == "real":
            S.get_snr(verbose=False)
        elif c["snr"] == "assigned":
            S.snr, S.max_snr_harmonic = snr, msh
        if c["pre"] == "index":
            S = S[::-1]
            f, e, m1, m2, w = f[::-1], e[::-1], m1[::-1], m2[::-1], None if w is None else w[::-1]
            fq, mc = fq[::-1], mc[::-1]
        if S.snr is not None:
            snr, msh = S.snr, S.max_snr_harmonic
        if c["merged"] != "no":
            S.merged = np.array([c["merged"] == "all" or r.random() < .4 for _ in range(n)])
        ev["merged"] = [int(x) for x in S.merged]
    good = np.sort(snr[np.isfinite(snr)])
    cut = {"omit": 0, "mid": 0, "low": 1e-4, "huge": 1e12}[c["cutoff"]]
    if c["cutoff"] == "mid":
        k = r.randrange(len(good))
        cut = float(good[k]) if r.random() < .3 else float(good[k]) * 0.999
    a = dict(args)
    if c["cutoff"] != "omit":
        a["snr_cutoff"] = cut
    ev.update(f=lits(f), e=lits(e), m1=lib.si(m1), m2=lib.si(m2), w=[] if w is None else lits(w), snr=[] if S is not None and S.snr is None else lits(snr), msh=[str(int(x)) for x in msh],
              cutoff=lib.num(cut), stol=lib.num(tol))
    if c["look"] == "given":
        a.update(r.choice([{"color": "blue"}, {"marker": "s"}, {"alpha": 0.3}, {"scatter_s": 7}]))
        if "scatter_s" in a:
            ev["s"] = "7"
        ev["look"]["points"] = tohex(a["color"]) if "color" in a else ""
    ev["wantlabel"] = ""
    if r.random() < .4:
        a["label"] = ev["wantlabel"] = "my sources"
    elif S is not None:
        ev["wantlabel"] = "Stationary sources"
    if c["fail"] == "keyword":
        a["nonsense"] = 1
    if vs or r.random() < .5:
        a["sc_vis_settings"] = vs
    if S is not None:
        ev["et"] = lib.num(S.ecc_tol)
        st = [not change(mc[i], f[i], e[i], tsec) > tol for i in range(n)]
        drawn = S.snr is not None and any(st[i] and snr[i] > cut and not S.merged[i] for i in range(n))
        # a failing keyword is only noticed when something is plotted, an unknown quantity only when the curve is
        ev["reaches"] = bool(drawn) and (c["fail"] != "quantity" or ev["own"])
        if c["fail"] == "quantity" and not ev["own"]:
            ev["y"] = "ASD"
        held = [S.m_1, S.m_2, S.f_orb, S.ecc, S.dist] + ([S.snr, S.max_snr_harmonic] if S.snr is not None else []) + ([w] if w is not None else [])
        return lambda: S.plot_sources_on_sc(**a), held
    ev["reaches"] = c["fail"] == "quantity" and ev["own"] or c["fail"] == "keyword" and bool(np.any(snr > cut))
    if c["fail"] == "quantity" and not ev["own"]:
        ev["y"] = "ASD"
    ev["et"], ev["merged"] = "0", [0] * n
    fd = fq * msh
    if w is not None:
        a["weights"] = w
    if ev["wantlabel"] == "":
        a["label"] = ev["wantlabel"] = "given"
    return lambda: vis.plot_sources_on_sc(f_dom=fd, snr=snr, **a, **kw), [fd, snr] + ([w] if w is not None else [])
