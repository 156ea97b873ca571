"""C27: distributions of source variables."""
import numpy as np
import astropy.units as u
import lib
from lib import lits
from d_c25 import rcstate, si

NAMES = {"m_1": "Primary Mass", "m_2": "Secondary Mass", "m_c": "Chirp Mass", "ecc": "Eccentricity", "dist": "Distance", "f_orb": "Orbital Frequency",
         "f_GW": "Gravitational Wave Frequency", "a": "Semi-major axis", "snr": "Signal-to-noise Ratio"}
SYMBOLS = {"m_1": r"$m_1$", "m_2": r"$m_2$", "m_c": r"$\mathcal{M}_c$", "ecc": r"$e$", "dist": r"$D$", "f_orb": r"$f_{\rm orb}$", "f_GW": r"$f_{\rm GW}$", "a": r"$a$", "snr": r"$\rho$"}


def label(text, unit, given):
    d = {"mode": "omit" if given is None else "given", "want": given or "", "text": text, "names": [k for k, v in NAMES.items() if v in text],
         "symbols": [k for k, v in SYMBOLS.items() if v in text], "log": int("log" in text), "density": int(r"\mathrm{d}N" in text), "unit": 0}
    if unit is None:
        d["unit"] = int("[" in text or " / " in text)
    else:
        d["unit"] = int("{:latex}".format(unit) in text)
    return d


def run(c, r):
    import matplotlib.pyplot as plt
    import matplotlib.colors as mc
    plt.close("all")
    if r.random() < .2:
        plt.rcParams.update({"font.size": r.choice([9.0, 13.0]), "figure.figsize": r.choice([[5.0, 4.0], [12.0, 8.0]]), "axes.linewidth": 2.2})
    vis = LW.visualisation
    fn = c["fn"]
    two = fn == "two" or (fn == "source" and c["y"] != "none")
    typ = c["type"] if c["type"] != "omit" else "scatter" if two else "hist"
    n = {"few": 5, "several": r.randint(8, 12), "many": 20}[c["src"]]
    arr = lambda lo, hi, k=n: np.array([lib.logu(r, lo, hi) for _ in range(k)])
    ev = {"fn": fn, "type": typ, "xvar": c["x"], "yvar": c["y"] if fn == "source" else "y" if two else "none", "fail": c["fail"], "own": c["axes"] == "own", "show": c["show"] != "no", "exclude": c["exclude"] != "no",
          "logx": c["log"] in ("yes", "x"), "logy": c["log"] in ("yes", "y"), "snr": [], "f": [], "w": [], "s": "20", "density": c["density"] == "omit", "nbins": 0, "edges": [],
          "vx": [], "vy": [], "which": [], "merged": [], "_cfac": 1.02, "nocanary": True}
    ev.update(prior="", figsize=[], colour="", colours=[], gotsize=["1", "1"], adjust="1", count=False, contours=[], nlevels=0, wantlevels=10, yscale="1")
    kw = {}
    if c["type"] != "omit":
        kw["disttype"] = c["type"]
    if c["log"] != "omit":
        kw["log_scale"] = {"no": False, "yes": True, "x": (True, False), "y": (False, True)}[c["log"]]
    if c["show"] != "omit":
        kw["show"] = c["show"] == "yes"
    if c["look"] == "given":
        kw["color"] = r.choice(["red", "#123456", "tab:green"])
        ev["colour"] = mc.to_hex(kw["color"])
        if two and typ == "scatter":
            kw["scatter_s"] = 7
            ev["s"] = "7"
    given = {"xlabel": None, "ylabel": None}
    for k in given:
        if c[k] != "omit":
            kw[k] = given[k] = "" if c[k] == "empty" else "my " + k
    fig = ax = None
    if c["axes"] == "bare":
        if r.random() < .5:
            fig, ax = plt.subplots()
        else:       # one of two panels, not the current one
            fig, both = plt.subplots(1, 2)
            ax = both[0]
        if r.random() < .3:
            plt.figure()
        kw.update(fig=fig, ax=ax)
        if fn != "source" and r.random() < .6:      # labels that are already there stay unless others are asked for
            ev["prior"] = "as before"
            ax.set_xlabel("as before"), ax.set_ylabel("as before")
    elif c["half"] == "yes":
        spare = plt.subplots()
        h = r.randrange(2)
        kw[["fig", "ax"][h]] = spare[h]
        look = lambda: (len(spare[1].get_children()), spare[1].get_xlim(), spare[1].get_ylim(), spare[1].get_xlabel(), spare[1].get_xscale())
        spare_before = look()
    if c["axes"] != "bare" and c["figsize"] == "given":
        kw["figsize"] = (r.choice([4, 6.5, 10]), r.choice([3, 8]))
        ev["figsize"] = lits(kw["figsize"])
    if c["extra"] == "some":
        if typ == "kde":
            kw["bw_adjust"] = r.choice([0.6, 1.7])
            ev["adjust"] = lib.num(kw["bw_adjust"])
            if two and r.random() < .6:
                kw["levels"] = ev["wantlevels"] = r.choice([4, 7])
        elif typ == "ecdf":
            kw["stat"] = "count"
            ev["count"] = True
    # ---------------- the data
    w = arr(0.2, 3) if c["weights"] == "yes" else None
    odd = c["units"] == "odd"
    if fn == "source":
        S = LW.source.Source(m_1=(arr(0.5, 50) * u.Msun).to(u.kg if odd else u.Msun), m_2=arr(0.5, 50) * u.Msun, ecc=np.array([r.uniform(0.01, 0.9) for _ in range(n)]),
                             dist=(arr(0.1, 30) * u.kpc).to(u.Mpc if odd else u.kpc), f_orb=(arr(1e-5, 1e-2) * u.Hz).to(u.mHz if odd else u.Hz), weights=w, interpolate_g=False, interpolate_sc=False)
        if c["snr"] == "yes":
            S.snr = arr(0.1, 1000)
            if r.random() < .7:
                S.max_snr_harmonic = np.array([r.randint(1, 9) for _ in range(n)])
            ev["snr"] = lits(S.snr)
        need = 5
        if c["merged"] == "some":
            S.merged = np.array([i >= need and r.random() < .4 for i in range(n)])
        mask = np.repeat(True, n)
        if c["which"] != "omit":
            mask = np.array([i < need or r.random() < .5 for i in range(n)])
            if typ not in ("kde",) and r.random() < .4:
                mask = np.array([r.random() < .4 for i in range(n)])
                mask[r.randrange(need)] = True
            kw["which_sources"] = mask if c["which"] == "mask" or c["exclude"] != "no" else np.where(mask)[0]
        if c["exclude"] != "omit":
            kw["exclude_merged_sources"] = c["exclude"] == "yes"
        if c["fail"] == "length":
            kw["which_sources"] = np.repeat(True, n + 1)
        ev.update(m1=lib.si(S.m_1), m2=lib.si(S.m_2), e=lits(S.ecc), d=lib.si(S.dist), f=lib.si(S.f_orb), merged=[int(x) for x in S.merged], which=[int(x) for x in mask], w=[] if w is None else lits(w))
        held = [S.m_1, S.m_2, S.ecc, S.dist, S.f_orb] + ([w] if w is not None else []) + ([S.snr] if S.snr is not None else [])
        val = {"m_1": S.m_1, "m_2": S.m_2, "m_c": S.m_c, "ecc": S.ecc, "dist": S.dist, "f_orb": S.f_orb, "f_GW": 2 * S.f_orb, "a": S.a, "snr": S.snr}
        vx, vy = val.get(c["x"]), val.get(c["y"])
        sel = mask & ~S.merged if ev["exclude"] else mask
        if vx is None:
            vx = np.ones(n)
        vx = vx[sel]
        ux = getattr(vx, "unit", None)
        uy = getattr(vy, "unit", None)
        f = (lambda: S.plot_source_variables(c["x"], **kw)) if c["y"] == "none" and r.random() < .5 else (lambda: S.plot_source_variables(c["x"], None if c["y"] == "none" else c["y"], **kw))
    else:
        vx, vy = arr(0.01, 100), arr(0.01, 100)
        if c["snr"] == "yes":
            vx, vy = vx * (u.mHz if odd else u.kpc), vy * (u.Msun if odd else u.Hz)
        ev["vx"], ev["vy"] = lib.si(vx), lib.si(vy)
        if w is not None:
            kw["weights"] = w
            ev["w"] = lits(w)
        if c["fail"] == "length":
            kw["weights"] = np.ones(n + 1)
            ev["fail"] = "length"
        held = [vx, vy] + ([w] if w is not None else [])
        ux, uy = getattr(vx, "unit", None), getattr(vy, "unit", None)
        f = (lambda: vis.plot_2D_dist(vx, vy, **kw)) if two else (lambda: vis.plot_1D_dist(vx, **kw))
    raw = np.asarray(getattr(vx, "value", vx), dtype=float)
    if typ == "hist" and not two:
        if c["density"] == "no":
            kw["density"] = False
        if c["bins"] == "int":
            kw["bins"] = ev["nbins"] = r.randint(2, 9)
        elif c["bins"] == "edges":
            d = np.log10(raw) if ev["logx"] else raw
            lo, hi = min(d), max(d)
            span = (hi - lo) or 1
            ed = np.sort([r.uniform(lo - .2 * span, hi + .2 * span) for _ in range(r.randint(3, 6))] + [np.median(d) - 0.013 * span, np.median(d) + .017 * span])
            kw["bins"] = ed if ux is None or ev["logx"] or r.random() < .5 else ed * ux
            ev["edges"] = lits(ed)
    if c["fail"] == "keyword":
        kw["nonsense"] = 1
    ev["xlim"], ev["ylim"] = [], []
    if c["xlim"] == "given":
        kw["xlim"] = (float(np.min(raw)) * .9, float(np.max(raw)) * 1.3)
        ev["xlim"] = lits(kw["xlim"])
    if c["ylim"] == "given":
        kw["ylim"] = (0.01, r.choice([2.0, 7.5]))
        ev["ylim"] = lits(kw["ylim"])
    # ---------------- the call
    shows = []
    real, plt.show = plt.show, lambda *a, **k: shows.append(1)
    before, figs, rc = lib.snapshot(*held), plt.get_fignums(), rcstate()
    rf = ra = None
    try:
        rf, ra = f()
        ev["out"] = {"ok": True}
    except Exception as e:
        ev["out"] = lib.err(e)
    finally:
        plt.show = real
    ev["rc"] = int(rcstate() == rc)
    ev["kept"] = lib.unchanged(before, *held)
    ev["shows"] = len(shows)
    ev["spare"] = 1 if c["axes"] == "bare" or c["half"] != "yes" else int(look() == spare_before and ra is not spare[1])
    ev["newfigs"] = len([k for k in plt.get_fignums() if k not in figs])
    ev["same"] = int(fig is not None and rf is fig and ra is ax)
    if ev["out"]["ok"]:
        ax = ra
        xu, yu = ax.xaxis.get_units(), ax.yaxis.get_units()
        own = xu if isinstance(xu, u.UnitBase) and not (typ == "hist" and ev["logx"]) else ux
        ev["xscale"] = "1" if own is None else lib.num((1 / (1 * own).si.value))
        ev["bars"] = [[lib.num(p.get_x()), lib.num(p.get_width()), lib.num(p.get_height())] for p in ax.patches]
        ev["lx"], ev["ly"], ev["peak"] = [], [], "1"
        if ax.lines:
            x, y = (np.asarray(q, dtype=float) for q in (ax.lines[0].get_xdata(orig=False), ax.lines[0].get_ydata(orig=False)))
            at = range(len(x)) if typ == "ecdf" else sorted(set(int(k) for k in np.linspace(0, len(x) - 1, 8)))
            ev["lx"], ev["ly"], ev["peak"] = [lib.num(x[k]) for k in at], [lib.num(y[k]) for k in at], lib.num(max(y))
        pts = [a for a in ax.collections if hasattr(a, "get_offsets") and type(a).__name__ == "PathCollection"]
        ev["px"], ev["py"], ev["size"] = [], [], []
        for a in pts:
            off = a.get_offsets()
            ev["px"] += si(off[:, 0], xu)
            ev["py"] += si(off[:, 1], yu)
            ev["size"] += lits(a.get_sizes())
        cs = [p.get_facecolor() for p in ax.patches] + [l.get_color() for l in ax.lines] + [k for a in pts for k in a.get_facecolors()]
        ev["colours"] = sorted({mc.to_hex(k) for k in cs})
        ev["gotsize"] = lits(rf.get_size_inches())
        if two and typ == "kde":
            owny = yu if isinstance(yu, u.UnitBase) else uy
            ev["yscale"] = "1" if owny is None else lib.num((1 / (1 * owny).si.value))
            con = [a for a in ax.collections if hasattr(a, "levels")]
            for a in con:
                ev["nlevels"] += len(a.levels)
                for lev, path in zip(a.levels, a.get_paths()):
                    v = path.vertices[path.codes != 79] if path.codes is not None else path.vertices
                    for i in sorted(set(int(q) for q in np.linspace(0, len(v) - 1, 4))) if len(v) else []:
                        ev["contours"].append([lib.num(lev), lib.num(v[i][0]), lib.num(v[i][1])])
        ev["scales"] = [ax.get_xscale(), ax.get_yscale()]
        ev["gotx"], ev["goty"] = lits(ax.get_xlim()), lits(ax.get_ylim())
        dl = lambda q: None if q is None or q == u.dimensionless_unscaled else q
        ev["xl"] = label(ax.get_xlabel(), dl(ux) if c["x"] not in ("ecc", "snr") else None, given["xlabel"])
        ev["yl"] = label(ax.get_ylabel(), dl(uy) if c["y"] not in ("ecc", "snr") else None, given["ylabel"])
    plt.close("all")
    out = [ev]
    if ev["out"]["ok"] and r.random() < .6:
        out += canaries(ev, r)
    return out


def canaries(ev, r):
    bad = lib.json.loads(lib.json.dumps(ev))
    k = r.choice(["rc", "kept", "shows", "colours", "gotsize", "data", "data", "data", "scales", "label", "limit"])
    if k in ("rc", "kept"):
        bad[k] = 0
    elif k == "shows":
        bad[k] += 1
    elif k == "colours":
        if not ev["colour"] or not ev["colours"]:
            return []
        bad[k].append("#000001")
    elif k == "gotsize":
        if not ev["figsize"]:
            return []
        bad[k][1] = "11"
    elif k == "scales":
        if ev["type"] not in ("scatter", "kde") or ev["yvar"] == "none":
            return []
        bad["scales"][0] = "symlog"
    elif k == "label":
        if ev["fn"] != "source" or ev["xl"]["mode"] == "given":
            return []
        bad["xl"]["names"] = ["a"] if ev["xvar"] != "a" else ["m_1"]
    elif k == "limit":
        if not ev["xlim"]:
            return []
        bad["gotx"][1] = lib.num(float(bad["gotx"][1]) * 1.01 + .01)
    elif ev["type"] == "hist":
        h = [i for i, b in enumerate(ev["bars"]) if float(b[2]) > 0]
        if not h:
            return []
        bad["bars"][r.choice(h)][2] = lib.num(float(bad["bars"][h[0]][2]) * 1.3 + 1e-3)
        if len(h) > 1 or not ev["density"]:
            bad["bars"][h[0]][2] = "0"
    elif ev["type"] == "scatter":
        key = r.choice(["px", "py", "size"])
        i = r.randrange(len(bad[key]))
        bad[key][i] = lib.num(float(bad[key][i]) * 1.01)
    elif bad["lx"] and ev["yvar"] == "none":
        i = r.choice([j for j in range(1, len(bad["ly"])) if float(bad["ly"][j]) >= max(map(float, bad["ly"])) * .5])
        bad["ly"][i] = lib.num(float(bad["ly"][i]) * 1.02)
    elif bad["contours"]:
        i = r.randrange(len(bad["contours"]))
        bad["contours"][i][0] = lib.num(float(bad["contours"][-1][0]) * 1.5)
    else:
        return []
    return [dict(bad, canary=True)]
