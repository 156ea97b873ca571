"""C29: histories of imports, logging configuration and messages, each in its own process with its own standard output (a file or a terminal)."""
import importlib
import io
import json
import logging
import os
import pty
import sys
import numpy as np
import astropy.units as u
import h5py, matplotlib.pyplot, seaborn            # noqa: F401  (loaded once, in the parent)
import lib

TEXTS = ["plain words", "1 source, 50% of them", "colon: inside", "  leading space", "unicode \u00b5Hz \u2609", "{braces} and [brackets]", "x", "trailing spaces  ", "trailing tab\t", "\ttabs\tinside"]


def setup(lw, seed, tier):
    from legwork import source               # noqa: F401  (third-party imports happen here)


def purge():
    for m in [m for m in sys.modules if m == "legwork" or m.startswith("legwork.")]:
        del sys.modules[m]


def own(how):
    import legwork
    from legwork import evol, source
    if how == "past":
        evol.evol_ecc(ecc_i=np.array([0.3]), f_orb_i=np.array([1e-5]) * u.Hz, m_1=np.array([10.]) * u.Msun, m_2=np.array([10.]) * u.Msun,
                      timesteps=np.array([0., 1.0, 1e14]) * u.yr)
    elif how == "near":
        evol.evol_ecc(ecc_i=np.array([0.3]), f_orb_i=np.array([1.]) * u.Hz, m_1=np.array([1e3]) * u.Msun, m_2=np.array([1e3]) * u.Msun,
                      timesteps=np.array([1e8, 1e9]) * u.yr)
    else:
        kw = {}
        if how == "random":
            from astropy.coordinates import SkyCoord
            kw["position"] = SkyCoord([0.1, 0.2] * u.rad, [0.1, 0.3] * u.rad, distance=[1, 2] * u.kpc, frame="icrs")
        s = source.Source(m_1=np.array([1., 1.]) * u.Msun, m_2=np.array([1., 1.]) * u.Msun, ecc=np.array([0., 0.]), dist=np.array([1., 1.]) * u.kpc,
                          f_orb=np.array([1e-3, 1e-3]) * u.Hz, interpolate_g=False, interpolate_sc=False, **kw)
        if how == "nosnr":
            s.plot_sources_on_sc(show=False)
        elif how == "cutoff":
            import legwork.visualisation as vis
            vis.plot_sources_on_sc(f_dom=np.array([1e-3]) * u.Hz, snr=np.array([0.1]), snr_cutoff=7, show=False)


def child(c, r, wfd):
    import shutil, tempfile
    d = tempfile.mkdtemp(prefix="verif-c29-")
    try:
        _child(c, r, wfd, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Sink:
    """A destination and what arrived there since it was last asked."""
    def __init__(self, path):
        self.path, self.pos = path, 0

    def new(self):
        with open(self.path, "rb") as f:
            f.seek(self.pos)
            b = f.read()
        self.pos += len(b)
        return lines(b)


def lines(b):
    t = b.decode("utf8", "replace").replace("\r\n", "\n").replace("\x1b", "^[")
    return t.split("\n")[:-1] if t.endswith("\n") else t.split("\n") if t else []


class Tty:
    def __init__(self, master):
        self.m = master
        os.set_blocking(master, False)

    def new(self):
        b = b""
        while True:
            try:
                x = os.read(self.m, 65536)
            except (BlockingIOError, OSError):
                break
            if not x:
                break
            b += x
        return lines(b)


def _child(c, r, wfd, d):
    # a fresh interpreter as far as the package and its logger go
    purge()
    lw = logging.getLogger("LEGWORK")
    lw.handlers.clear(); lw.setLevel(0); lw.propagate = True
    lw.manager._clear_cache()
    root = logging.getLogger()
    root.handlers.clear(); root.setLevel(30)
    logging.disable(0)
    err = os.path.join(d, "err"); open(err, "w").close()
    os.dup2(os.open(err, os.O_WRONLY | os.O_APPEND), 2)
    # a terminal and a file: standard output is the one or the other
    m, sl = pty.openpty()
    p = os.path.join(d, "out"); open(p, "w").close()
    dests = {True: (sl, Tty(m)), False: (os.open(p, os.O_WRONLY | os.O_APPEND), Sink(p))}
    tty = c["tty"]
    os.dup2(dests[tty][0], 1)
    sys.stdout = sys.__stdout__ = open(1, "w", encoding="utf8", closefd=False)
    sys.stderr = sys.__stderr__ = open(2, "w", encoding="utf8", closefd=False)
    errs = Sink(err)
    up, rp = os.path.join(d, "user"), os.path.join(d, "root")
    open(up, "w").close(); open(rp, "w").close()
    us, rs = Sink(up), Sink(rp)
    fmt = lambda x: type("F", (logging.Formatter,), {"format": lambda self, rec: "%s %s: %s" % (x, rec.levelname.lower(), rec.getMessage())})()
    mine = []
    hist, evs = [], []
    stale = None
    for o in c["h"]:
        op, v, how = o["op"], o["v"], o["how"]
        text = r.choice(TEXTS)
        out = {"ok": True, "kind": "i", "unit": "none", "shape": [], "v": [0]}
        try:
            if op == "import":
                import legwork                         # noqa: F401
            elif op == "again":
                purge()
                import legwork                         # noqa: F401,F811
            elif op == "reload":
                importlib.reload(sys.modules["legwork._logging"])
            elif op == "reloadall":
                importlib.reload(sys.modules["legwork"])
            elif op == "user":
                h = logging.FileHandler(up, encoding="utf8")
                h.setFormatter(fmt("U"))
                mine.append((h, (h.level, h.formatter, True, [])))
                logging.getLogger("LEGWORK").addHandler(h)
            elif op == "clear":
                for h in list(lw.handlers):
                    lw.removeHandler(h)
                mine = []
            elif op == "level":
                (sys.modules["legwork"].logger if how == "legwork" else logging.getLogger("LEGWORK")).setLevel(v)
            elif op == "root":
                h = logging.FileHandler(rp, encoding="utf8")
                h.setFormatter(fmt("R"))
                h.addFilter(lambda rec: rec.name.lower().startswith("legwork"))        # (other packages log too)
                logging.basicConfig(level=v, handlers=[h], force=True)
            elif op == "switch":
                sys.stdout.flush()
                tty = not tty
                os.dup2(dests[tty][0], 1)
            elif op == "disable":
                logging.disable(v)
            elif op == "msg":
                lg = sys.modules["legwork"].logger if "legwork" in sys.modules and r.random() < .6 else logging.getLogger("LEGWORK")
                if how == "args":
                    lg.log(v, "%s", text)
                else:
                    {10: lg.debug, 20: lg.info, 30: lg.warning, 40: lg.error, 50: lg.critical}.get(v, lambda t: lg.log(v, t))(text)
            elif op == "own":
                own(how)
        except Exception as e:
            out = lib.err(e)
        sys.stdout.flush(); sys.stderr.flush()
        hist = hist + [o]
        got = {"stdout": [x for t in (True, False) for x in dests[t][1].new()], "user": us.new(), "root": rs.new(), "stderr": errs.new()}
        if op == "own":       # the wording is not specified: level and number are
            got = {k: [x.split(": ")[0] for x in w] for k, w in got.items()}
        ev = {"fn": "step", "h": hist, "tty": c["tty"], "text": text, "out": out, "handlers": len(lw.handlers),
              "kept": all(h in lw.handlers and (h.level, h.formatter, h.stream is not None, list(h.filters)) == w for h, w in mine), "roothandlers": len(root.handlers), "level": lw.getEffectiveLevel(),
              "same": "legwork" not in sys.modules or sys.modules["legwork"].logger is lw, "nocanary": True}
        ev.update(got)
        evs.append(ev)
        if op in ("msg", "own") and got["stdout"] and r.random() < .2:
            evs.append(dict(ev, stdout=got["stdout"] * 2, canary=True))
            evs.append(dict(ev, stdout=[], canary=True))
            evs.append(dict(ev, stdout=[x.replace("LEGWORK", "legwork") for x in got["stdout"]], canary=True))
        if op in ("msg", "own") and not got["root"] and r.random() < .2:
            evs.append(dict(ev, root=["R info: " + text], canary=True))
        if r.random() < .05:
            evs.append(dict(ev, handlers=ev["handlers"] + 1, canary=True))
    with os.fdopen(wfd, "w") as f:
        json.dump(evs, f)


def run(c, r):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            child(c, r, wfd)
        except BaseException:
            import traceback
            try:
                os.write(wfd, traceback.format_exc().encode())
            except OSError:
                pass
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)
