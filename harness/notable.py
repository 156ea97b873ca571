"""Evaluates the LISA response and noise curve with a package that does not carry the tabulated response (R.npy)."""
import json
import logging
import sys
import astropy.units as u
import lib

LW = lib.load_legwork(without=("R.npy",))


class Count(logging.Handler):
    n = 0

    def emit(self, rec):
        Count.n += rec.levelno >= logging.WARNING


log = logging.getLogger("LEGWORK")
log.setLevel(logging.INFO)
for h in list(log.handlers):
    log.removeHandler(h)
log.addHandler(Count())
out = []
for job in json.load(sys.stdin):
    if job["kind"] == "response":
        x = job["x"] if len(job["x"]) > 1 else job["x"][0]
        out.append(lib.call(LW.psd.load_response_function, lib.np.array(x) if isinstance(x, list) else x, job["fstar"]))
    else:
        out.append(lib.call(LW.psd.lisa_psd, lib.np.array(job["x"]) * u.Hz, confusion_noise=None))
    out[-1]["warned"] = 1 if Count.n else 0
json.dump(out, sys.stdout)
