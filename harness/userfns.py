"""User-supplied functions handed to the code under test; same formulas as UserNoise/UserPsd in spec/Noise.tla."""
import numpy as np
import astropy.units as u

CALLS = []          # (id, number of frequencies, kwargs) of every PSD call


def _hz(f):
    return f.to(u.Hz).value if isinstance(f, u.Quantity) else np.asarray(f, dtype=float)


def _yr(t):
    return t.to(u.yr).value


def cnA(f, t_obs):
    CALLS.append(("cnA", np.size(_hz(f)), dict(t_obs=t_obs)))
    return 3e-41 * (_hz(f) / 1e-3)**-1.5 * np.sqrt(_yr(t_obs)) / u.Hz


def cnB(f, t_obs):
    CALLS.append(("cnB", np.size(_hz(f)), dict(t_obs=t_obs)))
    return 1e-39 * _hz(f)**0.25 / u.Hz


def psdA(f, t_obs=None, L=None, approximate_R=None, confusion_noise=None):
    CALLS.append(("psdA", np.size(_hz(f)), dict(t_obs=t_obs, L=L, approximate_R=approximate_R, confusion_noise=confusion_noise)))
    return (2e-40 * (_hz(f) / 1e-3)**-2. + 1e-42) / u.Hz


def psdB(f, t_obs=None, L=None, approximate_R=None, confusion_noise=None):
    CALLS.append(("psdB", np.size(_hz(f)), dict(t_obs=t_obs, L=L, approximate_R=approximate_R, confusion_noise=confusion_noise)))
    return (5e-41 + 1e-38 * _hz(f)) / u.Hz


# equal names: only the objects tell them apart
for _f in (cnA, cnB, psdA, psdB):
    _f.__name__ = _f.__qualname__ = "user_function"

NOISE = {"cnA": cnA, "cnB": cnB}
PSD = {"psdA": psdA, "psdB": psdB}
NAMES = {id(v): k for d in (NOISE, PSD) for k, v in d.items()}
