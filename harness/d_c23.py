import numpy as np
import astropy.units as u
import lib
from lib import call, lits
from d_c22 import settings, gtable, UN


def setup(lw, seed, tier):
    lw.evol.get_t_merge_ecc(ecc_i=0.5, a_i=1 * u.AU, beta=lw.utils.beta(1 * u.Msun, 1 * u.Msun))
    lw.evol.de_dt(0.5, 0.0, 1.0, 1.0)


def eccs(c, r, ns):
    def one():
        k = c["ecc"] if c["ecc"] != "mixed" else r.choice(["low", "mid", "high"])
        return {"low": lambda: r.uniform(1e-3, 0.12), "mid": lambda: r.uniform(0.12, 0.7), "high": lambda: r.uniform(0.7, 0.95)}[k]()
    return np.array([one() for _ in range(ns)])


def run(c, r):
    sn, ut, ev_ = LW.snr, LW.utils, LW.evol
    circ = c["fn"] == "circ"
    ns = {"one": 1, "few": 2, "several": lib.lots(r, 4, 30, 60)}[c["src"]]
    N = {"two": 2, "five": 5, "twelve": 12}[c["nharm"]]
    steps = {"two": 2, "few": r.randint(3, 6), "many": 100 if circ and ns < 3 else 12}[c["nstep"]]
    if circ and ns == 1 and c["nstep"] == "many" and r.random() < .3:
        steps = r.randint(300, 1500)
    mu, fu, du, tu = UN[c["units"]]
    m1 = lib.tie(c, "m", np.array([lib.logu(r, 0.3, 300) for _ in range(ns)])) * u.Msun
    m2 = m1 * lib.tie(c, "m", np.array([r.uniform(0.1, 1) for _ in range(ns)]))
    e = np.zeros(ns) if circ else lib.tie(c, "e", eccs(c, r, ns))
    T = ({"short": lib.logu(r, 1e-2, 1), "four": 4.0, "long": r.uniform(4.5, 12)}[c["tobs"]] * u.yr).to(tu)
    Ts = T.to(u.s).value
    # orbits whose remaining life is longer or shorter than the observation
    beta = ut.beta(m1, m2)
    f = np.zeros(ns)
    for i in range(ns):
        end = c["ends"] if c["ends"] != "mixed" else r.choice(["observation", "merger", "merger", "imminent"])
        floor = 10 if circ else 0.4 * 3.16e7
        life = Ts * (lib.logu(r, 1.5, 1e4) if end == "observation" else r.uniform(0.3, 0.95))
        life = max(life, floor)
        if end == "imminent" and not circ:
            life = r.uniform(0.01, 0.095) * 3.15576e7
        if not circ and end == "observation":
            life = max(life, Ts * 1.02 + floor)
        a = (4 * beta[i] * life * u.s)**0.25
        for _ in range(30):
            t = ev_.get_t_merge_ecc(ecc_i=float(e[i]), a_i=a, beta=beta[i], exact=True)
            k = (life * u.s / t).to(u.one).value
            if abs(k - 1) < 1e-6:
                break
            a = a * k**0.25
        f[i] = ut.get_f_orb_from_a(a, m1[i], m2[i]).to(u.Hz).value
        if i and c["tie"] in ("all", "pair") and m1[i] == m1[0] and m2[i] == m2[0] and e[i] == e[0]:
            f[i] = f[0]
    f = (f * u.Hz).to(fu)
    m1, m2 = m1.to(mu), m2.to(mu)
    if c["mix"] == "yes":
        m2 = lib.other_unit(r, m2, [u.Msun, u.kg, u.g])
    d = (lib.tie(c, "d", np.array([lib.logu(r, 0.1, 1e5) for _ in range(ns)])) * u.kpc).to(du)
    kw = {}
    if c["nharm"] == "twelve" or circ:
        pass
    p = settings(c, r, T, kw, tu)
    if p["instrument"] == "LISA" and not p["approx"] and p["sc"] == "none":
        # the tabulated response must cover the track
        kw["approximate_R"] = p["approx"] = True
    ev = {"fn": c["fn"], "ret": "total", "m1": lib.si(m1), "m2": lib.si(m2), "f": lib.si(f), "d": lib.si(d), "e": lits(e), "T": lib.lit(T),
          "N": 1 if circ else N, "nstep": steps, "g": "exact", "p": p, "tmerge": [], "alone": "none", "which": 1, "_cfac": 1 + (1e-4 if circ else 1e-2)}
    if c["g"] == "table":
        ev["g"] = "above"
        kw["interpolated_g"] = lambda n, e: gtable(n, e) + 0.6
    tm = None
    if c["tm"] != "omit":
        tm = ev_.get_t_merge_ecc(ecc_i=e, f_orb_i=f, m_1=m1, m_2=m2)
        if c["tm"] == "sooner":
            x = np.array([r.uniform(0.6, 1) for _ in range(ns)])
            tm = np.maximum(tm * x, (15 * u.s if circ else 0.15 * u.yr if min(tm) > 0.12 * u.yr else 0.02 * u.yr).to(u.Gyr))
        if c["tm"] == "later" and circ:
            # an overestimate: the track goes past the merger, but no sample sits right at it
            life = tm.to(u.s).value
            x = np.array([r.uniform(1.02, 3) for _ in range(ns)])
            for _ in range(50):
                end = np.minimum(life * x - 1, Ts)
                t = end[:, None] * np.arange(steps) / (steps - 1) / life[:, None]
                near = (abs(t - 1) < 2e-3).any(axis=1)
                if not near.any():
                    break
                x[near] = [r.uniform(1.02, 3) for _ in range(near.sum())]
            else:
                x = np.ones(ns)
            tm = tm * x
        tm = tm.to(r.choice([u.Gyr, u.yr, u.s]))
        ev["tmerge"] = lib.si(tm)
        kw["t_merge"] = tm
    if not circ:
        ev["ret"] = c["ret"]
        if c["ret"] == "max":
            kw["ret_max_snr_harmonic"] = True
        if c["ret"] == "terms":
            kw["ret_snr2_by_harmonic"] = True
        kw["harmonics_required"] = N
        if c["nproc"] > 1:
            kw["n_proc"] = c["nproc"]
    watch = [m1, m2, f, d, e] + ([tm] if tm is not None else [])
    before = lib.snapshot(*watch)
    fn = sn.snr_circ_evolving if circ else sn.snr_ecc_evolving
    kw.update({} if circ else {"ecc": e})
    ev["out"] = call(fn, m_1=m1, m_2=m2, f_orb_i=f, dist=d, t_obs=T, n_step=steps, **kw)
    ev["kept"] = lib.unchanged(before, *watch)
    if ns > 1 and ev["ret"] == "total" and ev["out"]["ok"]:
        i = r.randrange(ns)
        k1 = dict(kw)
        for k in ("t_merge", "ecc"):
            if k in k1:
                k1[k] = k1[k][i:i + 1]
        k1.pop("n_proc", None)
        o = call(fn, m_1=m1[i:i + 1], m_2=m2[i:i + 1], f_orb_i=f[i:i + 1], dist=d[i:i + 1], t_obs=T, n_step=steps, **k1)
        ev["alone"] = o["v"][0] if o["ok"] else "nan"
        ev["which"] = i + 1
    return [ev]
