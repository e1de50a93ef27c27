"""C02: extracted elements are the defined ones"""
import math
import numpy as np
from .. import ref
from ..sut import api
from .c01 import angle

ID = "C02"
N = dict(quick=1200, thorough=50000)
PER = 12
REQUIRED = ["elliptic", "hyperbolic", "equatorial", "node_line", "retrograde", "generic_vectors", "checked:omega", "checked:raan", "checked:trueanom",
            "checked:period", "checked:sma", "checked:evec", "checked:inc"]
RULE = ("random Cartesian states (from elements with e in [1e-5,0.98] or [1.02,8], and generic vectors), incl. exactly equatorial and periapsis on the "
        "node line; every extraction function against textbook vector definitions; non-trivial = at least one state checked")
ASSUMPTIONS = ["|e-1| >= 0.01; angle tolerances widen with 1/e and 1/sin(i)"]


def warm(tier):
    s = np.array([1.0, 0.1, 0.2, -0.1, 0.9, 0.3])
    for n in ("get_semiMajorAxis", "get_eccentricity", "get_omega", "get_trueanom", "get_period", "sv2kep"):
        api(n)(s, 1.0)
    for n in ("get_inclination", "get_raan"):
        api(n)(s)


def gen(rng, tier):
    L = []
    for _ in range(PER):
        mu = 1.0 if rng.random() < 0.3 else float(10**rng.uniform(-4, 6))
        r = rng.random()
        if r < 0.15:
            s = 10**rng.uniform(-2, 4)
            q = rng.normal(size=3); q *= s/np.linalg.norm(q)
            v = rng.normal(size=3); v *= math.sqrt(mu/s)*rng.uniform(0.2, 2.5)/np.linalg.norm(v)
            L.append(dict(kind="vec", mu=mu, sv=[float(z) for z in np.concatenate([q, v])]))
            continue
        hyp = rng.random() < 0.3
        if hyp:
            e = float(rng.uniform(1.02, 8))
            a = -float(10**rng.uniform(-2, 4))
            lim = math.acos(-1/e)*0.9
            ta = float(rng.uniform(-lim, lim)) if rng.random() < 0.8 else 0.0
        else:
            e = float(rng.uniform(0.0005, 0.98)) if rng.random() < 0.7 else float(10**rng.uniform(-5, -1))
            a = float(10**rng.uniform(-2, 4))
            ta = angle(rng)
        i = float(rng.uniform(0, math.pi)) if rng.random() < 0.8 else float(10**rng.uniform(-4, -1))
        O, w = angle(rng), angle(rng)
        kind = "kep"
        r = rng.random()
        if r < 0.15:
            i, kind = 0.0, "equatorial"
        elif r < 0.35:
            w, kind = float(rng.choice([0.0, math.pi, -math.pi])), "node_line"
            if rng.random() < 0.5:
                O = 0.0
        k = np.array([a, e, i, O, w, ta])
        sv = ref.kep2sv(k, mu)
        if kind == "equatorial":
            sv[2] = sv[5] = 0.0
        elif kind == "node_line" and O == 0.0 and rng.random() < 0.5:
            # periapsis exactly on the x axis and on the node
            rp = a*(1-e)
            v = math.sqrt(mu*(1+e)/rp)
            sg = 1.0 if w == 0.0 else -1.0
            sv = np.array([sg*rp, 0.0, 0.0, 0.0, sg*v*math.cos(i), sg*v*math.sin(i)])
        L.append(dict(kind=kind, mu=mu, sv=[float(z) for z in sv]))
    return dict(states=L)


def run(case, obs):
    for s in case["states"]:
        sv, mu = np.array(s["sv"]), s["mu"]
        r, v = sv[:3], sv[3:]
        rn, vn = np.linalg.norm(r), np.linalg.norm(v)
        h = np.cross(r, v); hn = np.linalg.norm(h)
        ev, _ = ref.evec_hvec(sv, mu)
        e = float(np.linalg.norm(ev))
        if abs(e-1) < 0.01 or hn < 0.02*rn*vn:
            obs.count("skipped")
            continue
        en = vn**2/2 - mu/rn
        a = -mu/(2*en)
        amp = 1 + vn**2*rn/mu
        te = 2e-13*amp
        ta_ = 2e-13*amp/abs(1-e)
        si = math.hypot(h[0], h[1])/hn
        got = {n: np.asarray(api(f)(sv.copy(), mu), dtype=float) for n, f in (("a", "get_semiMajorAxis"), ("ev", "get_eccentricity"), ("w", "get_omega"),
                                                                   ("v", "get_trueanom"), ("P", "get_period"), ("kep", "sv2kep"))}
        got["i"] = float(api("get_inclination")(sv.copy()))
        got["O"] = float(api("get_raan")(sv.copy()))
        kep = got["kep"]
        ctx = dict(state=s)
        ok = kep.shape == (6,) and all(np.all(np.isfinite(g)) for g in got.values())
        if not obs.check(ok, "finite", "extracted elements are not finite", got={k: v for k, v in got.items()}, **ctx):
            continue
        obs.count("elliptic" if e < 1 else "hyperbolic")
        if si == 0:
            obs.count("equatorial")
        if s["kind"] == "node_line":
            obs.count("node_line")
        if h[2] < 0:
            obs.count("retrograde")
        if s["kind"] == "vec":
            obs.count("generic_vectors")
        obs.close(got["a"], a, 10*ta_*abs(a), "sma", "semimajor axis", **ctx)
        obs.close(kep[0], a, 10*ta_*abs(a), "sma", "semimajor axis (sv2kep)", **ctx)
        obs.close(got["ev"], ev, 10*te, "evec", "eccentricity vector", **ctx)
        obs.close(kep[1], e, 10*te, "evec", "eccentricity (sv2kep)", **ctx)
        inc = math.atan2(math.hypot(h[0], h[1]), h[2])
        ti = 1e-12 + min(4e-15/max(si, 1e-300), 5e-8)
        if si == 0:
            ti = 1e-12
        obs.close(got["i"], inc, ti, "inc", "inclination", **ctx)
        obs.close(kep[2], inc, ti, "inc", "inclination (sv2kep)", **ctx)
        prog_eq = si == 0 and h[2] > 0
        tO = 1e-12 + 1e-14/max(si, 1e-14)
        if si > 1e-9:
            O = math.atan2(h[0], -h[1])
            node = np.array([-h[1], h[0], 0.0])/math.hypot(h[0], h[1])
            for g in (got["O"], kep[3]):
                obs.close(ref.angdiff(g, O), 0.0, tO, "raan", "node", **ctx)
        else:
            node = np.array([math.cos(got["O"]), math.sin(got["O"]), 0.0])
        if si > 1e-9 or prog_eq:
            m = np.cross(h/hn, node)
            w = math.atan2(np.dot(m, ev), np.dot(node, ev))
            tw = tO + 20*te/e
            for g in (got["w"], kep[4]):
                obs.close(ref.angdiff(g, w), 0.0, tw, "omega", "argument of periapsis", **ctx)
            if si == 0:
                lp = math.atan2(ev[1], ev[0])
                obs.close(ref.angdiff(kep[3]+kep[4], lp), 0.0, tw, "omega", "longitude of periapsis of an equatorial orbit", **ctx)
        th = math.atan2(np.dot(np.cross(ev, r), h/hn), np.dot(ev, r))
        for g in (got["v"], kep[5]):
            obs.close(ref.angdiff(g, th), 0.0, 1e-12 + 20*te/e, "trueanom", "true anomaly", **ctx)
        if e < 1:
            P = 2*math.pi*math.sqrt(a**3/mu)
            obs.close(got["P"], P, 20*ta_*P, "period", "period", **ctx)
        else:
            obs.check(float(got["P"]) < 0, "period", "an open orbit has no period", got=got["P"], **ctx)
