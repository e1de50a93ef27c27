"""C01: every conversion path describes the same physical orbit"""
import math
import numpy as np
from .. import ref, sut
from ..sut import api

ID = "C01"
N = dict(quick=900, thorough=40000)
PER = 12
REQUIRED = ["paths", "via_sv", "equatorial", "circular", "retrograde", "zero_angles", "turns", "edge:kep2sv", "edge:sv2kep", "edge:kep2mee", "edge:mee2kep",
            "edge:mee_with_a2mee", "edge:mee2mee_with_a", "edge:kep2mee_with_a", "edge:mee_with_a2kep", "edge:mee_with_a2sv",
            "checked:elements", "checked:physical", "checked:kep_elements"]
RULE = ("random orbits (all quadrants, turns, exactly zero angles, near-circular, retrograde; exactly circular/equatorial when started in equinoctial "
        "elements) pushed along random walks of the public conversions; position/velocity and elements compared with an independent map after every hop; "
        "non-trivial = at least one hop checked")
ASSUMPTIONS = ["Cartesian-to-element hops are only taken for e >= 1e-6 (periapsis undefined below)",
               "tolerances widen with 1/e, 1/sin(i) and 1/(1-e)^2 on Cartesian-to-element hops (rounding of the problem itself)"]

EDGES = {"kep": ["kep2sv", "kep2mee", "kep2mee_with_a"], "mee": ["mee2kep", "mee2mee_with_a"],
         "meea": ["mee_with_a2mee", "mee_with_a2kep", "mee_with_a2sv"], "sv": ["sv2kep"]}
DST = dict(kep2sv="sv", kep2mee="mee", kep2mee_with_a="meea", mee2kep="kep", mee2mee_with_a="meea", mee_with_a2mee="mee", mee_with_a2kep="kep",
           mee_with_a2sv="sv", sv2kep="kep")
MU = ("kep2sv", "sv2kep", "mee_with_a2sv")


def call(name, x, mu):
    f = api(name)
    return np.asarray(f(x, mu) if name in MU else f(x), dtype=float)


def warm(tier):
    k = np.array([1.0, 0.1, 0.3, 0.2, 0.3, 0.4])
    x = dict(kep=k, mee=ref.kep2mee(k), meea=ref.kep2meea(k), sv=ref.kep2sv(k, 1.0))
    for s, es in EDGES.items():
        for e in es:
            call(e, x[s], 1.0)


def angle(rng):
    r = rng.random()
    if r < 0.15:
        return 0.0
    if r < 0.3:
        return float(rng.integers(-4, 5))*math.pi/2
    return float(rng.uniform(-math.pi, math.pi)) + (2*math.pi*int(rng.integers(-3, 4)) if rng.random() < 0.3 else 0.0)


def orbit(rng):
    mu = 1.0 if rng.random() < 0.3 else float(10**rng.uniform(-4, 6))
    a = float(10**rng.uniform(-2, 5))
    r = rng.random()
    e = float(rng.uniform(0, 0.95)) if r < 0.6 else float(10**rng.uniform(-5.9, -1)) if r < 0.9 else float(rng.uniform(0.9, 0.97))
    r = rng.random()
    i = float(rng.uniform(0.0, 3.05)) if r < 0.7 else float(10**rng.uniform(-4, -1)) if r < 0.85 else float(rng.uniform(math.pi/2, 3.1))
    if rng.random() < 0.65:
        if rng.random() < 0.15:
            i = 0.0
        return dict(start="kep", mu=mu, oe=[a, e, i, angle(rng), angle(rng), angle(rng)])
    m = ref.kep2meea(np.array([a, e, i, angle(rng), angle(rng), angle(rng)]))
    r = rng.random()
    if r < 0.3:
        m[1] = m[2] = 0.0
    elif r < 0.4:
        m[1 + int(rng.integers(2))] = 0.0
    r = rng.random()
    if r < 0.3:
        m[3] = m[4] = 0.0
    elif r < 0.4:
        m[3 + int(rng.integers(2))] = 0.0
    if m[1]**2+m[2]**2 > 0.94:
        m[1:3] *= 0.5
    if rng.random() < 0.5:
        return dict(start="meea", mu=mu, oe=[float(v) for v in m])
    m = ref.meea2mee(m)
    return dict(start="mee", mu=mu, oe=[float(v) for v in m])


def gen(rng, tier):
    L = []
    for _ in range(PER):
        o = orbit(rng)
        n = int(rng.integers(1, 7))
        cur, path = o["start"], []
        mee = truth(o)[0]
        e = math.hypot(mee[1], mee[2])
        for _ in range(n):
            es = EDGES[cur]
            if cur == "sv" and e < 1e-6:
                break
            path.append(str(rng.choice(es)))
            cur = DST[path[-1]]
        o["path"] = path
        L.append(o)
    return dict(orbits=L)


def truth(o):
    x = np.array(o["oe"], dtype=float)
    if o["start"] == "kep":
        mee = ref.kep2mee(x)
    elif o["start"] == "meea":
        mee = ref.meea2mee(x)
    else:
        mee = x.copy()
    return mee, x


def run(case, obs):
    for o in case["orbits"]:
        mu = o["mu"]
        mee, x0 = truth(o)
        e = math.hypot(mee[1], mee[2])
        t2 = mee[3]**2+mee[4]**2
        si = 2*math.sqrt(t2)/(1+t2)
        sv = ref.kep2sv(x0, mu) if o["start"] == "kep" else ref.mee2sv(mee, mu)
        p = mee[0]
        rs, vs = np.linalg.norm(sv[:3]), np.linalg.norm(sv[3:])
        turns = sum(abs(v) for v in x0[3:] if o["start"] == "kep") + abs(mee[5])
        base = 2e-13*(1+turns)/(1-e)**2 + 1e-13*(1+t2)
        cur, x, hops = o["start"], x0.copy(), 0
        for name in o["path"]:
            y = call(name, x.copy(), mu)
            obs.count("edge:" + name)
            cur = DST[name]
            if name == "sv2kep":
                hops += 1
                base += 1e-13/(1-e)**2 + 4e-15/max(e, 1e-9) + (4e-15/si if si > 1e-7 else 4e-8 if si > 0 else 0.0)
                obs.count("via_sv")
            tol = 10*base*(1+hops)
            if y.shape != (6,) or not np.all(np.isfinite(y)):
                obs.check(False, "finite", "conversion returned a non-finite or misshapen result", orbit=o, at=name, got=y)
                break
            phys = y if cur == "sv" else ref.kep2sv(y, mu) if cur == "kep" else ref.mee2sv(y if cur == "mee" else ref.meea2mee(y), mu)
            d = max(np.linalg.norm(phys[:3]-sv[:3])/rs, np.linalg.norm(phys[3:]-sv[3:])/vs)
            if not obs.check(d <= tol, "physical", "conversion changed the orbit", orbit=o, at=name, got=y, err=d, tol=tol):
                break
            if cur != "sv":
                m = ref.kep2mee(y) if cur == "kep" else y if cur == "mee" else ref.meea2mee(y)
                dm = np.abs(m-mee)
                dm[5] = abs(ref.angdiff(m[5], mee[5]))
                sc = np.array([p, 1, 1, 1+t2, 1+t2, 1.0])
                if not obs.check(bool(np.all(dm <= tol*sc)), "elements", "conversion changed the elements", orbit=o, at=name, got=y, err=dm, tol=tol):
                    break
            if cur == "kep" and o["start"] == "kep" and e > 1e-6 and si > 1e-6:
                dk = np.abs(y-x0)
                dk[3:] = np.abs(ref.angdiff(y[3:], x0[3:]))
                tk = tol*np.array([abs(x0[0]), 1, 1+1/si, 1/si, 1/si+1/e, 1/e])
                if not obs.check(bool(np.all(dk <= tk)), "kep_elements", "Keplerian elements do not survive the round trip", orbit=o, at=name, got=y, err=dk, tol=tk):
                    break
                if hops == 0 or True:
                    obs.check(0 <= y[1] < 1 and -1e-15 <= y[2] <= math.pi, "ranges", "eccentricity or inclination out of range", got=y)
            x = y
        obs.count("paths")
        if si == 0:
            obs.count("equatorial")
        if e == 0:
            obs.count("circular")
        if t2 > 1:
            obs.count("retrograde")
        if any(v == 0 for v in o["oe"][3:]):
            obs.count("zero_angles")
        if turns > 2*math.pi*2:
            obs.count("turns")
