"""C03: anomaly, wrapping and orbit sampling"""
import math
import numpy as np
from .. import ref
from ..sut import api
from .c01 import angle

ID = "C03"
N = dict(quick=800, thorough=30000)
REQUIRED = ["checked:ta2ea", "checked:mee2ea", "checked:wrap", "checked:sampling", "turns", "circular", "wrap_arrays", "wrap_edges", "sampled_orbits"]
RULE = ("random eccentricities/anomalies/turns/orbits/sample counts against r=a(1-e cosE), angle equivalence and orbit invariants; non-trivial = always")


def warm(tier):
    api("ta2ea")(0.3, 0.1)
    api("mee2ea")(np.array([1.0, 0.1, 0.1, 0.0, 0.0, 0.2]))
    api("get_orbit_coordinates")(np.array([1.0, 0.1, 0.2, 0.3, 0.4, 0.5]), 1.0)
    api("get_orbit_coordinates")(np.array([1.0, 0.1, 0.2, 0.3, 0.4, 0.5]), 1.0, 7)


def gen(rng, tier):
    def ecc():
        r = rng.random()
        return 0.0 if r < 0.08 else float(rng.uniform(0, 0.99)) if r < 0.8 else float(10**rng.uniform(-9, -1))

    def ta():
        r = rng.random()
        if r < 0.1:
            return float(rng.choice([math.pi, -math.pi, 0.0, math.pi/2, 3*math.pi]))
        if r < 0.2:
            return math.pi*float(rng.integers(-5, 6)) + float(rng.normal())*10**float(rng.uniform(-9, -2))
        return float(rng.uniform(-math.pi, math.pi)) + 2*math.pi*int(rng.integers(-50, 51) if rng.random() < 0.6 else 0)
    d = dict(ea=[[ta(), ecc()] for _ in range(12)], mee=[], wrap=[], orb=[])
    for _ in range(12):
        e = ecc()
        w = angle(rng)
        d["mee"].append([float(10**rng.uniform(-2, 3)), e*math.cos(w), e*math.sin(w), float(rng.normal()), float(rng.normal()), ta()])
    for _ in range(10):
        d["wrap"].append(float(rng.uniform(-1, 1)*10**rng.uniform(-3, 5)) if rng.random() < 0.7 else math.pi*int(rng.integers(-9, 10)))
    for _ in range(3):
        i = 0.0 if rng.random() < 0.2 else float(rng.uniform(0, math.pi))
        d["orb"].append(dict(oe=[float(10**rng.uniform(-2, 3)), ecc()*0.97, i, angle(rng), angle(rng), angle(rng)], mu=float(10**rng.uniform(-3, 5)),
                             n=None if rng.random() < 0.2 else int(rng.choice([2, 3, 4, 5, 7, 16, 50, 100, 361]))))
    return d


def run(case, obs):
    def chk(E, v, e, mech, ctx):
        if not obs.check(np.isfinite(E), "finite", "eccentric anomaly not finite", got=E, **ctx):
            return
        den = 1+e*math.cos(v)
        tol = (1e-14*(1+abs(v)) + 2e-14)/(1-e)**1.5 * 20
        # radius and half-plane
        obs.close([1-e*math.cos(E), math.sqrt(1-e*e)*math.sin(E), math.cos(E)-e], [(1-e*e)/den, (1-e*e)*math.sin(v)/den, (1-e*e)*math.cos(v)/den],
                  tol, mech, "eccentric anomaly does not describe the same point of the orbit", E=E, **ctx)
        if abs(v) > 2*math.pi:
            obs.count("turns")
        if e == 0:
            obs.count("circular")
    for k in range(3):
        R = api("rotmat%d" % (k+1))
        if R is None:
            continue
        a = case["ea"][k][0]
        # the frame is turned by +a about axis k: a vector turned by +a has the old coordinates in it
        u = np.zeros(3)
        u[k] = 1.0
        i, j = (k+1) % 3, (k+2) % 3
        want = np.zeros((3, 3))
        want[k, k] = 1.0
        want[i, i] = want[j, j] = math.cos(a)
        want[i, j], want[j, i] = math.sin(a), -math.sin(a)
        obs.close(R(a), want, 1e-13, "rotation", "rotation matrix %d" % (k+1), angle=a)
    for v, e in case["ea"]:
        chk(float(api("ta2ea")(v, e)), v, e, "ta2ea", dict(anom=v, ecc=e))
    for m in case["mee"]:
        m = np.array(m)
        e = math.hypot(m[1], m[2])
        chk(float(api("mee2ea")(m.copy())), m[5]-math.atan2(m[2], m[1]), e, "mee2ea", dict(mee=m))
    wrap = api("wrap")
    if wrap is not None:
        ws = [float(wrap(x)) for x in case["wrap"]]
        wa = np.asarray(wrap(np.array(case["wrap"])))
        obs.check(wa.shape == (len(ws),), "wrap", "wrapping an array changes its shape")
        for x, y, z in zip(case["wrap"], ws, wa):
            for g in (y, float(z)):
                obs.check(-math.pi-1e-15 <= g <= math.pi+1e-15, "wrap", "wrapped angle outside [-pi, pi]", x=x, got=g)
                obs.close(ref.angdiff(g, x), 0.0, 1e-15*(abs(x)+10), "wrap", "wrapped angle is not equivalent", x=x, wrapped=g)
            if abs(x/math.pi - round(x/math.pi)) < 1e-12:
                obs.count("wrap_edges")
        obs.count("wrap_arrays")
    for o in case["orb"]:
        oe, mu, n = np.array(o["oe"]), o["mu"], o["n"]
        c = np.asarray(api("get_orbit_coordinates")(oe.copy(), mu) if n is None else api("get_orbit_coordinates")(oe.copy(), mu, n))
        n = n or 200
        if not obs.check(c.shape == (6, n) and np.all(np.isfinite(c)), "sampling", "wrong number of samples", shape=c.shape, n=n, orbit=o):
            continue
        a, e = oe[0], oe[1]
        s0 = ref.kep2sv(oe, mu)
        ev0, h0 = ref.evec_hvec(s0, mu)
        ev, h = ref.evec_hvec(c.T, mu)
        tol = 1e-11/(1-e)**2
        hn = np.linalg.norm(h0)
        obs.close(h/hn, np.broadcast_to(h0/hn, h.shape), tol, "sampling", "sample not on the orbit (plane/momentum)", orbit=o)
        obs.close(ev, np.broadcast_to(ev0, ev.shape), tol, "sampling", "sample not on the orbit (eccentricity vector)", orbit=o)
        r = np.linalg.norm(c[:3], axis=0)
        obs.close(np.sum(c[3:]**2, axis=0)/2 - mu/r, np.full(n, -mu/(2*a)), tol*mu/a*4/(1-e), "sampling", "sample not on the orbit (energy)", orbit=o)
        # equal steps in true anomaly over one revolution
        P, Qv = oe.copy(), oe.copy()
        P[5], Qv[5] = 0.0, math.pi/2
        p_, q_ = ref.kep2sv(P, mu)[:3], ref.kep2sv(Qv, mu)[:3]
        th = np.arctan2(q_/np.linalg.norm(q_) @ c[:3], p_/np.linalg.norm(p_) @ c[:3])
        obs.close(ref.angdiff(np.diff(th), 2*math.pi/(n-1)), np.zeros(n-1), tol*10, "sampling", "samples are not equally spaced over one revolution", orbit=o)
        obs.count("sampled_orbits")
