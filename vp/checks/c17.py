"""C17: perturbation accelerations"""
import math
import numpy as np
import mpmath
from .. import ref, flows, shadow, sut
from ..sut import api
from .c01 import angle

ID = "C17"
N = dict(quick=500, thorough=20000)
REQUIRED = ["checked:third_body", "checked:J2", "checked:SRP", "checked:frame", "checked:combined", "far_body", "near_body", "retrograde", "none_bodies",
            "empty_bodies", "default_gms", "given_gms", "J2_off", "SRP_off", "all_on", "all_off", "itrf", "iau", "ecliptic", "et:keplerian",
            "et:mee_with_a", "flown_steps", "epoch_spread"]
RULE = ("random geometries (body 1.01 to 1e9 orbit radii away), rotations, unit scalings, epochs and term selections; third body against 60-digit "
        "direct-minus-indirect attraction, oblateness against the complex-step gradient of its potential, the combined SPICE-backed model against an "
        "independent sum with synthetic kernels, and solves flown under it; non-trivial = always")
ASSUMPTIONS = ["ephemerides and body orientation come from synthetic SPICE kernels (no network); SPICE itself is trusted"]
BODIES = ["301", "10", "5"]
AU_KM = 149597870.7


def warm(tier):
    flows.warm_all()
    r = np.array([1.0, 0.2, 0.3]); s = np.array([5.0, 1.0, 2.0])
    api("perturbation_third_body_battin")(r, s, 0.1)
    api("perturbation_J2")(r, np.eye(3), 1.0, 1e-3, 1.0)
    api("pxformECI2RTN")(r, s)


def vec(rng, n):
    v = rng.normal(size=3)
    return v*n/np.linalg.norm(v)


def gen(rng, tier):
    T = []
    for _ in range(8):
        rn = float(10**rng.uniform(-3, 3))
        r = vec(rng, rn)
        x = rng.random()
        if x < 0.5:
            s = vec(rng, rn*10**rng.uniform(0.3, 3))
        elif x < 0.8:
            s = vec(rng, rn*10**rng.uniform(3, 9))
        else:
            s = r + vec(rng, rn*10**rng.uniform(-1.5, 0.5))
        if rng.random() < 0.2:
            s = r/rn*np.linalg.norm(s)*float(rng.choice([-1, 1]))*(1.02 if abs(np.linalg.norm(s)/rn-1) < 0.02 else 1.0)
        T.append(dict(r=r.tolist(), s=s.tolist(), mu=float(10**rng.uniform(-6, 6))))
    J = []
    for _ in range(6):
        q = rng.normal(size=4); q /= np.linalg.norm(q)
        rn = float(10**rng.uniform(-2, 4))
        r = vec(rng, rn)
        if rng.random() < 0.2:
            r = np.array([0, 0, rn]) if rng.random() < 0.5 else np.array([rn, 0, 0])
        J.append(dict(r=r.tolist(), q=q.tolist() if rng.random() < 0.8 else [1.0, 0, 0, 0], mu=float(10**rng.uniform(-3, 6)), J2=float(rng.choice([1.08e-3, -2e-3, 0.1])),
                      Re=rn*float(rng.uniform(0.1, 1.0))))
    F = [dict(r=vec(rng, 10**rng.uniform(-3, 4)).tolist(), v=vec(rng, 10**rng.uniform(-3, 4)).tolist(), k=float(10**rng.uniform(-9, 0)), AU=float(10**rng.uniform(0, 5)))
         for _ in range(6)]
    C = []
    for _ in range(6):
        C.append(model(rng))
    d = dict(third=T, J2=J, frame=F, comb=C)
    if rng.random() < 0.12:
        m = model(rng)
        LU = m["LU"]
        spec = flows.rand_spec(rng, nsteps=15, mu=1.0, units=False)
        spec.pop("pert", None)
        m["TU"] = math.sqrt(LU**3/398600.435436)
        d["fly"] = dict(spec=spec, model=m)
    return d


def model(rng):
    LU = float(rng.choice([6378.0, 42164.0, 1.0, float(10**rng.uniform(0, 6))]))
    TU = math.sqrt(LU**3/398600.435436) if rng.random() < 0.6 else float(10**rng.uniform(0, 5))
    r = rng.random()
    if r < 0.15:
        tb = None
    elif r < 0.3:
        tb = []
    else:
        tb = [str(b) for b in rng.permutation(BODIES)[:int(rng.integers(1, 4))]]
    gms = None
    if tb and rng.random() < 0.4:
        gms = [float(10**rng.uniform(-3, 3)) for _ in tb]
    if rng.random() < 0.1:
        tb, gms = ["301", "10"], None
    et = str(rng.choice(["keplerian", "mee_with_a"]))
    k = np.array([rng.uniform(6700, 60000)/LU, rng.uniform(0.005, 0.7), rng.uniform(0.01, 3.0), angle(rng), angle(rng), angle(rng)])
    if k[0]*(1-k[1])*LU < 6500:
        k[0] = 7000/LU/(1-k[1])
    return dict(LU=LU, TU=TU, et_ref=float(rng.uniform(-5e7, 5e7)), tb=tb, gms=gms, J2=bool(rng.random() < 0.6), SRP=bool(rng.random() < 0.6),
                pa=str(rng.choice(["IAU_EARTH", "ITRF93"])), fq=str(rng.choice(["J2000", "J2000", "ECLIPJ2000"])), et=et,
                oe=[float(v) for v in (k if et == "keplerian" else ref.kep2meea(k))], ts=[0.0] + [float(v) for v in rng.uniform(-1, 1, 3)*5e7/TU],
                J2c=float(rng.choice([0.00108263, 0.002])), Re=float(rng.choice([6378.0, 6378.1366])), P=float(rng.choice([4.56e-6, 9e-6])),
                Cr=float(rng.choice([1.2, 1.8])), Am=float(rng.choice([0.01, 0.2])), defaults=bool(rng.random() < 0.15))


def rot(q):
    w, x, y, z = q
    return np.array([[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)], [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)], [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]])


def third_exact(r, s, mu):
    mpmath.mp.dps = 60
    R = [mpmath.mpf(float(v)) for v in r]
    S = [mpmath.mpf(float(v)) for v in s]
    d = [a-b for a, b in zip(R, S)]
    dn = mpmath.sqrt(sum(v*v for v in d)); sn = mpmath.sqrt(sum(v*v for v in S))
    return np.array([float(-mpmath.mpf(mu)*(a/dn**3 + b/sn**3)) for a, b in zip(d, S)])


def j2_exact(r, T, mu, J2, Re):
    x = T @ r

    def U(z):
        rr = np.sqrt(z[0]**2+z[1]**2+z[2]**2)
        return -mu*J2*Re**2/(2*rr**3)*(3*z[2]**2/rr**2 - 1)
    g = np.zeros(3)
    for j in range(3):
        z = x.astype(complex)
        z[j] += 1e-200j
        g[j] = U(z).imag/1e-200
    return T.T @ g


def combined(m, t, rv, mu_obs):
    """independent sum in the Q-law frame, then rotated into the orbital frame"""
    import spiceypy as spice
    et = m["et_ref"] + t*m["TU"]
    MU = m["LU"]**3/m["TU"]**2
    acc = np.zeros(3)
    sc = 0.0
    from .. import kernels
    for j, b in enumerate(m["tb"] or []):
        gm = m["gms"][j] if m["gms"] else kernels.GM[b]/MU
        s = np.array(spice.spkezr(b, et, m["fq"], "NONE", "399")[0][:3])/m["LU"]
        a = third_exact(rv[:3], s, gm)
        acc += a; sc += np.linalg.norm(a)
    if m["J2"]:
        T = np.array(spice.pxform(m["fq"], m["pa"], et))
        a = j2_exact(rv[:3], T, mu_obs, m["J2c"], m["Re"]/m["LU"])
        acc += a; sc += np.linalg.norm(a)
    if m["SRP"]:
        sun = np.array(spice.spkezr("10", et, m["fq"], "NONE", "399")[0][:3])
        d = rv[:3]*m["LU"] - sun
        # radiation pressure at 1 AU [N/m^2] * Cr * A/m [m^2/kg] -> m/s^2 -> canonical
        a = m["P"]*m["Cr"]*m["Am"]*(AU_KM/np.linalg.norm(d))**2*d/np.linalg.norm(d)*1e-3*m["TU"]**2/m["LU"]
        acc += a; sc += np.linalg.norm(a)
    return ref.rtn(rv) @ acc, sc


def build(m):
    from .. import kernels
    kernels.load()
    kw = {}
    if not m.get("defaults"):
        kw = dict(J2=m["J2c"], Re_km=m["Re"], P_SRP_SI=m["P"], Cr_SRP=m["Cr"], Am_SI=m["Am"])
    else:
        m.update(J2c=0.00108263, Re=6378.0, P=4.56e-6, Cr=1.2, Am=0.01)
    full = dict(frame_qlaw=m["fq"], frame_PA=m["pa"], third_bodies_names=m["tb"], third_bodies_gms=m["gms"], use_J2=m["J2"], use_SRP=m["SRP"])
    if m.get("defaults"):       # leave out whatever equals its documented default
        for k, v in dict(frame_qlaw="J2000", frame_PA="ITRF93", third_bodies_names=["301", "10"], third_bodies_gms=None, use_J2=True, use_SRP=True).items():
            if full[k] == v:
                full.pop(k)
    return api("SpicePerturbations")(m["et_ref"], m["LU"], m["TU"], **full, **kw)


class Recorder:
    def __init__(self, inner, log):
        self.inner, self.log, self.vals = inner, log, []

    def get_perturbations_RTN(self, t, oe, et):
        self.log.append((float(t), np.array(oe, dtype=float), et))
        v = self.inner.get_perturbations_RTN(t, oe, et)
        self.vals.append(np.array(v, dtype=float))
        return v


def run(case, obs):
    for c in case["third"]:
        r, s = np.array(c["r"]), np.array(c["s"])
        w = third_exact(r, s, c["mu"])
        g = np.asarray(api("perturbation_third_body_battin")(r.copy(), s.copy(), c["mu"]))
        ratio = np.linalg.norm(s)/np.linalg.norm(r)
        near = np.linalg.norm(r-s)/np.linalg.norm(s)
        tol = np.linalg.norm(w)*(1e-12 + 1e-14/near**2)
        obs.close(g, w, tol, "third_body", "third-body acceleration is not direct minus indirect attraction", case=c)
        if ratio > 1e4:
            obs.count("far_body")
        if near < 0.3:
            obs.count("near_body")
    for c in case["J2"]:
        r, T = np.array(c["r"]), rot(c["q"])
        w = j2_exact(r, T, c["mu"], c["J2"], c["Re"])
        g = np.asarray(api("perturbation_J2")(r.copy(), T.copy(), c["mu"], c["J2"], c["Re"]))
        obs.close(g, w, 1e-11*c["mu"]*abs(c["J2"])*c["Re"]**2/np.linalg.norm(r)**4, "J2", "not the gradient of the J2 potential", case=c)
    for c in case["frame"]:
        r, v = np.array(c["r"]), np.array(c["v"])
        M = np.asarray(api("pxformECI2RTN")(r.copy(), v.copy()))
        h = np.cross(r, v)
        am = np.linalg.norm(r)*np.linalg.norm(v)/np.linalg.norm(h)
        ok = obs.check(M.shape == (3, 3), "frame", "frame is not 3x3")
        if ok:
            tol = 1e-13*am
            obs.close(M @ M.T, np.eye(3), tol, "frame", "frame is not orthonormal", case=c)
            obs.check(abs(np.linalg.det(M)-1) < 3*tol, "frame", "frame is not right handed", case=c)
            obs.close(M @ (r/np.linalg.norm(r)), [1, 0, 0], tol, "frame", "first axis is not radial", case=c)
            obs.close(M @ (h/np.linalg.norm(h)), [0, 0, 1], tol, "frame", "third axis is not along angular momentum", case=c)
            obs.check((M @ v)[1] > 0, "frame", "second axis is not along the motion", case=c)
        srp = api("perturbation_SRP")
        if srp is not None:
            g = np.asarray(srp(r.copy(), c["AU"], c["k"]))
            rn = np.linalg.norm(r)
            obs.close(g, c["k"]*(c["AU"]/rn)**2*r/rn, 1e-13*c["k"]*(c["AU"]/rn)**2, "SRP", "not anti-sunward with inverse-square magnitude", case=c)
    for m in case["comb"]:
        P = build(m)
        oe = np.array(m["oe"])
        mu = 398600.435436*m["TU"]**2/m["LU"]**3
        rv = ref.to_sv(m["et"], oe, mu)
        for t in m["ts"]:
            x = oe.copy()
            g = np.asarray(P.get_perturbations_RTN(t, x, m["et"]), dtype=float)
            w, sc = combined(m, t, rv, mu)
            obs.close(g, w, 5e-9*sc, "combined", "combined model is not the sum of its enabled terms at the query time in the orbital frame", model=m, t=t)
            obs.check(np.array_equal(x, oe), "inputs", "query modifies the elements")
            # same orbit in the other element set
            other = "mee_with_a" if m["et"] == "keplerian" else "keplerian"
            if m["et"] == "keplerian":
                g2 = np.asarray(P.get_perturbations_RTN(t, ref.kep2meea(oe), other), dtype=float)
                obs.close(g2, w, 1e-8*sc, "combined", "element sets disagree", model=m, t=t)
        obs.count("epoch_spread", len(m["ts"]) > 1)
        obs.count("et:" + m["et"])
        obs.count("none_bodies", m["tb"] is None); obs.count("empty_bodies", m["tb"] == [])
        obs.count("default_gms", bool(m["tb"]) and m["gms"] is None); obs.count("given_gms", bool(m["gms"]))
        obs.count("J2_off", not m["J2"]); obs.count("SRP_off", not m["SRP"])
        obs.count("all_on", bool(m["tb"]) and m["J2"] and m["SRP"]); obs.count("all_off", not m["tb"] and not m["J2"] and not m["SRP"])
        obs.count("itrf", m["J2"] and m["pa"] == "ITRF93"); obs.count("iau", m["J2"] and m["pa"] == "IAU_EARTH"); obs.count("ecliptic", m["fq"] != "J2000")
        if (m["et"] == "keplerian" and oe[2] > math.pi/2) or (m["et"] != "keplerian" and oe[3]**2+oe[4]**2 > 1):
            obs.count("retrograde")
    if case.get("fly"):
        spec, m = case["fly"]["spec"], case["fly"]["model"]
        # orbit radius about 2e4 km whatever LU
        prob = flows.build(spec)
        scale = 2.0e4/(spec["prob"]["oe0"][0])
        m = dict(m, LU=scale, TU=math.sqrt(scale**3/398600.435436))
        inner = build(m)
        fl = flows.Flight()
        fl.ptrb_log = []
        fl.model = Recorder(inner, fl.ptrb_log)
        prob.perturbations = fl.model
        prob.set_problem(**flows.prob_kwargs(spec))
        flows.solve(prob, spec, fl)
        flows.snap(prob, spec, fl, obs)
        spec = dict(spec, pert=dict(kind="spice"))
        shadow.perturbation_calls(spec, fl, obs)
        shadow.dynamics(spec, fl, obs)
        X = shadow.clipped(spec, fl)
        for k in range(min(fl.n, len(fl.model.vals))):
            w, sc = combined(m, fl.t[k], ref.to_sv(shadow.et_of(spec), X[k], 1.0), 1.0)
            obs.close(fl.model.vals[k], w, 1e-8*sc, "combined", "perturbation of a flown step", k=k)
            obs.count("flown_steps")
