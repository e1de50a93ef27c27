"""C04: equations of motion are the true derivative"""
import math
import numpy as np
from .. import ref, sut
from ..sut import api
from .c01 import angle

ID = "C04"
N = dict(quick=900, thorough=40000)
PER = 10
REQUIRED = ["checked:keplerian", "checked:mee", "checked:mee_with_a", "retrograde", "unforced", "thrust_only", "ptrb_only", "both", "mu_varied"]
RULE = ("random elliptic states in all quadrants, thrust/perturbation splits of random accelerations and random mu; each EOM, fed with the law's own "
        "coefficient columns, against the Cartesian derivative pulled back through the complex-step Jacobian of an independent element map; "
        "non-trivial = at least one state compared")
ASSUMPTIONS = ["e >= 0.003 and sin i >= 0.003 for Keplerian states; e >= 1e-6 for equinoctial ones; e <= 0.95"]
LAWP = (0.1, 3.0, 4.0, 2.0, 0.01, 1.0, 1.0)
FN = dict(keplerian="eom_kep_gauss", mee="eom_mee_gauss", mee_with_a="eom_mee_with_a_gauss")


def warm(tier):
    sut.memoise_symbolic()
    for et in FN:
        rate(et, np.array([1.0, 0.1, 0.12, 0.1, 0.2, 0.3]), 1.0, np.zeros(3), np.zeros(3))


def cols(et, oe, mu, rng=None):
    """coefficient columns as the solver obtains them: from the law's control function"""
    f = sut.symbolic(et)[0]
    with np.errstate(all="ignore"):
        r = f(mu, 1e-3, oe, np.array([oe[0]*1.1, oe[1]+0.01, oe[2]+0.02, oe[3]+0.1, oe[4]-0.1]), *LAWP, np.ones(5))
    return r[1]


def rate(et, oe, mu, u, p):
    fn = api(FN[et])
    if et == "mee":
        z = [[0.0]*5]*3
        psi = cols("mee_with_a", ref_a(oe), mu)
    else:
        psi = cols(et, oe, mu)
    return np.asarray(fn(0.0, oe, (mu, u, psi[0], psi[1], psi[2], p)), dtype=float)


def ref_a(oe):
    x = oe.copy()
    x[0] = x[0]/(1-x[1]**2-x[2]**2)
    return x


def gen(rng, tier):
    L = []
    for _ in range(PER):
        et = str(rng.choice(list(FN)))
        mu = 1.0 if rng.random() < 0.3 else float(10**rng.uniform(-4, 6))
        a = float(10**rng.uniform(-2, 4))
        e = float(rng.uniform(0.003, 0.95)) if rng.random() < 0.8 else float(10**rng.uniform(-2.5, -1))
        i = float(rng.uniform(0.003, 3.1)) if rng.random() < 0.8 else float(10**rng.uniform(-2.5, -1))
        k = np.array([a, e, i, angle(rng), angle(rng), angle(rng)])
        k[3:] += rng.uniform(1e-3, 2e-3, 3)
        oe = k if et == "keplerian" else ref.kep2mee(k) if et == "mee" else ref.kep2meea(k)
        if et != "keplerian" and rng.random() < 0.15:
            oe[3:5] = 0.0
        if et != "keplerian" and rng.random() < 0.15:
            oe[1:3] *= 1e-4
        g = mu/a**2
        acc = [[float(v) for v in rng.normal(size=3)*g*10**rng.uniform(-6, 0)] for _ in range(2)]
        for j in range(2):
            if rng.random() < 0.3:
                acc[j] = [0.0]*3
            elif rng.random() < 0.3:
                m = int(rng.integers(3))
                acc[j] = [acc[j][q] if q == m else 0.0 for q in range(3)]
        L.append(dict(et=et, mu=mu, oe=[float(v) for v in oe], u=acc[0], p=acc[1]))
    return dict(states=L)


def run(case, obs):
    for s in case["states"]:
        et, mu, oe = s["et"], s["mu"], np.array(s["oe"])
        u, p = np.array(s["u"]), np.array(s["p"])
        got = rate(et, oe.copy(), mu, u.copy(), p.copy())
        want, cond = ref.oe_rates_physical(et, oe, u+p, mu)
        psi, drift = ref.gauss(et, oe, mu)
        if cond > 1e7:
            obs.count("skipped")
            continue
        # scale of every component: its sensitivity to any acceleration of this size, plus the fast drift through the Jacobian's rounding
        sc = np.linalg.norm(psi, axis=1)*np.linalg.norm(u+p)
        size = np.array([abs(oe[0]), 1, 1, 1, 1, 1.0])
        tol = 1e-9*sc + 4e-15*cond*drift*size*(10+abs(oe[5])) + 1e-300
        tol[5] += 1e-11*abs(drift)
        obs.check(got.shape == (6,) and bool(np.all(np.abs(got-want) <= tol)), et, "element rates are not the derivative of the osculating elements",
                  state=s, got=got, want=want, tol=tol)
        # the same rates from the Gauss coefficients (independently written, tight relative tolerance)
        w2 = psi @ (u+p)
        w2[5] += drift
        t2 = 1e-11*(np.abs(psi) @ (np.abs(u)+np.abs(p))) + 1e-300
        t2 = t2*(1+0.01*np.sum(np.abs(oe[3:])))
        t2[5] += 1e-12*abs(drift)*(10+abs(oe[5]))
        with np.errstate(all="ignore"):
            t2 *= 1 + (1e-3/max(1e-9, abs(math.sin(oe[2]))) if et == "keplerian" else 1/max(1e-6, math.hypot(oe[1], oe[2]))*1e-3)
        t2 += 1e-10*sc
        obs.check(bool(np.all(np.abs(got-w2) <= t2)), et, "element rates differ from the Gauss equations", state=s, got=got, want=w2, tol=t2)
        un, pn = np.any(u != 0), np.any(p != 0)
        obs.count("both" if un and pn else "thrust_only" if un else "ptrb_only" if pn else "unforced")
        if mu != 1.0:
            obs.count("mu_varied")
        if (et == "keplerian" and oe[2] > math.pi/2) or (et != "keplerian" and oe[3]**2+oe[4]**2 > 1):
            obs.count("retrograde")
