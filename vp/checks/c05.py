"""C05: Q and its gradient"""
import math
import numpy as np
from .. import ref, sut
from ..flows import logu
from .c01 import angle

ID = "C05"
N = dict(quick=500, thorough=20000)
PER = 8
REQUIRED = ["checked:Q", "checked:grad", "checked:agree", "checked:zero", "checked:positive", "at_target_element", "et:keplerian", "et:mee_with_a",
            "retrograde", "near_circular", "whole_turns", "below_a_target", "zero_weights", "plain"]
RULE = ("random non-singular states/targets/weights/law parameters of both element sets, incl. elements exactly at target and angles whole turns away; "
        "Q against the documented formula, gradient against its complex-step derivative, all generated functions (with and without common-subexpression "
        "elimination) against each other; non-trivial = at least one state compared")
ASSUMPTIONS = ["states exactly on a kink of the documented Q (Keplerian omega at a multiple of pi/2, equinoctial e = 0) have no derivative and are excluded"]


def warm(tier):
    sut.memoise_symbolic()
    for et in ("keplerian", "mee_with_a"):
        sut.symbolic(et)
        sut.symbolic(et, cse=False)


def rand_state(rng, et):
    a = float(10**rng.uniform(-2, 4))
    r = rng.random()
    e = float(rng.uniform(0.02, 0.93)) if r < 0.8 else float(10**rng.uniform(-4, -1.5))
    i = float(rng.uniform(0.02, 3.0))
    k = np.array([a, e, i, angle(rng), angle(rng)+float(rng.uniform(0.01, 0.2)), angle(rng)])
    if abs(math.sin(2*k[4])) < 0.01:
        k[4] += 0.1
    return k if et == "keplerian" else ref.kep2meea(k)


def rand_args(rng, et):
    oe = rand_state(rng, et)
    T = rand_state(rng, et)[:5]
    T[0] = oe[0]*logu(rng, 0.2, 5.0)
    if et == "mee_with_a" and np.hypot(T[3], T[4]) > 3:
        T[3:5] *= 0.3
    for j in range(5):
        if rng.random() < 0.12:
            T[j] = oe[j]
    if et == "keplerian":
        for j in (3, 4):
            if rng.random() < 0.3:
                T[j] += 2*math.pi*int(rng.integers(-3, 4))
    w = rng.choice([0.0, 1.0, 1.0, 1.0, 0.2, 7.0], 5)
    if not w.any():
        w[int(rng.integers(5))] = 1.0
    law = dict(rpmin=oe[0]*logu(rng, 0.02, 0.5), m_petro=float(rng.choice([3.0, 2.0, 1.0])), n_petro=float(rng.choice([4.0, 2.0, 3.0])),
               r_petro=float(rng.choice([2.0, 3.0, 1.0])), b_petro=float(rng.choice([0.01, 0.1, 0.0, 1.0])), k_petro=float(rng.choice([1.0, 0.5, 3.0])),
               wp=float(rng.choice([0.0, 1.0, 1.0, 2.5])))
    mu = 1.0 if rng.random() < 0.3 else float(10**rng.uniform(-3, 6))
    f = mu/oe[0]**2*logu(rng, 1e-6, 1e-1)*(1 if rng.random() < 0.7 else -1)
    return dict(et=et, mu=mu, f=float(f), oe=[float(v) for v in oe], oeT=[float(v) for v in T], woe=[float(v) for v in w], law=law)


def gen(rng, tier):
    L = []
    for _ in range(PER):
        s = rand_args(rng, str(rng.choice(["keplerian", "mee_with_a"])))
        s["plain"] = bool(rng.random() < 0.1)
        L.append(s)
    return dict(states=L)


def evaluate(s, fns, oe=None):
    law = s["law"]
    with np.errstate(all="ignore"):
        return [fn(s["mu"], s["f"], np.array(s["oe"] if oe is None else oe), np.array(s["oeT"]), law["rpmin"], law["m_petro"], law["n_petro"],
                   law["r_petro"], law["b_petro"], law["k_petro"], law["wp"], np.array(s["woe"])) for fn in fns]


def tolerances(s, oe, n=4):
    """spread of the reference under 1e-11 relative perturbations"""
    rng = np.random.default_rng(7)
    et, T, w, law = s["et"], np.array(s["oeT"]), np.array(s["woe"]), s["law"]
    q0, G0, D0, psi, _ = ref.law_eval(et, oe, T, s["mu"], s["f"], w, law)
    dq, dG, dD = 0.0, np.zeros(5), 0.0
    for _ in range(n):
        y = oe*(1+1e-11*rng.choice([-1, 1], 6))
        q, G, D, _, _ = ref.law_eval(et, y, T, s["mu"], s["f"], w, law)
        dq = max(dq, abs(q-q0)); dG = np.maximum(dG, np.abs(G-G0)); dD = max(dD, np.linalg.norm(D-D0))
    return q0, G0, D0, psi, 5*dq+1e-10*abs(q0), 5*dG+1e-9*np.abs(G0)+1e-12*np.max(np.abs(G0)*np.maximum(np.abs(oe[:5]), 1e-3))/np.maximum(np.abs(oe[:5]), 1e-3), \
        5*dD + 1e-9*np.linalg.norm(D0)


def run(case, obs):
    n = 0
    for s in case["states"]:
        et = s["et"]
        oe, T, w = np.array(s["oe"]), np.array(s["oeT"]), np.array(s["woe"])
        q, G, D, psi, tq, tG, tD = tolerances(s, oe)
        if not (np.isfinite(q) and np.all(np.isfinite(G)) and np.all(np.isfinite(tG))):
            obs.count("skipped")
            continue
        n += 1
        fns = sut.symbolic(et)
        ctl, psi_s, dq, dqdt = evaluate(s, fns)
        uraw, ps, qs, grad = ctl
        ctx = dict(state=s)
        d = oe[:5]-T
        if et == "keplerian":
            d[3:5] = ref.wrap_pi(d[3:5])
            if np.any(np.abs(np.abs(d[3:5])-math.pi) < 1e-6):
                obs.count("skipped")
                continue
        obs.check(abs(float(qs)-q) <= tq, "Q", "Q is not the documented value", got=qs, want=q, **ctx)
        obs.check(float(qs) >= 0, "Q", "Q is negative", got=qs, **ctx)
        if np.any((d != 0) & (w > 0) & (np.abs(d) > 1e-9*(1+np.abs(T)))):
            obs.check(float(qs) > 0, "positive", "Q vanishes away from the target", got=qs, **ctx)
        g = np.array([float(v) for v in grad])
        obs.check(bool(np.all(np.abs(g-G) <= tG)), "grad", "gradient is not the derivative of Q", got=g, want=G, tol=tG, **ctx)
        # all functions of this and of the plain derivation agree
        g2 = np.array([float(v) for v in dq])
        obs.check(bool(np.all(np.abs(g2-g) <= tG)), "agree", "separately generated gradient differs", got=g2, want=g, **ctx)
        p1, p2 = np.array(ps, dtype=float), np.array(psi_s, dtype=float)
        obs.check(p1.shape == (3, 5) and np.allclose(p1, p2, rtol=1e-10, atol=1e-13*np.max(np.abs(p1))), "agree", "separately generated coefficients differ", **ctx)
        rate = abs(s["f"])*np.linalg.norm(D)
        infl = np.linalg.norm(D) > 3*tD and np.linalg.norm(D) > 0        # the rate of an uninfluenceable Q is undefined (0/0)
        if infl:
            obs.check(abs(abs(float(dqdt))-rate) <= abs(s["f"])*tD, "agree", "separately generated rate differs", got=dqdt, want=rate, **ctx)
        u = np.array([float(v) for v in uraw])
        obs.check(np.linalg.norm(u-D) <= tD, "agree", "raw vector is not gradient times coefficients", got=u, want=D, **ctx)
        if s["plain"]:
            ctl2, psi2, dq2, dqdt2 = evaluate(s, sut.symbolic(et, cse=False))
            same = abs(float(ctl2[2])-float(qs)) <= tq and np.all(np.abs(np.array([float(v) for v in ctl2[3]])-g) <= tG) and \
                np.all(np.abs(np.array([float(v) for v in dq2])-g) <= tG) and (not infl or abs(float(dqdt2)-float(dqdt)) <= 2*abs(s["f"])*tD) and \
                np.linalg.norm(np.array([float(v) for v in ctl2[0]])-u) <= 2*tD and \
                np.allclose(np.array(psi2, dtype=float), p1, rtol=1e-10, atol=1e-13*np.max(np.abs(p1)))
            obs.check(bool(same), "agree", "functions generated without subexpression elimination differ", **ctx)
            obs.count("plain")
        # at target in every weighted element
        z = oe.copy()
        for j in range(5):
            if w[j] > 0:
                z[j] = T[j] - (2*math.pi*((j+int(abs(oe[5]))) % 3 - 1) if et == "keplerian" and j in (3, 4) else 0.0)
        ok = z[0] > 0 and ((0 < z[1] < 0.97 and abs(math.sin(z[2])) > 1e-3 and abs(math.sin(2*z[4])) > 1e-3) if et == "keplerian"
                           else 1e-6 < math.hypot(z[1], z[2]) < 0.97)
        if ok:
            qz = float(evaluate(s, fns[:1], z)[0][2])
            q1 = float(np.real(ref.qfun(et, z+np.array([0, 0, 0, 1e-6, 1e-6, 0])+np.array([1e-6*z[0], 1e-6, 1e-6, 0, 0, 0]), T, s["mu"], s["f"], w, s["law"])))
            obs.check(0 <= qz <= 1e-12*q1, "zero", "Q does not vanish when every weighted element is at target", got=qz, scale=q1, at=z, **ctx)
            if et == "keplerian" and np.any(np.abs(z[3:5]-T[3:5]) > 1):
                obs.count("whole_turns")
        obs.count("et:" + et)
        if np.any(d == 0):
            obs.count("at_target_element")
        if (et == "keplerian" and oe[2] > math.pi/2) or (et != "keplerian" and oe[3]**2+oe[4]**2 > 1):
            obs.count("retrograde")
        if ref.ecc_of(et, oe) < 0.01:
            obs.count("near_circular")
        if oe[0] < T[0]:
            obs.count("below_a_target")
        if not w.all():
            obs.count("zero_weights")
    obs.trivial = n == 0
