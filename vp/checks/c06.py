"""C06: steepest descent"""
import math
import numpy as np
from .. import ref, sut
from ..sut import api
from .c05 import rand_args, evaluate, tolerances

ID = "C06"
N = dict(quick=600, thorough=30000)
PER = 8
REQUIRED = ["checked:unit", "checked:agree", "checked:descent", "checked:rate", "checked:raw", "negative_f", "axis_raw", "et:keplerian", "et:mee_with_a",
            "out_of_plane_states"]
RULE = ("random states/targets/weights (incl. single-element weights giving purely in-plane or out-of-plane commands), both thrust signs; commanded "
        "direction against 40 random plus 6 axis directions and the analytic optimum of an independent law; raw vectors of any size and axis-aligned "
        "ones; non-trivial = at least one command checked")
ASSUMPTIONS = ["states where the Q-gradient cannot be influenced (|D| = 0) are excluded"]


def warm(tier):
    sut.memoise_symbolic()
    sut.symbolic("keplerian")
    sut.symbolic("mee_with_a")
    api("_u_to_thrust_angles")(np.array([1.0, 2.0, 3.0]))


def gen(rng, tier):
    L = []
    for _ in range(PER):
        s = rand_args(rng, str(rng.choice(["keplerian", "mee_with_a"])))
        if rng.random() < 0.25:
            # only out-of-plane elements weighted
            s["woe"] = [0.0, 0.0, 0.0, 0.0, 0.0]
            j = int(rng.choice([2, 3] if s["et"] == "keplerian" else [3, 4]))
            s["woe"][j] = 1.0
            s["oop"] = True
        L.append(s)
    raw = []
    for _ in range(12):
        v = rng.normal(size=3)*10**rng.uniform(-60, 60)
        r = rng.random()
        if r < 0.4:
            k = int(rng.integers(3))
            v = np.array([v[j] if j == k else 0.0 for j in range(3)])
        elif r < 0.6:
            v[int(rng.integers(3))] = 0.0
        elif r < 0.7:
            v[int(rng.integers(3))] *= 1e-20
        elif r < 0.9:           # almost along an axis or in a coordinate plane
            k = rng.permutation(3)[:int(rng.integers(1, 3))]
            v[k] *= 10**rng.uniform(-12, -1)
        raw.append([float(x) for x in v])
    return dict(states=L, raw=raw, seed=int(rng.integers(1 << 30)))


def run(case, obs):
    rng = np.random.default_rng(case["seed"])
    n = 0
    for v in case["raw"]:
        v = np.array(v)
        u, al, be = api("_u_to_thrust_angles")(v.copy())
        u = np.asarray(u, dtype=float)
        nrm = v/np.max(np.abs(v))
        want = nrm/np.linalg.norm(nrm)
        ok = np.all(np.isfinite(u)) and np.isfinite(al) and np.isfinite(be)
        obs.check(bool(ok), "raw", "raw vector does not give finite angles", v=v, got=[u, al, be])
        if ok:
            obs.close(u, want, 1e-13, "raw", "vector is not the unit raw vector", v=v)
            obs.close(ref.thrust_dir(al, be), -want, 1e-13, "raw", "angles do not point against the raw vector", v=v, angles=[al, be])
        if np.count_nonzero(v) == 1:
            obs.count("axis_raw")
    for s in case["states"]:
        et = s["et"]
        oe, T, w = np.array(s["oe"]), np.array(s["oeT"]), np.array(s["woe"])
        q, G, D, psi, tq, tG, tD = tolerances(s, oe)
        Dn = np.linalg.norm(D)
        d = oe[:5]-T
        if et == "keplerian" and np.any(np.abs(np.abs(ref.wrap_pi(d[3:5]))-math.pi) < 1e-6):
            continue
        if not (np.isfinite(q) and Dn > 0 and np.isfinite(tD) and tD < 0.02*Dn):
            obs.count("skipped")
            continue
        n += 1
        fns = sut.symbolic(et)
        law = s["law"]
        with np.errstate(all="ignore"):
            al, be, u, ps, qv, rate = api("lyapunov_control_angles")(fns[0], s["mu"], s["f"], oe.copy(), T.copy(), law["rpmin"], law["m_petro"],
                                                                    law["n_petro"], law["r_petro"], law["b_petro"], law["k_petro"], law["wp"], w.copy())
        u = np.asarray(u, dtype=float)
        ctx = dict(state=s)
        if not obs.check(np.isfinite(al) and np.isfinite(be) and np.all(np.isfinite(u)) and np.isfinite(rate), "finite", "command is not finite",
                         got=[al, be, u, rate], **ctx):
            continue
        obs.close(np.linalg.norm(u), 1.0, 1e-12, "unit", "vector is not a unit vector", **ctx)
        c = ref.thrust_dir(al, be)
        obs.check(np.linalg.norm(np.cross(c, u)) <= 1e-11 and abs(np.linalg.norm(c)-1) < 1e-12, "agree", "angles and vector disagree", angles=[al, be], u=u, **ctx)
        f = abs(s["f"])
        mine = f*float(D @ c)
        dirs = rng.normal(size=(40, 3))
        dirs = np.vstack([dirs/np.linalg.norm(dirs, axis=1)[:, None], np.eye(3), -np.eye(3)])
        low = f*float((dirs @ D).min())
        obs.check(mine <= low + f*tD, "descent", "another direction lowers Q faster than the command", mine=mine, other=low, **ctx)
        obs.check(abs(mine + f*Dn) <= f*(tD + 1e-9*Dn), "descent", "command does not attain the lowest rate", got=mine, want=-f*Dn, **ctx)
        obs.check(abs(abs(float(rate)) - f*Dn) <= f*tD, "rate", "reported rate is not the magnitude of the minimum", got=rate, want=f*Dn, **ctx)
        r2 = float(evaluate(s, fns[3:4])[0])
        obs.check(abs(float(rate)-r2) <= 2*f*tD, "rate", "reported rate differs from the generated rate function", got=rate, want=r2, **ctx)
        obs.check(abs(float(qv)-q) <= tq, "q", "Q returned with the command", got=qv, want=q, **ctx)
        obs.count("et:" + et)
        if s["f"] < 0:
            obs.count("negative_f")
        if s.get("oop"):
            obs.count("out_of_plane_states")
    obs.trivial = n == 0 and not case["raw"]
