"""C34: weights act relatively, and settings that are not in force have no influence (pairs of real solves)"""
import copy, math
import numpy as np
from .. import flows, pairs, ref, shadow
from ..flows import rand_spec, logu

ID = "C34"
N = dict(quick=1500, thorough=55000)
OPS = ("unweighted", "scale", "nopenalty", "store", "window", "grid", "bounds", "thrust")
REQUIRED = ["pairs"] + ["op:" + o for o in OPS] + ["et:keplerian", "et:mee_with_a", "rk4", "rkf45", "sundman", "backward", "battery", "perturbed", "thresholds", "coasting",
            "ended:1", "ended:2", "ended:-1", "ended:-2", "checked:trajectory", "checked:outcome", "checked:commands", "checked:first", "compared_steps", "combined"]
RULE = ("random solves and the same problems with other targets and tolerances of unweighted elements, all weights multiplied, penalty parameters changed at zero penalty weight, a battery "
        "that cannot run empty, a duty cycle that never switches off, another anomaly grid without thresholds, wider bounds, another thrust (first command); compared node by node "
        "up to the first ill-conditioned command or threshold tie; non-trivial = a pair compared over at least two steps")
ASSUMPTIONS = ["a decision within 1e-6 of its threshold may flip with rounding",
               "the OFF time also is the rest after an empty battery, so it is only varied without a battery"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    ops = [str(x) for x in rng.permutation(OPS)[:int(rng.choice([1, 1, 2, 3]))]]
    s = rand_spec(rng, nsteps=35, battery=False if "store" in ops else None, duty=False if "window" in ops else None, eta=False if "grid" in ops else None,
                  deplete=bool(rng.random() < 0.3))
    et = shadow.et_of(s)
    p, law = s["prob"], s["law"]
    if et == "keplerian" and "bounds" in ops:
        law["oe_min"], law["oe_max"] = [1e-6*p["oe0"][0], 1e-7, 1e-7, -1e8, -1e8, -1e8], [1e6*p["oe0"][0], 0.9999, math.pi-1e-7, 1e8, 1e8, 1e8]
    if "unweighted" in ops:
        w = list(p.get("woe") or [1.0]*5)
        for j in rng.permutation(5)[:int(rng.integers(1, 5))]:
            w[int(j)] = 0.0
        if sum(w) == 0:
            w[int(rng.integers(5))] = 1.0
        p["woe"] = w
    if "nopenalty" in ops:
        law["wp"] = 0.0
    if "store" in ops:
        for nm in ("eta_a", "eta_r"):
            if isinstance(s.get(nm), dict) and s[nm]["fn"] == "batt":
                s.pop(nm)
    s["conv"] = [float(rng.random()), float(rng.random())]
    if s["conv"][0] < 0.35:
        p["oeT"] = flows.rand_target(rng, et, p["oe0"], size=logu(rng, 0.003, 0.1))
    s["ops"], s["r"] = ops, int(rng.integers(1 << 20))
    s["v"] = dict(c=logu(rng, 1e-5, 1e5) if rng.random() < 0.7 else float(2.0**int(rng.integers(-20, 21))), tgt=flows.rand_target(rng, et, p["oe0"]),
                  tol=[logu(rng, 1e-12, 10.0) for _ in range(5)], rpmin=p["oe0"][0]*float(rng.uniform(0.02, 1.5)), k=float(rng.uniform(0.2, 30)),
                  cap=logu(rng, 0.1, 1e3), ch=logu(rng, 1e-6, 10.0), full=bool(rng.random() < 0.5), size=int(rng.integers(2, 60)), on=logu(rng, 1.01, 1e5), off=logu(rng, 1e-3, 1e3),
                  wide=logu(rng, 1.5, 1e5), f=logu(rng, 0.01, 100.0))
    return s


def transform(s, ops, v, a):
    s = copy.deepcopy(s)
    p, law = s["prob"], s["law"]
    T = float(np.abs(a.t).max())
    w = [float(x) for x in flows.par(s, "woe")]
    for op in ops:
        if op == "unweighted":
            tol = [float(x) for x in flows.par(s, "tol_oe")]
            for j in range(5):
                if w[j] == 0:
                    p["oeT"][j] = v["tgt"][j]
                    tol[j] = v["tol"][j]
            law["tol_oe"] = tol
        elif op == "scale":
            p["woe"] = [x*v["c"] for x in w]
        elif op == "nopenalty":
            law["rpmin"], law["k_petro"] = v["rpmin"], v["k"]
        elif op == "store":
            rate = v["cap"]/max(T, 1e-300)
            p["battery_capacity"] = [0.3*v["cap"], 10*v["cap"]]
            p["battery_initial"] = 5*v["cap"]
            p["battery_charge_discharge_rate"] = [v["ch"]*rate, rate*0.5]
            p["require_full_recharge"] = v["full"]
        elif op == "window":
            p["duty_cycle"] = [v["on"]*2*T, 0.0 if p.get("battery_capacity") else v["off"]*T]
        elif op == "grid":
            law["anomaly_grid_size"] = v["size"]
        elif op == "bounds" and law.get("oe_min"):
            law["oe_min"] = [law["oe_min"][0]/v["wide"]] + [law["oe_min"][1]/v["wide"], law["oe_min"][2]/v["wide"]] + [x*v["wide"] for x in law["oe_min"][3:]]
            law["oe_max"] = [law["oe_max"][0]*v["wide"]] + law["oe_max"][1:3] + [x*v["wide"] for x in law["oe_max"][3:]]
        elif op == "bounds":                                # no safeguarding takes place in equinoctial elements
            law["oe_min"], law["oe_max"] = [1e-9*v["wide"], -2.0, -3.0, -50.0, -50.0, -1e9], [1e12, 2.0, 3.0, 50.0, 50.0, 1e9]
    return s


def run(case, obs):
    base = copy.deepcopy(case)
    et = shadow.et_of(base)
    a = flows.fly(base, obs=obs)
    if a.n < 2 or not np.all(np.isfinite(a.x)):
        obs.trivial = True
        return
    if case["conv"][0] < 0.35:
        d = a.x[:, :5] - np.asarray(base["prob"]["oeT"])[:5]
        if et == "keplerian":
            d[:, 3:5] = ref.wrap_pi(d[:, 3:5])
        k = 1 + int(case["conv"][1]*(a.n-1))
        relax = [1.0, 20.0][case["r"] % 2]              # an end within tolerance or by the relaxed count
        base["law"].update(tol_oe=[float(v) for v in (np.abs(d[k])*1.02 + 1e-9)/relax], relaxed_tol_factor=relax, exit_at_relaxed=1 + case["r"] % 3)
        a = flows.fly(base, obs=obs)
    ops, v = case["ops"], case["v"]
    if "store" in ops and base["prob"]["t_step"] < 0:       # a battery discharges forward only
        ops = [o for o in ops if o != "store"]
    if et == "keplerian" and "bounds" in ops:
        lo, hi = np.asarray(a.prob.oe_min)[:5], np.asarray(a.prob.oe_max)[:5]
        if not np.all((a.x[:, :5] > lo) & (a.x[:, :5] < hi)):
            ops = [o for o in ops if o != "bounds"]
    if not ops:
        obs.trivial = True
        return
    b = flows.fly(transform(base, ops, v, a), obs=obs)
    c = v["c"] if "scale" in ops else 1.0
    b = pairs.mapped(b, Q=b.Q/c, dQ=b.dQ/c)
    if "store" in ops:
        obs.check(bool(np.all(b.b > 0.3*v["cap"])), "level", "battery of ample charge ran empty", b=b.b, cap=v["cap"])
        b.b = np.resize(a.b, len(b.b))
    k, *masks = pairs.conditioned(base, a, min(a.n, b.n))
    obs.count("compared_steps", k)
    if k < 2:
        obs.trivial = True
        return
    pairs.compare(obs, base, a, b, k, masks, "+".join(ops), ops=" ".join(ops))
    if k == min(a.n, b.n) and not pairs.near_limit(base, a, k):
        obs.check(a.n == b.n and a.exitcode == b.exitcode and bool(a.converge) == bool(b.converge), "outcome", "outcome differs", a=[a.n, a.exitcode, a.converge],
                  b=[b.n, b.exitcode, b.converge], ops=ops)
        obs.count("ended:%d" % a.exitcode)
    if "thrust" in ops and pairs.thrusting(a, 0):
        # the first command, its Lyapunov value and effectivity do not depend on the size of the thrust
        s = copy.deepcopy(base)
        f = v["f"]
        s["prob"]["tmax"] *= f
        g = flows.fly(s, obs=obs)
        law = masks[1]
        if g.n and law.ok[0] and law.tu[0] < 1e-5:
            obs.check(float(np.linalg.norm(ref.thrust_dir(*a.c[0, :2])-ref.thrust_dir(*g.c[0, :2]))) < 1e-5 + 1e4*law.tu[0], "first", "the direction commanded depends on the size of the thrust",
                      a=a.c[0], b=g.c[0], f=f)
            obs.check(abs(g.Q[0]*f*f - a.Q[0]) <= 1e-5*abs(a.Q[0]) + 1e4*law.tq[0], "first", "Q is not inversely proportional to the square of the thrust", a=a.Q[0], b=g.Q[0], f=f)
            obs.check(abs(g.dQ[0]*f - a.dQ[0]) <= 1e-5*abs(a.dQ[0]) + 1e4*law.tr[0], "first", "Q rate is not inversely proportional to the thrust", a=a.dQ[0], b=g.dQ[0], f=f)
    p = base["prob"]
    obs.count("pairs")
    for o in ops:
        obs.count("op:" + o)
    obs.count("combined", len(ops) > 1)
    obs.count("et:" + et)
    obs.count(flows.par(base, "integrator"))
    obs.count("sundman", bool(flows.par(base, "use_sundman")))
    obs.count("backward", p["t_step"] < 0)
    obs.count("battery", bool(p.get("battery_capacity")))
    obs.count("perturbed", bool(base.get("pert")))
    obs.count("thresholds", bool(base.get("eta_a")) or bool(base.get("eta_r")))
    obs.count("coasting", int((a.c[:k, 2] == 0).sum()))
