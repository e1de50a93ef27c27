"""C15: effectivity thresholds"""
import copy
import numpy as np
from .. import flows, shadow
from ..flows import rand_spec

ID = "C15"
N = dict(quick=700, thorough=40000)
REQUIRED = ["eta_coast", "eta_thrust", "coast_by_a_only", "coast_by_r_only", "eta_backward", "callback_calls", "checked:eta_a", "checked:eta_r",
            "const_equiv", "et:keplerian", "et:mee_with_a", "with_battery", "checked:always_thrust", "tiny_threshold"]
RULE = ("threshold-heavy random solves (constant and callable thresholds depending on time, state, mass and battery; grids of 2-40 points; both "
        "directions); effectivities recomputed with an independent law on the anomaly grid; non-trivial = at least one decided step")
ASSUMPTIONS = ["steps where best and worst rates coincide numerically are not compared"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=30, eta=True, backward=bool(rng.random() < 0.4), grid=int(rng.choice([2, 3, 4, 5, 8, 13, 20, 36])) if rng.random() < 0.7 else None)
    if not s.get("eta_a") and not s.get("eta_r"):
        s[str(rng.choice(["eta_a", "eta_r"]))] = float(rng.uniform(0.1, 0.9))
    if rng.random() < 0.1:
        s[str(rng.choice(["eta_a", "eta_r"]))] = 1e-6
        s["tiny"] = True
    s["equiv"] = bool(rng.random() < 0.3)
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.effectivity(case, fl, obs)
    obs.trivial = obs.counters["eta_steps"] == 0
    obs.count("et:" + shadow.et_of(case), obs.counters["eta_steps"])
    if case["prob"].get("battery_capacity"):
        obs.count("with_battery", fl.n)
    if case.get("tiny"):
        obs.count("tiny_threshold", fl.n)
    if case.get("equiv"):
        # a function returning a constant acts like that constant
        a, b = copy.deepcopy(case), copy.deepcopy(case)
        for nm in ("eta_a", "eta_r"):
            v = case.get(nm, 0.0)
            v = float(v["v"]) if isinstance(v, dict) else float(v)
            a[nm] = v
            b[nm] = dict(fn="const", v=v)
        fa, fb = flows.fly(a, obs=obs), flows.fly(b, obs=obs)
        d = flows.same_histories(fa, fb, 1e-12)
        obs.check(d is None, "const_callable", "constant-returning threshold function differs from the constant: %s" % d)
        obs.count("const_equiv")
