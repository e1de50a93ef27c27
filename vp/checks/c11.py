"""C11: propellant accounting"""
import copy, math
from .. import flows, shadow
from ..flows import rand_spec

ID = "C11"
N = dict(quick=800, thorough=45000)
REQUIRED = ["thrust_steps", "coast_steps", "depleted", "backward", "checked:accmass", "replayed_thrust", "battery", "rk4", "rkf45", "sundman", "exact_minimum", "limit_near_node", "empty_start", "empty_start_coasting"]
RULE = ("depletion-heavy random solves of all modes; conservation equation on every step, depletion stop, and thrust acceleration with the "
        "current mass re-derived from the motion; non-trivial = at least one thrusting step")
ASSUMPTIONS = ["the initial node itself is not tested against the minimum: a solve started at or below it may fly one step (as the code does)"]


def warm(tier):
    flows.warm_all()


def gen(rng, tier):
    s = rand_spec(rng, nsteps=45, deplete=bool(rng.random() < 0.5), tight=bool(rng.random() < 0.9))
    if rng.random() < 0.15:     # minimum mass hit exactly at a node
        s = flows.dyadic_grid(rand_spec(rng, nsteps=45, tight=True, backward=False, battery=False), rng)
        s["exact"] = True
    elif rng.random() < 0.2:      # large mass variation makes the acceleration follow the mass
        p = s["prob"]
        T = abs(p["tf_max"])
        p["mdot"] = 0.6*p["mass0"]/T
        p["mass_min"] = max(0.011, 0.3*p["mass0"])
    if rng.random() < 0.08:       # a tank that is empty before the first step
        p = s["prob"]
        p["mass_min"] = float(p["mass0"]*rng.choice([1.0, 1.0, 1.0000001, 1.3]))
        s["empty"] = True
    if rng.random() < 0.35:
        s["limit"] = [float(rng.random()), str(rng.choice(["at", "up", "down", "just_up", "just_down"])), float(rng.uniform(-12, -4))]
    return s


def run(case, obs):
    fl = flows.fly(case, obs=obs)
    shadow.mass(case, fl, obs)
    shadow.accel_uses_mass(case, fl, obs)
    if case.get("limit") and fl.n > 1 and case["prob"]["t_step"] > 0:
        # the same problem with its minimum mass placed at, one ulp from, or slightly off a recorded node
        u, how, x = case["limit"]
        m = float(fl.m[1 + int(u*(fl.n-1))])
        m = dict(at=m, up=math.nextafter(m, math.inf), down=math.nextafter(m, 0), just_up=m*(1+10**x), just_down=m*(1-10**x))[how]
        if 0.01 <= m < case["prob"]["mass0"]:
            s = copy.deepcopy(case)
            s["prob"]["mass_min"] = m
            f2 = flows.fly(s, obs=obs)
            shadow.mass(s, f2, obs)
            obs.count("limit_near_node")
    if case.get("empty") and fl.n:
        obs.count("empty_start")
        if fl.c[0, 2] == 0:
            obs.count("empty_start_coasting")
    if case.get("exact") and fl.m[-1] == flows.par(case, "mass_min"):
        obs.count("exact_minimum")
    obs.trivial = obs.counters["thrust_steps"] == 0
    if flows.par(case, "t_step") < 0:
        obs.count("backward", obs.counters["thrust_steps"])
    if case["prob"].get("battery_capacity"):
        obs.count("battery", fl.n)
    obs.count(flows.par(case, "integrator"), fl.n)
    if flows.par(case, "use_sundman"):
        obs.count("sundman", fl.n)
